//! C23: every way of making a ray or packet gives the same ray.
use glam::{Vec3, Vec4};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*};

fn bits(v: Vec3) -> [u32; 3] {
    v.to_array().map(f32::to_bits)
}

fn dir(r: &mut Rng) -> Vec3 {
    let mut d = match r.below(5) {
        0 => axis_dir(r),
        1 => {
            // any component may be a signed zero, the others anything
            let mut d = r.unit();
            d[r.below(3)] = r.pick(&[0.0f32, -0.0]);
            d
        }
        _ => r.unit(),
    };
    d *= r.pick(&[1.0f32, 1.0, 0.01, 30.0]);
    d
}

struct World {
    b: Bvh,
    m: Mbvh,
    tris: Vec<Tri>,
    boxes: Vec<Aabb>,
}

/// Do two rays behave the same in every test, starting from the same limits?
fn behave(w: &World, a: &Ray, b: &Ray, trav: bool) -> Result<(), String> {
    let (mut a, mut b) = (*a, *b);
    b.t = a.t;
    b.t_min = a.t_min;
    for x in &w.boxes {
        let (p, q) = (x.intersect(&a).map(f32::to_bits), x.intersect(&b).map(f32::to_bits));
        if p != q || x.intersects(&a) != x.intersects(&b) {
            return Err(format!("box {:?}..{:?}: {p:?} and {q:?}", x.min, x.max));
        }
    }
    if trav {
        let lim = w.tris.len() * 2 + 10;
        let (mut a1, mut b1) = (a, b);
        let p: Vec<u32> = w.b.traverse_iter_indices(&mut a1).take(lim).map(|x| x.0).collect();
        let q: Vec<u32> = w.b.traverse_iter_indices(&mut b1).take(lim).map(|x| x.0).collect();
        if p != q {
            return Err(format!("traversal yields {} and {} primitives", p.len(), q.len()));
        }
        let p: Vec<u32> = w.m.traverse_iter_indices(&mut a1).take(lim).map(|x| x.0).collect();
        let q: Vec<u32> = w.m.traverse_iter_indices(&mut b1).take(lim).map(|x| x.0).collect();
        if p != q {
            return Err(format!("quad traversal yields {} and {} primitives", p.len(), q.len()));
        }
    }
    for t in w.tris.iter().take(40) {
        let (p, q) = (t.intersect(&mut a), t.intersect(&mut b));
        if p != q || a.t.to_bits() != b.t.to_bits() {
            return Err(format!("triangle {t:?}: {p} at {} and {q} at {}", a.t, b.t));
        }
    }
    Ok(())
}

fn fresh(w: &World, name: &str, x: &Ray, o: Vec3, d: Vec3, t: f32, trav: bool) -> Result<(), (String, String)> {
    let err = |k: &str, m: String| Err((format!("{name}:{k}"), format!("{name} of {o:?} {d:?}: {m}")));
    if bits(x.origin) != bits(o) || bits(x.direction) != bits(d) {
        return err("vectors", format!("has origin {:?}, direction {:?}", x.origin, x.direction));
    }
    if x.t_min != 1e-4 || x.t.to_bits() != t.to_bits() || Ray::DEFAULT_T_MIN != 1e-4 || Ray::DEFAULT_T_MAX != 1e34 {
        return err("range", format!("has range {}..{}", x.t_min, x.t));
    }
    if let Err(e) = behave(w, x, &Ray::new(o, d), trav) {
        return err("behaviour", format!("differs from Ray::new: {e}"));
    }
    Ok(())
}

fn round(cx: &mut Ctx, r: &mut Rng, w: &World, trav: bool) -> Result<(), (String, String)> {
    let target = w.tris[r.below(w.tris.len())];
    let mut os = [Vec3::ZERO; 4];
    let mut ds = [Vec3::ZERO; 4];
    for l in 0..4 {
        ds[l] = dir(r);
        let p = inner_point(r, &target);
        os[l] = if r.chance(0.7) { p - ds[l] * r.uni(0.5, 3.0) } else { r.vec3(-10.0, 10.0) };
    }
    let (o, d) = (os[0], ds[0]);
    let a = Ray::new(o, d);
    // against f64 geometry, so that a mistake common to all ways is seen as well
    for x in w.boxes.iter() {
        let v = box_verdict(x.min, x.max, &R64::new(o, d));
        if let Some(pass) = v.pass {
            let want = pass && v.exit > 1e-4 + v.tol;
            let not = !pass || v.exit < 1e-4 - v.tol;
            let got = x.intersect(&a).is_some();
            if (want && !got) || (not && got) {
                return Err(("new:box".into(), format!("Ray::new({o:?}, {d:?}) hits {:?}..{:?}: {got}, f64 {v:?}", x.min, x.max)));
            }
            cx.count("box_oracle", 1);
        }
    }
    fresh(w, "new", &a, o, d, 1e34, trav)?;
    let b = Ray::from((o, d));
    fresh(w, "from-pair", &b, o, d, 1e34, trav)?;
    let back: (Vec3, Vec3) = a.into();
    if bits(back.0) != bits(o) || bits(back.1) != bits(d) {
        return Err(("into-pair".into(), format!("{o:?} {d:?} comes back as {back:?}")));
    }
    // packets
    let e = |v: Vec3, x: f32| Vec4::new(v.x, v.y, v.z, x);
    let junk = r.uni(-5.0, 5.0);
    let p = RayPacket4::new([e(os[0], junk), e(os[1], 1.0), e(os[2], junk), e(os[3], 0.0)], [e(ds[0], 0.0), e(ds[1], junk), e(ds[2], 1.0), e(ds[3], junk)]);
    let (px, py, pz) = p.origin_xyz();
    let (qx, qy, qz) = p.direction_xyz();
    let mut p2 = p;
    let lim = Vec4::new(r.uni(0.1, 50.0), 1e34, r.uni(0.1, 50.0), r.uni(1e32, 2e33));
    p2.t = lim;
    for l in 0..4 {
        if bits(Vec3::new(px[l], py[l], pz[l])) != bits(os[l]) || bits(Vec3::new(qx[l], qy[l], qz[l])) != bits(ds[l]) || p.t()[l] != 1e34 {
            return Err(("packet:lane".into(), format!("lane {l} of {os:?} {ds:?} holds {:?} {:?} limit {}", [px[l], py[l], pz[l]], [qx[l], qy[l], qz[l]], p.t()[l])));
        }
        let inv = Vec3::new(p.inv_direction_x[l], p.inv_direction_y[l], p.inv_direction_z[l]);
        for k in 0..3 {
            let want = 1.0 / ds[l][k];
            if !(inv[k] == want || ((inv[k] - want) / want).abs() < 1e-6) {
                return Err(("packet:inverse".into(), format!("lane {l} of {ds:?} has inverse direction {inv:?}")));
            }
        }
        fresh(w, "packet-lane", &p.ray(l), os[l], ds[l], 1e34, trav)?;
        let x = p2.ray(l);
        if x.t.to_bits() != lim[l].to_bits() || p2.t()[l].to_bits() != lim[l].to_bits() {
            return Err(("packet-lane:limit".into(), format!("lane {l} with limit {} extracted with {}", lim[l], x.t)));
        }
        let mut n = Ray::new(os[l], ds[l]);
        n.t = lim[l];
        if let Err(e) = behave(w, &x, &n, trav) {
            return Err(("packet-lane:behaviour".into(), format!("lane {l} of {os:?} {ds:?} with limit {} differs: {e}", lim[l])));
        }
    }
    let mut p3 = p2;
    p3.reset();
    let same = |a: &RayPacket4, b: &RayPacket4| {
        let f = |p: &RayPacket4| [p.origin_x, p.origin_y, p.origin_z, p.direction_x, p.direction_y, p.direction_z, p.inv_direction_x, p.inv_direction_y, p.inv_direction_z].map(|v| v.to_array().map(f32::to_bits));
        f(a) == f(b)
    };
    if p3.t != Vec4::splat(1e34) || !same(&p3, &p) || !same(&p2, &p) {
        return Err(("packet:reset".into(), format!("{p2:?} reset to {p3:?}")));
    }
    // reset of a ray
    let mut x = a;
    x.t = r.uni(0.0, 9.0);
    x.t_min = 0.25;
    x.reset();
    if x.t != 1e34 || x.t_min != 0.25 || bits(x.origin) != bits(o) || bits(x.direction) != bits(d) {
        return Err(("reset".into(), format!("{x:?} after reset")));
    }
    x.t_min = 1e-4;
    if let Err(e) = behave(w, &x, &a, false) {
        return Err(("reset:behaviour".into(), format!("{o:?} {d:?}: {e}")));
    }
    // has it hit?
    for t in [1e34f32, 1e33, 0.999e33, 1.001e33, 5.0, 0.0, -1.0, f32::MAX] {
        x.t = t;
        if x.is_valid() != (t < 1e33) {
            return Err(("is_valid".into(), format!("limit {t}: {}", x.is_valid())));
        }
    }
    // points along it
    let t = r.uni(-3.0, 20.0);
    let q = a.get_point_at(t);
    for k in 0..3 {
        let want = o[k] as f64 + t as f64 * d[k] as f64;
        if (q[k] as f64 - want).abs() > 1e-6 * (o[k].abs() as f64 + (t * d[k]).abs() as f64) + 1e-12 {
            return Err(("point".into(), format!("{o:?} {d:?} at {t}: {q:?}")));
        }
    }
    // reflection
    let n = if r.chance(0.3) { axis_dir(r).normalize() } else { r.unit() };
    let hp = r.vec3(-10.0, 10.0);
    let eps = r.pick(&[0.0f32, 1e-4, 0.1, -0.05]);
    let f = a.reflect(hp, n, eps);
    let dn = (0..3).map(|k| d[k] as f64 * n[k] as f64).sum::<f64>();
    for k in 0..3 {
        let want = d[k] as f64 - 2.0 * dn * n[k] as f64;
        let wo = hp[k] as f64 + want * eps as f64;
        if (f.direction[k] as f64 - want).abs() > 2e-6 * d.length() as f64 || (f.origin[k] as f64 - wo).abs() > 4e-6 * (hp[k].abs() + d.length()) as f64 {
            return Err(("reflect:vectors".into(), format!("{o:?} {d:?} at {hp:?} normal {n:?} epsilon {eps}: {:?} {:?}", f.origin, f.direction)));
        }
    }
    fresh(w, "reflect", &f, f.origin, f.direction, 1e34, trav)?;
    Ok(())
}

fn main() {
    run("C23", 200, 2000, |cx| {
        let mut r = cx.rng();
        let n = r.range(5, 120);
        let sk = r.below(N_KINDS);
        let sc = tri_scene(&mut r, sk, n);
        let name = sc.name.clone();
        let tris = sc.tris;
        let Ok(b) = build_tri(Kind::Binned, &tris, None, None) else {
            cx.fail("build", name);
            return;
        };
        let m = Mbvh::construct(&b);
        let mut boxes: Vec<Aabb> = tris.iter().take(12).map(|t| t.exact_aabb()).collect();
        for _ in 0..12 {
            let c = r.vec3(-10.0, 10.0);
            let e = r.vec3(0.1, 6.0);
            boxes.push(mk_aabb(c - e, c + e));
        }
        let w = World { b, m, tris, boxes };
        for k in 0..40u64 {
            if let Err((sig, msg)) = round(cx, &mut r, &w, k % 2 == 0) {
                cx.fail(sig, format!("{name}: {msg}"));
                return;
            }
            cx.count("ray_sets", 1);
            cx.eval(mix(cx.seed ^ cx.idx << 16 ^ k), true);
        }
        cx.sample(|| format!("{name}: 40 sets of four rays against 24 boxes, {} triangles, both trees", w.tris.len()));
    });
}
