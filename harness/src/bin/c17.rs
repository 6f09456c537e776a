//! C17: AABB operations against component-wise definitions.
use glam::{Mat4, Quat, Vec3};
use rtbvh::*;
use vh::{rng::*, run::*};

#[derive(Debug, Clone, Copy, PartialEq)]
struct M {
    lo: [f64; 3],
    hi: [f64; 3],
}

fn m_of<E: std::fmt::Debug + Copy>(b: &Aabb<E>) -> M {
    M { lo: b.min.to_array().map(f64::from), hi: b.max.to_array().map(f64::from) }
}
fn same_box<E: std::fmt::Debug + Copy>(b: &Aabb<E>, min: Vec3, max: Vec3) -> bool {
    b.min == min && b.max == max
}

fn pt(r: &mut Rng, s: f32) -> Vec3 {
    let v = r.vec3(-1.0, 1.0) * s;
    match r.below(6) {
        0 => v.round(),
        1 => Vec3::new(v.x, v.x, v.x),
        2 => {
            let mut v = v;
            v[r.below(3)] = if r.chance(0.5) { 0.0 } else { -0.0 };
            v
        }
        _ => v,
    }
}

fn bx(r: &mut Rng, s: f32) -> Aabb {
    let (a, b) = (pt(r, s), pt(r, s));
    let mut x = Aabb::empty();
    x.min = a.min(b);
    x.max = a.max(b);
    match r.below(6) {
        0 => x.max = x.min,
        1 => {
            let k = r.below(3);
            x.max[k] = x.min[k];
        }
        2 if r.chance(0.3) => x = Aabb::empty(),
        _ => {}
    }
    x.extra1 = r.u64() as i32;
    x.extra2 = r.u64() as i32;
    x
}

/// `b` contains [lo, hi] and exceeds it by at most `pad` plus rounding.
fn padded(b: &Aabb, lo: Vec3, hi: Vec3, pad: f32) -> Result<(), String> {
    for k in 0..3 {
        let mag = lo[k].abs().max(hi[k].abs()) as f64;
        let slack = pad as f64 * 1.01 + mag * 2e-7 + 1e-12;
        if b.min[k] > lo[k] || b.max[k] < hi[k] {
            return Err(format!("{b:?} does not contain {lo:?}..{hi:?}"));
        }
        if ((lo[k] - b.min[k]) as f64) > slack || ((b.max[k] - hi[k]) as f64) > slack {
            return Err(format!("{b:?} exceeds {lo:?}..{hi:?} by more than {pad}"));
        }
    }
    Ok(())
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

fn one(cx: &mut Ctx, r: &mut Rng) -> Result<bool, (&'static str, String)> {
    let s = r.pick(&[0.01f32, 1.0, 30.0, 1000.0, 9000.0]);
    let a = bx(r, s);
    let b = bx(r, s);
    let (x1, x2) = (a.extra1, a.extra2);
    let keeps = |op: &'static str, c: &Aabb| if (c.extra1, c.extra2) == (x1, x2) { Ok(()) } else { Err((op, format!("{op} changed the payload of {a:?} to {c:?}"))) };
    let n = r.range(0, 6);
    let pts: Vec<Vec3> = (0..n).map(|_| pt(r, s)).collect();
    let boxes: Vec<Aabb> = (0..n).map(|_| bx(r, s)).collect();

    // growing by points
    let mut g = a;
    let (mut lo, mut hi) = (a.min, a.max);
    for p in &pts {
        g.grow(*p);
        lo = lo.min(*p);
        hi = hi.max(*p);
    }
    keeps("grow", &g)?;
    if !same_box(&g, lo, hi) {
        return Err(("grow", format!("{a:?} grown by {pts:?} gives {g:?}")));
    }
    // by boxes, one by one and at once
    let (mut lo, mut hi) = (a.min, a.max);
    let mut g1 = a;
    for q in &boxes {
        g1.grow_bb(q);
        lo = lo.min(q.min);
        hi = hi.max(q.max);
    }
    let mut g2 = a;
    g2.grow_bbs(&boxes);
    keeps("grow_bb", &g1)?;
    keeps("grow_bbs", &g2)?;
    if !same_box(&g1, lo, hi) || !same_box(&g2, lo, hi) {
        return Err(("grow_bb", format!("{a:?} grown by {boxes:?} gives {g1:?} and {g2:?}")));
    }
    // union, intersection, shrink
    let u = a.union_of(&b);
    if !same_box(&u, a.min.min(b.min), a.max.max(b.max)) {
        return Err(("union", format!("{a:?} united with {b:?} gives {u:?}")));
    }
    let i = a.intersection(&b);
    let mut sh = a;
    sh.shrink(&b);
    keeps("shrink", &sh)?;
    if !same_box(&i, a.min.max(b.min), a.max.min(b.max)) || !same_box(&sh, i.min, i.max) {
        return Err(("intersection", format!("common part of {a:?} and {b:?}: {i:?}, shrink {sh:?}")));
    }
    // identities
    for e in [Aabb::empty(), Aabb::new(), Aabb::default()] {
        let (p, q) = (a.union_of(&e), e.union_of(&a));
        if !same_box(&p, a.min, a.max) || !same_box(&q, a.min, a.max) || e.is_valid() {
            return Err(("empty", format!("{a:?} united with the empty box gives {p:?} / {q:?}")));
        }
    }
    let f: Aabb = Aabb::full();
    let (p, q) = (a.intersection(&f), f.intersection(&a));
    if !same_box(&p, a.min, a.max) || !same_box(&q, a.min, a.max) || !f.is_valid() {
        return Err(("full", format!("{a:?} intersected with the full box gives {p:?} / {q:?}")));
    }
    // from points, list, macro
    if !pts.is_empty() {
        let lo = pts.iter().fold(Vec3::splat(f32::MAX), |m, p| m.min(*p));
        let hi = pts.iter().fold(Vec3::splat(f32::MIN), |m, p| m.max(*p));
        let fp = Aabb::from_points(&pts);
        padded(&fp, lo, hi, 1e-5).map_err(|e| ("from_points", e))?;
        let arr = [pts[0], pts[pts.len() - 1], pts[pts.len() / 2]];
        let fa: Aabb = Aabb::from(arr);
        let (lo, hi) = (arr[0].min(arr[1]).min(arr[2]), arr[0].max(arr[1]).max(arr[2]));
        padded(&fa, lo, hi, 1e-5).map_err(|e| ("from-array", e))?;
        let am: Aabb = aabb!(arr[0], arr[1], arr[2]);
        padded(&am, lo, hi, 1e-4).map_err(|e| ("aabb-macro", e))?;
        let valid: Vec<Aabb> = boxes.iter().copied().filter(|b| b.is_valid()).collect();
        if !valid.is_empty() {
            let lo = valid.iter().fold(Vec3::splat(f32::MAX), |m, p| m.min(p.min));
            let hi = valid.iter().fold(Vec3::splat(f32::MIN), |m, p| m.max(p.max));
            padded(&Aabb::union_of_list(&boxes), lo, hi, 1e-4).map_err(|e| ("union_of_list", e))?;
        }
    }
    // pairs
    let t: Aabb = Aabb::from((a.min, a.max));
    let back: (Vec3, Vec3) = a.into();
    if !same_box(&t, a.min, a.max) || back != (a.min, a.max) || a.points() != (a.min, a.max) || a[0] != a.min || a[1] != a.max || (&a)[0] != a.min || (&a)[1] != a.max {
        return Err(("pairs", format!("{a:?} as pair {back:?}, from pair {t:?}")));
    }
    let bo = a.bounds();
    let pa = Primitive::aabb(&a);
    if !same_box(&bo, a.min, a.max) || !same_box(&pa, a.min, a.max) {
        return Err(("bounds", format!("{a:?}: bounds {bo:?}, as primitive {pa:?}")));
    }
    keeps("bounds", &bo)?;
    // offsets
    let delta = r.pick(&[0.0f32, 1e-4, 0.5, 3.0]);
    let w = a.with_offset(delta);
    let mut o = a;
    o.offset_by(delta);
    keeps("with_offset", &w)?;
    keeps("offset_by", &o)?;
    if !same_box(&w, a.min - Vec3::splat(delta), a.max + Vec3::splat(delta)) || !same_box(&o, w.min, w.max) {
        return Err(("offset", format!("{a:?} offset by {delta}: {w:?} / {o:?}")));
    }
    if !a.is_valid() {
        return Ok(false);
    }
    // measures
    let m = m_of(&a);
    let e: [f64; 3] = [m.hi[0] - m.lo[0], m.hi[1] - m.lo[1], m.hi[2] - m.lo[2]];
    let mag = m.lo.iter().chain(m.hi.iter()).fold(1e-30f64, |x, y| x.max(y.abs()));
    let te = 3e-7 * mag;
    for k in 0..3 {
        let c = 0.5 * (m.lo[k] + m.hi[k]);
        if !close(a.lengths()[k] as f64, e[k], te) || !close(a.diagonal()[k] as f64, e[k], te) || !close(a.extend(k) as f64, e[k], te) {
            return Err(("extents", format!("{a:?}: extents {:?} {:?} {}, expected {e:?}", a.lengths(), a.diagonal(), a.extend(k))));
        }
        if !close(a.center()[k] as f64, c, te) || !close(Primitive::center(&a)[k] as f64, c, te) {
            return Err(("center", format!("{a:?}: centre {:?}", a.center())));
        }
    }
    let emax = e[0].max(e[1]).max(e[2]);
    let la = a.longest_axis();
    if la > 2 || e[la] < emax - 2.0 * te || !close(a.longest_extent() as f64, emax, 2.0 * te) {
        return Err(("longest_axis", format!("{a:?}: longest axis {la}, extent {}, extents {e:?}", a.longest_extent())));
    }
    let ha = e[0] * e[1] + e[0] * e[2] + e[1] * e[2];
    let ta = 4.0 * te * (e[0] + e[1] + e[2]) + 1e-6 * ha + te * te;
    if !close(a.half_area() as f64, ha, ta) || !close(a.area() as f64, ha, ta) || a.area() < 0.0 {
        return Err(("area", format!("{a:?}: area {}, half area {}, pairwise products {ha}", a.area(), a.half_area())));
    }
    let vol = e[0] * e[1] * e[2];
    if !close(a.volume() as f64, vol, 2.0 * te * (e[0] * e[1] + e[0] * e[2] + e[1] * e[2]) + 1e-6 * vol + te * te * (e[0] + e[1] + e[2]) + te * te * te) {
        return Err(("volume", format!("{a:?}: volume {}, expected {vol}", a.volume())));
    }
    // corners: every combination once
    let cs = a.all_corners();
    for mask in 0..8 {
        let want: [f64; 3] = [0, 1, 2].map(|k| if mask >> k & 1 == 1 { m.hi[k] } else { m.lo[k] });
        let found = cs.iter().any(|c| (0..3).all(|k| close(c[k] as f64, want[k], 2.0 * te)));
        if !found {
            return Err(("corners", format!("{a:?}: corner {want:?} is not among {cs:?}")));
        }
    }
    // containment
    for _ in 0..3 {
        let p = match r.below(4) {
            0 => pt(r, s),
            1 => {
                let mut p = a.center();
                let k = r.below(3);
                p[k] = r.pick(&[a.min[k], a.max[k]]);
                p
            }
            _ => a.min + (a.max - a.min) * r.vec3(0.0, 1.0),
        };
        let want = (0..3).all(|k| p[k] > a.min[k] && p[k] < a.max[k]);
        if a.contains(p) != want {
            return Err(("contains", format!("{a:?} contains {p:?}: {}", a.contains(p))));
        }
    }
    let mut bad = a;
    let k = r.below(3);
    std::mem::swap(&mut bad.min[k], &mut bad.max[k]);
    if bad.is_valid() != (a.min[k] == a.max[k]) || !a.is_valid() {
        return Err(("is_valid", format!("{bad:?} valid: {}", bad.is_valid())));
    }
    // transforms
    let mat = match r.below(6) {
        0 => Mat4::from_translation(pt(r, s)),
        1 => Mat4::from_quat(Quat::from_axis_angle(r.unit(), r.uni(-3.2, 3.2))),
        2 => Mat4::from_scale(r.vec3(-3.0, 3.0)),
        3 => Mat4::from_translation(pt(r, s)) * Mat4::from_quat(Quat::from_axis_angle(r.unit(), r.uni(-3.2, 3.2))) * Mat4::from_scale(r.vec3(0.2, 3.0)),
        4 => {
            // shear
            let mut c = [0f32; 16];
            for (i, x) in c.iter_mut().enumerate() {
                *x = if i % 5 == 0 { 1.0 } else { r.uni(-0.8, 0.8) };
            }
            c[3] = 0.0;
            c[7] = 0.0;
            c[11] = 0.0;
            c[15] = 1.0;
            Mat4::from_cols_array(&c)
        }
        _ => Mat4::IDENTITY,
    };
    let tb = a.transformed(mat);
    let mut ti = a;
    ti.transform(mat);
    if !same_box(&ti, tb.min, tb.max) {
        return Err(("transform", format!("{a:?} transformed in place {ti:?}, as copy {tb:?}")));
    }
    let c = mat.to_cols_array();
    let img = |p: [f64; 3]| -> [f64; 3] { [0, 1, 2].map(|k| c[k] as f64 * p[0] + c[4 + k] as f64 * p[1] + c[8 + k] as f64 * p[2] + c[12 + k] as f64) };
    let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
    for mask in 0..8 {
        let q = img([0, 1, 2].map(|k| if mask >> k & 1 == 1 { m.hi[k] } else { m.lo[k] }));
        for k in 0..3 {
            lo[k] = lo[k].min(q[k]);
            hi[k] = hi[k].max(q[k]);
        }
    }
    let norm = c.iter().take(12).fold(0f64, |x, y| x.max(y.abs() as f64)) * 3.0;
    let tt = 2e-6 * (norm * mag + c[12..15].iter().fold(0f64, |x, y| x.max(y.abs() as f64)));
    for k in 0..3 {
        let (l, h) = (tb.min[k] as f64, tb.max[k] as f64);
        if l > lo[k] + tt || h < hi[k] - tt {
            return Err(("transformed", format!("{a:?} transformed by {mat:?} gives {tb:?}, the image is {lo:?}..{hi:?}")));
        }
        if l < lo[k] - tt - 1.1e-5 || h > hi[k] + tt + 1.1e-5 {
            return Err(("transformed-loose", format!("{a:?} transformed by {mat:?} gives {tb:?}, the image is {lo:?}..{hi:?}")));
        }
    }
    cx.count("transforms", 1);
    // other payload types
    let mut gx = Aabb::<[u8; 3]> { min: a.min, extra1: [1, 2, 3], max: a.max, extra2: [4, 5, 6] };
    let gp = pt(r, s);
    gx.grow(gp);
    gx.grow_bb(&Aabb::<[u8; 3]> { min: a.min, extra1: [9; 3], max: a.max, extra2: [9; 3] });
    gx.offset_by(0.0);
    gx.shrink(&Aabb { min: Vec3::splat(-1e30), extra1: [7; 3], max: Vec3::splat(1e30), extra2: [7; 3] });
    if gx.extra1 != [1, 2, 3] || gx.extra2 != [4, 5, 6] || !same_box(&gx, a.min.min(gp), a.max.max(gp)) {
        return Err(("payload-type", format!("{gx:?} from {a:?} and {gp:?}")));
    }
    Ok(true)
}

fn main() {
    run("C17", 400, 4000, |cx| {
        let mut r = cx.rng();
        for k in 0..200u64 {
            let before = r.0;
            match one(cx, &mut r) {
                Ok(nt) => {
                    cx.count("algebra_rounds", 1);
                    cx.eval(mix(before ^ k), nt)
                }
                Err((sig, msg)) => {
                    cx.fail(sig, msg);
                    return;
                }
            }
        }
        let idx = cx.idx;
        let mut q = cx.rng();
        cx.sample(|| format!("case {idx}: 200 rounds of box operations, starting with {:?}", bx(&mut q, 1.0)));
    });
}
