//! C13: NaN rays and empty structures yield nothing.
use glam::Vec3;
use rtbvh::*;
use vh::{fronts::*, rays::*, rng::*, run::*, scene::*};

fn nan(r: &mut Rng) -> f32 {
    r.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(0xff80_0001), f32::from_bits(0x7fff_ffff), f32::from_bits(0x7fc0_1234)])
}

/// No front end may yield anything.
fn silent(cx: &mut Ctx, what: &str, desc: &str, ends: Vec<(&'static str, bool, R)>, prim_only: bool) -> bool {
    for (name, prim, r) in ends {
        if prim_only && !prim {
            continue;
        }
        match r {
            Ok(v) if v.is_empty() => cx.count("silent_front_ends", 1),
            Ok(v) => {
                cx.fail(format!("{name}:{what}"), format!("{desc}: {name} yields {} items", v.len()));
                return false;
            }
            Err(e) => {
                cx.fail(format!("{name}:{what}"), format!("{desc}: {name}: {e}"));
                return false;
            }
        }
    }
    true
}

fn check_empty(cx: &mut Ctx, name: &str, bb: Aabb, r: &mut Rng) {
    let e = Aabb::empty();
    let same = |a: &Aabb, b: &Aabb| a.min == b.min && a.max == b.max;
    if !same(&bb, &e) || bb.is_valid() {
        cx.fail("bounds", format!("bounds of {name} are {bb:?}"));
        return;
    }
    let a = r.vec3(-5.0, 5.0);
    let b = mk_aabb(a, a + r.vec3(0.0, 3.0));
    let mut u = bb;
    u.grow_bb(&b);
    if !same(&u, &b) {
        cx.fail("bounds", format!("bounds of {name} united with {b:?} give {u:?}"));
    }
}

fn main() {
    run("C13", 240, 2400, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let mut case = std_case(&mut r, idx, 600);
        if idx % 7 == 0 {
            let n = r.range(1, 4);
            case.scene.tris.truncate(n);
            case.aabbs = None;
        }
        let tris = case.scene.tris.clone();
        let b = match case.build() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{}: {e}", case.desc));
                return;
            }
        };
        let m = Mbvh::construct(&b);
        let (lo, hi) = case.scene.bounds();
        let spec = |r: &mut Rng| {
            let tg = inner_point(r, &tris[r.clone().below(tris.len())]);
            gen_ray(r, lo, hi, Some(tg))
        };
        // single rays: every component, alone and combined
        for k in 0..12 {
            let s = spec(&mut r);
            let mask = if k < 6 { 1u32 << k } else { 1 + r.below(63) as u32 };
            let poke = |r: &mut Rng, o: &mut Vec3, d: &mut Vec3| {
                for c in 0..3 {
                    if mask >> c & 1 == 1 {
                        o[c] = nan(r);
                    }
                    if mask >> (c + 3) & 1 == 1 {
                        d[c] = nan(r);
                    }
                }
            };
            for late in [false, true] {
                let ray = if late {
                    // made NaN after construction: reciprocals and signs are stale
                    let mut ray = s.ray();
                    let (mut o, mut d) = (ray.origin, ray.direction);
                    {
                        let mut oo = Vec3::new(o.x, o.y, o.z);
                        let mut dd = Vec3::new(d.x, d.y, d.z);
                        poke(&mut r, &mut oo, &mut dd);
                        for c in 0..3 {
                            o[c] = oo[c];
                            d[c] = dd[c];
                        }
                    }
                    ray.origin = o;
                    ray.direction = d;
                    ray
                } else {
                    let (mut o, mut d) = (s.o, s.d);
                    poke(&mut r, &mut o, &mut d);
                    RaySpec { o, d, ..s }.ray()
                };
                for quad in [false, true] {
                    let desc = format!("{}: components {mask:06b} of {s:?} are NaN", case.desc);
                    if !silent(cx, "nan", &desc, ends_ray(&b, &m, &ray, &tris, quad), false) {
                        return;
                    }
                }
                cx.count("nan_rays", 1);
            }
            cx.seen("nan_masks", mask as u64);
            cx.eval(mix(case.hash() ^ (mask as u64) << 30 ^ k), true);
        }
        // packets: one of 24 components, or several
        for k in 0..16u64 {
            let sp = [spec(&mut r), spec(&mut r), spec(&mut r), spec(&mut r)];
            let mut p = packet_of(&sp);
            let late = r.chance(0.5);
            let mut pos = vec![((idx * 16 + k) % 24) as usize];
            if r.chance(0.3) {
                pos.push(r.below(24));
            }
            for &q in &pos {
                let lane = q % 4;
                let x = nan(&mut r);
                match q / 4 {
                    0 => p.origin_x[lane] = x,
                    1 => p.origin_y[lane] = x,
                    2 => p.origin_z[lane] = x,
                    3 => p.direction_x[lane] = x,
                    4 => p.direction_y[lane] = x,
                    _ => p.direction_z[lane] = x,
                }
                cx.seen("nan_packet_positions", q as u64);
            }
            if !late {
                let (ox, oy, oz) = (p.origin_x, p.origin_y, p.origin_z);
                let (dx, dy, dz) = (p.direction_x, p.direction_y, p.direction_z);
                let v = |i: usize| glam::Vec4::new(ox[i], oy[i], oz[i], 0.0);
                let w = |i: usize| glam::Vec4::new(dx[i], dy[i], dz[i], 0.0);
                p = RayPacket4::new([v(0), v(1), v(2), v(3)], [w(0), w(1), w(2), w(3)]);
            }
            for quad in [false, true] {
                let desc = format!("{}: packet positions {pos:?} are NaN (late={late})", case.desc);
                if !silent(cx, "nan", &desc, ends_packet(&b, &m, &p, &tris, quad), false) {
                    return;
                }
            }
            cx.count("nan_packets", 1);
            cx.eval(mix(case.hash() ^ k << 40 ^ pos[0] as u64), true);
        }
        // the same structure does yield for the same kind of finite rays
        let mut live = 0;
        for _ in 0..6 {
            let s = spec(&mut r);
            for (_, _, e) in ends(&b, &m, &s, &tris, false) {
                live += e.map(|v| v.len()).unwrap_or(0);
            }
        }
        cx.count("yields_of_finite_rays", live as u64);
        // empty structures, from everywhere
        let eb = Bvh::default();
        let empties = [Mbvh::default(), Mbvh::construct(&eb), Mbvh::from(eb.clone()), Bvh::default().into()];
        for (i, em) in empties.iter().enumerate() {
            let s = spec(&mut r);
            let sp = [s, spec(&mut r), s, spec(&mut r)];
            for prims in [&tris[..], &[]] {
                for quad in [false, true] {
                    let desc = format!("empty structure {i}, {} primitives", prims.len());
                    if !silent(cx, "empty", &desc, ends(&eb, em, &s, prims, quad), false) || !silent(cx, "empty", &desc, ends4(&eb, em, &sp, prims, quad), false) {
                        return;
                    }
                }
            }
            if !em.nodes().is_empty() || em.prim_count() != 0 || !em.indices().is_empty() || em.quad_nodes().iter().any(|q| q.counts.iter().any(|c| *c > 0)) {
                cx.fail("empty-quad", format!("quad BVH {i} of an empty BVH is not empty"));
                return;
            }
            check_empty(cx, &format!("empty quad BVH {i}"), em.bounds(), &mut r);
        }
        check_empty(cx, "empty BVH", eb.bounds(), &mut r);
        if !eb.validate(0) || eb.prim_count() != 0 || !eb.nodes().is_empty() || eb.build_type() != BuildType::None {
            cx.fail("empty-bvh", "the default BVH is not a valid empty structure");
            return;
        }
        // no primitives to yield
        let s = spec(&mut r);
        let sp = [s, spec(&mut r), s, spec(&mut r)];
        for quad in [false, true] {
            let desc = format!("{}: empty primitive slice", case.desc);
            if !silent(cx, "no-primitives", &desc, ends(&b, &m, &s, &[], quad), true) || !silent(cx, "no-primitives", &desc, ends4(&b, &m, &sp, &[], quad), true) {
                return;
            }
        }
        cx.count("empty_structure_rounds", 1);
        // slices without nodes but with indices
        let mut ray = s.ray();
        let mut pk = packet_of(&sp);
        let some = b.indices();
        let n = BvhIterator::from_slices(&mut ray, &[], some, &tris).count()
            + BvhIndexIterator::from_slices(&mut ray, &[], some).count()
            + MbvhIterator::from_slices(&mut ray, &[], some, &tris).count()
            + MbvhIndexIterator::from_slices(&mut ray, &[], some).count()
            + BvhPacketIterator::from_slices(&mut pk, &[], some, &tris).count()
            + BvhPacketIndexIterator::from_slices(&mut pk, &[], some).count()
            + MbvhPacketIterator::from_slices(&mut pk, &[], some, &tris).count()
            + MbvhPacketIndexIterator::from_slices(&mut pk, &[], some).count();
        if n != 0 {
            cx.fail("empty-slices", format!("traversals without nodes yield {n} items"));
        }
        // refitting nothing
        let mut eb2 = eb.clone();
        eb2.refit(&[]);
        if !eb2.nodes().is_empty() {
            cx.fail("empty-refit", "refitting an empty BVH made nodes");
        }
        cx.sample(|| case.desc.clone());
    });
}
