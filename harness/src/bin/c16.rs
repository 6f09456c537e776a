//! C16: box tests of single rays and packets, and the lanes of quad nodes.
use glam::{Vec3, Vec4};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*};

fn gen_box(r: &mut Rng) -> (Aabb, f32) {
    let place = r.pick(&[0.0f32, 1.0, 10.0, 1000.0]);
    let size = r.pick(&[0.01f32, 0.3, 1.0, 10.0, 500.0]);
    let c = r.vec3(-1.0, 1.0) * place;
    let mut e = r.vec3(0.05, 1.0) * size;
    match r.below(8) {
        0 => e[r.below(3)] = 0.0,
        1 => {
            let k = r.below(3);
            e[k] = 0.0;
            e[(k + 1) % 3] = 0.0;
        }
        2 => e = Vec3::splat(size),
        3 => e[r.below(3)] *= 1e-3,
        _ => {}
    }
    let mut b = mk_aabb(c - e, c + e);
    if r.chance(0.2) {
        b.min = b.min.round();
        b.max = b.max.round();
    }
    (b, size)
}

fn gen(r: &mut Rng, b: &Aabb, size: f32) -> RaySpec {
    // aim into, near the surface of, or beside the box
    let mut f = r.vec3(0.02, 0.98);
    match r.below(5) {
        0 => f[r.below(3)] = r.pick(&[-0.02f32, 1.02, 0.02, 0.98, -0.5, 1.5]),
        1 => f = r.vec3(-0.6, 1.6),
        _ => {}
    }
    let mut p = b.min + (b.max - b.min) * f;
    if r.chance(0.1) {
        p += r.unit() * size * 0.5;
    }
    let (mut s, _) = ray_at(r, p, size);
    match r.below(6) {
        0 => s.o = p, // starts inside
        1 => {
            let k = r.below(3);
            s.d[k] *= r.pick(&[1e-4f32, 1e-7, 1e-12]);
        }
        _ => {}
    }
    s
}

/// what a single-ray test must say about leaving the box beyond `tmin`
fn leaves(v: &BoxVerdict, tmin: f64) -> Option<bool> {
    match v.pass {
        Some(false) => Some(false),
        p => {
            if v.exit < tmin - v.tol {
                Some(false)
            } else if p == Some(true) && v.exit > tmin + v.tol {
                Some(true)
            } else {
                None
            }
        }
    }
}

/// ... and a packet lane: entered before `lim`, in front of the origin unless `behind_too`
fn enters(v: &BoxVerdict, lim: f64, behind_too: bool) -> Option<bool> {
    match v.pass {
        Some(false) => Some(false),
        p => {
            if (!behind_too && v.exit < -v.tol) || v.entry > lim + v.tol {
                Some(false)
            } else if p == Some(true) && v.exit > v.tol && v.entry < lim - v.tol {
                Some(true)
            } else {
                None
            }
        }
    }
}

fn main() {
    run("C16", 400, 4000, |cx| {
        let mut r = cx.rng();
        for k in 0..300u64 {
            let (b, size) = gen_box(&mut r);
            let mut specs = [RaySpec { o: Vec3::ZERO, d: Vec3::X, t: 1e34, tmin: 1e-4 }; 4];
            for s in specs.iter_mut() {
                *s = gen(&mut r, &b, size);
            }
            if !specs.iter().all(|s| s.o.is_finite() && s.d.is_finite() && s.d.abs().max_element() > 1e-3) {
                continue;
            }
            let node = {
                let mut n = BvhNode::new();
                n.bounds.min = b.min;
                n.bounds.max = b.max;
                n
            };
            let mut clear = 0;
            let vs: Vec<BoxVerdict> = specs.iter().map(|s| box_verdict(b.min, b.max, &s.r64())).collect();
            for l in 0..4 {
                let (s, v) = (&specs[l], &vs[l]);
                let ray = s.ray();
                let got = b.intersect(&ray);
                cx.count("ray_box_tests", 1);
                let what = || format!("{:?}..{:?} {s:?}: intersect {got:?}, f64 {v:?}", b.min, b.max);
                if got.map(f32::to_bits) != node.intersect(&ray).map(f32::to_bits) {
                    cx.fail("node-differs", what());
                    return;
                }
                match leaves(v, s.tmin as f64) {
                    Some(w) => {
                        clear += 1;
                        cx.count(if w { "clear_hits" } else { "clear_misses" }, 1);
                        if w != got.is_some() {
                            cx.fail(if w { "missed" } else { "false-hit" }, what());
                            return;
                        }
                        if let (true, Some(x)) = (w, got) {
                            if (x as f64 - v.exit).abs() > v.tol {
                                cx.fail("exit-distance", what());
                                return;
                            }
                        }
                    }
                    None => cx.count("unclear", 1),
                }
                let any = b.intersects(&ray);
                if let Some(w) = leaves(v, 0.0) {
                    if w != any {
                        cx.fail(if w { "intersects:missed" } else { "intersects:false-hit" }, format!("intersects {any}: {}", what()));
                        return;
                    }
                }
            }
            // four lanes at once; often all of them clear
            let p = packet_of(&specs);
            let got = b.intersect4(&p);
            let lanes: Vec<Option<bool>> = (0..4).map(|l| enters(&vs[l], specs[l].t as f64, false)).collect();
            cx.count("packet_box_tests", 1);
            let what = || format!("{:?}..{:?} {specs:?}: intersect4 {got:?}, f64 {vs:?}", b.min, b.max);
            if got.is_some() != node.intersect4(&p).is_some() {
                cx.fail("node4-differs", what());
                return;
            }
            if lanes.contains(&Some(true)) && got.is_none() {
                cx.fail("packet:missed", what());
                return;
            }
            if lanes.iter().all(|l| *l == Some(false)) && got.is_some() {
                cx.fail("packet:false-hit", what());
                return;
            }
            if let Some(e) = got {
                for l in 0..4 {
                    if lanes[l] == Some(true) && (e[l] as f64 - vs[l].entry).abs() > vs[l].tol {
                        cx.fail("packet:entry-distance", format!("lane {l}: {}", what()));
                        return;
                    }
                }
            }
            // one quad node whose lanes are four boxes near this one
            let mut boxes = [b; 4];
            for x in boxes.iter_mut().skip(1) {
                *x = if r.chance(0.6) {
                    let o = r.unit() * size * r.uni(0.0, 2.0);
                    mk_aabb(b.min + o, b.max + o)
                } else {
                    gen_box(&mut r).0
                };
            }
            r.shuffle(&mut boxes);
            let mut q = MbvhNode::new();
            let used = r.range(1, 4);
            let idx: Vec<u32> = (0..used as u32).collect();
            for (i, x) in boxes.iter().enumerate().take(used) {
                if r.chance(0.5) {
                    q.set_bounds_bb(i, x);
                } else {
                    q.set_bounds(i, &x.min.to_array(), &x.max.to_array());
                }
                q.children[i] = i as i32;
                q.counts[i] = 1;
            }
            let quads = [q];
            for l in 0..4 {
                let s = &specs[l];
                let mut ray = s.ray();
                let got: Vec<u32> = MbvhIndexIterator::from_slices(&mut ray, &quads, &idx).take(64).map(|x| x.0).collect();
                for i in 0..4u32 {
                    let n = got.iter().filter(|x| **x == i).count();
                    let v = box_verdict(boxes[i as usize].min, boxes[i as usize].max, &s.r64());
                    let want = if i as usize >= used { Some(false) } else { enters(&v, s.t as f64, true) };
                    cx.count("quad_lane_tests", 1);
                    if n > 1 || want.map_or(false, |w| w != (n == 1)) {
                        cx.fail("quad-lane", format!("quad node of {boxes:?} ({used} used), {s:?}: yields {got:?}; f64 for lane {i}: {v:?}"));
                        return;
                    }
                }
            }
            let mut p = packet_of(&specs);
            let got: Vec<u32> = MbvhPacketIndexIterator::from_slices(&mut p, &quads, &idx).take(64).map(|x| x.0).collect();
            for i in 0..4u32 {
                let n = got.iter().filter(|x| **x == i).count();
                let w: Vec<Option<bool>> = specs
                    .iter()
                    .map(|s| if i as usize >= used { Some(false) } else { enters(&box_verdict(boxes[i as usize].min, boxes[i as usize].max, &s.r64()), s.t as f64, true) })
                    .collect();
                let want = if w.contains(&Some(true)) {
                    Some(true)
                } else if w.iter().all(|x| *x == Some(false)) {
                    Some(false)
                } else {
                    None
                };
                if n > 1 || want.map_or(false, |w| w != (n == 1)) {
                    cx.fail("quad-packet-lane", format!("quad node of {boxes:?} ({used} used), {specs:?}: yields {got:?}; f64 for lane {i}: {w:?}"));
                    return;
                }
            }
            // accessors report what was set
            let (a, bx) = (quads[0].points(), (quads[0].min_points(), quads[0].max_points()));
            let same = |u: Vec4, f: &dyn Fn(&Aabb) -> f32| (0..used).all(|i| u[i].to_bits() == f(&boxes[i]).to_bits());
            if !(same(a.0, &|x| x.min.x) && same(a.1, &|x| x.max.x) && same(a.2, &|x| x.min.y) && same(a.3, &|x| x.max.y) && same(a.4, &|x| x.min.z) && same(a.5, &|x| x.max.z))
                || bx.0 != (a.0, a.2, a.4)
                || bx.1 != (a.1, a.3, a.5)
            {
                cx.fail("quad-points", format!("{boxes:?} read back as {a:?}"));
                return;
            }
            cx.eval(mix(cx.seed ^ cx.idx << 16 ^ k), clear >= 2);
            if k == 0 {
                cx.sample(|| format!("{b:?} {specs:?}"));
            }
        }
    });
}
