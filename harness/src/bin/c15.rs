//! C15: the packet triangle test against four single-ray tests and f64 geometry.
use glam::Vec4;
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*};

fn bits(p: &RayPacket4, with_t: bool) -> Vec<u32> {
    let mut v = vec![];
    for q in [p.origin_x, p.origin_y, p.origin_z, p.direction_x, p.direction_y, p.direction_z, p.inv_direction_x, p.inv_direction_y, p.inv_direction_z] {
        for l in 0..4 {
            v.push(q[l].to_bits());
        }
    }
    if with_t {
        for l in 0..4 {
            v.push(p.t[l].to_bits());
        }
    }
    v
}

fn main() {
    run("C15", 400, 4000, |cx| {
        let mut r = cx.rng();
        for k in 0..500u64 {
            let (t, size) = gen_tri(&mut r);
            let base = plane_point(&mut r, &t);
            let mode = r.below(4);
            let mut specs = [ray_at(&mut r, base, size).0; 4];
            for l in 0..4 {
                let p = plane_point(&mut r, &t);
                let q = ray_at(&mut r, p, size).0;
                match mode {
                    0 => {
                        // coherent: same direction, shifted origins
                        specs[l].o = specs[0].o + (p - base);
                    }
                    1 => {
                        // one lane aimed, the others anywhere
                        specs[l] = q;
                        if l != (k % 4) as usize {
                            specs[l].o += r.unit() * size * 5.0;
                        }
                    }
                    _ => specs[l] = q,
                }
                if r.chance(0.02) {
                    specs[l].d = glam::Vec3::ZERO; // an unused lane
                }
            }
            if !specs.iter().all(|s| s.o.is_finite() && s.d.is_finite()) {
                continue;
            }
            let before = packet_of(&specs);
            let tmin = Vec4::new(specs[0].tmin, specs[1].tmin, specs[2].tmin, specs[3].tmin);
            let mut p = before;
            let got = t.intersect4(&mut p, tmin);
            cx.count("packets", 1);
            if bits(&p, false) != bits(&before, false) {
                cx.fail("rays-changed", format!("{t:?} {specs:?}: origins or directions changed"));
                return;
            }
            let hits = got.unwrap_or([false; 4]);
            if got.is_some() && !hits.iter().any(|h| *h) {
                cx.fail("empty-hit", format!("{t:?} {specs:?}: a hit without a hit lane was reported"));
                return;
            }
            if hits.iter().any(|h| *h) {
                // hits at exactly the limit are not below it
                let mut q = p;
                let again = t.intersect4(&mut q, tmin).unwrap_or([false; 4]);
                if (0..4).any(|l| (hits[l] && again[l]) || q.t[l].to_bits() != p.t[l].to_bits()) {
                    cx.fail("again", format!("{t:?} {specs:?}: {got:?}, then with the new limits {again:?}, limits {:?} -> {:?}", p.t, q.t));
                    return;
                }
                cx.count("retested_packets", 1);
            }
            let mut clear = 0u32;
            for l in 0..4 {
                let s = &specs[l];
                let what = || format!("lane {l} of {t:?} {specs:?}: reported {got:?}, limit {} -> {}", s.t, p.t[l]);
                if hits[l] {
                    if !(p.t[l] >= s.tmin && p.t[l] < s.t) {
                        cx.fail("limits", format!("{}: outside of the lane's limits", what()));
                        return;
                    }
                } else if p.t[l].to_bits() != s.t.to_bits() {
                    cx.fail("missed-lane-changed", format!("{}: changed without a hit", what()));
                    return;
                }
                let mut ray = s.ray();
                let single = t.intersect(&mut ray);
                let r64 = s.r64();
                let (want, x, tol) = expect_hit(&t, &r64, s.tmin as f64, s.t as f64);
                match want {
                    Some(w) => {
                        clear += 1;
                        cx.count(if w { "clear_hit_lanes" } else { "clear_miss_lanes" }, 1);
                        if hits[l] != w || hits[l] != single {
                            cx.fail(if w { "missed" } else { "false-hit" }, format!("{}; single-ray test {single}, f64 {w} at {x}", what()));
                            return;
                        }
                        if w && ((p.t[l] as f64 - x).abs() > tol || (p.t[l] as f64 - ray.t as f64).abs() > tol) {
                            cx.fail("distance", format!("{}; single-ray distance {}, f64 {x} (tolerance {tol})", what(), ray.t));
                            return;
                        }
                    }
                    None => cx.count("unclear_lanes", 1),
                }
            }
            let mask = (0..4).fold(0u64, |m, l| m | (hits[l] as u64) << l);
            cx.seen("hit_lane_masks", mask);
            cx.eval(mix(cx.seed ^ cx.idx << 16 ^ k), clear >= 2);
            if k == 0 {
                cx.sample(|| format!("{t:?} {specs:?}"));
            }
        }
    });
}
