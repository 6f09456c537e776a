//! C14: single-ray triangle intersection against f64 geometry.
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*};

fn bits(r: &Ray) -> [u32; 8] {
    [r.origin.x, r.origin.y, r.origin.z, r.t_min, r.direction.x, r.direction.y, r.direction.z, r.t].map(|f| f.to_bits())
}

fn main() {
    run("C14", 400, 4000, |cx| {
        let mut r = cx.rng();
        let rounds = 400;
        for k in 0..rounds {
            let (t, size) = gen_tri(&mut r);
            let p = plane_point(&mut r, &t);
            let (s, _) = ray_at(&mut r, p, size);
            if !(s.o.is_finite() && s.d.is_finite()) {
                continue;
            }
            let r64 = s.r64();
            let mut clear = false;
            // all vertex orders
            for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
                let tp = Tri::new(t.v[perm[0]], t.v[perm[1]], t.v[perm[2]]);
                let (want, x, tol) = expect_hit(&tp, &r64, s.tmin as f64, s.t as f64);
                let before = s.ray();
                let mut ray = before;
                let got = tp.intersect(&mut ray);
                cx.count("tests", 1);
                let what = || format!("{tp:?} {s:?}: reported {got}, limit {} -> {}", s.t, ray.t);
                if got {
                    if !(ray.t > s.tmin && ray.t < s.t) {
                        cx.fail("limits", format!("{} outside of the ray's limits", what()));
                        return;
                    }
                    let mut back = ray;
                    back.t = before.t;
                    if bits(&back) != bits(&before) || back != before {
                        cx.fail("ray-changed", format!("{}: a hit changed more than the limit", what()));
                        return;
                    }
                } else if bits(&ray) != bits(&before) || ray != before {
                    cx.fail("miss-changed", format!("{}: a miss changed the ray", what()));
                    return;
                }
                if got {
                    // the limits are exclusive: the same hit is neither below itself nor above itself
                    let mut again = ray;
                    if tp.intersect(&mut again) || again != ray {
                        cx.fail("again", format!("{}: reported again at exactly the limit ({})", what(), again.t));
                        return;
                    }
                    let mut above = before;
                    above.t_min = ray.t;
                    let start = above;
                    if tp.intersect(&mut above) || above != start {
                        cx.fail("at-minimum", format!("{}: reported with a minimum of exactly its distance", what()));
                        return;
                    }
                    cx.count("retested_hits", 1);
                }
                match want {
                    Some(w) => {
                        clear = true;
                        cx.count(if w { "clear_hits" } else { "clear_misses" }, 1);
                        if w != got {
                            cx.fail(if w { "missed" } else { "false-hit" }, format!("{}, f64 says {w} at {x}", what()));
                            return;
                        }
                        if w && (ray.t as f64 - x).abs() > tol {
                            cx.fail("distance", format!("{}, f64 distance {x} (tolerance {tol})", what()));
                            return;
                        }
                    }
                    None => cx.count("unclear", 1),
                }
            }
            cx.eval(mix(cx.seed ^ cx.idx << 16 ^ k), clear);
            if k == 0 {
                cx.sample(|| format!("{t:?} {s:?}"));
            }
        }
    });
}
