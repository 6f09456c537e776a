//! C03: single-ray traversal never misses a hit.

use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*};

/// Is this primitive clearly hit within the ray's limits?
fn must_tri(t: &Tri, s: &RaySpec) -> bool {
    clear_hit(t, s).is_some()
}

fn must_box(b: &Aabb, s: &RaySpec) -> bool {
    match clear_slab(b.min, b.max, &s.r64()) {
        Some((lo, hi)) => {
            let tol = 1e-4 * (1.0 + lo.abs().max(hi.abs())) / (s.d.length() as f64).min(1.0);
            hi > s.tmin as f64 + tol && lo < s.t as f64 - tol
        }
        None => false,
    }
}

fn perturbed(r: &mut Rng, s: &RaySpec, scale: f32) -> RaySpec {
    let (o, d) = perturb(r, s.o, s.d, scale);
    RaySpec { o, d, ..*s }
}

fn yields(b: &Bvh, m: &Mbvh, s: &RaySpec, way: usize) -> Result<Vec<u32>, String> {
    match way {
        0 => bvh_static(b, s),
        _ => quad_static(m, s),
    }
}

fn check_must(cx: &mut Ctx, desc: &str, r: &mut Rng, b: &Bvh, m: &Mbvh, n: usize, s: &RaySpec, scale: f32, must: &dyn Fn(usize, &RaySpec) -> bool) -> u64 {
    let need: Vec<usize> = (0..n).filter(|&i| must(i, s)).collect();
    for way in 0..2 {
        let y = match yields(b, m, s, way) {
            Ok(y) => y,
            Err(e) => {
                cx.fail(format!("{}:endless", WAYS[way]), format!("{desc}: {s:?}: {e}"));
                return 0;
            }
        };
        cx.count(&format!("yields_{}", WAYS[way]), y.len() as u64);
        if let Some(bad) = y.iter().find(|&&i| i as usize >= n) {
            cx.fail(format!("{}:bad-id", WAYS[way]), format!("{desc}: {s:?} yields {bad} of {n}"));
            return 0;
        }
        let mk = marks(&y, n);
        for &i in &need {
            if !mk[i] {
                let c = confirmed(|_| {
                    let p = perturbed(r, s, scale);
                    if !must(i, &p) {
                        return None;
                    }
                    Some(!marks(&yields(b, m, &p, way).ok()?, n)[i])
                });
                if c {
                    cx.fail(format!("{}:missed", WAYS[way]), format!("{desc}: {s:?} clearly hits primitive {i}, which is not yielded"));
                    return 0;
                }
                cx.count("edge_misses", 1);
            }
        }
    }
    need.len() as u64
}

fn limits(r: &mut Rng, s: &mut RaySpec, hit: Option<f64>) {
    // limits around a known hit, and arbitrary ones
    let t = hit.unwrap_or_else(|| r.uni(0.1, 30.0) as f64) as f32;
    match r.below(6) {
        0 => s.t = t * r.uni(1.01, 1.6),
        1 => s.t = t * r.uni(0.3, 0.99),
        2 => {
            s.tmin = t * r.uni(0.3, 0.97);
        }
        3 => {
            s.tmin = t * r.uni(0.5, 0.9);
            s.t = t * r.uni(1.05, 1.4);
        }
        4 => s.tmin = 0.0,
        _ => {}
    }
}

fn main() {
    run("C03", 320, 3200, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let nrays = if cx.thorough() { 60 } else { 40 };
        if mix(idx) % 4 == 3 {
            let sel = r.u64();
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let n = pick_n(&mut r, sel, 4000).min(1500);
            let (name, prims) = box_scene(&mut r, n);
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let leaf = pick_leaf(&mut r);
            let desc = format!("{kind:?} {name} leaf={leaf:?}");
            let Ok(b) = build_box(kind, &prims, Some(&boxes), leaf) else {
                cx.fail("build-error", desc);
                return;
            };
            let m = Mbvh::construct(&b);
            let (mut lo, mut hi) = (boxes[0].min, boxes[0].max);
            for x in &boxes {
                lo = lo.min(x.min);
                hi = hi.max(x.max);
            }
            let scale = lo.abs().max(hi.abs()).max_element();
            for k in 0..nrays {
                let tb = boxes[r.below(n)];
                let f = r.vec3(0.1, 0.9);
                let target = tb.min + (tb.max - tb.min) * f;
                let mut s = gen_ray(&mut r, lo, hi, if k % 5 == 4 { None } else { Some(target) });
                let h = clear_slab(tb.min, tb.max, &s.r64()).map(|x| x.0.max(0.01));
                limits(&mut r, &mut s, h);
                let need = check_must(cx, &desc, &mut r, &b, &m, n, &s, scale, &|i, s| must_box(&boxes[i], s));
                cx.count("clear_box_hits", need);
                cx.eval(mix(hash_str(&desc) ^ idx ^ (k as u64) << 40), need > 0 && n > 4);
                if !cx.violations.is_empty() {
                    return;
                }
            }
            return;
        }
        let mut case = std_case(&mut r, idx, if mix(idx) % 23 == 0 { 20_000 } else { 2500 });
        let tris = std::mem::take(&mut case.scene.tris);
        let b = match build_tri(case.kind, &tris, case.aabbs.as_deref(), case.leaf) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{}: {e}", case.desc));
                return;
            }
        };
        let n = tris.len();
        let m = if r.chance(0.5) { Mbvh::construct(&b) } else { Mbvh::from(b.clone()) };
        case.scene.tris = tris;
        let (lo, hi) = case.scene.bounds();
        let scale = case.scene.scale();
        let tris = &case.scene.tris;
        for k in 0..nrays {
            let tt = r.below(n);
            let target = inner_point(&mut r, &tris[tt]);
            let mut s = gen_ray(&mut r, lo, hi, if k % 6 == 5 { None } else { Some(target) });
            let h = match tri_verdict(&tris[tt], &s.r64()) {
                Verdict::Hit(x) if x > 0.0 => Some(x),
                _ => None,
            };
            if r.chance(0.4) {
                limits(&mut r, &mut s, h);
            }
            let need = check_must(cx, &case.desc, &mut r, &b, &m, n, &s, scale, &|i, s| must_tri(&tris[i], s));
            cx.count("clear_tri_hits", need);
            if s.d.x == 0.0 || s.d.y == 0.0 || s.d.z == 0.0 {
                cx.count("rays_with_zero_component", 1);
            }
            cx.eval(mix(case.hash() ^ (k as u64) << 40), need > 0 && n > 4);
            // closest hit
            let want = brute(&s, tris);
            for way in 0..2 {
                let go = |s: &RaySpec| if way == 0 { bvh_closest(&b, s, tris) } else { quad_closest(&m, s, tris) };
                let got = match go(&s) {
                    Ok(t) => t,
                    Err(e) => {
                        cx.fail(format!("{}:endless", WAYS[way]), format!("{}: {s:?}: {e}", case.desc));
                        return;
                    }
                };
                cx.count("closest_hit_comparisons", 1);
                if want < s.t {
                    cx.count("closest_hits_found", 1);
                }
                if got != want {
                    if got < want {
                        cx.fail(format!("{}:too-close", WAYS[way]), format!("{}: {s:?}: traversal finds {got}, all triangles give {want}", case.desc));
                        return;
                    }
                    // triangles in one plane, or clipped by rounding, may differ by that
                    if went_past(got, &s, tris) == Some(true)
                        && confirmed(|_| {
                            let p = perturbed(&mut r, &s, scale);
                            went_past(go(&p).ok()?, &p, tris)
                        })
                    {
                        cx.fail(format!("{}:closest", WAYS[way]), format!("{}: {s:?}: traversal finds {got}, all triangles give {want}", case.desc));
                        return;
                    }
                    cx.count("edge_misses", 1);
                }
            }
            if !cx.violations.is_empty() {
                return;
            }
        }
        cx.sample(|| format!("{}: {nrays} rays", case.desc));
    });
}
