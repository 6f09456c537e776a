//! C04: packet traversal never misses a hit of any of its four rays.
use glam::{Vec3, Vec4};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*};

fn must_tri(t: &Tri, s: &RaySpec) -> bool {
    clear_hit(t, s).is_some()
}

fn must_box(b: &Aabb, s: &RaySpec) -> bool {
    match clear_slab(b.min, b.max, &s.r64()) {
        Some((lo, hi)) => {
            let tol = 1e-4 * (1.0 + lo.abs().max(hi.abs())) / (s.d.length() as f64).min(1.0);
            hi > tol && lo < s.t as f64 - tol
        }
        None => false,
    }
}

fn perturbed(r: &mut Rng, s: &[RaySpec; 4], scale: f32) -> [RaySpec; 4] {
    let mut q = *s;
    for x in q.iter_mut() {
        let (o, d) = perturb(r, x.o, x.d, scale);
        x.o = o;
        x.d = d;
    }
    q
}

fn yields(b: &Bvh, m: &Mbvh, s: &[RaySpec; 4], way: usize) -> Result<Vec<u32>, String> {
    match way {
        2 => bvh_static4(b, s),
        _ => quad_static4(m, s),
    }
}

/// Four lanes: coherent bundle, independent, duplicates, or one aimed and three away.
fn gen_packet(r: &mut Rng, lo: Vec3, hi: Vec3, target: &mut dyn FnMut(&mut Rng) -> Option<Vec3>) -> ([RaySpec; 4], &'static str) {
    let ext = (hi - lo).max_element().max(0.1);
    match r.below(5) {
        0 | 1 => {
            let f = |r: &mut Rng, target: &mut dyn FnMut(&mut Rng) -> Option<Vec3>| {
                let t = target(r);
                gen_ray(r, lo, hi, t)
            };
            ([f(r, target), f(r, target), f(r, target), f(r, target)], "incoherent")
        }
        2 => {
            let t = target(r);
            let a = gen_ray(r, lo, hi, t);
            let e = 0.02 * ext;
            let f = |r: &mut Rng| RaySpec { o: a.o + r.vec3(-e, e), d: a.d + r.vec3(-0.02, 0.02) * a.d.length(), ..a };
            ([a, f(r), f(r), f(r)], "coherent")
        }
        3 => {
            // one aimed lane, the others leave the scene
            let t = target(r);
            let a = gen_ray(r, lo, hi, t);
            let mid = (lo + hi) * 0.5;
            let f = |r: &mut Rng| {
                let u = r.unit();
                RaySpec { o: mid + u * ext * 2.0, d: u, t: 1e34, tmin: 1e-4 }
            };
            let mut q = [a, f(r), f(r), f(r)];
            let k = r.below(4);
            q.swap(0, k);
            (q, "one-aimed")
        }
        _ => {
            // same origin, axis-parallel fan
            let t = target(r);
            let a = gen_ray(r, lo, hi, t);
            let f = |r: &mut Rng| RaySpec { o: a.o, d: axis_dir(r), ..a };
            let mut q = [a, f(r), f(r), f(r)];
            let k = r.below(4);
            q.swap(0, k);
            (q, "axis-fan")
        }
    }
}

fn check_must(cx: &mut Ctx, desc: &str, r: &mut Rng, b: &Bvh, m: &Mbvh, n: usize, s: &[RaySpec; 4], scale: f32, must: &dyn Fn(usize, &RaySpec) -> bool) -> u64 {
    let need: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..4).map(move |l| (i, l))).filter(|&(i, l)| must(i, &s[l])).collect();
    for way in 2..4 {
        let y = match yields(b, m, s, way) {
            Ok(y) => y,
            Err(e) => {
                cx.fail(format!("{}:endless", WAYS[way]), format!("{desc}: {s:?}: {e}"));
                return 0;
            }
        };
        cx.count(&format!("yields_{}", WAYS[way]), y.len() as u64);
        if let Some(bad) = y.iter().find(|&&i| i as usize >= n) {
            cx.fail(format!("{}:bad-id", WAYS[way]), format!("{desc}: {s:?} yields {bad} of {n}"));
            return 0;
        }
        let mk = marks(&y, n);
        for &(i, l) in &need {
            if !mk[i] {
                let c = confirmed(|_| {
                    let p = perturbed(r, s, scale);
                    if !must(i, &p[l]) {
                        return None;
                    }
                    Some(!marks(&yields(b, m, &p, way).ok()?, n)[i])
                });
                if c {
                    cx.fail(format!("{}:missed", WAYS[way]), format!("{desc}: lane {l} of {s:?} clearly hits primitive {i}, which is not yielded"));
                    return 0;
                }
                cx.count("edge_misses", 1);
            }
        }
    }
    need.len() as u64
}

fn limits(r: &mut Rng, s: &mut [RaySpec; 4], hit: &dyn Fn(&RaySpec) -> Option<f64>) {
    for x in s.iter_mut() {
        let t = hit(x).unwrap_or_else(|| r.uni(0.1, 30.0) as f64) as f32;
        match r.below(4) {
            0 => x.t = t * r.uni(1.01, 1.6),
            1 => x.t = t * r.uni(0.3, 0.99),
            _ => {}
        }
    }
}

fn main() {
    run("C04", 320, 3200, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let nrays = if cx.thorough() { 30 } else { 20 };
        if mix(idx) % 4 == 3 {
            let sel = r.u64();
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let n = pick_n(&mut r, sel, 4000).min(1500);
            let (name, prims) = box_scene(&mut r, n);
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let leaf = pick_leaf(&mut r);
            let desc = format!("{kind:?} {name} leaf={leaf:?}");
            let Ok(b) = build_box(kind, &prims, Some(&boxes), leaf) else {
                cx.fail("build-error", desc);
                return;
            };
            let m = Mbvh::construct(&b);
            let (mut lo, mut hi) = (boxes[0].min, boxes[0].max);
            for x in &boxes {
                lo = lo.min(x.min);
                hi = hi.max(x.max);
            }
            let scale = lo.abs().max(hi.abs()).max_element();
            for k in 0..nrays {
                let (mut s, pk) = gen_packet(&mut r, lo, hi, &mut |r| {
                    let tb = boxes[r.below(n)];
                    let f = r.vec3(0.1, 0.9);
                    Some(tb.min + (tb.max - tb.min) * f)
                });
                if r.chance(0.4) {
                    limits(&mut r, &mut s, &|_| None);
                }
                let need = check_must(cx, &desc, &mut r, &b, &m, n, &s, scale, &|i, s| must_box(&boxes[i], s));
                cx.count("clear_box_hits", need);
                cx.count(&format!("packets_{pk}"), 1);
                cx.eval(mix(hash_str(&desc) ^ idx ^ (k as u64) << 40), need > 0 && n > 4);
                if !cx.violations.is_empty() {
                    return;
                }
            }
            return;
        }
        let mut case = std_case(&mut r, idx, if mix(idx) % 23 == 0 { 20_000 } else { 2000 });
        let tris = std::mem::take(&mut case.scene.tris);
        let b = match build_tri(case.kind, &tris, case.aabbs.as_deref(), case.leaf) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{}: {e}", case.desc));
                return;
            }
        };
        let n = tris.len();
        let m = if r.chance(0.5) { Mbvh::construct(&b) } else { Mbvh::from(b.clone()) };
        case.scene.tris = tris;
        let (lo, hi) = case.scene.bounds();
        let scale = case.scene.scale();
        let tris = &case.scene.tris;
        for k in 0..nrays {
            let mut aimed: Vec<usize> = vec![];
            let (mut s, pk) = gen_packet(&mut r, lo, hi, &mut |r| {
                let tt = r.below(n);
                aimed.push(tt);
                if r.chance(0.15) {
                    None
                } else {
                    Some(inner_point(r, &tris[tt]))
                }
            });
            if r.chance(0.4) {
                limits(&mut r, &mut s, &|x| {
                    aimed.iter().find_map(|&a| match tri_verdict(&tris[a], &x.r64()) {
                        Verdict::Hit(x) if x > 0.0 => Some(x),
                        _ => None,
                    })
                });
            }
            let need = check_must(cx, &case.desc, &mut r, &b, &m, n, &s, scale, &|i, s| must_tri(&tris[i], s));
            cx.count("clear_tri_hits", need);
            cx.count(&format!("packets_{pk}"), 1);
            cx.eval(mix(case.hash() ^ (k as u64) << 40), need > 0 && n > 4);
            let tmin = Vec4::splat(1e-4);
            let want = brute4(&s, tmin, tris);
            for way in 2..4 {
                let go = |s: &[RaySpec; 4]| if way == 2 { bvh_closest4(&b, s, tmin, tris) } else { quad_closest4(&m, s, tmin, tris) };
                let got = match go(&s) {
                    Ok(t) => t,
                    Err(e) => {
                        cx.fail(format!("{}:endless", WAYS[way]), format!("{}: {s:?}: {e}", case.desc));
                        return;
                    }
                };
                for l in 0..4 {
                    cx.count("closest_hit_comparisons", 1);
                    if want[l] < s[l].t {
                        cx.count("closest_hits_found", 1);
                    }
                    if got[l] != want[l] {
                        if got[l] < want[l] {
                            cx.fail(format!("{}:too-close", WAYS[way]), format!("{}: lane {l} of {s:?}: traversal finds {got}, all triangles give {want}", case.desc));
                            return;
                        }
                        // triangles in one plane, or clipped by rounding, may differ by that
                        if went_past4(got[l], &s[l], tmin, tris) == Some(true)
                            && confirmed(|_| {
                                let p = perturbed(&mut r, &s, scale);
                                went_past4(go(&p).ok()?[l], &p[l], tmin, tris)
                            })
                        {
                            cx.fail(format!("{}:closest", WAYS[way]), format!("{}: lane {l} of {s:?}: traversal finds {got}, all triangles give {want}", case.desc));
                            return;
                        }
                        cx.count("edge_misses", 1);
                    }
                }
            }
            if !cx.violations.is_empty() {
                return;
            }
        }
        cx.sample(|| format!("{}: {nrays} packets", case.desc));
    });
}
