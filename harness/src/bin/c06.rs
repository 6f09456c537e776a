//! C06: all traversal front ends agree and yield each reference once.
use rtbvh::*;
use std::collections::HashMap;
use vh::{fronts::*, rays::*, rng::*, run::*, scene::*, trav::*};

/// With limits lowered while traversing, both kinds of front ends must agree on the result.
fn shrink(b: &Bvh, m: &Mbvh, s: &RaySpec, sp: &[RaySpec; 4], prims: &[Tri]) -> Vec<(&'static str, Vec<f32>)> {
    let mut out = vec![];
    let tm = glam::Vec4::splat(1e-4);
    macro_rules! one {
        ($name:expr, prim, $it:expr) => {{
            let mut ray = s.ray();
            for (p, r) in $it(&mut ray) {
                p.intersect(r);
            }
            out.push(($name, vec![ray.t]));
        }};
        ($name:expr, index, $it:expr) => {{
            let mut ray = s.ray();
            for (i, r) in $it(&mut ray) {
                if let Some(p) = prims.get(i as usize) {
                    p.intersect(r);
                }
            }
            out.push(($name, vec![ray.t]));
        }};
        ($name:expr, prim4, $it:expr) => {{
            let mut ray = packet_of(sp);
            for (p, r) in $it(&mut ray) {
                p.intersect4(r, tm);
            }
            out.push(($name, ray.t.to_array().to_vec()));
        }};
        ($name:expr, index4, $it:expr) => {{
            let mut ray = packet_of(sp);
            for (i, r) in $it(&mut ray) {
                if let Some(p) = prims.get(i as usize) {
                    p.intersect4(r, tm);
                }
            }
            out.push(($name, ray.t.to_array().to_vec()));
        }};
    }
    one!("Bvh prim", prim, |r| b.traverse_iter(r, prims));
    one!("Bvh index", index, |r| b.traverse_iter_indices(r));
    one!("Mbvh prim", prim, |r| m.traverse_iter(r, prims));
    one!("Mbvh index", index, |r| m.traverse_iter_indices(r));
    one!("Bvh prim packet", prim4, |r| b.traverse_iter_packet(r, prims));
    one!("Bvh index packet", index4, |r| b.traverse_iter_indices_packet(r));
    one!("Mbvh prim packet", prim4, |r| m.traverse_iter_packet(r, prims));
    one!("Mbvh index packet", index4, |r| m.traverse_iter_indices_packet(r));
    out
}

fn compare(cx: &mut Ctx, desc: &str, refs: &HashMap<u32, u32>, nprims: usize, ends: Vec<(&'static str, bool, R)>) -> Option<usize> {
    // reference: the index list, and its restriction to existing primitives
    let mut index: Option<Vec<u32>> = None;
    for (name, prim, r) in &ends {
        if let Err(e) = r {
            cx.fail(format!("{name}:error"), format!("{desc}: {name}: {e}"));
            return None;
        }
        if !*prim && index.is_none() {
            let mut v = r.clone().unwrap();
            v.sort_unstable();
            // once per reference
            let mut i = 0;
            while i < v.len() {
                let j = v[i..].iter().take_while(|x| **x == v[i]).count();
                let max = refs.get(&v[i]).copied().unwrap_or(0);
                if j as u32 > max {
                    cx.fail(format!("{name}:repeated"), format!("{desc}: {name} yields {} {j} times, it is referenced {max} times", v[i]));
                    return None;
                }
                i += j;
            }
            index = Some(v);
        }
    }
    let index = index.unwrap();
    let present: Vec<u32> = index.iter().copied().filter(|i| (*i as usize) < nprims).collect();
    for (name, prim, r) in ends {
        let mut v = r.unwrap();
        v.sort_unstable();
        let want = if prim { &present } else { &index };
        if &v != want {
            let missing = want.iter().find(|x| !v.contains(x));
            let extra = v.iter().find(|x| !want.contains(x));
            cx.fail(format!("{name}:differs"), format!("{desc}: {name} yields {} items, expected {}; missing {missing:?} extra {extra:?}", v.len(), want.len()));
            return None;
        }
        cx.count("front_end_runs", 1);
        cx.count("yields", v.len() as u64);
    }
    Some(index.len())
}

fn main() {
    run("C06", 320, 3200, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let case = std_case(&mut r, idx, 3000);
        let b = match case.build() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{}: {e}", case.desc));
                return;
            }
        };
        let m = Mbvh::construct(&b);
        let tris = &case.scene.tris;
        let n = tris.len();
        let (lo, hi) = case.scene.bounds();
        let mut refs = HashMap::new();
        for &i in b.indices() {
            *refs.entry(i).or_insert(0) += 1;
        }
        for k in 0..16 {
            let mk = |r: &mut Rng| {
                let tt = r.below(n);
                let tg = if r.chance(0.2) { None } else { Some(inner_point(r, &tris[tt])) };
                let mut s = gen_ray(r, lo, hi, tg);
                if r.chance(0.25) {
                    s.t = r.uni(0.01, 40.0);
                }
                if r.chance(0.15) {
                    s.tmin = r.uni(0.0, 10.0);
                }
                s
            };
            let s = mk(&mut r);
            let sp = if k % 2 == 0 { [mk(&mut r), mk(&mut r), mk(&mut r), mk(&mut r)] } else { [s, mk(&mut r), s, mk(&mut r)] };
            let cut = match k % 4 {
                0 | 1 => n,
                2 => r.below(n + 1),
                _ => r.pick(&[0, 1, n / 2, n - 1]),
            };
            let prims = &tris[..cut];
            let mut got = 0;
            for quad in [false, true] {
                let d = format!("{}: {cut} of {n} primitives, {s:?}", case.desc);
                got += match compare(cx, &d, &refs, cut, ends(&b, &m, &s, prims, quad)) {
                    Some(g) => g,
                    None => return,
                };
                let d = format!("{}: {cut} of {n} primitives, {sp:?}", case.desc);
                got += match compare(cx, &d, &refs, cut, ends4(&b, &m, &sp, prims, quad)) {
                    Some(g) => g,
                    None => return,
                };
            }
            if cut < n {
                cx.count("shortened_slices", 1);
            }
            let sh = shrink(&b, &m, &s, &sp, prims);
            for w in sh.chunks(2) {
                if w[0].1 != w[1].1 {
                    cx.fail(format!("{}:shrinking", w[1].0), format!("{}: {s:?} {sp:?}: {} ends with limits {:?}, {} with {:?}", case.desc, w[0].0, w[0].1, w[1].0, w[1].1));
                    return;
                }
            }
            cx.eval(mix(case.hash() ^ (k as u64) << 40), got > 0 && n > 4);
        }
        cx.sample(|| format!("{}: 16 rays and packets, 32 front ends each", case.desc));
    });
}
