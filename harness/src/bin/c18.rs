//! C18: Morton codes and the order derived from them.
use glam::Vec3;
use rtbvh::*;
use vh::{rng::*, run::*, scene::*};

fn spread(v: u32) -> u32 {
    (0..10).fold(0, |x, i| x | (v >> i & 1) << (3 * i))
}
fn gather(c: u32, axis: u32) -> u32 {
    (0..10).fold(0, |x, i| x | (c >> (3 * i + axis) & 1) << i)
}

/// The cells a coordinate may fall into, given f32 rounding.
fn cells(p: f32, lo: f32, hi: f32, dim: usize) -> (i64, i64) {
    let max = dim as i64 - 1;
    let ext = hi as f64 - lo as f64;
    if ext <= 0.0 {
        return (0, max);
    }
    let g = (p as f64 - lo as f64) / ext * dim as f64;
    let tol = 8.0 * 1.2e-7 * (p.abs().max(lo.abs()) as f64) / ext * dim as f64 + 1e-6 * g.abs();
    let c = |x: f64| (x.floor().max(0.0) as i64).min(max);
    (c(g - tol), c(g + tol))
}

fn main() {
    run("C18", 160, 1600, |cx| {
        let mut r = cx.rng();
        if cx.idx < 8 {
            // bit spreading: every value (spread over the shards)
            for v in 0..1024u32 {
                if v as u64 % 8 == cx.idx {
                    if morton_split(v) != spread(v) {
                        cx.fail("split", format!("morton_split({v}) = {:#b}, expected {:#b}", morton_split(v), spread(v)));
                        return;
                    }
                    cx.count("values_spread", 1);
                    cx.eval(v as u64, v > 1);
                }
            }
        }
        for _ in 0..2000 {
            let (x, y, z) = (r.below(1024) as u32, r.below(1024) as u32, r.below(1024) as u32);
            let c = MortonEncoder::morton_encode(x, y, z);
            if (gather(c, 0), gather(c, 1), gather(c, 2)) != (x, y, z) || c >> 30 != 0 {
                cx.fail("encode", format!("morton_encode({x},{y},{z}) = {c:#b}"));
                return;
            }
        }
        cx.count("triples_encoded", 2000);
        // encoders
        for k in 0..6u64 {
            let dim = r.pick(&[1usize, 2, 3, 16, 100, 512, 1000, 1024]);
            let s = r.pick(&[0.1f32, 1.0, 50.0, 2000.0]);
            let o = r.vec3(-1.0, 1.0) * r.pick(&[0.0f32, 1.0, 100.0, 3000.0]);
            let mut e = r.vec3(0.05, 1.0) * s;
            if r.chance(0.2) {
                e[r.below(3)] = 0.0;
            }
            let bb = mk_aabb(o - e, o + e);
            let enc = MortonEncoder::new(&bb, dim);
            let mut clear = false;
            for _ in 0..60 {
                let f = match r.below(5) {
                    0 => r.vec3(-1.0, 2.0),
                    1 => Vec3::new(r.below(2) as f32, r.below(2) as f32, r.below(2) as f32),
                    _ => r.vec3(0.0, 1.0),
                };
                let p = bb.min + (bb.max - bb.min) * f;
                let c = enc.encode(p);
                for a in 0..3 {
                    let got = gather(c, a as u32) as i64;
                    let (l, h) = cells(p[a], bb.min[a], bb.max[a], dim);
                    clear |= l == h;
                    if got < l || got > h || c >> 30 != 0 {
                        cx.fail("cell", format!("encode({p:?}) in {:?}..{:?} on {dim}: axis {a} is cell {got}, expected {l}..={h}", bb.min, bb.max));
                        return;
                    }
                }
                cx.count("points_encoded", 1);
            }
            // monotone along each axis
            let base = bb.min + (bb.max - bb.min) * r.vec3(0.0, 1.0);
            for a in 0..3 {
                if bb.min[a] == bb.max[a] {
                    continue;
                }
                let mut xs: Vec<f32> = (0..40).map(|_| bb.min[a] + (bb.max[a] - bb.min[a]) * r.uni(0.0, 1.0)).collect();
                xs.push(bb.min[a]);
                xs.push(bb.max[a]);
                xs.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let mut last = 0;
                for x in xs {
                    let mut p = base;
                    p[a] = x;
                    let c = enc.encode(p);
                    let g = gather(c, a as u32);
                    if g < last {
                        cx.fail("monotone", format!("axis {a}: cell {g} at {x} after cell {last} in {:?}..{:?} on {dim}", bb.min, bb.max));
                        return;
                    }
                    last = g;
                    cx.count("monotone_steps", 1);
                }
                if (last as i64) < cells(bb.max[a], bb.min[a], bb.max[a], dim).0 {
                    cx.fail("clamp", format!("axis {a}: the upper end of the box is cell {last} of {dim}"));
                    return;
                }
            }
            cx.eval(mix(cx.seed ^ cx.idx << 8 ^ k ^ 0x7777_0000_0000), clear && dim > 1);
        }
        // sorted order
        let sk = r.below(N_KINDS);
        let sel = r.u64();
        let n = pick_n(&mut r, sel, 30_000);
        let sc = tri_scene(&mut r, sk, n);
        let boxes: Vec<Aabb> = sc.tris.iter().map(|t| t.exact_aabb()).collect();
        let mut bb = Aabb::empty();
        bb.grow_bbs(&boxes);
        if r.chance(0.3) {
            // a smaller box: many primitives are clamped to its border
            let c = bb.center();
            bb.min = c + (bb.min - c) * 0.3;
            bb.max = c + (bb.max - c) * 0.3;
        }
        let dim = r.pick(&[4usize, 64, 1024]);
        let enc = MortonEncoder::new(&bb, dim);
        let threads = r.range(1, 8);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build();
        let Ok(pool) = pool else {
            cx.inconclusive("no thread pool");
            return;
        };
        let (idx, codes) = pool.install(|| enc.get_sorted_indices(&boxes, &sc.tris));
        let n = sc.tris.len();
        let what = format!("{} in a pool of {threads}, grid {dim}", sc.name);
        if idx.len() != n || codes.len() != n {
            cx.fail("lengths", format!("{what}: {} indices and {} codes for {n} primitives", idx.len(), codes.len()));
            return;
        }
        let mut seen = vec![false; n];
        for &i in &idx {
            if i as usize >= n || std::mem::replace(&mut seen[i as usize], true) {
                cx.fail("permutation", format!("{what}: index {i} occurs twice or is out of range"));
                return;
            }
        }
        for (i, t) in sc.tris.iter().enumerate() {
            if codes[i] != enc.encode(t.center()) {
                cx.fail("own-code", format!("{what}: primitive {i} has code {}, its centre {}", codes[i], enc.encode(t.center())));
                return;
            }
        }
        let mut ties = 0;
        for w in idx.windows(2) {
            let (a, b) = (w[0] as usize, w[1] as usize);
            if codes[a] > codes[b] {
                cx.fail("order", format!("{what}: primitive {a} with code {} comes before {b} with {}", codes[a], codes[b]));
                return;
            }
            if codes[a] == codes[b] {
                ties += 1;
                if a > b {
                    cx.fail("stable", format!("{what}: primitives {a} and {b} with equal codes swapped places"));
                    return;
                }
            }
        }
        cx.count("sorted_primitives", n as u64);
        cx.count("ties", ties);
        cx.eval(mix(sc.hash() ^ dim as u64), n > 2);
        cx.sample(|| what);
    });
}
