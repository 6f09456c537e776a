//! C07: refitting follows moving geometry and keeps the tree.
use glam::Vec3;
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

/// A new AABB per primitive.
fn motion(r: &mut Rng, mode: usize, cur: &[Aabb], orig: &[Aabb]) -> (&'static str, Vec<Aabb>) {
    let n = cur.len();
    match mode {
        0 => ("translate", {
            let d = r.vec3(-30.0, 30.0);
            cur.iter().map(|b| mk_aabb(b.min + d, b.max + d)).collect()
        }),
        1 => ("grow", cur.iter().map(|b| mk_aabb(b.min - Vec3::splat(r.uni(0.0, 2.0)), b.max + Vec3::splat(r.uni(0.0, 2.0)))).collect()),
        2 => ("shrink", cur.iter().map(|b| {
            let c = (b.min + b.max) * 0.5;
            mk_aabb(c + (b.min - c) * 0.3, c + (b.max - c) * 0.3)
        }).collect()),
        3 => ("scatter", (0..n).map(|_| {
            let c = r.vec3(-50.0, 50.0);
            let e = r.vec3(0.01, 2.0);
            mk_aabb(c - e, c + e)
        }).collect()),
        4 => ("permute", {
            let mut v = cur.to_vec();
            r.shuffle(&mut v);
            v
        }),
        5 => ("collapse", {
            let c = r.vec3(-5.0, 5.0);
            (0..n).map(|_| mk_aabb(c, c)).collect()
        }),
        6 => ("one-moves", {
            let mut v = cur.to_vec();
            let k = r.below(n);
            let d = r.vec3(-200.0, 200.0);
            v[k] = mk_aabb(v[k].min + d, v[k].max + d);
            v
        }),
        7 => ("back", orig.to_vec()),
        8 => ("flatten", cur.iter().map(|b| {
            let mut q = *b;
            q.max.y = q.min.y;
            mk_aabb(q.min, q.max)
        }).collect()),
        _ => ("same", cur.to_vec()),
    }
}

fn check(cx: &mut Ctx, desc: &str, r: &mut Rng, b: &Bvh, before: &Tree, shape0: u64, idx0: &[u32], bt: BuildType, boxes: &[Aabb]) -> bool {
    let nodes = b.nodes();
    if b.indices() != idx0 || b.build_type() != bt || b.prim_count() != idx0.len() {
        cx.fail("indices", format!("{desc}: indices, count or build type changed by refit"));
        return false;
    }
    let t = match walk(nodes, b.indices()) {
        Ok(t) => t,
        Err(e) => {
            cx.fail("malformed", format!("{desc}: {e}"));
            return false;
        }
    };
    if t.order != before.order || shape(nodes, b.indices(), &t) != shape0 {
        cx.fail("shape", format!("{desc}: the tree's shape or leaf contents changed"));
        return false;
    }
    let mag = boxes.iter().fold(0f32, |m, b| m.max(b.min.abs().max_element()).max(b.max.abs().max_element()));
    let mut lo = vec![Vec3::splat(f32::INFINITY); nodes.len()];
    let mut hi = vec![Vec3::splat(f32::NEG_INFINITY); nodes.len()];
    let mut height = vec![0u32; nodes.len()];
    for &i in t.order.iter().rev() {
        let n = &nodes[i];
        if is_leaf(n) {
            for s in leaf_range(n) {
                let p = &boxes[b.indices()[s] as usize];
                lo[i] = lo[i].min(p.min);
                hi[i] = hi[i].max(p.max);
            }
        } else {
            let l = left(n) as usize;
            lo[i] = lo[l].min(lo[l + 1]);
            hi[i] = hi[l].max(hi[l + 1]);
            height[i] = 1 + height[l].max(height[l + 1]);
        }
        if lo[i].x > hi[i].x {
            continue;
        }
        let bb = &n.bounds;
        if !(bb.min.cmple(lo[i]).all() && bb.max.cmpge(hi[i]).all()) {
            cx.fail("not-enclosing", format!("{desc}: node {i} (depth {}) box {:?}..{:?} does not contain the new {:?}..{:?}", t.depth[i], bb.min, bb.max, lo[i], hi[i]));
            return false;
        }
        let pad = (height[i] + 1) as f32 * (2e-4 + mag * 3e-7) + mag * 1e-6;
        if !(bb.min.cmpge(lo[i] - pad).all() && bb.max.cmple(hi[i] + pad).all()) {
            cx.fail("not-tight", format!("{desc}: node {i} (height {}) box {:?}..{:?} exceeds the new {:?}..{:?}", height[i], bb.min, bb.max, lo[i], hi[i]));
            return false;
        }
        cx.count("nodes_checked", 1);
    }
    // traversal over the new boxes
    let m = Mbvh::construct(b);
    let bb = b.bounds();
    if m.bounds().min != bb.min || m.bounds().max != bb.max || bb.min != nodes[0].bounds.min || bb.max != nodes[0].bounds.max {
        cx.fail("bounds", format!("{desc}: reported bounds differ from the root's"));
        return false;
    }
    let n = boxes.len();
    let (slo, shi) = (lo[0], hi[0]);
    let scale = slo.abs().max(shi.abs()).max_element();
    let must = |i: usize, s: &RaySpec| -> bool {
        match clear_slab(boxes[i].min, boxes[i].max, &s.r64()) {
            Some((a, z)) => {
                let tol = 1e-4 * (1.0 + a.abs().max(z.abs())) / (s.d.length() as f64).min(1.0);
                z > s.tmin as f64 + tol && a < s.t as f64 - tol
            }
            None => false,
        }
    };
    for _ in 0..6 {
        let tb = boxes[r.below(n)];
        let f = r.vec3(0.1, 0.9);
        let tg = tb.min + (tb.max - tb.min) * f;
        let s = gen_ray(r, slo, shi, Some(tg));
        let s4 = [gen_ray(r, slo, shi, Some(tg)), gen_ray(r, slo, shi, None), s, gen_ray(r, slo, shi, None)];
        let run = |way: usize, s: &RaySpec, s4: &[RaySpec; 4]| match way {
            0 => bvh_static(b, s),
            1 => quad_static(&m, s),
            2 => bvh_static4(b, s4),
            _ => quad_static4(&m, s4),
        };
        for way in 0..4 {
            let y = match run(way, &s, &s4) {
                Ok(y) => y,
                Err(e) => {
                    cx.fail(format!("{}:endless", WAYS[way]), format!("{desc}: {s:?}: {e}"));
                    return false;
                }
            };
            let mk = marks(&y, n);
            for i in 0..n {
                let lanes: Vec<usize> = if way < 2 { vec![9] } else { (0..4).filter(|&l| must(i, &s4[l])).collect() };
                let need = if way < 2 { must(i, &s) } else { !lanes.is_empty() };
                if !need {
                    continue;
                }
                cx.count("clear_hits_after_refit", 1);
                if mk[i] {
                    continue;
                }
                let c = confirmed(|_| {
                    let (o, dd) = perturb(r, s.o, s.d, scale);
                    let p = RaySpec { o, d: dd, ..s };
                    let mut q = s4;
                    for x in q.iter_mut() {
                        let (o, dd) = perturb(r, x.o, x.d, scale);
                        x.o = o;
                        x.d = dd;
                    }
                    if way < 2 && !must(i, &p) || way >= 2 && !must(i, &q[lanes[0]]) {
                        return None;
                    }
                    Some(!marks(&run(way, &p, &q).ok()?, n)[i])
                });
                if c {
                    cx.fail(format!("{}:missed", WAYS[way]), format!("{desc}: {s:?} / {s4:?} clearly hits the new box of primitive {i}, which is not yielded"));
                    return false;
                }
                cx.count("edge_misses", 1);
            }
        }
    }
    true
}

fn main() {
    run("C07", 240, 2400, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let case = std_case(&mut r, idx, if mix(idx) % 17 == 0 { 20_000 } else { 1500 });
        let mut b = match case.build() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{}: {e}", case.desc));
                return;
            }
        };
        let fresh = b.clone();
        let before = match walk(b.nodes(), b.indices()) {
            Ok(t) => t,
            Err(e) => {
                cx.fail("source-malformed", format!("{}: {e}", case.desc));
                return;
            }
        };
        let shape0 = shape(b.nodes(), b.indices(), &before);
        let idx0 = b.indices().to_vec();
        let orig = case.eff();
        let mut cur = orig.clone();
        let steps = r.range(1, if cx.thorough() { 6 } else { 4 });
        let mut names = vec![];
        for step in 0..steps {
            let mode = r.below(10);
            let (name, next) = motion(&mut r, mode, &cur, &orig);
            names.push(name);
            cur = next;
            b.refit(&cur);
            let desc = format!("{} refits={names:?}", case.desc);
            if !check(cx, &desc, &mut r, &b, &before, shape0, &idx0, fresh.build_type(), &cur) {
                return;
            }
            // only the latest boxes matter
            if step > 0 {
                let mut f = fresh.clone();
                f.refit(&cur);
                for &i in &before.order {
                    let (x, y) = (&b.nodes()[i].bounds, &f.nodes()[i].bounds);
                    if x.min != y.min || x.max != y.max {
                        cx.fail("history", format!("{desc}: node {i} is {:?}..{:?} after this sequence, {:?}..{:?} when refitted once", x.min, x.max, y.min, y.max));
                        return;
                    }
                }
                cx.count("history_comparisons", 1);
            }
            cx.count("refits", 1);
            cx.count(&format!("motion_{name}"), 1);
        }
        cx.eval(mix(case.hash() ^ hash_str(&names.join(","))), orig.len() > 2);
        cx.sample(|| format!("{} refits={names:?}", case.desc));
    });
}
