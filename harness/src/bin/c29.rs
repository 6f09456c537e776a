//! C29: traversals that cull by the limit go from near to far.
use rtbvh::*;
use std::collections::HashMap;
use vh::{fronts::*, geo::*, rays::*, rng::*, run::*, scene::*, trav::cap, tree::*};

struct B {
    min: glam::Vec3,
    max: glam::Vec3,
    parent: i64,
    /// siblings are those with the same group
    group: usize,
    leaf: Option<std::ops::Range<usize>>,
}

fn of_bvh(nodes: &[BvhNode], t: &Tree) -> Vec<B> {
    let mut at = vec![-1i64; nodes.len()];
    let mut v = vec![];
    for &i in &t.order {
        at[i] = v.len() as i64;
        let n = &nodes[i];
        v.push(B {
            min: n.bounds.min,
            max: n.bounds.max,
            parent: if t.parent[i] < 0 { -1 } else { at[t.parent[i] as usize] },
            group: if i == 0 { usize::MAX } else { t.parent[i] as usize },
            leaf: if is_leaf(n) { Some(leaf_range(n)) } else { None },
        });
    }
    v
}

fn of_quad(q: &QuadTree) -> Vec<B> {
    let mut v = vec![];
    for s in &q.slots {
        v.push(B { min: s.min, max: s.max, parent: s.parent, group: s.quad, leaf: if s.count >= 0 { Some(s.child as usize..(s.child + s.count) as usize) } else { None } });
    }
    v
}

/// For every box the positions of the first and last yield of a primitive that
/// only this part of the structure refers to.
fn spans(boxes: &[B], indices: &[u32], yields: &[u32], n: usize) -> Result<Vec<Option<(usize, usize)>>, String> {
    let mut times = vec![0u32; n];
    for b in boxes {
        if let Some(l) = &b.leaf {
            for &p in &indices[l.clone()] {
                times[p as usize] += 1;
            }
        }
    }
    let mut at: HashMap<u32, usize> = HashMap::new();
    for (k, p) in yields.iter().enumerate() {
        if *p as usize >= n {
            return Err(format!("yields {p} of {n}"));
        }
        at.insert(*p, k);
    }
    let mut s: Vec<Option<(usize, usize)>> = vec![None; boxes.len()];
    for i in (0..boxes.len()).rev() {
        let mut x = s[i];
        if let Some(l) = &boxes[i].leaf {
            for p in &indices[l.clone()] {
                if times[*p as usize] != 1 {
                    continue;
                }
                if let Some(&k) = at.get(p) {
                    x = Some(x.map_or((k, k), |(a, b): (usize, usize)| (a.min(k), b.max(k))));
                }
            }
        }
        s[i] = x;
        if let (Some((a, b)), par) = (x, boxes[i].parent) {
            if par >= 0 {
                let y = &mut s[par as usize];
                *y = Some(y.map_or((a, b), |(c, d)| (a.min(c), b.max(d))));
            }
        }
    }
    Ok(s)
}

/// Is the ray clearly in `a` before `b`, while it has not yet reached `b` at its origin?
fn before(a: &BoxVerdict, b: &BoxVerdict) -> bool {
    a.pass == Some(true) && b.pass == Some(true) && b.entry > b.tol && a.entry.max(0.0) + a.tol + b.tol < b.entry
}

struct Judge<'a> {
    boxes: &'a [B],
    groups: &'a [Vec<usize>],
    indices: &'a [u32],
    n: usize,
    quad: bool,
}

impl Judge<'_> {
    fn judge(&self, cx: &mut Ctx, desc: &str, rs: &[RaySpec], yields: &[u32]) -> bool {
        let sp = match spans(self.boxes, self.indices, yields, self.n) {
            Ok(s) => s,
            Err(e) => {
                cx.fail("bad-id", format!("{desc}: {e}"));
                return false;
            }
        };
        let packet = rs.len() > 1;
        for g in self.groups {
            if g.iter().filter(|i| sp[**i].is_some()).count() < 2 {
                continue;
            }
            // A box with the ray in the plane of a face has no defined distance
            // (and sorting is only defined when all have one).
            // Unused lanes carry the bounds of the whole quad.
            let whole = self.boxes[g[0]].parent;
            let lanes = g.iter().copied().chain(if whole >= 0 { Some(whole as usize) } else { None });
            if self.quad && lanes.into_iter().any(|i| box_verdict(self.boxes[i].min, self.boxes[i].max, &rs[0].r64()).pass.is_none()) {
                cx.count("quads_with_borderline_lanes", 1);
                continue;
            }
            for &i in g {
                for &j in g {
                    if i == j {
                        continue;
                    }
                    let (a, b) = match (sp[i], sp[j]) {
                        (Some(a), Some(b)) => (a, b),
                        _ => continue,
                    };
                    if self.quad && (self.boxes[i].leaf.is_some() || self.boxes[j].leaf.is_some()) {
                        continue;
                    }
                    let clear = rs.iter().all(|r| {
                        let (x, y) = (box_verdict(self.boxes[i].min, self.boxes[i].max, &r.r64()), box_verdict(self.boxes[j].min, self.boxes[j].max, &r.r64()));
                        before(&x, &y) && (!packet || (y.entry + y.tol < r.t as f64))
                    });
                    if !clear {
                        continue;
                    }
                    cx.count(if self.quad { "quad_siblings_judged" } else { "packet_siblings_judged" }, 1);
                    if a.1 > b.0 {
                        let (p, q) = (&self.boxes[i], &self.boxes[j]);
                        let kind = if self.quad { "quad" } else { "packet" };
                        cx.fail(
                            format!("{kind}:far-first"),
                            format!("{desc}: {:?} enters {:?}..{:?} before {:?}..{:?}, yet primitives in the latter were yielded first (positions {a:?} and {b:?})", rs[0], p.min, p.max, q.min, q.max),
                        );
                        return false;
                    }
                }
            }
        }
        true
    }
}

fn main() {
    run("C29", 100, 1000, |cx| {
        let mut r = cx.rng();
        let case = std_case(&mut r, cx.idx, 4000);
        let b = match case.build() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build", format!("{}: {e}", case.desc));
                return;
            }
        };
        let m = Mbvh::construct(&b);
        let n = case.scene.tris.len();
        let t = match walk(b.nodes(), b.indices()) {
            Ok(t) => t,
            Err(e) => {
                cx.fail("tree", format!("{}: {e}", case.desc));
                return;
            }
        };
        let q = match walk_quad(m.quad_nodes(), m.indices()) {
            Ok(q) => q,
            Err(e) => {
                cx.fail("tree", format!("{}: {e}", case.desc));
                return;
            }
        };
        let (bb, qb) = (of_bvh(b.nodes(), &t), of_quad(&q));
        let groups = |v: &[B]| {
            let mut g: HashMap<usize, Vec<usize>> = HashMap::new();
            for (i, b) in v.iter().enumerate() {
                g.entry(b.group).or_default().push(i);
            }
            let mut g: Vec<Vec<usize>> = g.into_values().filter(|g| g.len() > 1).collect();
            g.sort();
            g
        };
        let (bg, qg) = (groups(&bb), groups(&qb));
        let jb = Judge { boxes: &bb, groups: &bg, indices: b.indices(), n, quad: false };
        let jq = Judge { boxes: &qb, groups: &qg, indices: m.indices(), n, quad: true };
        let (lo, hi) = case.scene.bounds();
        let prims = &case.scene.tris;
        let rounds = (20_000 / (n + 40)).clamp(4, 40);
        for round in 0..rounds {
            let k = r.below(n);
            let p = if r.chance(0.8) { Some(inner_point(&mut r, &prims[k])) } else { None };
            let mut s = gen_ray(&mut r, lo, hi, p);
            let ext = (hi - lo).max_element().max(0.1);
            if round % 4 == 3 {
                s.t = r.uni(0.2, 2.0) * ext / s.d.length();
            }
            {
                for (name, _, y) in ends(&b, &m, &s, prims, true) {
                    match y {
                        Ok(y) => {
                            cx.count("yields", y.len() as u64);
                            if !jq.judge(cx, &format!("{} {name}", case.desc), &[s], &y) {
                                return;
                            }
                        }
                        Err(e) => {
                            cx.fail("traversal", format!("{} {name}: {e}", case.desc));
                            return;
                        }
                    }
                    // the front ends agree (C06): one is enough most of the time
                    if round % 5 != 0 {
                        break;
                    }
                }
                // the limit shrinks on the way
                let mut ray = s.ray();
                let mut y = vec![];
                let limit = cap(b.indices().len());
                for (p, ray) in m.traverse_iter(&mut ray, prims) {
                    y.push(pos_in(prims, p).unwrap_or(u32::MAX));
                    p.intersect(ray);
                    if y.len() > limit {
                        break;
                    }
                }
                cx.count("closest_hit_searches", 1);
                if !jq.judge(cx, &format!("{} closest hit", case.desc), &[s], &y) {
                    return;
                }
            }
            // four rays that stay close together
            let scale = ext * r.pick(&[1e-4f32, 1e-3, 1e-2, 0.1]);
            let four = [s, s, s, s].map(|x| RaySpec { o: x.o + r.unit() * scale, t: if r.chance(0.9) { x.t } else { x.t * 0.5 }, ..x });
            for (name, _, y) in ends4(&b, &m, &four, prims, false) {
                match y {
                    Ok(y) => {
                        if !jb.judge(cx, &format!("{} {name}", case.desc), &four, &y) {
                            return;
                        }
                    }
                    Err(e) => {
                        cx.fail("traversal", format!("{} {name}: {e}", case.desc));
                        return;
                    }
                }
                if round % 5 != 0 {
                    break;
                }
            }
        }
        cx.eval(case.hash(), n > 4);
        cx.sample(|| format!("{}: {} pairs of siblings, {} quads", case.desc, bg.len(), q.quads.len()));
    });
}
