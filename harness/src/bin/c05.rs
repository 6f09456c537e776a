//! C05: a quad BVH is a faithful re-encoding of its BVH.
use glam::Vec3;
use rtbvh::*;
use std::collections::HashMap;
use vh::{rng::*, run::*, scene::*, tree::*};

const PAD: f32 = 1e-3;

type LeafKey = (i32, i32, [u32; 6]);

fn bits(lo: Vec3, hi: Vec3) -> [u32; 6] {
    let f = |x: f32| (if x == 0.0 { 0.0f32 } else { x }).to_bits();
    [f(lo.x), f(lo.y), f(lo.z), f(hi.x), f(hi.y), f(hi.z)]
}

fn leaf_hash(first: i32, count: i32) -> u64 {
    mix((first as u64) << 32 ^ count as u64)
}

struct Src {
    leaves: Vec<LeafKey>,
    /// leaf-set hash of a node -> boxes of the nodes with exactly these leaves
    sets: HashMap<u64, Vec<[u32; 6]>>,
    mag: f32,
}

fn source(nodes: &[BvhNode], t: &Tree) -> Src {
    let mut h = vec![0u64; nodes.len()];
    let mut s = Src { leaves: vec![], sets: HashMap::new(), mag: 0.0 };
    for &i in t.order.iter().rev() {
        let n = &nodes[i];
        let b = bits(n.bounds.min, n.bounds.max);
        if is_leaf(n) {
            let c = n.get_count_unchecked();
            if c > 0 {
                h[i] = leaf_hash(n.get_left_first_unchecked(), c);
                s.leaves.push((n.get_left_first_unchecked(), c, b));
                s.mag = s.mag.max(n.bounds.min.abs().max_element()).max(n.bounds.max.abs().max_element());
            }
        } else {
            let l = left(n) as usize;
            h[i] = h[l].wrapping_add(h[l + 1]);
        }
        s.sets.entry(h[i]).or_default().push(b);
    }
    s.leaves.sort();
    s
}

/// Checks one quad structure; returns its hash up to quad numbering and lane order.
fn check(desc: &str, how: &str, bvh: &Bvh, src: &Src, m: &Mbvh, small_raw: bool) -> Result<(u64, u64, usize), (String, String)> {
    let e = |sig: &str, msg: String| Err((format!("{how}:{sig}"), format!("{desc} via {how}: {msg}")));
    // sources kept
    if raw(m.nodes(), m.indices()) != raw(bvh.nodes(), bvh.indices()) || m.nodes().len() != bvh.nodes().len() || m.indices() != bvh.indices() {
        return e("source-changed", "nodes or indices differ from the source's".into());
    }
    if m.prim_count() != bvh.prim_count() {
        return e("prim-count", format!("{} != {}", m.prim_count(), bvh.prim_count()));
    }
    let q = match walk_quad(m.quad_nodes(), m.indices()) {
        Ok(q) => q,
        Err(x) => return e("malformed", x),
    };
    let mut leaves: Vec<LeafKey> = vec![];
    for s in &q.slots {
        if s.count > 0 {
            leaves.push((s.child, s.count, bits(s.min, s.max)));
        }
    }
    leaves.sort();
    if leaves != src.leaves {
        let a: Vec<_> = leaves.iter().filter(|l| !src.leaves.contains(l)).take(2).collect();
        let b: Vec<_> = src.leaves.iter().filter(|l| !leaves.contains(l)).take(2).collect();
        return e("leaves", format!("{} leaf lanes, {} source leaves; only in quad {a:?}; only in source {b:?}", leaves.len(), src.leaves.len()));
    }
    // leaf sets and subtree boxes, bottom up (slots are in preorder of their parents)
    let ns = q.slots.len();
    let mut set = vec![0u64; ns];
    let mut can = vec![0u64; ns];
    let mut lo = vec![Vec3::splat(f32::INFINITY); ns];
    let mut hi = vec![Vec3::splat(f32::NEG_INFINITY); ns];
    let mut root = 0u64;
    let rnd = src.mag * 1e-6;
    for i in (0..ns).rev() {
        let s = &q.slots[i];
        if s.count > 0 {
            set[i] = leaf_hash(s.child, s.count);
            can[i] = mix(set[i] ^ 0x77);
            lo[i] = s.min;
            hi[i] = s.max;
        } else if s.count < 0 && set[i] == 0 && !small_raw {
            return e("empty-child", format!("quad {} lane {} leads to a quad without leaves", s.quad, s.lane));
        }
        if s.count == 0 {
            continue;
        }
        if s.count < 0 && set[i] != 0 {
            if !(s.min.cmple(lo[i] + PAD + rnd).all() && s.max.cmpge(hi[i] - PAD - rnd).all()) {
                return e("not-enclosing", format!("quad {} lane {} box {:?}..{:?} does not contain {:?}..{:?} below", s.quad, s.lane, s.min, s.max, lo[i], hi[i]));
            }
            let b = bits(s.min, s.max);
            if !src.sets.get(&set[i]).map_or(false, |v| v.contains(&b)) {
                return e("box", format!("quad {} lane {} box {:?}..{:?} is not that of the source node with the same leaves", s.quad, s.lane, s.min, s.max));
            }
            // its content hash was accumulated by the children
            can[i] = mix(can[i] ^ 0x99);
            for k in b {
                can[i] = mix(can[i] ^ k as u64);
            }
        }
        if s.parent >= 0 {
            let p = s.parent as usize;
            set[p] = set[p].wrapping_add(set[i]);
            can[p] = can[p].wrapping_add(can[i]);
            lo[p] = lo[p].min(lo[i]);
            hi[p] = hi[p].max(hi[i]);
        } else {
            root = root.wrapping_add(can[i]);
        }
    }
    let lh = leaves.iter().fold(0u64, |h, l| mix(h ^ leaf_hash(l.0, l.1)));
    Ok((root, lh, q.quads.len()))
}

fn go(cx: &mut Ctx, desc: &str, bvh: &Bvh) {
    let t = match walk(bvh.nodes(), bvh.indices()) {
        Ok(t) => t,
        Err(x) => {
            cx.fail("source-malformed", format!("{desc}: {x}"));
            return;
        }
    };
    let src = source(bvh.nodes(), &t);
    let before = raw(bvh.nodes(), bvh.indices());
    let a = Mbvh::construct(bvh);
    let b = Mbvh::from(bvh.clone());
    let c = Mbvh::construct_from_raw(bvh.nodes(), bvh.indices());
    if raw(bvh.nodes(), bvh.indices()) != before {
        cx.fail("source-modified", format!("{desc}: converting by reference changed the source"));
    }
    let small = bvh.nodes().len() <= 4;
    let mut res = vec![];
    for (how, m) in [("construct", &a), ("from", &b), ("from-raw", &c)] {
        match check(desc, how, bvh, &src, m, small && how == "from-raw") {
            Ok(x) => res.push(x),
            Err((s, m)) => {
                cx.fail(s, m);
                return;
            }
        }
        cx.count("quad_structures_checked", 1);
        cx.count("leaf_lanes_matched", src.leaves.len() as u64);
    }
    if res[0].0 != res[1].0 || res[0].1 != res[2].1 || (!small && res[0].0 != res[2].0) {
        cx.fail("disagree", format!("{desc}: the three ways of construction give different quad trees"));
    }
    // consuming accessors hand out the same data
    let (rq, ri) = a.clone().into_raw();
    if ri != a.indices() || rq.len() != a.quad_nodes().len() || a.clone().into_raw_indices() != ri || a.clone().into_raw_nodes().len() != rq.len() {
        cx.fail("into-raw", format!("{desc}: into_raw differs from the accessors"));
    }
    let (bn, bi) = bvh.clone().into_raw();
    if raw(&bn, &bi) != before || raw(&bvh.clone().into_raw_nodes(), &bvh.clone().into_raw_indices()) != before {
        cx.fail("into-raw", format!("{desc}: Bvh::into_raw differs from the accessors"));
    }
    cx.count("quads", res[0].2 as u64);
    cx.max("leaf_count", src.leaves.len() as u64);
}

fn main() {
    run("C05", 320, 3200, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        if idx == 0 {
            let e = Bvh::default();
            for (m, how) in [(Mbvh::construct(&e), "construct"), (Mbvh::from(e.clone()), "from")] {
                if !m.quad_nodes().is_empty() || !m.nodes().is_empty() || !m.indices().is_empty() {
                    cx.fail("empty", format!("quad BVH of an empty BVH via {how} is not empty"));
                }
            }
        }
        if mix(idx) % 4 == 3 {
            let sel = r.u64();
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let n = pick_n(&mut r, sel, 6000).min(if kind == Kind::Locb { 1500 } else { 6000 });
            let (name, prims) = box_scene(&mut r, n);
            let leaf = pick_leaf(&mut r);
            let desc = format!("{kind:?} {name} leaf={leaf:?}");
            match build_box(kind, &prims, None, leaf) {
                Ok(b) => {
                    go(cx, &desc, &b);
                    cx.eval(mix(hash_str(&desc) ^ idx), n > 2);
                }
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            return;
        }
        let case = std_case(&mut r, idx, if cx.thorough() { 40_000 } else { 12_000 });
        match case.build() {
            Ok(mut b) => {
                if r.chance(0.3) {
                    // also after a refit
                    let nb: Vec<Aabb> = case.eff().iter().map(|b| mk_aabb(b.min * 1.5, b.max * 1.5 + Vec3::splat(0.1))).collect();
                    b.refit(&nb);
                }
                go(cx, &case.desc, &b);
                cx.eval(case.hash(), case.scene.tris.len() > 2);
                cx.sample(|| format!("{}: {} nodes", case.desc, b.nodes().len()));
            }
            Err(e) => cx.fail("build-error", format!("{}: {e}", case.desc)),
        }
    });
}
