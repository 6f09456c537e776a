//! C35: validate() accepts exactly the trees that reference every primitive.
use ciborium::Value;
use glam::Vec3;
use rtbvh::*;
use vh::{rays::*, rng::*, run::*, scene::*};

/// Replaces the part of a saved structure that looks like `old` (its nodes, its indices).
fn swap_part(v: &mut Value, old: &Value, new: &Value) -> bool {
    if v == old {
        *v = new.clone();
        return true;
    }
    match v {
        Value::Map(m) => m.iter_mut().any(|(_, x)| swap_part(x, old, new)),
        Value::Array(a) => a.iter_mut().any(|x| swap_part(x, old, new)),
        _ => false,
    }
}

fn edited(b: &Bvh, nodes: &[BvhNode], idx: &[u32]) -> Result<Bvh, String> {
    let val = |x: Result<Value, ciborium::value::Error>| x.map_err(|e| e.to_string());
    let mut v = val(Value::serialized(b))?;
    for (old, new) in [
        (val(Value::serialized(b.nodes()))?, val(Value::serialized(nodes))?),
        (val(Value::serialized(b.indices()))?, val(Value::serialized(idx))?),
    ] {
        if !swap_part(&mut v, &old, &new) {
            return Err("saved form holds neither nodes nor indices".into());
        }
    }
    v.deserialized().map_err(|e| e.to_string())
}

/// References below the root, as the format defines them; None for loops and links to nowhere.
fn refs(nodes: &[BvhNode], idx: &[u32]) -> Option<Vec<u32>> {
    let (mut out, mut todo, mut steps) = (vec![], vec![0u32], 0);
    while let Some(i) = todo.pop() {
        steps += 1;
        if steps > 4 * nodes.len() + 10 {
            return None;
        }
        let n = nodes.get(i as usize)?;
        let Some(l) = n.get_left_first() else { continue };
        match n.get_count() {
            Some(c) => out.extend_from_slice(idx.get(l as usize..(l + c) as usize)?),
            None => {
                todo.push(l);
                todo.push(l + 1);
            }
        }
    }
    Some(out)
}

fn main() {
    run("C35", 100, 1000, |cx| {
        let mut r = cx.rng();
        let tiny = cx.stage == "miri";
        let n = if tiny { r.range(1, 12) } else { r.pick(&[1usize, 2, 3, 8, 30, 30, 120, 500]) };
        let kind = r.pick(&KINDS);
        let sk = r.below(N_KINDS);
        let tris = tri_scene(&mut r, sk, n.min(cap_for(kind, sk, n))).tris;
        let n = tris.len();
        let leaf = pick_leaf(&mut r);
        let b = match build_tri(kind, &tris, None, leaf) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build", format!("{kind:?}: {e}"));
                return;
            }
        };
        let everywhere = mk_aabb(Vec3::splat(-1e4), Vec3::splat(1e4));
        let mut nodes: Vec<BvhNode> = b.nodes().to_vec();
        // every ray meets every node
        for x in nodes.iter_mut() {
            x.bounds.min = everywhere.min;
            x.bounds.max = everywhere.max;
        }
        let mut idx = b.indices().to_vec();
        let mut done = vec![];
        let mut deep = false;
        if r.chance(if tiny { 0.2 } else { 0.015 }) {
            // a chain of leaves, deeper than any recursion on a small stack could follow
            let depth = if tiny { 40 } else { r.range(2000, 30_000) };
            let mut at = BvhNode::new();
            at.bounds = nodes[0].bounds;
            nodes = vec![at.clone(); 2 * depth + 1];
            for k in 0..depth {
                let leaf = at.clone().with_left_first(Some((k % n) as u32)).with_count(Some(1));
                let inner = at.clone().with_left_first(Some(2 * k as u32 + 3)).with_count(None);
                let (a, b) = if k % 3 == 0 { (leaf, inner) } else { (inner, leaf) };
                if k == 0 {
                    nodes[0] = at.clone().with_left_first(Some(1)).with_count(None);
                }
                nodes[2 * k + 1] = a;
                nodes[2 * k + 2] = b;
                // links go to the inner one of the pair
            }
            // the last inner node is a leaf after all
            for k in 0..depth {
                for s in 1..3 {
                    if nodes[2 * k + s].get_count().is_none() && k + 1 == depth {
                        nodes[2 * k + s] = at.clone().with_left_first(Some(0)).with_count(Some(n as u32));
                    }
                }
            }
            idx = (0..n as u32).collect();
            done.push(format!("a chain of {depth}"));
            deep = true;
        }
        for _ in 0..r.below(5) {
            let leaves: Vec<usize> = (0..nodes.len()).filter(|&i| nodes[i].is_leaf() && nodes[i].get_left_first().is_some()).collect();
            if leaves.is_empty() {
                break;
            }
            let l = r.pick(&leaves);
            let before = (nodes.clone(), idx.clone());
            let what = match r.below(8) {
                0 => {
                    let j = r.below(idx.len());
                    idx[j] = r.below(n) as u32;
                    format!("index {j} = {}", idx[j])
                }
                1 => {
                    let (i, j) = (r.below(idx.len()), r.below(idx.len()));
                    idx.swap(i, j);
                    format!("indices {i} and {j} exchanged")
                }
                2 => {
                    let c = nodes[l].get_count().unwrap();
                    nodes[l].set_count(Some(r.below(c as usize + 1) as u32));
                    format!("leaf {l} of {c} cut to {:?}", nodes[l].get_count())
                }
                3 => {
                    nodes[l].set_left_first(None);
                    nodes[l].set_count(None);
                    format!("leaf {l} emptied")
                }
                4 => {
                    let m = r.pick(&leaves);
                    let (x, y) = (nodes[l].get_left_first(), nodes[l].get_count());
                    let (a, b) = (nodes[m].get_left_first(), nodes[m].get_count());
                    nodes[l] = nodes[l].clone().with_left_first(a).with_count(b);
                    nodes[m] = nodes[m].clone().with_left_first(x).with_count(y);
                    format!("leaves {l} and {m} exchanged")
                }
                5 => {
                    let i = r.below(nodes.len());
                    let f = r.below(idx.len());
                    let c = r.below(idx.len() - f + 1);
                    nodes[i] = nodes[i].clone().with_left_first(Some(f as u32)).with_count(Some(c as u32));
                    format!("node {i} a leaf of {c} from {f}")
                }
                6 => {
                    let j = r.below(idx.len());
                    idx.push(idx[j]);
                    let at = idx.len() as u32 - 1;
                    nodes[l] = nodes[l].clone().with_left_first(Some(at)).with_count(Some(1));
                    format!("leaf {l} now holds {} only, at the end", idx[at as usize])
                }
                _ => {
                    // an inner node takes the children of another one
                    let inner: Vec<usize> = (0..nodes.len()).filter(|&i| nodes[i].has_children()).collect();
                    if inner.len() < 2 {
                        continue;
                    }
                    let (i, j) = (r.pick(&inner), r.pick(&inner));
                    nodes[i] = nodes[i].clone().with_left_first(nodes[j].get_left_first());
                    format!("node {i} linked to the children of {j}")
                }
            };
            if nodes[0].get_left_first().is_none() || refs(&nodes, &idx).is_none() {
                (nodes, idx) = before; // a loop
                continue;
            }
            done.push(what);
        }
        let Some(mut want) = refs(&nodes, &idx) else {
            return;
        };
        let mut there = vec![false; n];
        for &i in &want {
            there[i as usize] = true;
        }
        let full = there.iter().all(|x| *x);
        let desc = format!("{kind:?} of {n}, {}", done.join(", "));
        let e = match edited(&b, &nodes, &idx) {
            Ok(e) => e,
            Err(e) => {
                cx.fail("load", format!("{desc}: {e}"));
                return;
            }
        };
        // prim_count() is what the structure was built for; nothing to judge there
        let ask = |e: &Bvh, m: usize| {
            if !deep {
                return Some(e.validate(m));
            }
            let e = e.clone();
            std::thread::Builder::new().stack_size(96 * 1024).spawn(move || e.validate(m)).ok()?.join().ok()
        };
        let got = ask(&e, n);
        cx.count(if full { "complete_trees" } else { "incomplete_trees" }, 1);
        if got != Some(full) {
            let lost = there.iter().position(|x| !x);
            cx.fail("verdict", format!("{desc}: validate() gives {got:?}, primitive {lost:?} is not referenced"));
            return;
        }
        if ask(&e, n + 1 + r.below(9)) == Some(true) {
            cx.fail("more", format!("{desc}: validate() accepts the tree for more primitives"));
            return;
        }
        if e.nodes().len() != nodes.len() || e.indices() != idx {
            cx.fail("changed", format!("{desc}: loading or validating changed the tree"));
            return;
        }
        if deep {
            cx.count("deep_chains", 1);
        }
        // and the traversals go where the tree leads
        want.sort_unstable();
        let mut s = gen_ray(&mut r, Vec3::splat(-5.0), Vec3::splat(5.0), None);
        s.o = s.o.clamp(Vec3::splat(-100.0), Vec3::splat(100.0));
        s.t = 1e34;
        s.tmin = 1e-4;
        if !(s.d.is_finite() && s.d.length() > 1e-3) {
            s.d = Vec3::new(0.3, -0.5, 1.0);
        }
        let m = Mbvh::construct(&e);
        // up to four nodes share one quad there, reachable or not
        let raw = (nodes.len() > 4).then(|| Mbvh::construct_from_raw(&nodes, &idx));
        let cap = want.len() + 1;
        for way in 0..6 {
            let mut ray = s.ray();
            let mut p = packet_of(&[s, s, s, s]);
            let mut y: Vec<u32> = match way {
                4 | 5 if raw.is_none() => continue,
                4 => raw.as_ref().unwrap().traverse_iter_indices(&mut ray).map(|x| x.0).take(cap).collect(),
                5 => raw.as_ref().unwrap().traverse_iter_indices_packet(&mut p).map(|x| x.0).take(cap).collect(),
                0 => e.traverse_iter_indices(&mut ray).map(|x| x.0).take(cap).collect(),
                1 => m.traverse_iter_indices(&mut ray).map(|x| x.0).take(cap).collect(),
                2 => e.traverse_iter_indices_packet(&mut p).map(|x| x.0).take(cap).collect(),
                _ => m.traverse_iter_indices_packet(&mut p).map(|x| x.0).take(cap).collect(),
            };
            y.sort_unstable();
            if y != want {
                cx.fail(
                    format!("{}:yields", ["bvh", "quad", "bvh-packet", "quad-packet", "raw-quad", "raw-quad-packet"][way]),
                    format!("{desc}: {s:?} meets every box, yet {} references come out of {}", y.len(), want.len()),
                );
                return;
            }
            cx.count("traversals", 1);
        }
        // refitting follows the links as well, as long as children come after their parents
        if (0..nodes.len()).all(|i| !nodes[i].has_children() || nodes[i].get_left_first().unwrap() as usize > i) {
            let boxes: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
            let mut f = e;
            f.refit(&boxes);
            let mut below = vec![Aabb::empty(); nodes.len()];
            for i in (0..nodes.len()).rev() {
                let Some(l) = nodes[i].get_left_first().map(|l| l as usize) else { continue };
                let mut bb: Aabb = Aabb::empty();
                match nodes[i].get_count() {
                    Some(c) => {
                        for &p in &idx[l..l + c as usize] {
                            bb.grow_bb(&boxes[p as usize]);
                        }
                    }
                    None => {
                        bb.grow_bb(&below[l]);
                        bb.grow_bb(&below[l + 1]);
                    }
                }
                below[i] = bb;
                let got = &f.nodes()[i].bounds;
                if bb.is_valid() && !(got.min.cmple(bb.min) & got.max.cmpge(bb.max)).all() {
                    cx.fail("refit", format!("{desc}: node {i} is {got} after refitting, below it is {bb}"));
                    return;
                }
                if f.nodes()[i].get_left_first() != nodes[i].get_left_first() || f.nodes()[i].get_count() != nodes[i].get_count() {
                    cx.fail("refit-links", format!("{desc}: node {i} has other links after refitting"));
                    return;
                }
            }
            cx.count("refits", 1);
        }
        cx.max("edits", done.len() as u64);
        cx.eval(done.iter().flat_map(|d| d.bytes()).fold(n as u64 + cx.idx * 31, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)), !done.is_empty());
        cx.sample(|| format!("{desc}: {}", if full { "complete" } else { "incomplete" }));
    });
}
