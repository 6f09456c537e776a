//! Structural monitors over the public view of built structures.
use crate::rng::*;
use glam::Vec3;
use rtbvh::*;

#[derive(Clone, Debug)]
pub struct Tree {
    /// reachable node ids in preorder
    pub order: Vec<usize>,
    pub parent: Vec<i64>,
    pub depth: Vec<u32>,
    pub leaves: Vec<usize>,
    pub max_depth: u32,
    pub refs: usize,
}

pub fn is_leaf(n: &BvhNode) -> bool {
    n.get_count_unchecked() >= 0
}
pub fn left(n: &BvhNode) -> i64 {
    n.get_left_first_unchecked() as i64
}

/// Walks the tree; an error describes how it is not a proper tree.
pub fn walk(nodes: &[BvhNode], indices: &[u32]) -> Result<Tree, String> {
    let mut t = Tree { order: vec![], parent: vec![-1; nodes.len()], depth: vec![0; nodes.len()], leaves: vec![], max_depth: 0, refs: 0 };
    if nodes.is_empty() {
        return Err("no nodes".into());
    }
    let mut seen = vec![false; nodes.len()];
    let mut slot = vec![false; indices.len()];
    let mut stack = vec![0usize];
    seen[0] = true;
    while let Some(i) = stack.pop() {
        let n = &nodes[i];
        t.order.push(i);
        t.max_depth = t.max_depth.max(t.depth[i]);
        let lf = left(n);
        if is_leaf(n) {
            let c = n.get_count_unchecked() as i64;
            if lf < 0 || lf + c > indices.len() as i64 {
                return Err(format!("leaf {i} has index range {lf}+{c} outside 0..{}", indices.len()));
            }
            for s in lf..lf + c {
                if std::mem::replace(&mut slot[s as usize], true) {
                    return Err(format!("index slot {s} belongs to two leaves (second: node {i})"));
                }
            }
            t.refs += c as usize;
            t.leaves.push(i);
        } else {
            if lf < 0 {
                return Err(format!("reachable node {i} is neither leaf nor interior"));
            }
            if lf + 1 >= nodes.len() as i64 {
                return Err(format!("node {i} has children {lf},{} outside 0..{}", lf + 1, nodes.len()));
            }
            for c in [lf as usize, lf as usize + 1] {
                if std::mem::replace(&mut seen[c], true) {
                    return Err(format!("node {c} is reached twice (second parent {i})"));
                }
                t.parent[c] = i as i64;
                t.depth[c] = t.depth[i] + 1;
                stack.push(c);
            }
        }
    }
    Ok(t)
}

pub fn leaf_range(n: &BvhNode) -> std::ops::Range<usize> {
    let l = left(n).max(0) as usize;
    l..l + n.get_count_unchecked().max(0) as usize
}

fn hb(b: &Aabb) -> u64 {
    let mut h = 3;
    for f in [b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z] {
        // -0.0 and 0.0 are the same box
        let f = if f == 0.0 { 0.0 } else { f };
        h = mix(h ^ f.to_bits() as u64);
    }
    h
}

/// Hash of the tree up to node numbering and order inside leaves.
pub fn canonical(nodes: &[BvhNode], indices: &[u32], t: &Tree) -> u64 {
    let mut h = vec![0u64; nodes.len()];
    for &i in t.order.iter().rev() {
        let n = &nodes[i];
        h[i] = if is_leaf(n) {
            let mut p: Vec<u32> = indices[leaf_range(n)].to_vec();
            p.sort_unstable();
            let mut x = 11u64;
            for q in p {
                x = mix(x ^ q as u64);
            }
            mix(x ^ hb(&n.bounds))
        } else {
            let l = left(n) as usize;
            // children are an unordered pair
            mix(h[l].wrapping_add(h[l + 1]) ^ hb(&n.bounds)) ^ 0x55
        };
    }
    h[0]
}

/// Shape hash: leaf contents and links, without boxes.
pub fn shape(nodes: &[BvhNode], indices: &[u32], t: &Tree) -> u64 {
    let mut h = vec![0u64; nodes.len()];
    for &i in t.order.iter().rev() {
        let n = &nodes[i];
        h[i] = if is_leaf(n) {
            let mut p: Vec<u32> = indices[leaf_range(n)].to_vec();
            p.sort_unstable();
            p.iter().fold(11u64, |x, q| mix(x ^ *q as u64))
        } else {
            let l = left(n) as usize;
            mix(h[l].wrapping_add(h[l + 1])) ^ 0x55
        };
    }
    h[0]
}

/// Bitwise hash of the raw representation (node numbering included).
pub fn raw(nodes: &[BvhNode], indices: &[u32]) -> u64 {
    let mut h = 5u64;
    for n in nodes {
        h = mix(h ^ hb(&n.bounds) ^ ((n.get_count_unchecked() as u32 as u64) << 32 | n.get_left_first_unchecked() as u32 as u64));
    }
    for i in indices {
        h = mix(h ^ *i as u64);
    }
    h
}

/// Node numbering only: which schedule produced this layout.
pub fn layout(nodes: &[BvhNode], t: &Tree) -> u64 {
    t.order.iter().fold(1u64, |h, &i| mix(h ^ (left(&nodes[i]) as u64)))
}

/// One child slot of a quad node.
#[derive(Clone, Copy, Debug)]
pub struct Slot {
    pub quad: usize,
    pub lane: usize,
    pub min: Vec3,
    pub max: Vec3,
    pub child: i32,
    pub count: i32,
    /// slot (index into QuadTree.slots) that leads to this quad, or -1 for the root quad
    pub parent: i64,
}

pub struct QuadTree {
    pub slots: Vec<Slot>,
    pub quads: Vec<usize>,
    pub max_depth: u32,
    pub refs: usize,
}

/// Walks a quad tree through its public accessors.
pub fn walk_quad(q: &[MbvhNode], indices: &[u32]) -> Result<QuadTree, String> {
    let mut t = QuadTree { slots: vec![], quads: vec![], max_depth: 0, refs: 0 };
    if q.is_empty() {
        return Err("no quad nodes".into());
    }
    let mut seen = vec![false; q.len()];
    let mut used = vec![false; indices.len()];
    seen[0] = true;
    let mut stack = vec![(0usize, -1i64, 0u32)];
    while let Some((i, par, d)) = stack.pop() {
        t.quads.push(i);
        t.max_depth = t.max_depth.max(d);
        let (nx, xx, ny, xy, nz, xz) = q[i].points();
        for l in 0..4 {
            let (child, count) = (q[i].children[l], q[i].counts[l]);
            let s = Slot {
                quad: i,
                lane: l,
                min: Vec3::new(nx[l], ny[l], nz[l]),
                max: Vec3::new(xx[l], xy[l], xz[l]),
                child,
                count,
                parent: par,
            };
            if count >= 0 {
                if child < 0 || child as i64 + count as i64 > indices.len() as i64 {
                    return Err(format!("quad {i} lane {l}: index range {child}+{count} outside 0..{}", indices.len()));
                }
                for k in child..child + count {
                    if std::mem::replace(&mut used[k as usize], true) {
                        return Err(format!("index slot {k} belongs to two quad lanes (second: quad {i} lane {l})"));
                    }
                }
                t.refs += count as usize;
                t.slots.push(s);
            } else if child >= 0 {
                if child as usize >= q.len() {
                    return Err(format!("quad {i} lane {l}: child quad {child} outside 0..{}", q.len()));
                }
                if std::mem::replace(&mut seen[child as usize], true) {
                    return Err(format!("quad {child} is reached twice (second: quad {i} lane {l})"));
                }
                t.slots.push(s);
                stack.push((child as usize, t.slots.len() as i64 - 1, d + 1));
            }
        }
    }
    Ok(t)
}
