//! C28: trees are of the promised quality.
use glam::Vec3;
use rtbvh::*;
use vh::{geo, rng::*, run::*, scene::*, tree::*};

fn area(b: &Aabb) -> f64 {
    let d = (geo::d(b.max) - geo::d(b.min)).max(glam::DVec3::ZERO);
    d.x * d.y + d.y * d.z + d.z * d.x
}

fn join(a: &Aabb, b: &Aabb) -> Aabb {
    mk_aabb(a.min.min(b.min), a.max.max(b.max))
}

/// expected nodes and primitives met by a random ray through the root: inner nodes, leaf primitives
fn cost(nodes: &[BvhNode], t: &Tree) -> (f64, f64) {
    let root = area(&nodes[0].bounds);
    let (mut inner, mut prims) = (0.0, 0.0);
    for &i in &t.order {
        let n = &nodes[i];
        if is_leaf(n) {
            prims += area(&n.bounds) * n.get_count_unchecked() as f64;
        } else {
            inner += area(&n.bounds);
        }
    }
    (inner / root, prims / root)
}

/// The tree a greedy builder makes that tries every split on every axis.
fn sweep(b: &[Aabb], c: &[Vec3], ids: &mut [u32], leaf: usize, right: &mut Vec<f64>, depth: usize) -> (f64, f64) {
    let all = ids.iter().fold(b[ids[0] as usize], |x, i| join(&x, &b[*i as usize]));
    let n = ids.len();
    let own = area(&all);
    if n == 1 || depth > 200 {
        return (0.0, own * n as f64);
    }
    let mut best = (f64::MAX, 0usize, 0usize);
    for axis in 0..3 {
        ids.sort_by(|x, y| c[*x as usize][axis].partial_cmp(&c[*y as usize][axis]).unwrap().then(x.cmp(y)));
        right.clear();
        right.resize(n, 0.0);
        let mut x = b[ids[n - 1] as usize];
        for k in (1..n).rev() {
            x = join(&x, &b[ids[k] as usize]);
            right[k] = area(&x) * (n - k) as f64;
        }
        let mut x = b[ids[0] as usize];
        for k in 1..n {
            x = join(&x, &b[ids[k - 1] as usize]);
            let s = area(&x) * k as f64 + right[k];
            if s < best.0 {
                best = (s, axis, k);
            }
        }
    }
    if n <= leaf && best.0 >= own * (n as f64 - 1.0) {
        return (0.0, own * n as f64);
    }
    let axis = best.1;
    ids.sort_by(|x, y| c[*x as usize][axis].partial_cmp(&c[*y as usize][axis]).unwrap().then(x.cmp(y)));
    let (l, r) = ids.split_at_mut(best.2);
    let p = sweep(b, c, l, leaf, right, depth + 1);
    let q = sweep(b, c, r, leaf, right, depth + 1);
    (own + p.0 + q.0, p.1 + q.1)
}

/// Scene kinds in which most primitives coincide, or contain one another.
const DEGENERATE: [&str; 5] = ["coincident", "duplicates", "deep-nested", "nested", "same-centres"];
/// Scene kinds with primitives of like size, spread evenly or in clusters.
const EVEN: [&str; 8] = ["uniform", "uniform-large", "small", "huge", "far-offset", "negative-octant", "clusters", "cluster-outlier"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Class {
    Even,
    Ordinary,
    Degenerate,
    Overlap,
}

/// How much of what the reference costs a tree may cost, in percent.
fn bound(kind: Kind, class: Class) -> f64 {
    match (kind, class) {
        (Kind::Spatial, Class::Even) => 105.0,
        (Kind::Spatial, Class::Ordinary) => 115.0,
        (Kind::Spatial, Class::Degenerate) => 200.0,
        (Kind::Spatial, Class::Overlap) => 88.0,
        (Kind::Binned, Class::Even) => 125.0,
        (Kind::Binned, Class::Ordinary) => 150.0,
        (Kind::Binned, _) => 275.0,
        (Kind::Locb, Class::Even) => 145.0,
        (Kind::Locb, Class::Ordinary) => 180.0,
        (Kind::Locb, Class::Degenerate) => 250.0,
        (Kind::Locb, Class::Overlap) => 110.0,
    }
}

fn main() {
    let print = std::env::var("C28_PRINT").is_ok();
    run("C28", 100, 1000, |cx| {
        let mut r = cx.rng();
        // scenes with much overlap that splitting references takes away
        let overlap = cx.idx % 5 == 4;
        let sk = if overlap { r.pick(&[9usize, 10, 22]) } else { (cx.idx / 5 * 4 + cx.idx % 5) as usize % N_KINDS };
        let n = match r.below(4) {
            _ if overlap => r.range(1500, 2500),
            0 => r.range(20, 100),
            1 => r.range(100, 500),
            2 if sk == 0 => r.range(10_000, 20_000),
            _ => r.range(500, 3000),
        };
        let n = cap_for(Kind::Locb, sk, n);
        let scene = tri_scene(&mut r, sk, n);
        let n = scene.tris.len();
        let name = scene.name.split('/').next().unwrap_or("").to_string();
        let src = r.pick(&[BoxSrc::None, BoxSrc::Exact, BoxSrc::Padded]);
        let aabbs = aabbs_for(src, &scene.tris, &mut r);
        let eff = effective(&aabbs, &scene.tris);
        let c: Vec<Vec3> = scene.tris.iter().map(|t| t.center()).collect();
        let leaf = r.pick(&[None, Some(1), Some(4), Some(16)]);
        let root = area(&Aabb::union_of_list(&eff));
        let mut ids: Vec<u32> = (0..n as u32).collect();
        let reference = sweep(&eff, &c, &mut ids, leaf.unwrap_or(1), &mut vec![], 0);
        let reference = (reference.0 + reference.1) / root;
        // areas that cannot be told from nothing have no meaningful ratio
        let small = scene.tris.iter().all(|t| area(&t.exact_aabb()) < 1e-9 * root);
        if !reference.is_finite() || reference <= 0.0 || !(1e-2..1e12).contains(&root) || (small && DEGENERATE.contains(&&name[..])) {
            cx.count("without_measure", 1);
            return;
        }
        let class = if overlap {
            Class::Overlap
        } else if DEGENERATE.contains(&&name[..]) {
            Class::Degenerate
        } else if EVEN.contains(&&name[..]) && n >= 100 {
            Class::Even
        } else {
            Class::Ordinary
        };
        for kind in KINDS {
            let desc = format!("{kind:?} {} aabbs={src:?} leaf={leaf:?}", scene.name);
            let b = match build_tri(kind, &scene.tris, aabbs.as_deref(), leaf) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("build", format!("{desc}: {e}"));
                    return;
                }
            };
            let t = match walk(b.nodes(), b.indices()) {
                Ok(t) => t,
                Err(e) => {
                    cx.fail("tree", format!("{desc}: {e}"));
                    return;
                }
            };
            let m = Mbvh::construct(&b);
            let q = match walk_quad(m.quad_nodes(), m.indices()) {
                Ok(q) => q,
                Err(e) => {
                    cx.fail("quad-tree", format!("{desc}: {e}"));
                    return;
                }
            };
            let x = cost(b.nodes(), &t);
            let ratio = 100.0 * (x.0 + x.1) / reference;
            cx.count("trees_measured", 1);
            cx.max(&format!("percent_of_reference_{kind:?}_{class:?}"), ratio as u64);
            if cx.verbose {
                eprintln!("{desc}: {ratio:.1}% of the reference");
            }
            if print {
                eprintln!("Q {name} {n} {kind:?} {src:?} {leaf:?} {overlap} {ratio:.2} {:.4}", q.quads.len() as f64 / (t.order.len() - t.leaves.len()).max(1) as f64);
            }
            cx.count(&format!("trees_measured_{class:?}"), 1);
            let limit = bound(kind, class);
            if ratio > limit {
                cx.fail(format!("{kind:?}:cost"), format!("{desc}: the tree costs {ratio:.0}% of what a greedy full sweep gives ({:.2} inner nodes and {:.2} primitives per ray), more than {limit}%", x.0, x.1));
                return;
            }
            // collapsing
            let inner = t.order.len() - t.leaves.len();
            let even = t.order.iter().filter(|&&i| !is_leaf(&b.nodes()[i]) && t.depth[i] % 2 == 0).count().max(1);
            if q.quads.len() > even {
                cx.fail("quads", format!("{desc}: {} quad nodes for {inner} inner nodes, {even} of them at even depth", q.quads.len()));
                return;
            }
            let qcost: f64 = 1.0 + q.slots.iter().filter(|s| s.count < 0).map(|s| area(&mk_aabb(s.min, s.max))).sum::<f64>() / area(&b.nodes()[0].bounds);
            let qr = 100.0 * qcost / x.0.max(1.0);
            cx.max("percent_quads_of_inner_nodes_met", qr as u64);
            if inner > 0 && qr > 101.0 {
                cx.fail("quad-cost", format!("{desc}: a ray meets {qcost:.2} quad nodes, {:.2} inner nodes", x.0));
                return;
            }
        }
        cx.eval(mix(scene.hash() ^ leaf.unwrap_or(0) as u64), true);
        cx.sample(|| format!("{} aabbs={src:?} leaf={leaf:?}: reference {reference:.2}", scene.name));
    });
}
