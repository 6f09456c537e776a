//! C11: leaves respect the requested maximum size; SAH depth is bounded.
use rtbvh::*;
use vh::{rng::*, run::*, scene::*, tree::*};

fn check(cx: &mut Ctx, desc: &str, kind: Kind, leaf: Option<usize>, b: &Bvh) {
    let t = match walk(b.nodes(), b.indices()) {
        Ok(t) => t,
        Err(e) => {
            cx.fail(format!("{kind:?}:malformed"), format!("{desc}: {e}"));
            return;
        }
    };
    let lim = match (leaf, kind) {
        (Some(l), _) => l,
        (None, Kind::Locb) => usize::MAX,
        (None, _) => 1,
    };
    let mut at_limit = 0;
    for &i in &t.leaves {
        let c = leaf_range(&b.nodes()[i]).len();
        if c > lim {
            if kind != Kind::Locb && t.depth[i] >= 64 {
                at_limit += 1;
                continue;
            }
            cx.fail(format!("{kind:?}:leaf-size"), format!("{desc}: leaf {i} at depth {} references {c} primitives", t.depth[i]));
            return;
        }
        if c == 0 {
            cx.count("empty_leaves", 1);
        }
        cx.max("leaf", c as u64);
    }
    if kind != Kind::Locb && t.max_depth > 64 {
        cx.fail(format!("{kind:?}:depth"), format!("{desc}: depth {}", t.max_depth));
        return;
    }
    cx.count("leaves", t.leaves.len() as u64);
    cx.count("leaves_at_depth_limit", at_limit);
    cx.max(&format!("depth_{kind:?}"), t.max_depth as u64);
    if leaf.is_some() {
        cx.count("trees_with_requested_size", 1);
    }
}

/// A triangle whose centre is chosen independently of it.
#[derive(Debug)]
struct CTri {
    t: Tri,
    c: glam::Vec3,
}
impl Primitive for CTri {
    fn center(&self) -> glam::Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        self.t.exact_aabb()
    }
}
impl SpatialTriangle for CTri {
    fn vertex0(&self) -> glam::Vec3 {
        self.t.v[0]
    }
    fn vertex1(&self) -> glam::Vec3 {
        self.t.v[1]
    }
    fn vertex2(&self) -> glam::Vec3 {
        self.t.v[2]
    }
}

/// Inputs for which splitting off a single primitive is always the cheapest
/// choice: slivers on alternating sides, each a little shorter than the last.
fn peel(r: &mut Rng, n: usize) -> Vec<CTri> {
    let rho = 1.0 + r.uni(0.5, 3.0) / (n * n) as f32;
    let y = r.uni(50.0, 200.0);
    let (a, b, z) = r.pick(&[(0usize, 1usize, 2usize), (1, 2, 0), (2, 0, 1)]);
    let first = r.uni(60.0, 100.0);
    (0..n)
        .map(|k| {
            let x = first / rho.powi(k as i32);
            let s = if k % 2 == 0 { y } else { -y };
            let mut v = [glam::Vec3::ZERO; 3];
            for w in v.iter_mut() {
                w[b] = s;
            }
            v[1][a] = x;
            v[2][a] = x;
            v[2][z] = 1e-4;
            let mut c = glam::Vec3::ZERO;
            // just inside the last bin of the node that starts with this primitive
            c[a] = x * (1.0 - 1.0 / 16.0 + 0.5 * (rho - 1.0));
            CTri { t: Tri { v }, c }
        })
        .collect()
}

fn main() {
    run("C11", 300, 3000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let kind = KINDS[(idx % 3) as usize];
        if idx % 13 == 7 {
            // every small size with every builder, limit and source of boxes
            for n in 1..=8 {
                let sk = r.below(N_KINDS);
                let mut tris = tri_scene(&mut r, sk, n).tris;
                tris.truncate(n);
                let boxes: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
                for kind in KINDS {
                    for leaf in [None, Some(1), Some(2), Some(3), Some(4)] {
                        for some in [false, true] {
                            let desc = format!("{kind:?} small scene {sk} n={} leaf={leaf:?} aabbs={some}", tris.len());
                            match build_tri(kind, &tris, if some { Some(&boxes) } else { None }, leaf) {
                                Ok(b) => check(cx, &desc, kind, leaf, &b),
                                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
                            }
                            cx.count("small_trees", 1);
                        }
                    }
                }
            }
            cx.eval(mix(idx), true);
            return;
        }
        if idx % 13 == 9 {
            // deeper than the depth limit unless it is respected
            let n = r.range(40, 130);
            let kind = if r.chance(0.5) { Kind::Spatial } else { Kind::Binned };
            let prims = peel(&mut r, n);
            let boxes: Vec<Aabb> = prims.iter().map(|t| t.aabb()).collect();
            let leaf = r.pick(&[None, Some(1), Some(2), Some(3)]);
            let desc = format!("{kind:?} peeling n={n} leaf={leaf:?}");
            match build(kind, &prims, Some(&boxes), leaf) {
                Ok(b) => {
                    check(cx, &desc, kind, leaf, &b);
                    if let Ok(t) = walk(b.nodes(), b.indices()) {
                        if t.max_depth >= 60 {
                            cx.count(&format!("deep_peeled_trees_{kind:?}"), 1);
                        }
                    }
                }
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            cx.eval(mix(hash_str(&desc) ^ idx), true);
            return;
        }
        if idx % 13 == 8 {
            // so large that every cost overflows and no split is ever the best
            let kind = if r.chance(0.7) { Kind::Spatial } else { Kind::Binned };
            let top = 10f32.powf(r.uni(17.0, 30.0));
            let n = r.range(2, 200);
            let mut tris: Vec<Tri> = (0..n)
                .map(|_| {
                    let c = r.vec3(-top, top);
                    let s = if r.chance(0.5) { top } else { top * 1e-3 };
                    Tri::new(c, c + r.vec3(-s, s), c + r.vec3(-s, s))
                })
                .collect();
            if r.chance(0.3) {
                let t = tris[0];
                tris.iter_mut().for_each(|x| *x = t);
            }
            let boxes: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
            let leaf = r.pick(&[None, Some(1), Some(2), Some(4)]);
            let desc = format!("{kind:?} overflowing {top} x{n} leaf={leaf:?}");
            match build_tri(kind, &tris, Some(&boxes), leaf) {
                Ok(b) => check(cx, &desc, kind, leaf, &b),
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            cx.count("overflowing_trees", 1);
            cx.eval(mix(hash_str(&desc) ^ idx), n > leaf.unwrap_or(1));
            return;
        }
        if idx % 4 == 3 && kind != Kind::Spatial {
            let mut n = r.range(1, 3000);
            if kind == Kind::Locb {
                n = n.min(1200);
            }
            let (name, mut prims) = box_scene(&mut r, n);
            if r.chance(0.3) {
                // centres that cannot be separated, or only exponentially
                let m = r.below(5);
                let c = r.vec3(-1.0, 1.0);
                let ratio = r.uni(2.0, 5.0);
                let big = 10f32.powf(r.uni(0.0, 4.0));
                let steps = r.range(30, 120);
                for (i, p) in prims.iter_mut().enumerate() {
                    p.c = match m {
                        0 => c,
                        1 => c * 2f32.powi(-((i % 40) as i32)),
                        // as deep as floats go: exponentially shrinking distances
                        2 | 3 => {
                            let mut x = big / ratio.powi((i % steps) as i32);
                            if x < 1e-37 {
                                x = 0.0;
                            }
                            let mut v = glam::Vec3::ZERO;
                            v[m - 2] = x;
                            let mut e = glam::Vec3::splat(if steps % 2 == 0 { x * 0.1 } else { 1e-10 });
                            e[m - 2] = x * 0.1;
                            p.bb = mk_aabb(v, v + e);
                            v
                        }
                        _ => {
                            if i == 0 {
                                c + glam::Vec3::ONE
                            } else {
                                c
                            }
                        }
                    };
                }
            }
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let leaf = pick_leaf(&mut r).or(if r.chance(0.5) { Some(r.range(1, 9)) } else { None });
            let some = r.chance(0.5);
            let desc = format!("{kind:?} {name} leaf={leaf:?} aabbs={some}");
            match build_box(kind, &prims, if some { Some(&boxes) } else { None }, leaf) {
                Ok(b) => check(cx, &desc, kind, leaf, &b),
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            cx.eval(mix(hash_str(&desc) ^ idx), n > leaf.unwrap_or(1));
            return;
        }
        if idx % 4 == 2 && kind != Kind::Locb {
            // exponentially growing distances: as deep as floats allow
            let ratio = r.uni(1.05, 9.0);
            let top = 10f32.powf(if r.chance(0.7) { r.uni(15.0, 36.0) } else { r.uni(0.0, 4.0) });
            let k = r.range(40, 200);
            let dup = r.pick(&[1usize, 1, 1, 2, 3, 20]);
            let axis = r.below(3);
            let thin = r.pick(&[0.0f32, 1e-6, 0.01]);
            let mut tris = vec![];
            let mut x = top;
            for _ in 0..k {
                for _ in 0..dup {
                    let mut v = glam::Vec3::ZERO;
                    v[axis] = x;
                    let mut e = glam::Vec3::ZERO;
                    e[(axis + 1) % 3] = thin;
                    let mut f = glam::Vec3::ZERO;
                    f[axis] = x * 0.01;
                    tris.push(Tri::new(v, v + e, v + f));
                }
                x /= ratio;
                if x < 1e-6 {
                    x = 0.0;
                }
            }
            let n = tris.len();
            let boxes: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
            let leaf = r.pick(&[None, Some(1), Some(2), Some(4)]);
            let desc = format!("{kind:?} exponential ratio {ratio} from {top} x{k} dup {dup} thin {thin} leaf={leaf:?}");
            match build_tri(kind, &tris, Some(&boxes), leaf) {
                Ok(b) => check(cx, &desc, kind, leaf, &b),
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            cx.eval(mix(hash_str(&desc) ^ idx), n > leaf.unwrap_or(1));
            return;
        }
        // scene kinds that force the fallbacks more often
        let sk = if r.chance(0.4) { r.pick(&[5usize, 6, 8, 14, 16, 17, 22, 25]) } else { r.below(N_KINDS) };
        let sel = r.u64();
        let n = pick_n(&mut r, sel, if cx.thorough() { 70_000 } else { 12_000 });
        let n = cap_for(kind, sk, n);
        let mut case = case_of(&mut r, kind, sk, n);
        if r.chance(0.6) {
            case.leaf = Some(r.range(1, 12));
            case.desc = format!("{} (leaf={:?})", case.desc, case.leaf);
        }
        let n = case.scene.tris.len();
        match case.build() {
            Ok(b) => check(cx, &case.desc, kind, case.leaf, &b),
            Err(e) => cx.fail("build-error", format!("{}: {e}", case.desc)),
        }
        cx.eval(case.hash() ^ idx, n > case.leaf.unwrap_or(1));
        cx.sample(|| case.desc.clone());
    });
}
