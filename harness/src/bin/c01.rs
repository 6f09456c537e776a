//! C01: built trees are proper trees that reference every primitive.
use rtbvh::*;
use vh::{rng::*, run::*, scene::*, tree::*};

fn check(cx: &mut Ctx, desc: &str, kind: Kind, n: usize, bvh: &Bvh) -> Option<Tree> {
    let t = match walk(bvh.nodes(), bvh.indices()) {
        Ok(t) => t,
        Err(e) => {
            cx.fail(format!("{kind:?}:malformed"), format!("{desc}: {e}"));
            return None;
        }
    };
    let mut refs = vec![0u32; n];
    for &l in &t.leaves {
        for s in leaf_range(&bvh.nodes()[l]) {
            let p = bvh.indices()[s] as usize;
            if p >= n {
                cx.fail(format!("{kind:?}:bad-id"), format!("{desc}: leaf {l} references primitive {p} of {n}"));
                return None;
            }
            refs[p] += 1;
        }
    }
    for (p, c) in refs.iter().enumerate() {
        if *c == 0 {
            cx.fail(format!("{kind:?}:lost"), format!("{desc}: primitive {p} is in no leaf"));
            return None;
        }
        if *c > 1 && kind != Kind::Spatial {
            cx.fail(format!("{kind:?}:dup"), format!("{desc}: primitive {p} is referenced {c} times"));
            return None;
        }
    }
    if bvh.indices().len() != t.refs {
        cx.fail(format!("{kind:?}:index-count"), format!("{desc}: {} indices but {} leaf references", bvh.indices().len(), t.refs));
    }
    if bvh.prim_count() != bvh.indices().len() {
        cx.fail(format!("{kind:?}:prim-count"), format!("{desc}: prim_count {} != {}", bvh.prim_count(), bvh.indices().len()));
    }
    if kind == Kind::Spatial && t.refs as f64 > 1.75 * n as f64 {
        cx.fail("Spatial:too-many-refs", format!("{desc}: {} references for {n} primitives", t.refs));
    }
    let want = match kind {
        Kind::Locb => BuildType::LocallyOrderedClustered,
        Kind::Binned => BuildType::BinnedSAH,
        Kind::Spatial => BuildType::Spatial,
    };
    if bvh.build_type() != want {
        cx.fail(format!("{kind:?}:build-type"), format!("{desc}: {:?}", bvh.build_type()));
    }
    if bvh.validate(n + 1) {
        cx.fail(format!("{kind:?}:validate-more"), format!("{desc}: validate() accepts the tree for one primitive more"));
        return None;
    }
    if !bvh.validate(n) {
        cx.fail(format!("{kind:?}:validate"), format!("{desc}: validate() rejects the tree"));
    }
    let dup = t.refs - n;
    cx.count("references", t.refs as u64);
    cx.count("duplicate_references", dup as u64);
    cx.count("reachable_nodes", t.order.len() as u64);
    cx.max("depth", t.max_depth as u64);
    Some(t)
}

fn main() {
    run("C01", 240, 2400, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        if idx % 5 == 4 {
            let sel = r.u64();
            let n = pick_n(&mut r, sel, 30_000).min(if cx.thorough() { 30_000 } else { 8000 });
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let (name, prims) = box_scene(&mut r, n.min(if kind == Kind::Locb { 1500 } else { n }));
            let n = prims.len();
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let leaf = pick_leaf(&mut r);
            let some = r.chance(0.5);
            let desc = format!("{kind:?} {name} leaf={leaf:?} aabbs={some}");
            match build_box(kind, &prims, if some { Some(&boxes) } else { None }, leaf) {
                Ok(b) => {
                    check(cx, &desc, kind, n, &b);
                    cx.eval(mix(hash_str(&desc) ^ idx), n > 2);
                }
                Err(e) => cx.fail("build-error", format!("{desc}: {e}")),
            }
            return;
        }
        let case = std_case(&mut r, idx - idx / 5, 70_000);
        let n = case.scene.tris.len();
        match case.build() {
            Ok(b) => {
                if let Some(t) = check(cx, &case.desc, case.kind, n, &b) {
                    cx.seen("distinct_trees", shape(b.nodes(), b.indices(), &t));
                    cx.count(&format!("builds_{:?}", case.kind), 1);
                }
                cx.eval(case.hash(), n > 2);
                cx.sample(|| format!("{}: nodes {}, indices {}", case.desc, b.nodes().len(), b.indices().len()));
            }
            Err(e) => cx.fail("build-error", format!("{}: {e}", case.desc)),
        }
    });
}
