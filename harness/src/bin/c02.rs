//! C02: node bounds enclose everything below them and are tight.
use glam::{DVec3, Vec3};
use rtbvh::*;
use vh::{geo::*, rng::*, run::*, scene::*, tree::*};

const PAD: f32 = 1e-3;

fn inside(p: DVec3, lo: Vec3, hi: Vec3, tol: f64) -> bool {
    let (lo, hi) = (d(lo), d(hi));
    (0..3).all(|k| p[k] >= lo[k] - tol && p[k] <= hi[k] + tol)
}

/// Everything that holds for any builder; `eff` are the boxes the builder was given.
fn check(cx: &mut Ctx, desc: &str, kind: Kind, bvh: &Bvh, eff: &[Aabb], tris: Option<&[Tri]>, r: &mut Rng) {
    let (nodes, idx) = (bvh.nodes(), bvh.indices());
    let t = match walk(nodes, idx) {
        Ok(t) => t,
        Err(e) => {
            // C01's business; this monitor needs a tree to look at
            cx.fail(format!("{kind:?}:malformed"), format!("{desc}: {e}"));
            return;
        }
    };
    let mut lo = vec![Vec3::splat(f32::INFINITY); nodes.len()];
    let mut hi = vec![Vec3::splat(f32::NEG_INFINITY); nodes.len()];
    let mut mag = 0f32;
    for b in eff {
        mag = mag.max(b.min.abs().max_element()).max(b.max.abs().max_element());
    }
    let rnd = mag * 1e-6;
    for &i in t.order.iter().rev() {
        let n = &nodes[i];
        if is_leaf(n) {
            for s in leaf_range(n) {
                let b = match eff.get(idx[s] as usize) {
                    Some(b) => b,
                    None => {
                        cx.fail(format!("{kind:?}:bad-id"), format!("{desc}: leaf {i} references {}", idx[s]));
                        return;
                    }
                };
                lo[i] = lo[i].min(b.min);
                hi[i] = hi[i].max(b.max);
            }
        } else {
            let l = left(n) as usize;
            lo[i] = lo[l].min(lo[l + 1]);
            hi[i] = hi[l].max(hi[l + 1]);
        }
        let b = &n.bounds;
        let empty = lo[i].x > hi[i].x;
        if empty {
            cx.count("empty_subtrees", 1);
            continue;
        }
        // containment of the primitives' boxes: exact for object-split builders
        if !b.min.cmple(b.max).all() {
            cx.fail(format!("{kind:?}:inverted"), format!("{desc}: node {i} (depth {}, leaf {}) has the reversed box {:?}..{:?}", t.depth[i], is_leaf(n), b.min, b.max));
            return;
        }
        if kind != Kind::Spatial && !(b.min.cmple(lo[i]).all() && b.max.cmpge(hi[i]).all()) {
            cx.fail(format!("{kind:?}:not-enclosing"), format!("{desc}: node {i} (depth {}, leaf {}) box {:?}..{:?} does not contain {:?}..{:?}", t.depth[i], is_leaf(n), b.min, b.max, lo[i], hi[i]));
            return;
        }
        if !(b.min.cmpge(lo[i] - PAD - rnd).all() && b.max.cmple(hi[i] + PAD + rnd).all()) {
            cx.fail(format!("{kind:?}:not-tight"), format!("{desc}: node {i} (depth {}, leaf {}) box {:?}..{:?} exceeds {:?}..{:?}", t.depth[i], is_leaf(n), b.min, b.max, lo[i], hi[i]));
            return;
        }
        if t.parent[i] >= 0 {
            let p = &nodes[t.parent[i] as usize].bounds;
            if !(b.min.cmpge(p.min - PAD - rnd).all() && b.max.cmple(p.max + PAD + rnd).all()) {
                cx.fail(format!("{kind:?}:not-nested"), format!("{desc}: node {i} box {:?}..{:?} outside parent {:?}..{:?}", b.min, b.max, p.min, p.max));
                return;
            }
        }
        cx.count("nodes_checked", 1);
    }
    // reported bounds
    let b = bvh.bounds();
    let m = Mbvh::from(bvh.clone());
    let mb = m.bounds();
    if b.min != nodes[0].bounds.min || b.max != nodes[0].bounds.max || mb.min != b.min || mb.max != b.max {
        cx.fail(format!("{kind:?}:bounds"), format!("{desc}: bounds() {:?}..{:?}, root {:?}..{:?}, quad {:?}..{:?}", b.min, b.max, nodes[0].bounds.min, nodes[0].bounds.max, mb.min, mb.max));
    }
    let (glo, ghi) = match tris {
        Some(ts) if kind == Kind::Spatial => {
            let mut a = (Vec3::splat(f32::INFINITY), Vec3::splat(f32::NEG_INFINITY));
            for t in ts {
                for v in t.v {
                    a = (a.0.min(v), a.1.max(v));
                }
            }
            a
        }
        _ => (lo[0], hi[0]),
    };
    if !(b.min.cmple(glo).all() && b.max.cmpge(ghi).all()) {
        cx.fail(format!("{kind:?}:scene-bounds"), format!("{desc}: bounds {:?}..{:?} do not contain the scene {glo:?}..{ghi:?}", b.min, b.max));
    }
    // spatial: every point of every triangle is on a complete path
    if kind == Kind::Spatial {
        let ts = tris.unwrap();
        let mut plo = vec![Vec3::ZERO; nodes.len()];
        let mut phi = vec![Vec3::ZERO; nodes.len()];
        let mut where_: Vec<Vec<u32>> = vec![vec![]; ts.len()];
        for &i in &t.order {
            let b = &nodes[i].bounds;
            if t.parent[i] < 0 {
                plo[i] = b.min;
                phi[i] = b.max;
            } else {
                let p = t.parent[i] as usize;
                plo[i] = b.min.max(plo[p]);
                phi[i] = b.max.min(phi[p]);
            }
            if is_leaf(&nodes[i]) {
                for s in leaf_range(&nodes[i]) {
                    where_[idx[s] as usize].push(i as u32);
                }
            }
        }
        let tol = 1e-6 * (mag as f64 + 1e-2);
        let per = (40_000 / ts.len().max(1)).clamp(8, 60);
        for (pi, tr) in ts.iter().enumerate() {
            let (a, b, c) = (d(tr.v[0]), d(tr.v[1]), d(tr.v[2]));
            for k in 0..per {
                let (u, v, w) = match k {
                    0 => (1.0, 0.0, 0.0),
                    1 => (0.0, 1.0, 0.0),
                    2 => (0.0, 0.0, 1.0),
                    3 | 4 => {
                        let x = r.f64();
                        let mut q = [x, 1.0 - x, 0.0];
                        q.rotate_left(r.below(3));
                        (q[0], q[1], q[2])
                    }
                    _ => {
                        let (mut x, mut y) = (r.f64(), r.f64());
                        if x + y > 1.0 {
                            x = 1.0 - x;
                            y = 1.0 - y;
                        }
                        (x, y, 1.0 - x - y)
                    }
                };
                let p = a * u + b * v + c * w;
                if !where_[pi].iter().any(|&l| inside(p, plo[l as usize], phi[l as usize], tol)) {
                    cx.fail("Spatial:uncovered-point", format!("{desc}: point {p:?} of triangle {pi} {:?} lies on no complete path (it is referenced by {} leaves: {:?})", tr, where_[pi].len(), where_[pi].iter().take(6).map(|&l| (plo[l as usize], phi[l as usize])).collect::<Vec<_>>()));
                    return;
                }
                cx.count("triangle_points_checked", 1);
            }
            if where_[pi].len() > 1 {
                cx.count("split_triangles", 1);
            }
        }
    }
}

fn main() {
    run("C02", 300, 3000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        if idx % 5 == 4 {
            let sel = r.u64();
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let n = pick_n(&mut r, sel, 8000).min(if kind == Kind::Locb { 1500 } else { 8000 });
            let (name, prims) = box_scene(&mut r, n);
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.bb).collect();
            let leaf = pick_leaf(&mut r);
            let some = r.chance(0.5);
            let desc = format!("{kind:?} {name} leaf={leaf:?} aabbs={some}");
            if let Ok(b) = build_box(kind, &prims, if some { Some(&boxes) } else { None }, leaf) {
                check(cx, &desc, kind, &b, &boxes, None, &mut r);
                cx.eval(mix(hash_str(&desc) ^ idx), n > 2);
            } else {
                cx.fail("build-error", desc);
            }
            return;
        }
        let case = std_case(&mut r, idx - idx / 5, 30_000);
        let n = case.scene.tris.len();
        match case.build() {
            Ok(b) => {
                let eff = case.eff();
                check(cx, &case.desc, case.kind, &b, &eff, Some(&case.scene.tris), &mut r);
                cx.eval(case.hash(), n > 2);
                cx.sample(|| format!("{}: root box {:?}..{:?}", case.desc, b.bounds().min, b.bounds().max));
            }
            Err(e) => cx.fail("build-error", format!("{}: {e}", case.desc)),
        }
    });
}
