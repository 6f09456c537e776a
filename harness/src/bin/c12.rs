//! C12: builders and traversals survive degenerate geometry.
use glam::Vec3;
use rtbvh::*;
use std::sync::atomic::{AtomicU32, Ordering::*};
use vh::{rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

const MAX_CALLS: u64 = 1000;

/// A triangle (or box with a centre) that counts what is asked of it.
#[derive(Debug)]
struct Counted {
    tri: Tri,
    bb: Aabb,
    c: Vec3,
    calls: AtomicU32,
    vertex_calls: AtomicU32,
}
impl Primitive for Counted {
    fn center(&self) -> Vec3 {
        self.calls.fetch_add(1, Relaxed);
        self.c
    }
    fn aabb(&self) -> Aabb {
        self.calls.fetch_add(1, Relaxed);
        self.bb
    }
}
impl SpatialTriangle for Counted {
    fn vertex0(&self) -> Vec3 {
        self.vertex_calls.fetch_add(1, Relaxed);
        self.tri.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.tri.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.tri.v[2]
    }
}

const SHAPES: usize = 22;

fn degenerate(r: &mut Rng, shape: usize, n: usize) -> (String, Vec<Tri>) {
    let p0 = r.vec3(-10.0, 10.0);
    let axis = r.below(3);
    let mut ax = Vec3::ZERO;
    ax[axis] = 1.0;
    let mut t = Vec::with_capacity(n);
    let tiny = r.pick(&[1e-3f32, 1e-6, 1e-20, 1e-38, 1e-42]);
    let ratio = r.uni(1.1, 6.0);
    let steps = r.range(10, 80);
    let u = r.unit();
    let k = r.range(2, 9);
    let some: Vec<Vec3> = (0..k).map(|_| r.vec3(-10.0, 10.0)).collect();
    for i in 0..n {
        let f = i as f32;
        let q = match shape % SHAPES {
            0 => Tri::new(p0, p0, p0),
            1 => Tri::new(Vec3::ZERO, Vec3::ZERO, Vec3::ZERO),
            2 => Tri::new(ax * f, ax * (f + 1.0), ax * (f + 0.5)),
            3 => Tri::new(u * f, u * (f + 1.0), u * (f + 3.0)),
            4 => {
                let c = r.vec3(-10.0, 10.0);
                Tri::new(c, c, c)
            }
            5 => {
                let c = some[i % k];
                Tri::new(c, c, c)
            }
            6 => {
                // coplanar with identical normals, overlapping
                let mut a = [r.vec3(-5.0, 5.0), r.vec3(-5.0, 5.0), r.vec3(-5.0, 5.0)];
                for v in a.iter_mut() {
                    v[axis] = p0.x;
                }
                Tri { v: a }
            }
            7 => {
                let s = 1e3 / ratio.powi((i % steps) as i32);
                Tri::new(ax * s, ax * s, ax * s)
            }
            8 => {
                let s = 1e3 / ratio.powi((i % steps) as i32);
                Tri::new(Vec3::splat(-s), Vec3::new(s, -s, 0.0), Vec3::splat(s))
            }
            9 => Tri::new(p0, p0 + ax, p0 + ax),
            10 => Tri::new(p0, p0 + u * 1000.0, p0 + u * 1000.0 + ax * 1e-5),
            11 => {
                let z = if i % 2 == 0 { 0.0 } else { -0.0 };
                Tri::new(Vec3::new(z, f, -z), Vec3::new(-z, f, z), Vec3::new(z, f + 1.0, z))
            }
            12 => {
                let c = u * tiny * f;
                Tri::new(c, c + ax * tiny, c - ax * tiny)
            }
            13 => {
                let c = if i % 2 == 0 { p0 } else { p0 + Vec3::splat(9000.0) };
                Tri::new(c, c + ax, c + u)
            }
            14 => {
                let c = if i == 0 { p0 + ax * 100.0 } else { p0 };
                Tri::new(c, c + ax, c + u)
            }
            15 => {
                // same box, different triangles
                let a = r.uni(0.0, 1.0);
                Tri::new(p0, p0 + Vec3::ONE, p0 + Vec3::new(a, 1.0 - a, a))
            }
            16 => {
                // lattice points with ties in every coordinate
                let c = Vec3::new((i % 3) as f32, (i / 3 % 3) as f32, (i / 9 % 3) as f32);
                Tri::new(c, c, c)
            }
            17 => {
                let c = p0 + u * (f * 1e-6);
                Tri::new(c, c, c)
            }
            18 => {
                // alternating huge and point-like
                if i % 2 == 0 {
                    Tri::new(Vec3::splat(-9000.0), Vec3::new(9000.0, -9000.0, 0.0), Vec3::splat(9000.0))
                } else {
                    Tri::new(p0, p0, p0)
                }
            }
            19 => {
                // neighbouring floats
                let mut b = p0;
                b[axis] = f32::from_bits(p0[axis].to_bits() + (i % 7) as u32);
                Tri::new(p0, b, b)
            }
            20 => {
                // needles through one point
                let d = r.unit() * 500.0;
                Tri::new(p0 - d, p0 + d, p0 + d)
            }
            _ => {
                let s = 0.001 + f * 0.01;
                Tri::new(p0 - Vec3::splat(s), p0 + Vec3::new(s, -s, s), p0 + Vec3::splat(s))
            }
        };
        t.push(q);
    }
    (format!("degenerate-{}", shape % SHAPES), t)
}

fn rays(r: &mut Rng, prims: &[Counted], count: usize) -> Vec<RaySpec> {
    let (mut lo, mut hi) = (Vec3::splat(f32::MAX), Vec3::splat(f32::MIN));
    for p in prims {
        lo = lo.min(p.bb.min);
        hi = hi.max(p.bb.max);
    }
    (0..count)
        .map(|_| {
            let p = &prims[r.below(prims.len())];
            let tg = (p.bb.min + p.bb.max) * 0.5;
            let mut s = gen_ray(r, lo, hi, Some(tg));
            if r.chance(0.2) {
                // straight through a corner or along an edge
                s.o = p.bb.min - s.d;
            }
            s
        })
        .collect()
}

fn exercise(cx: &mut Ctx, r: &mut Rng, desc: &str, kind: Kind, prims: Vec<Counted>, aabbs: Option<Vec<Aabb>>, leaf: Option<usize>) {
    let n = prims.len();
    let mut b = match build(kind, &prims, aabbs.as_deref(), leaf) {
        Ok(b) => b,
        Err(e) => {
            cx.fail("build-error", format!("{desc}: {e}"));
            return;
        }
    };

    let worst_v = prims.iter().map(|p| p.vertex_calls.load(Relaxed)).max().unwrap_or(0);
    
    cx.max("vertex0_calls", worst_v as u64);
    let total: u64 = prims.iter().map(|p| p.calls.load(Relaxed) as u64).sum();
    cx.max(&format!("calls_per_primitive_{kind:?}"), total / n as u64);
    if total > MAX_CALLS * n as u64 {
        cx.fail(format!("{kind:?}:unbounded-work"), format!("{desc}: {total} requests for centres and AABBs of {n} primitives"));
        return;
    }
    let t = match walk(b.nodes(), b.indices()) {
        Ok(t) => t,
        Err(e) => {
            cx.fail(format!("{kind:?}:malformed"), format!("{desc}: {e}"));
            return;
        }
    };
    cx.max("depth", t.max_depth as u64);
    if t.max_depth > 31 {
        cx.count("trees_deeper_than_31", 1);
    }
    if t.max_depth > 1000 {
        cx.count("trees_deeper_than_1000", 1);
    }
    if t.max_depth > 1000 {
        // depth must not turn into stack usage: 256 KiB is plenty for any loop
        let b = &b;
        let ok = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn_scoped(sc, || {
                    b.validate(n);
                    let m = Mbvh::construct(b);
                    let m2 = Mbvh::construct_from_raw(b.nodes(), b.indices());
                    drop((m, m2, b.clone()));
                })
                .unwrap()
                .join()
        });
        if ok.is_err() {
            cx.fail("deep:panic", format!("{desc}: depth {}", t.max_depth));
            return;
        }
        cx.count("deep_trees_on_a_small_stack", 1);
    }
    b.validate(n);
    let rounds = if n > 5000 { 1 } else { 2 };
    for round in 0..rounds {
        let m = Mbvh::construct(&b);
        let m2: Mbvh = b.clone().into();
        let m3 = Mbvh::construct_from_raw(b.nodes(), b.indices());
        let rs = rays(r, &prims, if n > 3000 { 4 } else { 8 });
        for s in &rs {
            let want = match bvh_static(&b, s) {
                Ok(w) => w.len(),
                Err(e) => {
                    cx.fail("bvh:endless", format!("{desc}: {e}"));
                    return;
                }
            };
            cx.count("yields", want as u64);
            for q in [&m, &m2, &m3] {
                match quad_static(q, s) {
                    Ok(w) => cx.count("yields", w.len() as u64),
                    Err(e) => {
                        cx.fail("quad:endless", format!("{desc}: {e}"));
                        return;
                    }
                }
            }
            for e in [bvh_closest(&b, s, &prims).err(), quad_closest(&m, s, &prims).err()].into_iter().flatten() {
                cx.fail("endless", format!("{desc}: {e}"));
                return;
            }
        }
        for w in rs.chunks_exact(4) {
            let sp = [w[0], w[1], w[2], w[3]];
            let tm = glam::Vec4::splat(1e-4);
            for e in [
                bvh_static4(&b, &sp).err(),
                quad_static4(&m, &sp).err(),
                bvh_closest4(&b, &sp, tm, &prims).err(),
                quad_closest4(&m3, &sp, tm, &prims).err(),
            ]
            .into_iter()
            .flatten()
            {
                cx.fail("endless", format!("{desc}: {e}"));
                return;
            }
        }
        cx.count("traversals", rs.len() as u64 * 7);
        if round == 0 {
            // collapse, move or spread the boxes
            let m = r.below(3);
            let d = r.vec3(-100.0, 100.0);
            let boxes: Vec<Aabb> = prims
                .iter()
                .map(|p| match m {
                    0 => mk_aabb(d, d),
                    1 => mk_aabb(p.bb.min + d, p.bb.max + d),
                    _ => {
                        let a = r.vec3(-100.0, 100.0);
                        mk_aabb(a, a + r.vec3(0.0, 10.0))
                    }
                })
                .collect();
            b.refit(&boxes);
            cx.count("refits", 1);
        }
    }
    cx.seen("shapes", shape(b.nodes(), b.indices(), &t));
}

/// The deepest shapes nodes can describe, given to the quad conversion as raw
/// slices on a thread whose stack is small compared to their depth.
fn deep_raw(cx: &mut Ctx, r: &mut Rng) {
    let depth = r.range(5_000, 20_000);
    let side = r.below(3);
    let mut nodes = vec![BvhNode::new(); 1];
    let mut at = 0;
    let (lo, mut hi) = (r.vec3(-10.0, -9.0), Vec3::splat(1e3));
    let step = 1e3 / (depth as f32 + 2.0);
    for d in 0..depth {
        let first = nodes.len();
        nodes[at].bounds = mk_aabb(lo, hi);
        nodes[at].set_left_first(Some(first as u32));
        nodes[at].set_count(None);
        let mut leaf = BvhNode::new();
        leaf.bounds = mk_aabb(hi - Vec3::splat(step), hi);
        leaf.set_left_first(Some(d as u32));
        leaf.set_count(Some(1));
        nodes.push(leaf.clone());
        nodes.push(leaf);
        at = match side {
            0 => first,
            1 => first + 1,
            _ => first + d % 2,
        };
        hi -= Vec3::splat(step);
    }
    nodes[at].bounds = mk_aabb(lo, hi);
    nodes[at].set_left_first(Some(depth as u32));
    nodes[at].set_count(Some(1));
    let indices: Vec<u32> = (0..=depth as u32).collect();
    let nr = RaySpec { o: Vec3::splat(-500.0), d: Vec3::ONE, tmin: 1e-4, t: 1e34 };
    let got = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn_scoped(sc, || {
                let m = Mbvh::construct_from_raw(&nodes, &indices);
                quad_static(&m, &nr)
            })
            .unwrap()
            .join()
    });
    match got {
        Ok(Ok(mut y)) => {
            y.sort_unstable();
            y.dedup();
            if y.len() != depth + 1 {
                cx.fail("deep:lost", format!("chain of depth {depth}: a ray through every leaf got {} primitives", y.len()));
            }
        }
        Ok(Err(e)) => cx.fail("quad:endless", format!("chain of depth {depth}: {e}")),
        Err(_) => cx.fail("deep:panic", format!("chain of depth {depth}")),
    }
    cx.count("raw_chains_on_a_small_stack", 1);
    cx.max("depth_raw", depth as u64);
    cx.eval(mix(cx.idx), true);
}

fn main() {
    run("C12", 264, 2640, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        if idx % 41 == 17 {
            deep_raw(cx, &mut r);
            return;
        }
        let kind = KINDS[(idx % 3) as usize];
        let shp = (idx / 3) as usize % SHAPES;
        let big = r.chance(0.12);
        let mut n = match r.below(6) {
            0 => r.range(1, 8),
            1 => r.range(9, 70),
            2 | 3 => r.range(30, 600),
            _ => r.range(200, 1300),
        };
        if big {
            n = match kind {
                Kind::Locb => r.range(1500, if cx.thorough() { 5000 } else { 2500 }),
                Kind::Binned => r.range(3000, 40_000),
                Kind::Spatial => r.range(2000, 12_000),
            };
        }
        let (name, tris) = if r.chance(0.75) {
            degenerate(&mut r, shp, n)
        } else {
            let sk = r.below(N_KINDS);
            let s = tri_scene(&mut r, sk, n);
            (s.name, s.tris)
        };
        let n = tris.len();
        // AABBs and centres may have nothing to do with each other
        let odd = if kind == Kind::Spatial { r.below(5) } else { r.below(7) };
        let prims: Vec<Counted> = tris
            .iter()
            .map(|t| {
                let mut bb = t.exact_aabb();
                let mut c = t.center();
                match odd {
                    4 => {
                        let a = r.vec3(-50.0, 50.0);
                        bb = mk_aabb(a, a + r.vec3(0.0, 20.0));
                    }
                    5 => c = r.vec3(-100.0, 100.0),
                    6 => c = Vec3::splat(7.0),
                    _ => {}
                }
                Counted { tri: *t, bb, c, calls: AtomicU32::new(0), vertex_calls: AtomicU32::new(0) }
            })
            .collect();
        let aabbs: Option<Vec<Aabb>> = match r.below(4) {
            0 => None,
            1 => Some(prims.iter().map(|p| p.bb.with_offset(1e-4)).collect()),
            _ => Some(prims.iter().map(|p| p.bb).collect()),
        };
        let leaf = pick_leaf(&mut r);
        let desc = format!("{kind:?} {name}/{n} odd={odd} aabbs={} leaf={leaf:?}", aabbs.is_some());
        exercise(cx, &mut r, &desc, kind, prims, aabbs, leaf);
        cx.eval(mix(hash_str(&desc) ^ idx), n > 2);
        cx.sample(|| desc.clone());
    });
}
