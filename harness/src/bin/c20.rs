//! C20: the C API gives the same answers as the Rust API.
use glam::{Vec3, Vec4};
use rtbvh::*;
use rtbvh_rs as c;
use std::num::NonZeroUsize;
use vh::{ffi::*, rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

type Q = Vec<(Vec<u32>, [u32; 6])>;

/// Multiset of (primitives, box) over the lanes of a quad tree.
fn quad_canonical(q: &[MbvhNode], idx: &[u32]) -> Result<Q, String> {
    let t = walk_quad(q, idx)?;
    let mut v: Q = vec![];
    for s in &t.slots {
        let mut p: Vec<u32> = if s.count > 0 { idx[s.child as usize..(s.child + s.count) as usize].to_vec() } else { vec![] };
        p.sort_unstable();
        let b = |f: f32| if f == 0.0 { 0 } else { f.to_bits() };
        if s.count == 0 {
            continue;
        }
        v.push((p, [b(s.min.x), b(s.min.y), b(s.min.z), b(s.max.x), b(s.max.y), b(s.max.z)]));
    }
    v.sort();
    Ok(v)
}

fn same_tree(h: &View, want: &Bvh) -> Result<(), String> {
    let t = walk(h.nodes(), h.indices())?;
    let w = walk(want.nodes(), want.indices())?;
    if h.indices().len() != want.indices().len() {
        return Err(format!("{} indices instead of {}", h.indices().len(), want.indices().len()));
    }
    if canonical(h.nodes(), h.indices(), &t) != canonical(want.nodes(), want.indices(), &w) {
        return Err(if shape(h.nodes(), h.indices(), &t) != shape(want.nodes(), want.indices(), &w) { "different splits or leaf contents".into() } else { "different boxes".into() });
    }
    Ok(())
}

fn same_quad(h: &View, want: &Mbvh) -> Result<(), String> {
    let a = quad_canonical(h.quads(), h.indices())?;
    let b = quad_canonical(want.quad_nodes(), want.indices())?;
    if a != b {
        return Err("different quad tree".into());
    }
    Ok(())
}

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

fn bytes<T>(h: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(h as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()
}

/// What a callback does: intersect the triangle and lower the limit.
fn hit_fn<'a>(prims: &'a [CTri], rays: &'a [RaySpec]) -> impl Fn(u32, &mut [f32]) + 'a {
    move |id, t| {
        let Some(p) = prims.get(id as usize) else { return };
        if rays.len() == 1 {
            let mut r = rays[0].ray();
            r.t = t[0];
            p.intersect(&mut r);
            t[0] = r.t;
        } else {
            let mut k = packet_of(&[rays[0], rays[1], rays[2], rays[3]]);
            k.t = Vec4::new(t[0], t[1], t[2], t[3]);
            p.intersect4(&mut k, Vec4::splat(1e-4));
            t.copy_from_slice(&k.t.to_array());
        }
    }
}

fn rust_static(b: &Bvh, m: &Mbvh, quad: bool, rays: &[RaySpec]) -> Result<Vec<u32>, String> {
    let four = || [rays[0], rays[1], rays[2], rays[3]];
    match (quad, rays.len()) {
        (false, 1) => bvh_static(b, &rays[0]),
        (true, 1) => quad_static(m, &rays[0]),
        (false, _) => bvh_static4(b, &four()),
        (true, _) => quad_static4(m, &four()),
    }
}

fn rust_closest(b: &Bvh, m: &Mbvh, quad: bool, rays: &[RaySpec], prims: &[CTri]) -> Result<Vec<f32>, String> {
    let four = || [rays[0], rays[1], rays[2], rays[3]];
    let m4 = Vec4::splat(1e-4);
    Ok(match (quad, rays.len()) {
        (false, 1) => vec![bvh_closest(b, &rays[0], prims)?],
        (true, 1) => vec![quad_closest(m, &rays[0], prims)?],
        (false, _) => bvh_closest4(b, &four(), m4, prims)?.to_array().to_vec(),
        (true, _) => quad_closest4(m, &four(), m4, prims)?.to_array().to_vec(),
    })
}

fn close(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-5 * (a.abs() + b.abs()).max(1e-3)
}

struct Setup {
    kind: Kind,
    prims: Vec<CTri>,
    leaf: usize,
    aabbs: Option<Vec<Aabb>>,
    desc: String,
}

fn main() {
    run("C20", 600, 20000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let kind = KINDS[(idx % 3) as usize];
        let sk = ((idx / 3) % N_KINDS as u64) as usize;
        let sel = r.u64();
        let big = (30..33).contains(&(idx % 180));
        // (now and then more triangles than 16 bits can count)
        let sk = if big { 0 } else { sk };
        let n = if big { r.range(66_000, 72_000) } else { cap_for(kind, sk, pick_n(&mut r, sel, 3000)) };
        let sc = tri_scene(&mut r, sk, n);
        let mut tris = sc.tris.clone();
        let n = tris.len();
        // vertex memory: separate triangles, padded ones, a strip, or planes of vertices
        let layout = r.below(5);
        let vs = r.pick(&[12usize, 16, 20, 32]);
        let (vstride, tstride, verts): (usize, usize, Vec<f32>) = match layout {
            0 | 1 => {
                let pad = if layout == 0 { 0 } else { r.pick(&[4usize, 12, 28]) };
                let ts = 3 * vs + pad;
                let mut v = fill(n * ts / 4);
                for (i, t) in tris.iter().enumerate() {
                    for k in 0..3 {
                        for a in 0..3 {
                            v[i * ts / 4 + k * vs / 4 + a] = t.v[k][a];
                        }
                    }
                }
                v.truncate((n - 1) * ts / 4 + 2 * vs / 4 + 3);
                (vs, ts, v)
            }
            2 => {
                // strip: triangle i uses vertices i, i+1, i+2
                let pts: Vec<Vec3> = (0..n + 2).map(|i| tris[i.min(n - 1)].v[i % 3]).collect();
                for i in 0..n {
                    tris[i] = Tri::new(pts[i], pts[i + 1], pts[i + 2]);
                }
                (vs, vs, strided(&pts, vs, false))
            }
            _ => {
                // all first vertices, then all second ones, then all third ones
                let pts: Vec<Vec3> = (0..3).flat_map(|k| tris.iter().map(move |t| t.v[k])).collect();
                (vs * n, vs, strided(&pts, vs, false))
            }
        };
        let wild = r.chance(0.15);
        let lohi = Scene { name: String::new(), tris: tris.clone() }.bounds();
        let prims: Vec<CTri> = tris
            .iter()
            .map(|t| CTri {
                c: if wild {
                    Vec3::new(r.uni(lohi.0.x, lohi.1.x + 0.01), r.uni(lohi.0.y, lohi.1.y + 0.01), r.uni(lohi.0.z, lohi.1.z + 0.01))
                } else {
                    t.center()
                },
                v: t.v,
            })
            .collect();
        let centres: Vec<Vec3> = prims.iter().map(|p| p.c).collect();
        let src = r.pick(&[BoxSrc::None, BoxSrc::Exact, BoxSrc::Padded, BoxSrc::Inflated]);
        let aabbs = aabbs_for(src, &tris, &mut r);
        let leaf = pick_leaf(&mut r).unwrap_or(0).min(u32::MAX as usize);
        let cs = if kind == Kind::Spatial { r.pick(&[12usize, 16, 20, 36]) } else { r.pick(&[12usize, 16]) };
        let junk = if r.chance(0.5) { 0 } else { 0x0badf00d };
        let s = Setup {
            kind,
            leaf,
            desc: format!("{kind:?} {} aabbs={src:?} leaf={leaf} centre stride {cs}, vertex stride {vstride}, triangle stride {tstride}{}{}", sc.name, if wild { ", centres elsewhere" } else { "" }, if junk != 0 { ", junk in unused AABB fields" } else { "" }),
            prims,
            aabbs,
        };

        // ---- creation
        let cmem = Floats::new(&strided(&centres, cs, true));
        let vmem = Floats::new(&verts);
        let bmem = s.aabbs.as_ref().map(|b| rt_boxes(b, junk));
        let inputs = |cmem: &Floats, vmem: &Floats, bmem: &Option<Floats>| (cmem.bits(), vmem.bits(), bmem.as_ref().map(|b| b.bits()));
        let before = inputs(&cmem, &vmem, &bmem);
        let bp = bmem.as_ref().map_or(std::ptr::null(), |b| b.p() as *const RTAabb);
        let mut h = RTBvh::default();
        let rc = unsafe {
            match kind {
                Kind::Spatial => c::create_spatial_Bvh(bp, n, cmem.p(), cs, vmem.p(), vstride, tstride, leaf as u32, &mut h),
                _ => c::create_bvh(bp, n, cmem.p(), cs, leaf, ctype(kind), &mut h),
            }
        };
        if rc != ResultCode::Ok {
            cx.fail("create-code", format!("{}: creation returned {rc:?}", s.desc));
            return;
        }
        if inputs(&cmem, &vmem, &bmem) != before || !cmem.intact() || !vmem.intact() {
            cx.fail("input-modified", format!("{}: creation modified the caller's arrays", s.desc));
            return;
        }
        // the library must not refer to the caller's memory any more
        drop((cmem, vmem, bmem));
        let nl = NonZeroUsize::new(leaf);
        let points: Vec<CPoint> = s.prims.iter().map(|p| CPoint(p.c)).collect();
        let want = match kind {
            Kind::Spatial => Builder { aabbs: s.aabbs.as_deref(), primitives: &s.prims, primitives_per_leaf: nl }.construct_spatial_sah(),
            Kind::Locb => Builder { aabbs: s.aabbs.as_deref(), primitives: &points, primitives_per_leaf: nl }.construct_locally_ordered_clustered(),
            Kind::Binned => Builder { aabbs: s.aabbs.as_deref(), primitives: &points, primitives_per_leaf: nl }.construct_binned_sah(),
        };
        let mut want = want.expect("valid input is accepted by the Rust API");
        if let Err(e) = same_tree(&view(&h), &want) {
            cx.fail(format!("{kind:?}:tree"), format!("{}: the created tree differs from the Rust builder's: {e}", s.desc));
            return;
        }
        cx.count("trees_compared", 1);
        if n > 65_536 {
            cx.count("big_trees_compared", 1);
        }
        cx.seen("layouts", (layout as u64) << 16 | (vs as u64) << 8 | cs as u64 | (s.aabbs.is_some() as u64) << 40 | (kind as u64) << 48);

        // ---- quad BVH
        let mut q = RTMbvh::default();
        let rc = unsafe { c::create_mbvh(h, &mut q) };
        if rc != ResultCode::Ok {
            cx.fail("quad-code", format!("{}: conversion returned {rc:?}", s.desc));
            return;
        }
        let mut wantq = Mbvh::construct(&want);
        if let Err(e) = same_quad(&view_m(&q), &wantq) {
            cx.fail("quad-tree", format!("{}: the converted tree differs from the Rust API's: {e}", s.desc));
            return;
        }
        cx.count("quad_trees_compared", 1);

        // ---- traversal, before and after refits
        let phases = if r.chance(0.5) { 2 } else { 1 };
        for phase in 0..phases {
            if phase == 1 {
                let k = r.uni(0.5, 2.0);
                let mv = r.vec3(-3.0, 3.0);
                let nb: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).map(|b| mk_aabb(b.min * k + mv, b.max * k + mv)).collect();
                let fm = rt_boxes(&nb, junk);
                let fb = fm.bits();
                let qh = view_m(&q).hash(true);
                let hv = view(&h);
                let rc = unsafe { c::refit(fm.p() as *const RTAabb, h) };
                if rc != ResultCode::Ok {
                    cx.fail("refit-code", format!("{}: refit returned {rc:?}", s.desc));
                    return;
                }
                if fm.bits() != fb || !fm.intact() {
                    cx.fail("input-modified", format!("{}: refit modified the caller's AABBs", s.desc));
                    return;
                }
                if view(&h) != hv {
                    cx.fail("refit-handle", format!("{}: refit changed the caller's handle", s.desc));
                    return;
                }
                want.refit(&nb);
                if let Err(e) = same_tree(&view(&h), &want) {
                    cx.fail("refit-tree", format!("{}: the refitted tree differs from the Rust API's: {e}", s.desc));
                    return;
                }
                if view_m(&q).hash(true) != qh {
                    cx.fail("refit-quad", format!("{}: refitting the BVH modified an existing quad BVH", s.desc));
                    return;
                }
                c::free_mbvh(q);
                let rc = unsafe { c::create_mbvh(h, &mut q) };
                wantq = Mbvh::construct(&want);
                if rc != ResultCode::Ok || same_quad(&view_m(&q), &wantq).is_err() {
                    cx.fail("refit-quad", format!("{}: converting the refitted BVH gives {rc:?} and a different tree", s.desc));
                    return;
                }
                cx.count("refits_compared", 1);
            }
            let bb: Aabb = want.nodes()[0].bounds;
            let mut mem = RayMem::new();
            let cap = cap(want.indices().len());
            for round in 0..12 {
                let quad = round % 2 == 1;
                let on = if quad { Target::M(q) } else { Target::B(h) };
                let lanes = if round % 4 < 2 { 1 } else { 4 };
                let mut rays: Vec<RaySpec> = (0..lanes)
                    .map(|_| {
                        let k = r.below(n);
                        let target = if r.chance(0.8) { Some(inner_point(&mut r, &tris[k])) } else { None };
                        gen_ray(&mut r, bb.min, bb.max, target)
                    })
                    .collect();
                if lanes == 4 && r.chance(0.5) {
                    // a coherent packet
                    for k in 1..4 {
                        let (o, d) = vh::geo::perturb(&mut r, rays[0].o, rays[0].d, sc.scale() * 100.0);
                        rays[k] = RaySpec { o, d, ..rays[0] };
                    }
                }
                for x in rays.iter_mut() {
                    let far = (x.o - (bb.min + bb.max) * 0.5).length() / x.d.length();
                    x.t = match r.below(7) {
                        6 => -far * r.uni(0.0, 1.0),
                        0 => far * r.uni(0.3, 1.5),
                        1 if lanes == 4 => 0.0,
                        2 => 1e26,
                        3 => f32::MAX,
                        _ => 1e34,
                    };
                }
                let way = WAYS[(round % 4) as usize];
                let desc = format!("{}, phase {phase}, {} with {rays:?}", s.desc, ["intersect", "intersect_mbvh", "intersect_packet", "intersect_mbvh_packet"][(round % 4) as usize]);
                // unchanged limits
                let mut rec = Rec::new(lanes, cap);
                let (rc, t) = shoot(&mut mem, &on, &rays, &mut rec);
                let full = rec.visits.clone();
                if rc != ResultCode::Ok {
                    cx.fail(format!("{way}:code"), format!("{desc}: returned {rc:?}"));
                    return;
                }
                if let Some(e) = rec.err.take() {
                    cx.fail(format!("{way}:callback"), format!("{desc}: {e}"));
                    return;
                }
                if t.iter().zip(&rays).any(|(t, r)| t.to_bits() != r.t.to_bits()) {
                    cx.fail(format!("{way}:limit"), format!("{desc}: limits became {t:?} although the callback left them alone"));
                    return;
                }
                let rust = match rust_static(&want, &wantq, quad, &rays) {
                    Ok(v) => v,
                    Err(e) => {
                        cx.fail(format!("{way}:endless"), format!("{desc}: {e}"));
                        return;
                    }
                };
                cx.count("visits", full.len() as u64);
                cx.count("traversals_compared", 1);
                if sorted(full.clone()) != sorted(rust.clone()) {
                    let sc = sc.scale();
                    let sure = confirmed(|k| {
                        let mut rr = Rng::new(idx * 977 + k as u64);
                        let rays: Vec<RaySpec> = rays
                            .iter()
                            .map(|x| {
                                let (o, d) = vh::geo::perturb(&mut rr, x.o, x.d, sc);
                                RaySpec { o, d, ..*x }
                            })
                            .collect();
                        let mut rec = Rec::new(lanes, cap);
                        shoot(&mut mem, &on, &rays, &mut rec);
                        Some(sorted(rec.visits.clone()) != sorted(rust_static(&want, &wantq, quad, &rays).ok()?))
                    });
                    if sure {
                        cx.fail(format!("{way}:visits"), format!("{desc}: visited {} primitives, the Rust traversal yields {}", full.len(), rust.len()));
                        return;
                    }
                    cx.inconclusive(format!("{desc}: visits differ by rounding"));
                }
                // stopping early
                if !full.is_empty() {
                    let mut rec = Rec::new(lanes, cap);
                    rec.stop_at = r.range(1, full.len());
                    rec.stop_t = 0.125;
                    let (rc, t) = shoot(&mut mem, &on, &rays, &mut rec);
                    if rc != ResultCode::Ok || rec.err.is_some() || rec.visits[..] != full[..rec.stop_at] {
                        cx.fail(
                            format!("{way}:stop"),
                            format!("{desc}: callback returned true at visit {} of {}, then {rc:?}, {} visits, {:?}", rec.stop_at, full.len(), rec.visits.len(), rec.err),
                        );
                        return;
                    }
                    if t.iter().enumerate().any(|(k, t)| *t != 0.125 + k as f32) {
                        cx.fail(format!("{way}:stop-limit"), format!("{desc}: the stopping callback wrote 0.125.., the caller's array holds {t:?}"));
                        return;
                    }
                    cx.count("stopped_traversals", 1);
                }
                // a limit lowered once: all that is left below it is still visited
                let far = (rays[0].o - (bb.min + bb.max) * 0.5).length() / rays[0].d.length();
                let low = r.pick(&[0.0, 5e-5, far * 0.9, far, -0.5]);
                let lower = |_: u32, t: &mut [f32]| t.iter_mut().for_each(|t| *t = low);
                let left = |rays: &[RaySpec], mem: &mut RayMem| -> Option<Option<String>> {
                    let lo: Vec<RaySpec> = rays.iter().map(|x| RaySpec { t: low.min(x.t), ..*x }).collect();
                    let need = rust_static(&want, &wantq, quad, &lo).ok()?;
                    let mut rec = Rec::new(lanes, cap);
                    rec.hit = Some(&lower);
                    let (rc, t) = shoot(mem, &on, rays, &mut rec);
                    if rc != ResultCode::Ok || rec.err.is_some() {
                        return Some(Some(format!("{rc:?} {:?}", rec.err)));
                    }
                    if (0..lanes).any(|k| t[k].to_bits() != if rec.visits.is_empty() { rays[k].t.to_bits() } else { low.to_bits() }) {
                        return Some(Some(format!("limits {t:?} left behind")));
                    }
                    let have: std::collections::HashSet<u32> = rec.visits.iter().copied().collect();
                    Some(need.iter().find(|i| !have.contains(i)).map(|i| format!("primitive {i}, within the lowered limit, was not visited")))
                };
                if let Some(Some(e)) = left(&rays, &mut mem) {
                    let sc = sc.scale();
                    let sure = confirmed(|k| {
                        let mut rr = Rng::new(idx * 977 + k as u64);
                        let rays: Vec<RaySpec> = rays
                            .iter()
                            .map(|x| {
                                let (o, d) = vh::geo::perturb(&mut rr, x.o, x.d, sc);
                                RaySpec { o, d, ..*x }
                            })
                            .collect();
                        Some(left(&rays, &mut mem)?.is_some())
                    });
                    if sure {
                        cx.fail(format!("{way}:lowered"), format!("{desc}: every callback sets the limit to {low}: {e}"));
                        return;
                    }
                    cx.inconclusive(format!("{desc}: lowered visits differ by rounding"));
                }
                cx.count("lowered_traversals", 1);
                // closest hit
                let f = hit_fn(&s.prims, &rays);
                let mut rec = Rec::new(lanes, cap);
                rec.hit = Some(&f);
                let (rc, t) = shoot(&mut mem, &on, &rays, &mut rec);
                if rc != ResultCode::Ok || rec.err.is_some() {
                    cx.fail(format!("{way}:callback"), format!("{desc}: {rc:?} {:?}", rec.err));
                    return;
                }
                if (0..lanes).any(|k| t[k].to_bits() != if rec.visits.is_empty() { rays[k].t.to_bits() } else { rec.last_t[k] }) {
                    cx.fail(format!("{way}:limit"), format!("{desc}: the callbacks left {:?}, the caller's array holds {t:?}", rec.last_t.map(f32::from_bits)));
                    return;
                }
                let w = match rust_closest(&want, &wantq, quad, &rays, &s.prims) {
                    Ok(w) => w,
                    Err(e) => {
                        cx.fail(format!("{way}:endless"), format!("{desc}: {e}"));
                        return;
                    }
                };
                if t.iter().zip(&w).any(|(a, b)| !close(*a, *b)) {
                    let sc = sc.scale();
                    let sure = confirmed(|k| {
                        let mut rr = Rng::new(idx * 977 + k as u64);
                        let rays: Vec<RaySpec> = rays
                            .iter()
                            .map(|x| {
                                let (o, d) = vh::geo::perturb(&mut rr, x.o, x.d, sc);
                                RaySpec { o, d, ..*x }
                            })
                            .collect();
                        let f = hit_fn(&s.prims, &rays);
                        let mut rec = Rec::new(lanes, cap);
                        rec.hit = Some(&f);
                        let (_, t) = shoot(&mut mem, &on, &rays, &mut rec);
                        let w = rust_closest(&want, &wantq, quad, &rays, &s.prims).ok()?;
                        Some(t.iter().zip(&w).any(|(a, b)| !close(*a, *b)))
                    });
                    if sure {
                        cx.fail(format!("{way}:distance"), format!("{desc}: closest distances {t:?}, the Rust traversal finds {w:?}"));
                        return;
                    }
                    cx.inconclusive(format!("{desc}: distances differ by rounding"));
                }
                if w.iter().zip(&rays).any(|(w, r)| *w < r.t) {
                    cx.count("closest_hits", 1);
                }
                // NaN input
                let lane = r.below(lanes);
                let mut bad = rays.clone();
                let comp = r.below(6);
                let nan = r.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001)]);
                if comp < 3 {
                    bad[lane].o[comp] = nan;
                } else {
                    bad[lane].d[comp - 3] = nan;
                }
                let mut rec = Rec::new(lanes, cap);
                let (rc, t) = shoot(&mut mem, &on, &bad, &mut rec);
                if rc != ResultCode::Nan || !rec.visits.is_empty() || t.iter().zip(&bad).any(|(t, r)| t.to_bits() != r.t.to_bits()) {
                    cx.fail(format!("{way}:nan"), format!("{desc}: NaN in lane {lane} component {comp}: {rc:?}, {} visits, limits {t:?}", rec.visits.len()));
                    return;
                }
                cx.count("nan_calls", 1);
                cx.seen("nan_positions", (round % 4) as u64 * 100 + lane as u64 * 10 + comp as u64);
                // a null handle
                let mut rec = Rec::new(lanes, cap);
                let null = if quad { Target::M(RTMbvh::default()) } else { Target::B(RTBvh::default()) };
                let (rc, t) = shoot(&mut mem, &null, &rays, &mut rec);
                if !matches!(rc, ResultCode::Ok | ResultCode::Error) || !rec.visits.is_empty() || t.iter().zip(&rays).any(|(t, r)| t.to_bits() != r.t.to_bits()) {
                    cx.fail(format!("{way}:null-handle"), format!("{desc}: null handle: {rc:?}, {} visits, limits {t:?}", rec.visits.len()));
                    return;
                }
                if !mem.intact() {
                    cx.fail(format!("{way}:overrun"), format!("{desc}: wrote before the start of a caller's array"));
                    return;
                }
                cx.eval(mix(sc.hash() ^ idx << 8 ^ round), !full.is_empty());
            }
            // null and stale arguments
            if round_null(cx, &s, h, q).is_err() {
                return;
            }
        }
        c::free_mbvh(q);
        c::free_bvh(h);
        // a freed handle: refused, or an empty structure
        let mut q2 = RTMbvh::default();
        let b = bytes(&q2);
        match unsafe { c::create_mbvh(h, &mut q2) } {
            ResultCode::Ok => {
                let v = view_m(&q2);
                let mut mem = RayMem::new();
                let mut rec = Rec::new(1, 4);
                let ray = gen_ray(&mut r, lohi.0, lohi.1, None);
                let (rc, _) = shoot(&mut mem, &Target::M(q2), &[ray], &mut rec);
                if v.index_count != 0 || !rec.visits.is_empty() || !matches!(rc, ResultCode::Ok | ResultCode::Error) {
                    cx.fail("freed", format!("{}: converting a freed handle gives a structure with {} indices", s.desc, v.index_count));
                    return;
                }
                c::free_mbvh(q2);
            }
            rc => {
                if bytes(&q2) != b {
                    cx.fail("freed", format!("{}: converting a freed handle returns {rc:?} but writes a handle", s.desc));
                    return;
                }
            }
        }
        cx.sample(|| s.desc.clone());
    });
}

fn round_null(cx: &mut Ctx, s: &Setup, h: RTBvh, q: RTMbvh) -> Result<(), ()> {
    let (hh, qh) = (view(&h).hash(false), view_m(&q).hash(true));
    let b: Vec<Aabb> = s.prims.iter().map(|p| mk_aabb(p.v[0], p.v[0])).collect();
    let m = rt_boxes(&b, 0);
    let never = {
        let mut v = view(&h);
        v.id = u32::MAX - 7;
        handle(v)
    };
    let mut out: RTMbvh = unsafe { std::mem::transmute(view(&filled())) };
    let before = bytes(&out);
    let mut made = filled();
    let mbefore = bytes(&made);
    // creation with nothing to create from, or without an array it needs
    let cs: Vec<f32> = s.prims.iter().flat_map(|p| p.c.to_array()).collect();
    let vs: Vec<f32> = s.prims.iter().flat_map(|p| p.v).flat_map(|v| v.to_array()).collect();
    let (cp, vp, ap, n) = (cs.as_ptr(), vs.as_ptr(), m.p() as *const RTAabb, s.prims.len());
    let nul = std::ptr::null();
    let made_p = &mut made as *mut RTBvh;
    let types = |k: usize| ctype([Kind::Binned, Kind::Locb][k]);
    let creations: Vec<(&str, ResultCode, ResultCode)> = unsafe {
        vec![
            ("binned creation of nothing", c::create_bvh(ap, 0, cp, 12, s.leaf, types(0), made_p), ResultCode::NoPrimitives),
            ("clustered creation of nothing", c::create_bvh(ap, 0, cp, 12, s.leaf, types(1), made_p), ResultCode::NoPrimitives),
            ("creation of nothing without AABBs", c::create_bvh(std::ptr::null(), 0, cp, 12, s.leaf, types(n % 2), made_p), ResultCode::NoPrimitives),
            ("spatial creation of nothing", c::create_spatial_Bvh(ap, 0, cp, 12, vp, 12, 36, 1, made_p), ResultCode::NoPrimitives),
            ("spatial creation of nothing without AABBs", c::create_spatial_Bvh(std::ptr::null(), 0, cp, 12, vp, 12, 36, 1, made_p), ResultCode::NoPrimitives),
            ("creation without centres", c::create_bvh(ap, n, nul, 12, s.leaf, types(n % 2), made_p), ResultCode::Error),
            ("spatial creation without centres", c::create_spatial_Bvh(ap, n, nul, 12, vp, 12, 36, 1, made_p), ResultCode::Error),
            ("spatial creation without vertices", c::create_spatial_Bvh(ap, n, cp, 12, nul, 12, 36, 1, made_p), ResultCode::Error),
            ("creation without a result", c::create_bvh(ap, n, cp, 12, s.leaf, types(n % 2), std::ptr::null_mut()), ResultCode::Error),
            ("spatial creation without a result", c::create_spatial_Bvh(ap, n, cp, 12, vp, 12, 36, 1, std::ptr::null_mut()), ResultCode::Error),
        ]
    };
    for (what, rc, want) in creations {
        cx.count("failing_creations", 1);
        if rc != want {
            cx.fail("failed-creation", format!("{}: {what} returned {rc:?}", s.desc));
            return Err(());
        }
    }
    if bytes(&made) != mbefore {
        cx.fail("failed-creation", format!("{}: a failing creation wrote a handle", s.desc));
        return Err(());
    }
    let calls: Vec<(&str, ResultCode)> = unsafe {
        vec![
            ("refit with null AABBs", c::refit(std::ptr::null(), h)),
            ("refit of a null handle", c::refit(m.p() as *const RTAabb, RTBvh::default())),
            ("refit of a handle never issued", c::refit(m.p() as *const RTAabb, never)),
            ("conversion of a null handle", c::create_mbvh(RTBvh::default(), &mut out)),
            ("conversion of a handle never issued", c::create_mbvh(never, &mut out)),
            ("conversion without a result", c::create_mbvh(h, std::ptr::null_mut())),
        ]
    };
    for (what, rc) in calls {
        cx.count("null_argument_calls", 1);
        if rc != ResultCode::Error {
            cx.fail("null-argument", format!("{}: {what} returned {rc:?}", s.desc));
            return Err(());
        }
    }
    if bytes(&out) != before || view(&h).hash(false) != hh || view_m(&q).hash(true) != qh {
        cx.fail("null-argument", format!("{}: a failing call wrote something", s.desc));
        return Err(());
    }
    Ok(())
}
