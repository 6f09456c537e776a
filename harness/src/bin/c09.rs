//! C09: workloads for the memory and race detectors. The oracle is the
//! instrumentation this worker is built with (std's precondition checks,
//! AddressSanitizer, ThreadSanitizer, Miri); this program only makes sure that
//! every safe entry point and every C function runs, single and concurrent,
//! and that every result is actually read.
use glam::{Vec3, Vec4};
use rtbvh::*;
use rtbvh_rs as c;
use std::sync::Mutex;
use vh::{ffi::*, fronts::*, rays::*, rng::*, run::*, scene::*, sched, trav::*, tree::*};

#[derive(Clone, Copy, PartialEq)]
enum Scale {
    Full,
    Mid,
    Tiny,
}

fn scale(cx: &Ctx) -> Scale {
    if cfg!(miri) {
        return Scale::Tiny;
    }
    match cx.stage.as_str() {
        "tsan" | "msan" => Scale::Mid,
        _ => Scale::Full,
    }
}

/// What one thread saw; merged into the context later.
#[derive(Default)]
struct Seen {
    yields: u64,
    ops: u64,
    hash: u64,
    err: Option<String>,
}
impl Seen {
    fn take(&mut self, r: Result<Vec<u32>, String>) {
        self.ops += 1;
        match r {
            Ok(v) => {
                self.yields += v.len() as u64;
                for i in v {
                    self.hash = mix(self.hash ^ i as u64);
                }
            }
            Err(e) => self.err = Some(e),
        }
    }
    fn f(&mut self, r: Result<f32, String>) {
        self.ops += 1;
        match r {
            Ok(v) => self.hash = mix(self.hash ^ v.to_bits() as u64),
            Err(e) => self.err = Some(e),
        }
    }
}

fn bits(v: &[u32]) -> u64 {
    v.iter().fold(7, |h, x| mix(h ^ *x as u64))
}

/// Reads every byte of every node and index.
fn read_all(b: &Bvh, m: &Mbvh) -> u64 {
    let mut h = bits(b.indices());
    for n in b.nodes() {
        h = mix(h ^ n.bounds.min.x.to_bits() as u64 ^ (n.bounds.max.z.to_bits() as u64) << 32);
        h = mix(h ^ n.bounds.min.y.to_bits() as u64 ^ (n.bounds.max.y.to_bits() as u64) << 32);
        h = mix(h ^ n.bounds.min.z.to_bits() as u64 ^ (n.bounds.max.x.to_bits() as u64) << 32);
        h = mix(h ^ n.get_count_unchecked() as u32 as u64 ^ (n.get_left_first_unchecked() as u32 as u64) << 32);
    }
    h = mix(h ^ bits(m.indices()));
    for q in m.quad_nodes() {
        let (a, b, c, d, e, f) = q.points();
        let (g, i, j) = q.min_points();
        let (u, v, w) = q.max_points();
        for k in 0..4 {
            h = mix(h ^ q.children[k] as u32 as u64 ^ (q.counts[k] as u32 as u64) << 32);
            for x in [a, b, c, d, e, f, g, i, j, u, v, w] {
                h = mix(h ^ x[k].to_bits() as u64);
            }
        }
    }
    for n in m.nodes().iter().take(64) {
        h = mix(h ^ n.get_count_unchecked() as u32 as u64);
    }
    h
}

fn pick_rays(r: &mut Rng, eff: &[Aabb], k: usize) -> Vec<RaySpec> {
    let (mut lo, mut hi) = (Vec3::splat(f32::MAX), Vec3::splat(f32::MIN));
    for b in eff {
        lo = lo.min(b.min);
        hi = hi.max(b.max);
    }
    if eff.is_empty() {
        lo = -Vec3::ONE;
        hi = Vec3::ONE;
    }
    (0..k)
        .map(|_| {
            let tg = if eff.is_empty() { Vec3::ZERO } else { let b = &eff[r.below(eff.len())]; (b.min + b.max) * 0.5 };
            let mut s = gen_ray(r, lo, hi, Some(tg));
            if r.chance(0.05) {
                s.d[r.below(3)] = f32::NAN;
            }
            if r.chance(0.05) {
                s.o[r.below(3)] = f32::NAN;
            }
            s
        })
        .collect()
}

/// All front ends over one pair of structures.
fn exercise(b: &Bvh, m: &Mbvh, prims: &[Tri], rays: &[RaySpec], few: bool, s: &mut Seen) {
    for (k, q) in rays.iter().enumerate() {
        if few && (k % 2 == 1 || cfg!(miri)) {
            s.take(bvh_static(b, q));
            s.take(quad_static(m, q));
        } else {
            for quad in [false, true] {
                for (_, _, x) in ends(b, m, q, prims, quad) {
                    s.take(x);
                }
            }
        }
        s.f(bvh_closest(b, q, prims));
        s.f(quad_closest(m, q, prims));
    }
    let tm = Vec4::splat(1e-4);
    for (k, w) in rays.chunks_exact(4).enumerate() {
        let p = [w[0], w[1], w[2], w[3]];
        if few && (k > 0 || cfg!(miri)) {
            s.take(bvh_static4(b, &p));
            s.take(quad_static4(m, &p));
        } else {
            for quad in [false, true] {
                for (_, _, x) in ends4(b, m, &p, prims, quad) {
                    s.take(x);
                }
            }
        }
        s.f(bvh_closest4(b, &p, tm, prims).map(|t| t.x));
        s.f(quad_closest4(m, &p, tm, prims).map(|t| t.w));
    }
}

fn done(cx: &mut Ctx, s: &Seen, desc: &str) -> bool {
    cx.count("yields", s.yields);
    cx.count("traversals", s.ops);
    cx.seen("results", s.hash);
    if let Some(e) = &s.err {
        cx.fail("traversal", format!("{desc}: {e}"));
        return false;
    }
    true
}

fn new_boxes(r: &mut Rng, eff: &[Aabb]) -> Vec<Aabb> {
    let mode = r.below(3);
    let d = r.vec3(-5.0, 5.0);
    eff.iter()
        .map(|b| match mode {
            0 => mk_aabb(b.min + d, b.max + d),
            1 => mk_aabb(d, d),
            _ => {
                let a = r.vec3(-50.0, 50.0);
                mk_aabb(a, a + r.vec3(0.0, 9.0))
            }
        })
        .collect()
}

fn nodes_equal(a: &[BvhNode], b: &[BvhNode]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bounds.min == y.bounds.min && x.get_count_unchecked() == y.get_count_unchecked())
}

/// Build, convert, clone, validate, refit, traverse; then share with threads.
fn rust_case(cx: &mut Ctx, r: &mut Rng, kind: Kind, tris: Vec<Tri>, aabbs: Option<Vec<Aabb>>, leaf: Option<usize>, desc: String) {
    let sc = scale(cx);
    let n = tris.len();
    let thr = r.pick(&[1usize, 1, 4, 32, 256, 1024]);
    rtbvh::verif_hooks::WORK_SIZE_THRESHOLD.store(thr, std::sync::atomic::Ordering::SeqCst);
    sched::SEED.store(r.u64(), std::sync::atomic::Ordering::SeqCst);
    sched::MODE.store(if sc == Scale::Tiny { 0 } else { r.below(4) }, std::sync::atomic::Ordering::SeqCst);
    let desc = format!("{desc} task-threshold={thr}");
    let slow: Vec<sched::SlowTri> = tris.iter().map(|t| sched::SlowTri(*t)).collect();
    let res = build(kind, &slow, aabbs.as_deref(), leaf);
    sched::MODE.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut b = match res {
        Ok(b) => b,
        Err(e) => {
            cx.fail("build-error", format!("{desc}: {e}"));
            return;
        }
    };
    cx.count("builds", 1);
    cx.count(&format!("builds_{kind:?}"), 1);
    if let Ok(t) = walk(b.nodes(), b.indices()) {
        cx.max("depth", t.max_depth as u64);
        if t.max_depth > 31 {
            cx.count("trees_deeper_than_31", 1);
        }
        cx.seen("layouts", layout(b.nodes(), &t));
    }
    let mut eff = effective(&aabbs, &tris);
    let few = sc != Scale::Full || n > 2000;
    let k = match sc {
        Scale::Tiny => 4,
        Scale::Mid => 8,
        Scale::Full => 8,
    };
    for round in 0..2 {
        let m = Mbvh::construct(&b);
        let b2 = b.clone();
        let m2: Mbvh = b2.clone().into();
        let m3 = Mbvh::construct_from_raw(b.nodes(), b.indices());
        cx.count("conversions", 3);
        let h = read_all(&b, &m) ^ read_all(&b2, &m2) ^ read_all(&b, &m3);
        cx.seen("results", h);
        if sc == Scale::Full || round == 0 {
            b.validate(n);
        }
        let rays = pick_rays(r, &eff, k);
        let mut s = Seen::default();
        if sc == Scale::Tiny {
            // interpreted: one ray through every front end, then a few more
            exercise(&b, &m, &tris, &rays[round..round + 1], false, &mut s);
            exercise(&b2, &m3, &tris, &rays, true, &mut s);
        } else {
            exercise(&b, &m, &tris, &rays, few, &mut s);
            exercise(&b2, &m3, &tris, &rays[..k / 2], true, &mut s);
        }
        // fewer primitives than the structure knows
        if n > 1 {
            let cut = r.below(n);
            for q in &rays {
                let mut ray = q.ray();
                s.yields += b.traverse_iter(&mut ray, &tris[..cut]).take(cap(b.indices().len())).count() as u64;
                s.yields += m.traverse_iter(&mut ray, &tris[..cut]).take(cap(b.indices().len())).count() as u64;
            }
        }
        if !done(cx, &s, &desc) {
            return;
        }
        // the same structures from several threads, with clones and conversions
        let threads = if sc == Scale::Tiny { 2 } else { 3 };
        let all = Mutex::new(Seen::default());
        std::thread::scope(|sp| {
            for t in 0..threads {
                let (b, m, tris, rays, all) = (&b, &m, &tris, &rays, &all);
                sp.spawn(move || {
                    let mut s = Seen::default();
                    let part = &rays[..if sc == Scale::Tiny { 2 } else { rays.len() }];
                    exercise(b, m, tris, part, true, &mut s);
                    if t == 0 {
                        let c = b.clone();
                        let q = Mbvh::construct(b);
                        s.hash ^= read_all(&c, &q);
                        if !nodes_equal(c.nodes(), q.nodes()) {
                            s.err = Some("clone and conversion differ".into());
                        }
                    }
                    let mut g = all.lock().unwrap();
                    g.ops += s.ops;
                    g.yields += s.yields;
                    g.hash ^= s.hash;
                    if s.err.is_some() {
                        g.err = s.err;
                    }
                });
            }
        });
        let s = all.into_inner().unwrap();
        cx.count("concurrent_traversals", s.ops);
        if !done(cx, &s, &desc) {
            return;
        }
        if round == 0 {
            eff = new_boxes(r, &eff);
            b.refit(&eff);
            cx.count("refits", 1);
        }
    }
    // several builds at once
    if n <= 3000 && (sc != Scale::Tiny || cx.idx % 2 == 0) {
        let h = Mutex::new(0u64);
        std::thread::scope(|sp| {
            for t in 0..3 {
                let (slow, aabbs, h) = (&slow, &aabbs, &h);
                sp.spawn(move || {
                    let kk = KINDS[t];
                    if let Ok(b) = build(kk, slow, aabbs.as_deref(), leaf) {
                        let m = Mbvh::construct(&b);
                        *h.lock().unwrap() ^= read_all(&b, &m);
                    }
                });
            }
        });
        cx.seen("results", h.into_inner().unwrap());
        cx.count("concurrent_builds", 3);
    }
    cx.eval(mix(hash_str(&desc) ^ cx.idx), n > 2);
    cx.sample(|| desc);
}

/// Chains: one primitive far larger than the next, so trees get very deep.
fn chain(r: &mut Rng, n: usize) -> Vec<Tri> {
    let ratio = r.uni(1.05, 3.0);
    let ax = r.below(3);
    let nested = r.chance(0.5);
    (0..n)
        .map(|i| {
            let s = 1e4 / ratio.powi((i % 120) as i32) + i as f32 * 1e-5;
            if nested {
                Tri::new(Vec3::splat(-s), Vec3::new(s, -s, 0.0), Vec3::splat(s))
            } else {
                let mut c = Vec3::ZERO;
                c[ax] = s;
                Tri::new(c, c, c + Vec3::splat(s * 1e-3))
            }
        })
        .collect()
}

/// Quad nodes and nodes in memory aligned only as the types require.
fn aligned_case(cx: &mut Ctx, r: &mut Rng, tris: &[Tri], b: &Bvh) {
    let m = Mbvh::construct(b);
    let (an, aq) = (std::mem::align_of::<BvhNode>(), std::mem::align_of::<MbvhNode>());
    let mut s = Seen::default();
    let eff: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
    let rays = pick_rays(r, &eff, 4);
    for off in 0..4usize {
        // raw copies at every multiple of the types' own alignment within 16 bytes
        let (nq, nn, ni) = (m.quad_nodes().len(), b.nodes().len(), b.indices().len());
        let mut qmem = vec![0u128; nq * 8 + 4];
        let mut nmem = vec![0u128; nn * 2 + 4];
        let imem: Vec<u32> = b.indices().to_vec();
        let (qo, no) = ((off * aq) % 64, (off * an) % 64);
        // SAFETY: in bounds and aligned; both types are plain data
        let (quads, nodes): (&[MbvhNode], &[BvhNode]) = unsafe {
            let q = (qmem.as_mut_ptr() as *mut u8).add(qo) as *mut MbvhNode;
            std::ptr::copy_nonoverlapping(m.quad_nodes().as_ptr(), q, nq);
            let p = (nmem.as_mut_ptr() as *mut u8).add(no) as *mut BvhNode;
            std::ptr::copy_nonoverlapping(b.nodes().as_ptr(), p, nn);
            (std::slice::from_raw_parts(q, nq), std::slice::from_raw_parts(p, nn))
        };
        for q in &rays {
            let mut ray = q.ray();
            let lim = cap(ni);
            s.take(Ok(BvhIndexIterator::from_slices(&mut ray, nodes, &imem).map(|x| x.0).take(lim).collect()));
            s.take(Ok(MbvhIndexIterator::from_slices(&mut ray, quads, &imem).map(|x| x.0).take(lim).collect()));
            s.yields += BvhIterator::from_slices(&mut ray, nodes, &imem, tris).take(lim).count() as u64;
            s.yields += MbvhIterator::from_slices(&mut ray, quads, &imem, tris).take(lim).count() as u64;
        }
        let mut p = packet_of(&[rays[0], rays[1], rays[2], rays[3]]);
        let lim = cap(ni);
        s.take(Ok(BvhPacketIndexIterator::from_slices(&mut p, nodes, &imem).map(|x| x.0).take(lim).collect()));
        s.take(Ok(MbvhPacketIndexIterator::from_slices(&mut p, quads, &imem).map(|x| x.0).take(lim).collect()));
        s.yields += BvhPacketIterator::from_slices(&mut p, nodes, &imem, tris).take(lim).count() as u64;
        s.yields += MbvhPacketIterator::from_slices(&mut p, quads, &imem, tris).take(lim).count() as u64;
        let m4 = Mbvh::construct_from_raw(nodes, &imem);
        s.hash ^= read_all(b, &m4);
        cx.count("alignments", 1);
    }
    done(cx, &s, "own alignment");
}

fn empty_case(cx: &mut Ctx, r: &mut Rng) {
    let mut s = Seen::default();
    let rays = pick_rays(r, &[], 4);
    let b = Bvh::default();
    let m = Mbvh::construct(&b);
    let m2: Mbvh = Bvh::default().into();
    let m3 = Mbvh::default();
    for q in [&m, &m2, &m3] {
        exercise(&b, q, &[], &rays, false, &mut s);
        s.hash ^= read_all(&b, q);
        let bb = q.bounds();
        s.hash ^= bb.min.x.to_bits() as u64;
    }
    let bb = b.bounds();
    s.hash ^= bb.min.x.to_bits() as u64;
    b.validate(0);
    let mut c = b.clone();
    c.refit(&[]);
    // empty input slices for the builders
    for k in KINDS {
        if build_tri(k, &[], None, None).is_ok() {
            s.ops += 1;
        }
    }
    let mut ray = rays[0].ray();
    let mut p = packet_of(&[rays[0], rays[1], rays[2], rays[3]]);
    let none: &[Tri] = &[];
    s.yields += BvhIterator::from_slices(&mut ray, &[], &[], none).count() as u64;
    s.yields += MbvhIterator::from_slices(&mut ray, &[], &[], none).count() as u64;
    s.yields += BvhPacketIterator::from_slices(&mut p, &[], &[], none).count() as u64;
    s.yields += MbvhPacketIterator::from_slices(&mut p, &[], &[], none).count() as u64;
    s.yields += BvhIndexIterator::from_slices(&mut ray, &[], &[]).count() as u64;
    s.yields += MbvhIndexIterator::from_slices(&mut ray, &[], &[]).count() as u64;
    s.yields += BvhPacketIndexIterator::from_slices(&mut p, &[], &[]).count() as u64;
    s.yields += MbvhPacketIndexIterator::from_slices(&mut p, &[], &[]).count() as u64;
    cx.count("empty_rounds", 1);
    done(cx, &s, "empty");
}

/// Spread, split and intersection helpers reachable from safe code.
fn small_tools(cx: &mut Ctx, r: &mut Rng, tris: &[Tri]) {
    let mut h = 0u64;
    let eff: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
    for t in tris.iter().take(32) {
        let s = r.ray_for(t);
        let mut ray = s.ray();
        h ^= t.intersect(&mut ray) as u64;
        let mut p = packet_of(&[s, s, s, s]);
        h ^= t.intersect4(&mut p, Vec4::splat(1e-4)).is_some() as u64;
        let bb = t.exact_aabb();
        h ^= bb.intersect(&s.ray()).is_some() as u64 ^ bb.intersect4(&p).is_some() as u64;
        for ax in 0..3 {
            let (a, b) = t.split(ax, (bb.min[ax] + bb.max[ax]) * 0.5);
            h = mix(h ^ a.max.x.to_bits() as u64 ^ b.min.x.to_bits() as u64);
        }
    }
    h ^= Aabb::union_of_list(&eff).min.x.to_bits() as u64;
    cx.seen("results", h);
    cx.count("tool_rounds", 1);
}

trait RayFor {
    fn ray_for(&mut self, t: &Tri) -> RaySpec;
}
impl RayFor for Rng {
    fn ray_for(&mut self, t: &Tri) -> RaySpec {
        let p = inner_point(self, t);
        let b = t.exact_aabb();
        gen_ray(self, b.min, b.max, Some(p))
    }
}

/// The C functions over caller memory that ends where it says it ends.
fn ffi_case(cx: &mut Ctx, r: &mut Rng, tris: &[Tri], tag: u64) -> Result<Seen, String> {
    let sc = scale(cx);
    ffi_run(r, tris, tag, sc)
}

fn ffi_run(r: &mut Rng, tris: &[Tri], tag: u64, sc: Scale) -> Result<Seen, String> {
    let mut s = Seen::default();
    let n = tris.len();
    let eff: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
    let boxes = rt_boxes(&eff, if r.chance(0.5) { 0 } else { 0x7fc0_0000 });
    let mut h = RTBvh::default();
    let leaf = r.pick(&[0usize, 1, 2, 4]);
    let mode = tag % 4;
    let rc = match mode {
        0 | 1 => {
            let stride = if mode == 0 { 12 } else { 16 };
            let cs: Vec<Vec3> = tris.iter().map(|t| t.center()).collect();
            let mem = Floats::new(&strided(&cs, stride, true));
            let ty = ctype(r.pick(&KINDS));
            // SAFETY: valid memory of the documented types
            let x = unsafe { c::create_bvh(boxes.p() as *const RTAabb, n, mem.p(), stride, leaf, ty, &mut h) };
            if !mem.intact() {
                return Err("wrote in front of the centres".into());
            }
            x
        }
        _ => {
            // packed triangles; vertex stride 12 or 16, padding between triangles
            let vs = r.pick(&[12usize, 16, 20]);
            let ts = 3 * vs + r.pick(&[0usize, 4, 12]);
            let mut v = fill(n * ts / 4);
            for (i, t) in tris.iter().enumerate() {
                for k in 0..3 {
                    for a in 0..3 {
                        v[i * ts / 4 + k * vs / 4 + a] = t.v[k][a];
                    }
                }
            }
            v.truncate((n - 1) * ts / 4 + 2 * vs / 4 + 3);
            let mem = Floats::new(&v);
            let bp = if mode == 2 { std::ptr::null() } else { boxes.p() as *const RTAabb };
            let cs = r.pick(&[12usize, 16, 20]);
            let cmem = Floats::new(&strided(&tris.iter().map(|t| t.center()).collect::<Vec<_>>(), cs, true));
            // SAFETY: valid memory of the documented layout
            let x = unsafe { c::create_spatial_Bvh(bp, n, cmem.p(), cs, mem.p(), vs, ts, leaf as u32, &mut h) };
            if !mem.intact() || !cmem.intact() {
                return Err("wrote in front of the vertices".into());
            }
            x
        }
    };
    if rc != ResultCode::Ok {
        return Err(format!("creating gave {rc:?}"));
    }
    let mut q = RTMbvh::default();
    // SAFETY: a live handle
    if unsafe { c::create_mbvh(h, &mut q) } != ResultCode::Ok {
        return Err("converting failed".into());
    }
    s.hash = mix(s.hash ^ view(&h).hash(false));
    s.hash = mix(s.hash ^ view_m(&q).hash(true));
    let mut mem = RayMem::new();
    let rays = pick_rays(r, &eff, if sc == Scale::Tiny { 4 } else { 12 });
    for round in 0..2 {
        for on in [Target::B(h), Target::M(q)] {
            let lim = cap(view(&h).index_count as usize);
            for g in rays.chunks(4) {
                for g in if g.len() == 4 { vec![&g[..1], &g[..4]] } else { vec![&g[..1]] } {
                    let lower = |_id: u32, t: &mut [f32]| {
                        for x in t.iter_mut() {
                            if *x > 1.0 {
                                *x *= 0.9;
                            }
                        }
                    };
                    let mut rec = Rec::new(g.len(), lim);
                    if round == 1 {
                        rec.hit = Some(&lower);
                        rec.stop_at = 40;
                    }
                    let _ = shoot(&mut mem, &on, g, &mut rec);
                    s.take(Ok(rec.visits.clone()));
                    if let Some(e) = rec.err.take() {
                        return Err(e);
                    }
                }
            }
        }
        if !mem.intact() {
            return Err("wrote in front of the caller's ray memory".into());
        }
        if round == 0 {
            let nb = new_boxes(r, &eff);
            let fm = rt_boxes(&nb, 0);
            // SAFETY: a live handle and one box per primitive
            if unsafe { c::refit(fm.p() as *const RTAabb, h) } != ResultCode::Ok {
                return Err("refitting failed".into());
            }
            if !fm.intact() {
                return Err("wrote in front of the boxes".into());
            }
        }
    }
    if !boxes.intact() {
        return Err("wrote in front of the boxes".into());
    }
    s.hash = mix(s.hash ^ view(&h).hash(false));
    c::free_bvh(h);
    s.hash = mix(s.hash ^ view_m(&q).hash(true));
    c::free_mbvh(q);
    Ok(s)
}

fn main() {
    if !cfg!(miri) {
        rtbvh::verif_hooks::set_schedule_point(Some(sched::point));
    }
    run("C09", 160, 1600, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let sc = scale(cx);
        let kind = KINDS[(idx % 3) as usize];
        let sk = (mix(idx) % N_KINDS as u64) as usize;
        let what = (idx + idx / 8) % 8;
        let size = |r: &mut Rng| match sc {
            Scale::Full => {
                let sel = r.u64();
                pick_n(r, sel, 12_000)
            }
            Scale::Mid => r.pick(&[1usize, 2, 3, 5, 17, 64, 300, 1100, 2300]),
            Scale::Tiny => r.pick(&[1usize, 2, 3, 5, 8, 12]),
        };
        let leaf = pick_leaf(&mut r);
        // parking_lot's contended path makes calls Miri rejects
        let what = if cfg!(miri) && what == 7 { idx / 64 % 3 } else { what };
        match what {
            0 | 1 | 2 => {
                let n = cap_for(kind, sk, size(&mut r));
                let mut k = case_of(&mut r, kind, sk, n);
                if what == 2 {
                    // boxes that have nothing to do with the triangles
                    let n = k.scene.tris.len();
                    k.aabbs = Some((0..n).map(|_| { let a = r.vec3(-30.0, 30.0); mk_aabb(a, a + r.vec3(0.0, 9.0)) }).collect());
                    k.desc += " unrelated-boxes";
                }
                rust_case(cx, &mut r, kind, k.scene.tris, k.aabbs, k.leaf, k.desc);
            }
            3 => {
                let n = match sc {
                    Scale::Full => r.range(30, 1500),
                    Scale::Mid => r.range(30, 600),
                    Scale::Tiny => r.range(8, 16),
                };
                let t = chain(&mut r, n);
                let aabbs = if r.chance(0.5) { Some(t.iter().map(|t| t.exact_aabb()).collect()) } else { None };
                cx.count("chains", 1);
                let leaf = if r.chance(0.7) { None } else { leaf };
                rust_case(cx, &mut r, kind, t, aabbs, leaf, format!("{kind:?} chain/{n} leaf={leaf:?}"));
            }
            4 => {
                empty_case(cx, &mut r);
                let n = cap_for(kind, sk, size(&mut r).min(600));
                let k = case_of(&mut r, kind, sk, n);
                small_tools(cx, &mut r, &k.scene.tris);
                if let Ok(b) = k.build() {
                    aligned_case(cx, &mut r, &k.scene.tris, &b);
                }
                cx.eval(mix(idx ^ 0xa11), true);
            }
            5 => {
                // boxes with wild centres
                let n = size(&mut r).min(4000);
                let (name, bx) = box_scene(&mut r, n);
                let kd = if kind == Kind::Spatial { Kind::Binned } else { kind };
                rtbvh::verif_hooks::WORK_SIZE_THRESHOLD.store(r.pick(&[1usize, 64, 1024]), std::sync::atomic::Ordering::SeqCst);
                if let Ok(mut b) = build_box(kd, &bx, None, leaf) {
                    let m = Mbvh::construct(&b);
                    let mut s = Seen::default();
                    s.hash = read_all(&b, &m);
                    let eff: Vec<Aabb> = bx.iter().map(|b| b.bb).collect();
                    for q in pick_rays(&mut r, &eff, 4) {
                        s.take(bvh_static(&b, &q));
                        s.take(quad_static(&m, &q));
                    }
                    b.refit(&eff);
                    s.hash ^= read_all(&b, &m);
                    cx.count("builds", 1);
                    done(cx, &s, &name);
                }
                cx.eval(mix(idx ^ 0xb0c5), n > 2);
            }
            6 => {
                let n = size(&mut r).min(3000);
                let sc_ = tri_scene(&mut r, sk, cap_for(Kind::Locb, sk, n));
                for t in 0..if sc == Scale::Tiny { 1 } else { 4 } {
                    match ffi_case(cx, &mut r, &sc_.tris, if sc == Scale::Tiny { idx / 8 } else { t }) {
                        Ok(s) => {
                            cx.count("c_api_rounds", 1);
                            if !done(cx, &s, "c api") {
                                return;
                            }
                        }
                        Err(e) => {
                            cx.fail("c-api", format!("{}/{} mode {t}: {e}", sc_.name, sc_.tris.len()));
                            return;
                        }
                    }
                }
                cx.eval(mix(idx ^ 0xffc), true);
            }
            _ => {
                // the C API from several threads, each with handles of its own
                let n = size(&mut r).min(800);
                let scn = tri_scene(&mut r, sk, cap_for(Kind::Locb, sk, n));
                let threads = if sc == Scale::Tiny { 2 } else { 4 };
                let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
                let out = Mutex::new(vec![]);
                std::thread::scope(|sp| {
                    for (t, sd) in seeds.iter().enumerate() {
                        let (scn, out) = (&scn, &out);
                        sp.spawn(move || {
                            let mut r = Rng::new(*sd);
                            let x = ffi_run(&mut r, &scn.tris, t as u64, sc);
                            out.lock().unwrap().push(x);
                        });
                    }
                });
                for x in out.into_inner().unwrap() {
                    match x {
                        Ok(s) => {
                            cx.count("c_api_concurrent_rounds", 1);
                            if !done(cx, &s, "c api") {
                                return;
                            }
                        }
                        Err(e) => {
                            cx.fail("c-api", format!("{}: {e}", scn.name));
                            return;
                        }
                    }
                }
                cx.eval(mix(idx ^ 0xffcc), true);
            }
        }
    });
}
