//! C21: C API handles stay valid through any concurrent history.
//! Threads run random operations on shared handles; every operation is logged
//! with start and end stamps, and the log is checked afterwards.
use rtbvh::*;
use rtbvh_rs as c;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use vh::{ffi::*, rays::*, rng::*, run::*, scene::*, sched, trav::*, tree::*};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

static STAMP: AtomicU64 = AtomicU64::new(1);
fn stamp() -> u64 {
    STAMP.fetch_add(1, SeqCst)
}

/// A handle the threads share.
struct Shared {
    class: Class,
    h: RTBvh,
    scene: usize,
    q: RTMbvh,
    hash: u64,
    qhash: u64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Class {
    /// only read and converted
    Read,
    /// refitted and converted concurrently
    Refit,
    /// freed (repeatedly) and converted concurrently
    Free,
}

/// One input with its Rust reference trees.
struct Input {
    kind: Kind,
    tris: Vec<Tri>,
    centres: Vec<f32>,
    verts: Vec<f32>,
    boxes: Vec<f32>,
    leaf: usize,
    /// AABB sets: 0 as built, 1..=5 to refit to (5 is the original again), and
    /// the canonical trees that result
    versions: Vec<Vec<f32>>,
    trees: Vec<u64>,
    quads: Vec<u64>,
    idx: usize,
}

fn flat(b: &[Aabb]) -> Vec<f32> {
    b.iter().flat_map(|b| [b.min.x, b.min.y, b.min.z, 0.0, b.max.x, b.max.y, b.max.z, 0.0]).collect()
}

fn quad_hash(q: &[MbvhNode], idx: &[u32]) -> Result<u64, String> {
    let t = walk_quad(q, idx)?;
    let mut v: Vec<u64> = vec![];
    for s in &t.slots {
        if s.count <= 0 {
            continue;
        }
        let mut p = idx[s.child as usize..(s.child + s.count) as usize].to_vec();
        p.sort_unstable();
        let mut h = p.iter().fold(9u64, |h, p| mix(h ^ *p as u64));
        for f in [s.min, s.max] {
            for k in 0..3 {
                h = mix(h ^ (if f[k] == 0.0 { 0.0f32 } else { f[k] }).to_bits() as u64);
            }
        }
        v.push(h);
    }
    v.sort_unstable();
    Ok(v.iter().fold(1, |h, x| mix(h ^ x)))
}

fn tree_hash(nodes: &[BvhNode], idx: &[u32]) -> Result<u64, String> {
    let t = walk(nodes, idx)?;
    Ok(canonical(nodes, idx, &t))
}

fn input(r: &mut Rng, i: usize, max: usize) -> Input {
    let kind = KINDS[r.below(3)];
    let sk = r.below(N_KINDS);
    let n = match r.below(6) {
        0 => r.range(1, 4),
        1 => r.range(200, max.max(201)),
        _ => r.range(2, 80),
    };
    let tris = tri_scene(r, sk, cap_for(kind, sk, n).min(600)).tris;
    let leaf = pick_leaf(r).unwrap_or(0).min(u32::MAX as usize);
    let eff: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
    let mut b = build_tri(kind, &tris, Some(&eff), if leaf == 0 { None } else { Some(leaf) }).expect("valid input");
    let mut versions = vec![flat(&eff)];
    let mut trees = vec![tree_hash(b.nodes(), b.indices()).unwrap_or(0)];
    let mut quads = vec![quad_hash(Mbvh::construct(&b).quad_nodes(), b.indices()).unwrap_or(0)];
    for k in 1..=5 {
        let mv = glam::Vec3::splat((k % 5) as f32 * 1.5);
        let nb: Vec<Aabb> = eff.iter().map(|b| mk_aabb(b.min + mv, b.max + mv * 2.0)).collect();
        b.refit(&nb);
        versions.push(flat(&nb));
        trees.push(tree_hash(b.nodes(), b.indices()).unwrap_or(0));
        quads.push(quad_hash(Mbvh::construct(&b).quad_nodes(), b.indices()).unwrap_or(0));
    }
    Input {
        kind,
        centres: tris.iter().flat_map(|t| t.center().to_array()).collect(),
        verts: tris.iter().flat_map(|t| t.v).flat_map(|v| v.to_array()).collect(),
        boxes: flat(&eff),
        tris,
        leaf,
        versions,
        trees,
        quads,
        idx: i,
    }
}

fn create(i: &Input) -> (ResultCode, RTBvh) {
    let mut h = RTBvh::default();
    let n = i.tris.len();
    let rc = unsafe {
        match i.kind {
            Kind::Spatial => c::create_spatial_Bvh(i.boxes.as_ptr() as *const RTAabb, n, i.centres.as_ptr(), 12, i.verts.as_ptr(), 12, 36, i.leaf as u32, &mut h),
            _ => c::create_bvh(i.boxes.as_ptr() as *const RTAabb, n, i.centres.as_ptr(), 12, i.leaf, ctype(i.kind), &mut h),
        }
    };
    (rc, h)
}

fn convert(h: RTBvh) -> (ResultCode, RTMbvh) {
    let mut q = RTMbvh::default();
    let rc = unsafe { c::create_mbvh(h, &mut q) };
    (rc, q)
}

#[derive(Clone, Copy, Debug)]
enum What {
    Refit(usize),
    /// converted: the version seen, or None for an empty structure or an error
    Convert(Option<usize>),
    Free,
}

#[derive(Clone, Copy, Debug)]
struct Event {
    slot: usize,
    start: u64,
    end: u64,
    what: What,
}

#[derive(Default)]
struct Log {
    events: Vec<Event>,
    ids: Vec<u32>,
    qids: Vec<u32>,
    errs: Vec<(String, String)>,
    counts: HashMap<&'static str, u64>,
}

impl Log {
    fn fail(&mut self, sig: &str, msg: String) {
        if self.errs.len() < 4 {
            self.errs.push((sig.into(), msg));
        }
    }
    fn n(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
}

/// Which version of its input a quad handle shows.
fn version_of(q: &RTMbvh, i: &Input) -> Result<Option<usize>, String> {
    let v = view_m(q);
    if v.index_count == 0 {
        return Ok(None);
    }
    let h = quad_hash(v.quads(), v.indices())?;
    match i.quads.iter().position(|x| *x == h) {
        Some(k) => Ok(Some(k)),
        None => Err("the quad BVH matches none of the AABB sets the BVH was ever given".into()),
    }
}

fn traverse(log: &mut Log, mem: &mut RayMem, r: &mut Rng, on: &Target, i: &Input, quad: bool) {
    let (lo, hi) = Scene { name: String::new(), tris: i.tris.clone() }.bounds();
    let lanes = if r.chance(0.5) { 1 } else { 4 };
    let rays: Vec<RaySpec> = (0..lanes)
        .map(|_| {
            let p = inner_point(r, &i.tris[r.clone().below(i.tris.len())]);
            gen_ray(r, lo, hi, Some(p))
        })
        .collect();
    let mut rec = Rec::new(lanes, cap(i.tris.len() * 2));
    let (rc, _) = shoot(mem, on, &rays, &mut rec);
    if rc != ResultCode::Ok || rec.err.is_some() {
        log.fail("traverse", format!("input {}: intersecting a live handle gives {rc:?} {:?}", i.idx, rec.err));
    }
    if rec.visits.iter().any(|v| *v as usize >= i.tris.len()) {
        log.fail("traverse", format!("input {}: visited a primitive that does not exist", i.idx));
    }
    log.n(if quad { "quad_traversals" } else { "traversals" });
}

/// A spinning meeting point that threads may leave for good.
struct Meet(std::sync::Mutex<(u64, u64, u64)>);
impl Meet {
    fn state(&self) -> std::sync::MutexGuard<'_, (u64, u64, u64)> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn go(g: &mut (u64, u64, u64)) {
        let (here, round, members) = g;
        if *here >= *members {
            *here = 0;
            *round += 1;
        }
    }
    fn wait(&self) {
        let mine;
        {
            let mut g = self.state();
            mine = g.1;
            g.0 += 1;
            Self::go(&mut g);
        }
        let mut n = 0u32;
        while self.state().1 == mine {
            n += 1;
            if n > 300 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}
struct Leave<'a>(&'a Meet);
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        let mut g = self.0.state();
        g.2 -= 1;
        Meet::go(&mut g);
    }
}

fn worker(seed: u64, ops: usize, inputs: &[Input], shared: &[Shared], meet: &Meet) -> Log {
    let mut r = Rng::new(seed);
    let mut log = Log::default();
    let mut mem = RayMem::new();
    let mut own: Vec<(RTBvh, usize, u64, Option<(RTMbvh, u64)>)> = vec![];
    let leave = Leave(meet);
    for op in 0..ops {
        // every few operations all threads turn to the same handle at once
        let storm = op % 4 == 3;
        let hot = mix(op as u64 ^ 0x51) as usize;
        if storm {
            meet.wait();
        }
        let pick = match (storm, hot % 4) {
            (false, _) => r.below(12),
            (true, 0) => 0,
            (true, _) => 11,
        };
        match pick {
            // ---- own handles come and go
            0 | 1 => {
                let i = &inputs[r.below(inputs.len())];
                let (rc, h) = create(i);
                log.n("creations");
                if rc != ResultCode::Ok {
                    log.fail("create", format!("creation returned {rc:?}"));
                    return log;
                }
                let v = view(&h);
                log.ids.push(v.id);
                match tree_hash(v.nodes(), v.indices()) {
                    Ok(x) if x == i.trees[0] => {}
                    x => log.fail("create-tree", format!("{:?}, {} triangles: created handle holds a different tree ({x:?})", i.kind, i.tris.len())),
                }
                own.push((h, i.idx, v.hash(false), None));
            }
            2 if !own.is_empty() => {
                let k = r.below(own.len());
                let (h, i, hash, q) = own[k];
                if view(&h).hash(false) != hash {
                    log.fail("changed", format!("data of a live handle (id {}) changed", view(&h).id));
                    return log;
                }
                if q.is_none() {
                    let (rc, q) = convert(h);
                    if rc != ResultCode::Ok {
                        log.fail("convert", format!("converting a live handle returned {rc:?}"));
                        return log;
                    }
                    log.qids.push(view_m(&q).id);
                    match version_of(&q, &inputs[i]) {
                        Ok(Some(0)) => {}
                        x => log.fail("convert-tree", format!("converting an untouched BVH gives version {x:?}")),
                    }
                    own[k].3 = Some((q, view_m(&q).hash(true)));
                    log.n("conversions");
                } else {
                    traverse(&mut log, &mut mem, &mut r, &Target::M(q.unwrap().0), &inputs[i], true);
                }
            }
            3 if !own.is_empty() => {
                let k = r.below(own.len());
                let (h, i, hash, q) = own.swap_remove(k);
                if view(&h).hash(false) != hash || q.map_or(false, |(q, qh)| view_m(&q).hash(true) != qh) {
                    log.fail("changed", format!("data of a live handle (id {}) changed", view(&h).id));
                    return log;
                }
                if r.chance(0.5) {
                    c::free_bvh(h);
                    // the quad BVH lives on
                    if let Some((q, qh)) = q {
                        if view_m(&q).hash(true) != qh {
                            log.fail("changed", "freeing a BVH changed the quad BVH made from it".into());
                            return log;
                        }
                        traverse(&mut log, &mut mem, &mut r, &Target::M(q), &inputs[i], true);
                        c::free_mbvh(q);
                        if r.chance(0.3) {
                            c::free_mbvh(q);
                        }
                    }
                } else {
                    if let Some((q, _)) = q {
                        c::free_mbvh(q);
                    }
                    if view(&h).hash(false) != hash {
                        log.fail("changed", "freeing a quad BVH changed a BVH".into());
                        return log;
                    }
                    c::free_bvh(h);
                }
                log.n("frees");
                if r.chance(0.3) {
                    c::free_bvh(h);
                    log.n("double_frees");
                }
                let (rc, q2) = convert(h);
                if rc == ResultCode::Ok {
                    if view_m(&q2).index_count != 0 {
                        log.fail("stale", "converting a freed handle gives a structure with primitives".into());
                    }
                    log.qids.push(view_m(&q2).id);
                    c::free_mbvh(q2);
                }
                log.n("stale_conversions");
                unsafe { c::refit(inputs[i].boxes.as_ptr() as *const RTAabb, h) };
            }
            4 if !own.is_empty() => {
                // refit an own handle and look through it at once
                let k = r.below(own.len());
                let v = r.range(1, 5);
                let (h, i, ..) = own[k];
                let i = &inputs[i];
                let rc = unsafe { c::refit(i.versions[v].as_ptr() as *const RTAabb, h) };
                let w = view(&h);
                let got = tree_hash(w.nodes(), w.indices());
                if rc != ResultCode::Ok || got != Ok(i.trees[v]) {
                    log.fail("refit", format!("{:?}, {} triangles: refit returned {rc:?}; seen through the handle: {}", i.kind, i.tris.len(), if got.is_ok() { "a different tree" } else { "no tree" }));
                    return log;
                }
                if let Some((q, qh)) = own[k].3 {
                    if view_m(&q).hash(true) != qh {
                        log.fail("changed", "refitting a BVH changed a quad BVH made earlier".into());
                        return log;
                    }
                    c::free_mbvh(q);
                    own[k].3 = None;
                }
                c::free_bvh(h);
                own.swap_remove(k);
                log.n("refits");
            }
            // ---- bogus handles
            5 => {
                let mut v = view(&shared[r.below(shared.len())].h);
                v.id = {
                    let some = 0x4000_0000 + r.below(1000) as u32;
                    r.pick(&[u32::MAX, u32::MAX - 1, 0x7fff_ffff, some])
                };
                let h = handle(v);
                let (rc, _) = convert(h);
                let rc2 = unsafe { c::refit(inputs[0].boxes.as_ptr() as *const RTAabb, h) };
                if rc != ResultCode::Error || rc2 != ResultCode::Error {
                    log.fail("bogus", format!("a handle never issued: conversion {rc:?}, refit {rc2:?}"));
                }
                if r.chance(0.02) {
                    c::free_bvh(h);
                    c::free_mbvh(handle_m(v));
                    c::free_bvh(RTBvh::default());
                    c::free_mbvh(RTMbvh::default());
                }
                log.n("bogus_operations");
            }
            // ---- shared handles
            _ => {
                let k = if storm { (hot >> 8) % shared.len() } else { r.below(shared.len()) };
                let s = &shared[k];
                let i = &inputs[s.scene];
                match (s.class, r.below(4)) {
                    (Class::Read, 0) => {
                        if view(&s.h).hash(false) != s.hash || view_m(&s.q).hash(true) != s.qhash {
                            log.fail("changed", format!("data of a live shared handle (id {}) changed", view(&s.h).id));
                            return log;
                        }
                        log.n("snapshots_compared");
                    }
                    (Class::Read, 1) => traverse(&mut log, &mut mem, &mut r, &Target::B(s.h), i, false),
                    (Class::Read, 2) => traverse(&mut log, &mut mem, &mut r, &Target::M(s.q), i, true),
                    (Class::Refit, 0 | 1) => {
                        let v = r.range(1, 5);
                        let start = stamp();
                        let rc = unsafe { c::refit(i.versions[v].as_ptr() as *const RTAabb, s.h) };
                        let end = stamp();
                        if rc != ResultCode::Ok {
                            log.fail("refit", format!("refit of a live shared handle returned {rc:?}"));
                        }
                        log.events.push(Event { slot: k, start, end, what: What::Refit(i.rep(v)) });
                        log.n("shared_refits");
                    }
                    (Class::Free, 0) => {
                        let start = stamp();
                        c::free_bvh(s.h);
                        let end = stamp();
                        log.events.push(Event { slot: k, start, end, what: What::Free });
                        log.n("shared_frees");
                    }
                    _ => {
                        let start = stamp();
                        let (rc, q) = convert(s.h);
                        let end = stamp();
                        let seen = if rc == ResultCode::Ok {
                            log.qids.push(view_m(&q).id);
                            match version_of(&q, i) {
                                Ok(v) => v,
                                Err(e) => {
                                    log.fail("torn", format!("{:?} {:?}: {e}", s.class, i.kind));
                                    return log;
                                }
                            }
                        } else {
                            None
                        };
                        if rc == ResultCode::Ok {
                            c::free_mbvh(q);
                        }
                        if s.class == Class::Read && seen != Some(0) {
                            log.fail("convert", format!("converting a live handle gives {rc:?}, version {seen:?}"));
                            return log;
                        }
                        log.events.push(Event { slot: k, start, end, what: What::Convert(seen) });
                        log.n("shared_conversions");
                    }
                }
            }
        }
    }
    drop(leave);
    for (h, _, hash, q) in own {
        if view(&h).hash(false) != hash || q.map_or(false, |(q, qh)| view_m(&q).hash(true) != qh) {
            log.fail("changed", format!("data of a live handle (id {}) changed", view(&h).id));
        }
        c::free_bvh(h);
        if let Some((q, _)) = q {
            c::free_mbvh(q);
        }
    }
    log
}

impl Input {
    /// The first version that looks the same in a quad BVH.
    fn rep(&self, v: usize) -> usize {
        self.quads.iter().position(|x| *x == self.quads[v]).unwrap_or(v)
    }
}

/// Register linearizability of one shared slot: what a conversion saw must be
/// a value that could have been current at some moment during it.
fn check_slot(events: &[Event], class: Class) -> Result<(), String> {
    for e in events {
        let What::Convert(seen) = e.what else { continue };
        match class {
            Class::Read => {}
            Class::Refit => {
                let Some(v) = seen else { return Err(format!("a conversion {e:?} of a live BVH gave an empty structure")) };
                let writes: Vec<&Event> = events.iter().filter(|w| matches!(w.what, What::Refit(_))).collect();
                // candidates: initial value (if no write ended before the start) and every write that
                // started before our end and was not certainly overwritten before our start
                let mut ok = v == 0 && writes.iter().all(|w| w.end > e.start);
                for w in &writes {
                    let What::Refit(x) = w.what else { continue };
                    if x == v && w.start < e.end && !writes.iter().any(|o| o.start > w.end && o.end < e.start) {
                        ok = true;
                    }
                }
                if !ok {
                    let last: Vec<_> = writes.iter().filter(|w| w.start < e.end).rev().take(4).collect();
                    return Err(format!("{e:?} saw AABB set {v}, which was not current at any time during it; refits nearby: {last:?}"));
                }
            }
            Class::Free => {
                let frees: Vec<&Event> = events.iter().filter(|w| matches!(w.what, What::Free)).collect();
                if seen.is_some() && frees.iter().any(|f| f.end < e.start) {
                    return Err(format!("{e:?} saw primitives after the handle was freed"));
                }
                if seen.is_none() && !frees.iter().any(|f| f.start < e.end) {
                    return Err(format!("{e:?} saw nothing although the handle was not freed yet"));
                }
                if seen.is_some_and(|v| v != 0) {
                    return Err(format!("{e:?} saw AABBs never given"));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run("C21", 40, 400, |cx| {
        let mut r = cx.rng();
        rtbvh::verif_hooks::WORK_SIZE_THRESHOLD.store(r.pick(&[1usize, 16, 1024]), Relaxed);
        sched::SEED.store(r.u64(), Relaxed);
        sched::MODE.store(r.below(4), Relaxed);
        rtbvh::verif_hooks::set_schedule_point(Some(sched::point));
        let small = cx.stage != "chk" && cx.stage != "rel";
        let inputs: Vec<Input> = (0..8).map(|i| input(&mut r, i, if small { 210 } else { 600 })).collect();
        let mut ids: Vec<u32> = vec![];
        let mut qids: Vec<u32> = vec![];
        let mut shared = vec![];
        for k in 0..12 {
            let scene = r.below(inputs.len());
            let class = [Class::Read, Class::Refit, Class::Free][k % 3];
            let (rc, h) = create(&inputs[scene]);
            let (rc2, q) = convert(h);
            if rc != ResultCode::Ok || rc2 != ResultCode::Ok {
                cx.fail("create", format!("creation {rc:?}, conversion {rc2:?}"));
                return;
            }
            ids.push(view(&h).id);
            qids.push(view_m(&q).id);
            shared.push(Shared { class, h, scene, q, hash: view(&h).hash(false), qhash: view_m(&q).hash(true) });
        }
        let threads = r.range(2, 6);
        let ops = if small { 60 } else { r.range(40, 250) };
        let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
        let meet = Meet(std::sync::Mutex::new((0, 0, threads as u64)));
        let logs: Vec<Log> = std::thread::scope(|s| {
            let (inputs, shared) = (&inputs, &shared);
            let meet = &meet;
            let hs: Vec<_> = seeds.iter().map(|seed| s.spawn(move || worker(*seed, ops, inputs, shared, meet))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| {
                let mut l = Log::default();
                l.fail("panic", "an operation panicked".into());
                l
            })).collect()
        });
        sched::MODE.store(0, Relaxed);
        let mut events: Vec<Event> = vec![];
        for l in logs {
            ids.extend(&l.ids);
            qids.extend(&l.qids);
            events.extend(&l.events);
            for (k, v) in l.counts {
                cx.count(k, v);
            }
            for (s, m) in l.errs {
                cx.fail(s, format!("{threads} threads: {m}"));
            }
        }
        if !cx.violations.is_empty() {
            return;
        }
        events.sort_by_key(|e| e.start);
        // distinct identities
        for (what, ids) in [("BVH", &ids), ("quad BVH", &qids)] {
            let mut seen = HashSet::new();
            for i in ids.iter() {
                if !seen.insert(*i) {
                    cx.fail("identity", format!("two {what} handles have id {i}"));
                    return;
                }
            }
        }
        cx.count("identities", (ids.len() + qids.len()) as u64);
        let overlaps = events.windows(2).filter(|w| w[1].start < w[0].end).count();
        cx.count("overlapping_operations", overlaps as u64);
        // per-handle histories
        for (k, s) in shared.iter().enumerate() {
            let ev: Vec<Event> = events.iter().filter(|e| e.slot == k).cloned().collect();
            if let Err(m) = check_slot(&ev, s.class) {
                cx.fail("history", format!("{:?} handle, {threads} threads: {m}", s.class));
                return;
            }
            cx.seen("histories", ev.iter().fold(k as u64, |h, e| mix(h ^ match e.what {
                What::Refit(v) => v as u64,
                What::Convert(v) => 10 + v.map_or(9, |v| v as u64),
                What::Free => 30,
            })));
            let i = &inputs[s.scene];
            match s.class {
                Class::Read => {
                    if view(&s.h).hash(false) != s.hash {
                        cx.fail("changed", "data of a shared handle changed");
                        return;
                    }
                }
                Class::Refit => {
                    // quiescent: the last state is one of the refits not certainly overwritten
                    let v = view(&s.h);
                    let got = tree_hash(v.nodes(), v.indices());
                    let w: Vec<&Event> = ev.iter().filter(|e| matches!(e.what, What::Refit(_))).collect();
                    let mut ok = w.is_empty() && got == Ok(i.trees[0]);
                    for e in &w {
                        let What::Refit(x) = e.what else { continue };
                        if !w.iter().any(|o| o.start > e.end) && (1..=5).any(|v| i.rep(v) == x && got == Ok(i.trees[v])) {
                            ok = true;
                        }
                    }
                    if !ok {
                        cx.fail("refit", format!("{:?}: after all refits the handle shows none of the candidates' trees", i.kind));
                        return;
                    }
                }
                Class::Free => {}
            }
            if view_m(&s.q).hash(true) != s.qhash {
                cx.fail("changed", format!("operations on a {:?} BVH changed the quad BVH made from it", s.class));
                return;
            }
            cx.eval(mix(cx.idx << 8 | k as u64), !ev.is_empty());
        }
        // free in random order; the rest must not be disturbed
        let mut order: Vec<usize> = (0..shared.len()).collect();
        r.shuffle(&mut order);
        for (p, &k) in order.iter().enumerate() {
            c::free_bvh(shared[k].h);
            c::free_mbvh(shared[k].q);
            for &o in &order[p + 1..] {
                let s = &shared[o];
                if s.class == Class::Read && view(&s.h).hash(false) != s.hash || view_m(&s.q).hash(true) != s.qhash {
                    cx.fail("changed", "freeing a handle disturbed another one");
                    return;
                }
            }
        }
        // more handles than 16 bits can count
        if !small && cx.idx % 16 == 5 {
            many(cx, &mut r, &ids);
            if !cx.violations.is_empty() {
                return;
            }
        }
        // memory: creating and freeing must not accumulate
        let cycles = if small { 20 } else { 60 };
        let big = input(&mut r, 0, 600);
        let mut held = 0i64;
        let cycle = |held: &mut i64| {
            let (_, h) = create(&big);
            let (_, q) = convert(h);
            let (v, w) = (view(&h), view_m(&q));
            *held += v.node_count as i64 * 64 + w.node_count as i64 * 128 + v.index_count as i64 * 8;
            c::free_bvh(h);
            c::free_mbvh(q);
        };
        for _ in 0..4 {
            cycle(&mut held);
        }
        held = 0;
        let before = LIVE.load(SeqCst);
        for _ in 0..cycles {
            cycle(&mut held);
        }
        // helper threads of the builders may release their last allocations a moment later
        let mut grown = LIVE.load(SeqCst) - before;
        let slack = cycles as i64 * 256 + (ids.len() + qids.len()) as i64 * 512;
        if big.tris.len() >= 100 {
            for _ in 0..200 {
                if grown <= held / 4 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
                grown = LIVE.load(SeqCst) - before;
            }
            // the handle tables double now and then: allow for what their entries may take
            let table = table_slack(qids.iter().chain(&ids).copied().max().unwrap_or(0) as i64 + cycles as i64);
            if grown > held / 4 + slack + table {
                cx.fail("memory", format!("{cycles} cycles of creating and freeing structures of {held} bytes in all left {grown} more bytes allocated"));
                return;
            }
            cx.count("memory_cycles", cycles as u64);
        }
        cx.sample(|| format!("{threads} threads x {ops} operations on {} shared handles, {} logged events, {overlaps} overlapping", shared.len(), events.len()));
    });
}

/// Keeps tens of thousands of small structures alive at once.
fn many(cx: &mut Ctx, r: &mut Rng, known: &[u32]) {
    let total = r.range(66_000, 70_000);
    let mut live: Vec<(RTBvh, f32)> = Vec::with_capacity(total);
    let mut quads: Vec<(RTMbvh, f32)> = vec![];
    let mut seen: HashSet<u32> = known.iter().copied().collect();
    let mut qseen = HashSet::new();
    for k in 0..total {
        let x = k as f32;
        let mut h = RTBvh::default();
        let c = [x, 1.0, 2.0];
        let b = [x - 1.0, 0.0, 1.0, 0.0, x + 1.0, 2.0, 3.0, 0.0];
        let rc = unsafe { c::create_bvh(b.as_ptr() as *const RTAabb, 1, c.as_ptr(), 12, 0, ctype(KINDS[k % 2]), &mut h) };
        let id = view(&h).id;
        if rc != ResultCode::Ok || !seen.insert(id) {
            cx.fail("identity", format!("handle {k} of many: {rc:?}, id {id} in use before"));
            return;
        }
        let (rc, q) = convert(h);
        let qid = view_m(&q).id;
        if rc != ResultCode::Ok || !qseen.insert(qid) {
            cx.fail("identity", format!("quad handle {k} of many: {rc:?}, id {qid} in use before"));
            return;
        }
        quads.push((q, x));
        live.push((h, x));
    }
    // (builders may pad boxes a little)
    let near = |a: f32, b: f32| (a - b).abs() < 0.2;
    let at = |v: &View| v.nodes().first().map(|n| (n.bounds.min.x, n.bounds.max.x));
    for pass in 0..2 {
        for (h, x) in &live {
            let v = view(h);
            if !at(&v).is_some_and(|(a, b)| near(a, x - 1.0) && near(b, x + 1.0)) || v.indices() != [0] {
                cx.fail("changed", format!("with {total} handles alive, handle {} holds other data: {:?}", v.id, at(&v)));
                return;
            }
        }
        for (q, x) in &quads {
            let v = view_m(q);
            let ok = walk_quad(v.quads(), v.indices()).is_ok_and(|t| t.slots.iter().filter(|s| s.count > 0).all(|s| s.count == 1 && near(s.min.x, x - 1.0) && near(s.max.x, x + 1.0)));
            if !ok {
                cx.fail("changed", format!("with {total} handles alive, quad handle {} holds other data", v.id));
                return;
            }
        }
        if pass == 0 {
            // free a few thousand, in random order; the others stay
            for _ in 0..3000 {
                c::free_bvh(live.swap_remove(r.below(live.len())).0);
                c::free_mbvh(quads.swap_remove(r.below(quads.len())).0);
            }
            // refits reach their own structure
            for _ in 0..3000 {
                let k = r.below(live.len());
                let x = r.below(total) as f32;
                let b = [x - 1.0, 0.0, 1.0, 0.0, x + 1.0, 2.0, 3.0, 0.0];
                if unsafe { c::refit(b.as_ptr() as *const RTAabb, live[k].0) } != ResultCode::Ok {
                    cx.fail("refit", format!("with {total} handles alive, refitting one fails"));
                    return;
                }
                live[k].1 = x;
            }
        }
    }
    for (h, _) in live {
        c::free_bvh(h);
    }
    for (q, _) in quads {
        c::free_mbvh(q);
    }
    cx.count("handles_alive_at_once", total as u64);
    cx.eval(mix(cx.idx ^ total as u64), true);
}

/// At most one doubling of each handle table may fall into the measurement.
fn table_slack(entries: i64) -> i64 {
    entries * 2 * 160
}
