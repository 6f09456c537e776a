//! C25: traversals, clones, conversions and builds over shared structures do
//! not influence each other.
use glam::Vec4;
use rtbvh::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex};
use vh::{rays::*, rng::*, run::*, scene::*, trav::*};

const LANES: Vec4 = Vec4::ONE;

/// One traversal: which front end, which rays, and what happens to the limit.
#[derive(Clone, Debug)]
struct Job {
    way: usize,
    sp: [RaySpec; 4],
    shrink: bool,
    /// abandon after this many steps
    stop: usize,
}

type Log = Vec<(u32, [u32; 4])>;

fn bits1(r: &Ray) -> [u32; 4] {
    [r.t.to_bits(), r.t_min.to_bits(), r.origin.x.to_bits(), r.direction.z.to_bits()]
}
fn bits4(r: &RayPacket4) -> [u32; 4] {
    [r.t.x.to_bits(), r.t.y.to_bits(), r.t.z.to_bits(), r.t.w.to_bits()]
}

/// A traversal in progress, one step at a time.
struct Run<'a> {
    it: Box<dyn Iterator<Item = (u32, [u32; 4])> + 'a>,
    log: Log,
    left: usize,
    cap: usize,
}

impl<'a> Run<'a> {
    fn step(&mut self) -> bool {
        if self.left == 0 || self.log.len() > self.cap {
            return false;
        }
        self.left -= 1;
        match self.it.next() {
            Some(x) => {
                self.log.push(x);
                true
            }
            None => {
                self.left = 0;
                false
            }
        }
    }
    fn finish(mut self) -> Log {
        while self.step() {}
        self.log
    }
}

enum Own {
    One(Ray),
    Four(RayPacket4),
}

/// `own` lives next to the traversal and must outlive it.
fn start<'a>(j: &Job, own: &'a mut Own, b: &'a Bvh, m: &'a Mbvh, prims: &'a [Tri]) -> Run<'a> {
    let shrink = j.shrink;
    let tm = LANES * 1e-4;
    let hit1 = move |p: &Tri, r: &mut Ray| {
        if shrink {
            p.intersect(r);
        }
        bits1(r)
    };
    let hit4 = move |p: &Tri, r: &mut RayPacket4| {
        if shrink {
            p.intersect4(r, tm);
        }
        bits4(r)
    };
    let at = move |p: &Tri| ((p as *const Tri as usize - prims.as_ptr() as usize) / std::mem::size_of::<Tri>()) as u32;
    let it: Box<dyn Iterator<Item = (u32, [u32; 4])> + 'a> = match (own, j.way) {
        (Own::One(r), 0) => Box::new(b.traverse_iter(r, prims).map(move |(p, r)| (at(p), hit1(p, r)))),
        (Own::One(r), 1) => Box::new(b.traverse_iter_indices(r).map(move |(i, r)| (i, hit1(&prims[i as usize], r)))),
        (Own::One(r), 2) => Box::new(m.traverse_iter(r, prims).map(move |(p, r)| (at(p), hit1(p, r)))),
        (Own::One(r), _) => Box::new(m.traverse_iter_indices(r).map(move |(i, r)| (i, hit1(&prims[i as usize], r)))),
        (Own::Four(r), 4) => Box::new(b.traverse_iter_packet(r, prims).map(move |(p, r)| (at(p), hit4(p, r)))),
        (Own::Four(r), 5) => Box::new(b.traverse_iter_indices_packet(r).map(move |(i, r)| (i, hit4(&prims[i as usize], r)))),
        (Own::Four(r), 6) => Box::new(m.traverse_iter_packet(r, prims).map(move |(p, r)| (at(p), hit4(p, r)))),
        (Own::Four(r), _) => Box::new(m.traverse_iter_indices_packet(r).map(move |(i, r)| (i, hit4(&prims[i as usize], r)))),
    };
    Run { it, log: vec![], left: j.stop, cap: cap(b.indices().len()) }
}

fn own(j: &Job) -> Own {
    if j.way < 4 {
        Own::One(j.sp[0].ray())
    } else {
        Own::Four(packet_of(&j.sp))
    }
}

fn alone(j: &Job, b: &Bvh, m: &Mbvh, prims: &[Tri]) -> Log {
    let mut o = own(j);
    start(j, &mut o, b, m, prims).finish()
}

fn bytes<T>(v: &[T]) -> &[u8] {
    // SAFETY: the node types have no padding (asserted in main)
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }
}

/// Everything observable about a pair of structures, bit for bit.
#[derive(Clone, PartialEq)]
struct Snap {
    nodes: Vec<u8>,
    idx: Vec<u32>,
    qnodes: Vec<u8>,
    quads: Vec<u8>,
    qidx: Vec<u32>,
    ty: BuildType,
    counts: (usize, usize),
}

fn snap(b: &Bvh, m: &Mbvh) -> Snap {
    Snap {
        nodes: bytes(b.nodes()).to_vec(),
        idx: b.indices().to_vec(),
        qnodes: bytes(m.nodes()).to_vec(),
        quads: bytes(m.quad_nodes()).to_vec(),
        qidx: m.indices().to_vec(),
        ty: b.build_type(),
        counts: (b.prim_count(), m.prim_count()),
    }
}

fn diff(a: &Snap, b: &Snap) -> &'static str {
    if a.nodes != b.nodes {
        "nodes"
    } else if a.idx != b.idx {
        "indices"
    } else if a.qnodes != b.qnodes || a.qidx != b.qidx {
        "the quad BVH's source nodes or indices"
    } else if a.quads != b.quads {
        "quad nodes"
    } else {
        "build type or counts"
    }
}

fn main() {
    assert_eq!(std::mem::size_of::<BvhNode>(), 32);
    assert_eq!(std::mem::size_of::<MbvhNode>(), 128);
    run("C25", 120, 1200, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let case = std_case(&mut r, idx, 2500);
        let desc = case.desc.clone();
        let b = match case.build() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{desc}: {e}"));
                return;
            }
        };
        let m = Mbvh::construct(&b);
        let tris = &case.scene.tris;
        let n = tris.len();
        let (lo, hi) = case.scene.bounds();
        let before = snap(&b, &m);
        let njobs = 32;
        let jobs: Vec<Job> = (0..njobs)
            .map(|k| {
                let mut mk = || {
                    let t = r.below(n);
                    let tg = inner_point(&mut r, &tris[t]);
                    let mut s = gen_ray(&mut r, lo, hi, Some(tg));
                    if r.chance(0.15) {
                        s.t = r.uni(0.1, 50.0);
                    }
                    s
                };
                let sp = [mk(), mk(), mk(), mk()];
                Job { way: k % 8, sp, shrink: r.chance(0.6), stop: if r.chance(0.1) { r.range(1, 6) } else { usize::MAX } }
            })
            .collect();
        let want: Vec<Log> = jobs.iter().map(|j| alone(j, &b, &m, tris)).collect();
        for (j, w) in jobs.iter().zip(&want) {
            if w.len() > cap(b.indices().len()) {
                cx.fail("endless", format!("{desc}: {j:?}: {ENDLESS}"));
                return;
            }
        }
        let yields: usize = want.iter().map(|w| w.len()).sum();
        cx.count("jobs", njobs as u64);
        cx.count("yields_alone", yields as u64);
        let what = |j: &Job, w: &Log, g: &Log| {
            let at = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            format!("{desc}: {} {j:?}: alone it yields {} items, here {}; first difference at step {at}", WAYS[j.way / 4 * 2 + j.way % 4 / 2], w.len(), g.len())
        };
        // again alone
        for (j, w) in jobs.iter().zip(&want) {
            let g = alone(j, &b, &m, tris);
            if g != *w {
                cx.fail("not-repeatable", what(j, w, &g));
                return;
            }
        }
        // interleaved step by step on one thread, with other operations in between
        for round in 0..3 {
            let mut owns: Vec<Own> = jobs.iter().map(own).collect();
            let mut runs: Vec<Option<Run>> = vec![];
            let mut rest = owns.iter_mut().zip(&jobs);
            let mut order = vec![];
            let mut live: Vec<usize> = vec![];
            let width = r.pick(&[2usize, 3, 8, 32]);
            loop {
                while live.len() < width {
                    match rest.next() {
                        Some((o, j)) => {
                            live.push(runs.len());
                            runs.push(Some(start(j, o, &b, &m, tris)));
                        }
                        None => break,
                    }
                }
                if live.is_empty() {
                    break;
                }
                let k = r.below(live.len());
                let i = live[k];
                order.push(i as u8);
                let burst = if r.chance(0.2) { r.range(1, 9) } else { 1 };
                let mut on = true;
                for _ in 0..burst {
                    on = runs[i].as_mut().unwrap().step();
                }
                cx.count("interleaved_steps", burst as u64);
                if !on {
                    live.swap_remove(k);
                    let g = runs[i].take().unwrap().finish();
                    if g != want[i] {
                        cx.fail("interleaved", what(&jobs[i], &want[i], &g));
                        return;
                    }
                }
                if order.len() % 64 == 0 {
                    match r.below(4) {
                        0 => {
                            let c = b.clone();
                            let _ = Mbvh::construct(&c);
                        }
                        1 => {
                            let mut c = b.clone();
                            let eff = case.eff();
                            c.refit(&eff);
                        }
                        2 if n < 400 => {
                            let _ = case.build();
                        }
                        _ => {
                            let k = r.below(jobs.len());
                            let g = alone(&jobs[k], &b, &m, tris);
                            if g != want[k] {
                                cx.fail("during-others", what(&jobs[k], &want[k], &g));
                                return;
                            }
                        }
                    }
                }
            }
            cx.seen("interleavings", order.iter().fold(round, |h, x| mix(h ^ *x as u64)));
        }
        let now = snap(&b, &m);
        if now != before {
            cx.fail("modified", format!("{desc}: interleaved traversals changed {}", diff(&before, &now)));
            return;
        }
        // the same from many threads, among clones, conversions, refits of clones and builds
        let bad: Mutex<Option<(String, String)>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let ops = AtomicU64::new(0);
        let side = AtomicU64::new(0);
        let threads = r.pick(&[2usize, 4, 6]);
        let bar = Barrier::new(threads + 2);
        let seed = r.u64();
        let small = n <= 600;
        std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..threads {
                let (b, m, jobs, want, bad, bar, ops, what) = (&b, &m, &jobs, &want, &bad, &bar, &ops, &what);
                hs.push(s.spawn(move || {
                    let mut r = Rng::new(seed ^ mix(t as u64));
                    let mut ord: Vec<usize> = (0..jobs.len()).collect();
                    bar.wait();
                    for _ in 0..3 {
                        r.shuffle(&mut ord);
                        // pairs of jobs in lockstep on every thread
                        for w in ord.chunks(2) {
                            let mut o: Vec<Own> = w.iter().map(|i| own(&jobs[*i])).collect();
                            let mut runs: Vec<Run> = w.iter().zip(o.iter_mut()).map(|(i, o)| start(&jobs[*i], o, b, m, tris)).collect();
                            loop {
                                let mut any = false;
                                for x in runs.iter_mut() {
                                    any |= x.step();
                                }
                                if !any {
                                    break;
                                }
                            }
                            for (i, x) in w.iter().zip(runs) {
                                ops.fetch_add(1, Relaxed);
                                let g = x.finish();
                                if g != want[*i] {
                                    *bad.lock().unwrap() = Some(("concurrent".into(), what(&jobs[*i], &want[*i], &g)));
                                    return;
                                }
                            }
                        }
                    }
                }));
            }
            // clones, conversions, builds of the same primitives
            for t in 0..2u64 {
                let (b, m, jobs, want, bad, bar, stop, side, before, case, what) = (&b, &m, &jobs, &want, &bad, &bar, &stop, &side, &before, &case, &what);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ mix(1000 + t));
                    bar.wait();
                    let mut k = 0;
                    while k < 3 || !stop.load(Relaxed) {
                        k += 1;
                        side.fetch_add(1, Relaxed);
                        let (c, q) = match (t + k) % 3 {
                            0 => (b.clone(), m.clone()),
                            1 => (b.clone(), Mbvh::construct(b)),
                            _ => {
                                let c = b.clone();
                                let q = Mbvh::from(c.clone());
                                (c, q)
                            }
                        };
                        let g = snap(&c, &q);
                        if g != *before {
                            *bad.lock().unwrap() = Some(("clone".into(), format!("{}: a clone or conversion made during traversals differs in {}", case.desc, diff(before, &g))));
                            return;
                        }
                        let i = r.below(jobs.len());
                        let g = alone(&jobs[i], &c, &q, tris);
                        if g != want[i] {
                            *bad.lock().unwrap() = Some(("clone-traversal".into(), what(&jobs[i], &want[i], &g)));
                            return;
                        }
                        if small && k % 4 == 0 {
                            let _ = case.build();
                        }
                        if k % 5 == 0 {
                            let mut c = c;
                            let moved: Vec<Aabb> = case.eff().iter().map(|b| mk_aabb(b.min + glam::Vec3::ONE, b.max + glam::Vec3::splat(2.0))).collect();
                            c.refit(&moved);
                        }
                    }
                });
            }
            for h in hs {
                let _ = h.join();
            }
            stop.store(true, Relaxed);
        });
        if let Some((sig, msg)) = bad.into_inner().unwrap() {
            cx.fail(sig, msg);
            return;
        }
        cx.count("concurrent_traversals", ops.load(Relaxed));
        cx.count("concurrent_clones_and_conversions", side.load(Relaxed));
        let now = snap(&b, &m);
        if now != before {
            cx.fail("modified", format!("{desc}: concurrent use changed {}", diff(&before, &now)));
            return;
        }
        // a clone is a structure of its own: refitting one leaves the other alone
        let mut c = b.clone();
        let moved: Vec<Aabb> = case.eff().iter().map(|b| mk_aabb(b.min + glam::Vec3::splat(3.0), b.max + glam::Vec3::splat(4.0))).collect();
        c.refit(&moved);
        let cs = bytes(c.nodes()).to_vec();
        if snap(&b, &m) != before {
            cx.fail("clone-shares", format!("{desc}: refitting a clone changed the original"));
            return;
        }
        let mut b2 = b.clone();
        std::mem::swap(&mut c, &mut b2);
        c.refit(&case.eff());
        if bytes(b2.nodes()) != &cs[..] {
            cx.fail("clone-shares", format!("{desc}: refitting another clone changed this one"));
            return;
        }
        // taking the raw parts out of a clone
        let (rn, ri) = b.clone().into_raw();
        let (qn, qi) = m.clone().into_raw();
        if bytes(&rn) != &before.nodes[..] || ri != before.idx || bytes(&qn) != &before.quads[..] || qi != before.qidx || bytes(&b.clone().into_raw_nodes()) != &before.nodes[..] || b.clone().into_raw_indices() != before.idx || bytes(&m.clone().into_raw_nodes()) != &before.quads[..] || m.clone().into_raw_indices() != before.qidx {
            cx.fail("raw-parts", format!("{desc}: the raw parts differ from what the accessors show"));
            return;
        }
        cx.eval(case.hash(), yields > 0 && n > 4);
        cx.sample(|| format!("{desc}: {njobs} jobs, {yields} yields alone, {threads} threads"));
    });
}
