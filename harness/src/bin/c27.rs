//! C27: a panic in the caller's code stops the build, and nothing else.
use glam::Vec3;
use rtbvh::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use vh::{rays::*, rng::*, run::*, scene::*, sched, trav::*, tree::*};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// What the caller's code panics with.
struct Ours(u64);

static CALLS: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
/// which kind of call panics (3: none), from which one on, and how many
static WHICH: AtomicUsize = AtomicUsize::new(3);
static AT: AtomicU64 = AtomicU64::new(0);
static TIMES: AtomicU64 = AtomicU64::new(1);
static FIRED: AtomicU64 = AtomicU64::new(0);
static TAG: AtomicU64 = AtomicU64::new(0);

fn tick(kind: usize) {
    let k = CALLS[kind].fetch_add(1, Relaxed);
    if WHICH.load(Relaxed) == kind {
        let at = AT.load(Relaxed);
        if k >= at && k - at < TIMES.load(Relaxed) {
            FIRED.fetch_add(1, Relaxed);
            panic_any(Ours(TAG.load(Relaxed)));
        }
    }
}

fn calls() -> [u64; 3] {
    [CALLS[0].load(SeqCst), CALLS[1].load(SeqCst), CALLS[2].load(SeqCst)]
}

fn arm(which: usize, at: u64, times: u64) {
    for c in &CALLS {
        c.store(0, SeqCst);
    }
    FIRED.store(0, SeqCst);
    AT.store(at, SeqCst);
    TIMES.store(times, SeqCst);
    TAG.fetch_add(1, SeqCst);
    WHICH.store(which, SeqCst);
}

/// A triangle whose methods may panic.
#[derive(Clone, Copy, Debug)]
struct Brittle(Tri);
impl Primitive for Brittle {
    fn center(&self) -> Vec3 {
        tick(0);
        self.0.center()
    }
    fn aabb(&self) -> Aabb {
        tick(1);
        self.0.exact_aabb()
    }
}
impl SpatialTriangle for Brittle {
    fn vertex0(&self) -> Vec3 {
        tick(2);
        self.0.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        tick(2);
        self.0.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        tick(2);
        self.0.v[2]
    }
}

fn tree(b: &Bvh) -> Result<u64, String> {
    let t = walk(b.nodes(), b.indices())?;
    Ok(canonical(b.nodes(), b.indices(), &t))
}

const METHODS: [&str; 3] = ["center", "aabb", "vertex"];

/// Another build going on all the while.
struct Neighbour {
    case: Case,
    want: u64,
}

fn main() {
    verif_hooks::set_schedule_point(Some(sched::point));
    run("C27", 60, 600, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let small = cx.stage != "chk" && cx.stage != "rel";
        let kind = KINDS[(idx % 3) as usize];
        let sk = r.below(N_KINDS);
        let thr = r.pick(&[1usize, 8, 64, 1024]);
        let n = match r.below(6) {
            0 => r.range(1, 6),
            1 => r.range(1025, if small { 1500 } else { 4000 }),
            2 => r.range(200, 1000),
            _ => r.range(5, 200),
        };
        let n = cap_for(kind, sk, n).min(if kind == Kind::Spatial { 1500 } else { 6000 });
        let case = case_of(&mut r, kind, sk, n);
        let n = case.scene.tris.len();
        let prims: Vec<Brittle> = case.scene.tris.iter().map(|t| Brittle(*t)).collect();
        verif_hooks::WORK_SIZE_THRESHOLD.store(thr, SeqCst);
        sched::SEED.store(r.u64(), SeqCst);
        sched::MODE.store(r.below(4), SeqCst);
        let go = || build(case.kind, &prims, case.aabbs.as_deref(), case.leaf);
        // undisturbed
        arm(3, 0, 0);
        let good = match go() {
            Ok(b) => b,
            Err(e) => {
                cx.fail("reference", format!("{}: {e}", case.desc));
                return;
            }
        };
        let total = calls();
        let want = match tree(&good) {
            Ok(x) => x,
            Err(e) => {
                cx.fail("reference", format!("{}: {e}", case.desc));
                return;
            }
        };
        let good_raw = raw(good.nodes(), good.indices());
        let neighbour = if r.chance(0.4) {
            let (k, s2) = (KINDS[r.below(3)], r.below(N_KINDS));
            let m = cap_for(k, s2, r.range(50, 600));
            let case = case_of(&mut r, k, s2, m);
            let want = case.build().map_err(|e| e.to_string()).and_then(|b| tree(&b));
            match want {
                Ok(want) => Some(Neighbour { case, want }),
                Err(e) => {
                    cx.fail("reference", e);
                    return;
                }
            }
        } else {
            None
        };
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let rounds = if small { 6 } else { 14 };
        let mut errs: Vec<(String, String)> = vec![];
        let mut quiet: Vec<(&'static str, u64)> = vec![];
        let bad_neighbour = std::thread::scope(|s| {
            let h = neighbour.as_ref().map(|nb| {
                let (stop, done) = (&stop, &done);
                s.spawn(move || -> Option<String> {
                    while !stop.load(SeqCst) {
                        match catch_unwind(AssertUnwindSafe(|| nb.case.build())) {
                            Ok(Ok(b)) => match tree(&b) {
                                Ok(x) if x == nb.want => {}
                                Ok(_) => return Some(format!("{}: another tree", nb.case.desc)),
                                Err(e) => return Some(format!("{}: {e}", nb.case.desc)),
                            },
                            Ok(Err(e)) => return Some(format!("{}: {e}", nb.case.desc)),
                            Err(_) => return Some(format!("{}: panicked", nb.case.desc)),
                        }
                        done.fetch_add(1, SeqCst);
                    }
                    None
                })
            });
            let before = LIVE.load(SeqCst);
            let mut size = 0i64;
            for round in 0..rounds {
                let which = r.below(3);
                if total[which] == 0 {
                    continue;
                }
                let at = match r.below(5) {
                    0 => 0,
                    1 => total[which] - 1,
                    2 => r.range(0, (n - 1).min(total[which] as usize - 1)) as u64,
                    _ => r.range(0, total[which] as usize - 1) as u64,
                };
                let times = r.pick(&[1u64, 1, 3, u64::MAX]);
                arm(which, at, times);
                QUIET.store(true, SeqCst);
                let res = catch_unwind(AssertUnwindSafe(go));
                QUIET.store(false, SeqCst);
                WHICH.store(3, SeqCst);
                let after = calls();
                let fired = FIRED.load(SeqCst);
                let desc = format!("{} threshold {thr}, {times} panics from call {at} of {} to {}() on", case.desc, total[which], METHODS[which]);
                quiet.push(("panicking_builds", (fired > 0) as u64));
                match res {
                    Err(p) => {
                        if fired == 0 {
                            errs.push((format!("{kind:?}:spurious"), format!("{desc}: the build panicked although the caller's code did not")));
                            break;
                        }
                        match p.downcast_ref::<Ours>() {
                            Some(o) if o.0 != TAG.load(SeqCst) => {
                                errs.push((format!("{kind:?}:stale"), format!("{desc}: the build ended with the panic of an earlier one")));
                                break;
                            }
                            Some(_) => quiet.push(("panics_passed_on", 1)),
                            None => quiet.push(("panics_replaced", 1)),
                        }
                    }
                    Ok(x) => {
                        if fired > 0 {
                            let what = match x {
                                Ok(b) => format!("a tree of {} nodes", b.nodes().len()),
                                Err(e) => format!("the error {e}"),
                            };
                            errs.push((format!("{kind:?}:swallowed"), format!("{desc}: the caller's code panicked {fired} times, yet the build returned {what}")));
                            break;
                        }
                    }
                }
                // no thread of the build is left
                if round % 3 == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(1500));
                }
                if calls() != after {
                    errs.push((format!("{kind:?}:still-running"), format!("{desc}: the caller's primitives were still used after the build had ended")));
                    break;
                }
                size += n as i64 * 100;
                // other structures are as they were
                if raw(good.nodes(), good.indices()) != good_raw {
                    errs.push((format!("{kind:?}:disturbed"), format!("{desc}: a structure built before changed")));
                    break;
                }
                // and building works as before
                if round % 2 == 0 {
                    match catch_unwind(AssertUnwindSafe(go)) {
                        Ok(Ok(b)) => {
                            let t = tree(&b);
                            if t != Ok(want) {
                                errs.push((format!("{kind:?}:afterwards"), format!("{desc}: building again gives another tree ({:?})", t.err())));
                                break;
                            }
                        }
                        Ok(Err(e)) => {
                            errs.push((format!("{kind:?}:afterwards"), format!("{desc}: building again gives {e}")));
                            break;
                        }
                        Err(_) => {
                            errs.push((format!("{kind:?}:afterwards"), format!("{desc}: building again panics")));
                            break;
                        }
                    }
                    quiet.push(("builds_afterwards", 1));
                }
            }
            stop.store(true, SeqCst);
            let res = h.and_then(|h| h.join().unwrap_or_else(|_| Some("panicked".into())));
            // what the failed builds had allocated is given back
            if neighbour.is_none() && size > 50_000 {
                let mut grown = LIVE.load(SeqCst) - before;
                for _ in 0..100 {
                    if grown <= size / 4 + 16_384 {
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    grown = LIVE.load(SeqCst) - before;
                }
                if grown > size / 4 + 16_384 && errs.is_empty() {
                    errs.push((format!("{kind:?}:memory"), format!("{}: {rounds} interrupted builds left {grown} bytes allocated", case.desc)));
                }
                quiet.push(("memory_checks", 1));
            }
            res
        });
        arm(3, 0, 0);
        for (k, v) in quiet {
            cx.count(k, v);
        }
        for (s, m) in errs {
            cx.fail(s, m);
            return;
        }
        if let Some(e) = bad_neighbour {
            cx.fail("neighbour", format!("a build going on beside interrupted ones: {e}"));
            return;
        }
        cx.count("neighbour_builds", done.load(SeqCst));
        // sorting by Morton code
        {
            let eff: Vec<Aabb> = case.scene.tris.iter().map(|t| t.exact_aabb()).collect();
            let bb = Aabb::union_of_list(&eff);
            let enc = MortonEncoder::new(&bb, MortonEncoder::MAX_GRID_DIM);
            arm(0, r.below(n) as u64, 1);
            QUIET.store(true, SeqCst);
            let res = catch_unwind(AssertUnwindSafe(|| enc.get_sorted_indices(&eff, &prims)));
            QUIET.store(false, SeqCst);
            if res.is_ok() && FIRED.load(SeqCst) > 0 {
                cx.fail("morton:swallowed", format!("{}: sorting returned although center() panicked", case.desc));
                return;
            }
            arm(3, 0, 0);
        }
        // a loop over a traversal that panics half way
        let (lo, hi) = case.scene.bounds();
        let q = Mbvh::construct(&good);
        let qraw = raw(q.nodes(), q.indices());
        for _ in 0..6 {
            let k = r.below(n);
            let p = inner_point(&mut r, &case.scene.tris[k]);
            let spec = gen_ray(&mut r, lo, hi, Some(p));
            for quad in [false, true] {
                let all = match if quad { quad_static(&q, &spec) } else { bvh_static(&good, &spec) } {
                    Ok(v) => v,
                    Err(e) => {
                        cx.fail("traversal", e);
                        return;
                    }
                };
                if all.is_empty() {
                    continue;
                }
                let stop = r.below(all.len());
                QUIET.store(true, SeqCst);
                let mut ray = spec.ray();
                let mut seen = 0;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let mut each = |p: &Tri, _: &mut Ray| {
                        std::hint::black_box(p);
                        if seen == stop {
                            panic_any(Ours(0));
                        }
                        seen += 1;
                    };
                    if quad {
                        for (p, ray) in q.traverse_iter(&mut ray, &case.scene.tris) {
                            each(p, ray);
                        }
                    } else {
                        for (p, ray) in good.traverse_iter(&mut ray, &case.scene.tris) {
                            each(p, ray);
                        }
                    }
                }));
                QUIET.store(false, SeqCst);
                let again = if quad { quad_static(&q, &spec) } else { bvh_static(&good, &spec) };
                if res.is_ok() || again != Ok(all) || raw(good.nodes(), good.indices()) != good_raw || raw(q.nodes(), q.indices()) != qraw {
                    cx.fail("traversal", format!("{}: traversals after an interrupted one differ", case.desc));
                    return;
                }
                cx.count("interrupted_traversals", 1);
            }
        }
        cx.eval(mix(case.hash() ^ thr as u64), total.iter().sum::<u64>() > 4);
        cx.sample(|| format!("{} threshold {thr}: {total:?} calls", case.desc));
    });
}
