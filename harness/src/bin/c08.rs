//! C08: the built tree does not depend on thread scheduling.
use rtbvh::*;
use std::sync::atomic::Ordering::*;
use vh::{rng::*, run::*, scene::*, sched::*, tree::*};

struct Seen {
    canon: u64,
    raw: u64,
    layout: u64,
}

fn look(b: &Bvh) -> Result<Seen, String> {
    let t = walk(b.nodes(), b.indices())?;
    Ok(Seen { canon: canonical(b.nodes(), b.indices(), &t), raw: raw(b.nodes(), b.indices()), layout: layout(b.nodes(), &t) })
}

fn one(case: &Case, slow: &[SlowTri], aabbs: Option<&[Aabb]>) -> Result<Seen, String> {
    let b = build(case.kind, slow, aabbs, case.leaf).map_err(|e| e.to_string())?;
    look(&b)
}

fn main() {
    verif_hooks::set_schedule_point(Some(point));
    let all = cpus();
    run("C08", 80, 800, move |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let kind = KINDS[(idx % 3) as usize];
        let sk = r.below(N_KINDS);
        let thr = r.pick(&[1024usize, 256, 64, 8, 1]);
        let n = match thr {
            1024 => r.range(1025, if cx.thorough() { 30_000 } else { 6000 }),
            256 => r.range(300, 4000),
            64 => r.range(70, 2500),
            8 => r.range(20, 900),
            _ => r.range(3, 250),
        };
        let n = cap_for(kind, sk, n).min(if kind == Kind::Spatial { 6000 } else { 30_000 });
        let mut case = case_of(&mut r, kind, sk, n);
        let none = case.aabbs.is_none();
        let n = case.scene.tris.len();
        // reference: quiet, default threshold
        MODE.store(0, SeqCst);
        verif_hooks::WORK_SIZE_THRESHOLD.store(1024, SeqCst);
        let reference = match case.build().map_err(|e| e.to_string()).and_then(|b| look(&b)) {
            Ok(x) => x,
            Err(e) => {
                cx.fail("reference", format!("{}: {e}", case.desc));
                return;
            }
        };
        let slow: Vec<SlowTri> = case.scene.tris.iter().map(|t| SlowTri(*t)).collect();
        let exact: Vec<Aabb> = case.scene.tris.iter().map(|t| t.exact_aabb()).collect();
        let mut differing = 0u64;
        let rounds = if cx.thorough() { 14 } else { 8 };
        for v in 0..rounds {
            SEED.store(r.u64(), SeqCst);
            COUNT.store(0, SeqCst);
            MODE.store(r.pick(&[1usize, 1, 2, 3, 0]), SeqCst);
            verif_hooks::WORK_SIZE_THRESHOLD.store(if v % 4 == 3 { 1024 } else { thr }, SeqCst);
            let mut how = format!("threshold {} mode {}", verif_hooks::WORK_SIZE_THRESHOLD.load(SeqCst), MODE.load(SeqCst));
            // with and without AABBs when that must be the same input
            let boxes: Option<&[Aabb]> = if none && v % 2 == 0 {
                how += " own-aabbs";
                Some(&exact)
            } else {
                case.aabbs.as_deref()
            };
            let variant = v % 4;
            let res: Vec<Result<Seen, String>> = match variant {
                0 => {
                    // few CPUs
                    let k = r.range(1, all.len().max(1));
                    let mut sub = all.clone();
                    r.shuffle(&mut sub);
                    sub.truncate(k);
                    how += &format!(" cpus {}", sub.len());
                    set_cpus(&sub);
                    let x = one(&case, &slow, boxes);
                    set_cpus(&all);
                    vec![x]
                }
                1 => {
                    let k = r.range(1, 9);
                    how += &format!(" pool {k}");
                    match rayon::ThreadPoolBuilder::new().num_threads(k).build() {
                        Ok(p) => vec![p.install(|| one(&case, &slow, boxes))],
                        Err(_) => {
                            cx.inconclusive("no thread pool");
                            vec![]
                        }
                    }
                }
                2 => {
                    // several builds at once, of this and of another input
                    let k = r.range(2, 4);
                    how += &format!(" {k} concurrent builds");
                    let (c2, k2) = (r.below(N_KINDS), r.range(50, 1500));
                    let k2 = cap_for(Kind::Locb, c2, k2);
                    let ok = KINDS[r.below(3)];
                    let other = case_of(&mut r, ok, c2, k2);
                    let case = &case;
                    let slow = &slow;
                    std::thread::scope(|s| {
                        let hs: Vec<_> = (0..k).map(|_| s.spawn(move || one(case, slow, boxes))).collect();
                        let o = s.spawn(|| other.build().map(|b| b.nodes().len()));
                        let out = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("build panicked".into()))).collect();
                        let _ = o.join();
                        out
                    })
                }
                _ => vec![one(&case, &slow, boxes)],
            };
            for x in res {
                cx.count("builds_compared", 1);
                match x {
                    Ok(x) => {
                        cx.seen("distinct_layouts", x.layout);
                        differing += (x.raw != reference.raw) as u64;
                        if x.canon != reference.canon {
                            cx.fail(format!("{kind:?}:tree-differs"), format!("{}: {how}: the tree differs from the reference build", case.desc));
                        }
                    }
                    Err(e) => cx.fail(format!("{kind:?}:bad-build"), format!("{}: {how}: {e}", case.desc)),
                }
            }
            if !cx.violations.is_empty() {
                return;
            }
        }
        MODE.store(0, SeqCst);
        cx.count("same_tree_other_numbering", differing);
        cx.seen("distinct_trees", reference.canon);
        for (k, p) in POINTS.iter().enumerate().take(2) {
            let c = p.swap(0, SeqCst);
            cx.count(["tasks_observed", "allocations_observed"][k], c);
        }
        cx.eval(case.hash(), n > 16);
        cx.sample(|| format!("{}: {rounds} schedules, threshold {thr}, {differing} differently numbered", case.desc));
        case.desc.clear();
    });
}
