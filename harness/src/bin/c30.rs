//! C30: memory use stays in proportion to the input, and all of it is given back.
use rtbvh::*;
use rtbvh_rs as c;
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::sync::atomic::{AtomicI64, Ordering::*};
use vh::ffi as host;
use vh::{ffi::*, rays::*, run::*, scene::*, tree::*};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK.fetch_max(now, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn live() -> i64 {
    LIVE.load(SeqCst)
}

/// What an operation kept, and the most it held at a time.
#[derive(Clone, Copy, Debug, Default)]
struct Use {
    kept: i64,
    peak: i64,
}

fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let base = live();
    PEAK.store(base, SeqCst);
    let x = f();
    let u = Use { kept: live() - base, peak: PEAK.load(SeqCst) - base };
    (x, u)
}

/// Like `least_use`, for what is kept by its result.
fn least_kept<T>(kept: i64, peak: i64, mut f: impl FnMut() -> T) -> (T, Use) {
    let (mut x, mut u) = measure(&mut f);
    for _ in 0..6 {
        if u.kept <= kept && u.peak <= peak {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
        let (y, v) = measure(&mut f);
        x = y;
        u = Use { kept: u.kept.min(v.kept), peak: u.peak.min(v.peak) };
    }
    (x, u)
}

/// Threads of the pools put their own house in order now and then: the least
/// of several repetitions is what the operation itself does.
fn least_use<T>(limit: i64, mut f: impl FnMut() -> T) -> (T, Use) {
    let (mut x, mut u) = measure(&mut f);
    for _ in 0..8 {
        if u.kept <= 0 && u.peak <= limit {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
        let (y, v) = measure(&mut f);
        x = y;
        u = Use { kept: u.kept.min(v.kept), peak: u.peak.min(v.peak) };
    }
    (x, u)
}

/// Bytes kept by every repetition of `f`: pools that fill up or garbage that
/// waits for collection do not show in all of them, a leak does.
fn leak(mut f: impl FnMut()) -> i64 {
    let mut least = i64::MAX;
    for round in 0..3 {
        for k in 0..4 {
            if round > 0 && k == 0 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            let base = live();
            f();
            least = least.min(live() - base);
        }
        if least <= 0 || round == 2 {
            break;
        }
    }
    least
}

/// Bytes per primitive (reference, node) that may be kept or held at a time.
fn build_bound(kind: Kind, n: usize) -> Use {
    let n = n as i64;
    match kind {
        Kind::Locb => Use { kept: 100 * n, peak: 300 * n },
        Kind::Binned => Use { kept: 100 * n, peak: 220 * n },
        Kind::Spatial => Use { kept: 180 * n, peak: 750 * n },
    }
}
/// Bins, tasks, stacks: regardless of the number of primitives, and for each level of the tree.
const FIXED: i64 = 64 << 10;
const PER_LEVEL: i64 = 16 << 10;

fn quad_bound(nodes: usize, refs: usize) -> i64 {
    192 * nodes as i64 + 8 * refs as i64 + 1024
}

/// A traversal keeps one entry (three in a quad BVH) per level; its array
/// doubles, and is copied when it does.
fn stack_bound(levels: usize) -> i64 {
    832 + 48 * (levels as i64 + 4)
}

fn first_then_all<X>(mut it: impl Iterator<Item = X>, few: bool) -> usize {
    if few {
        return it.next().is_some() as usize;
    }
    it.count()
}

fn main() {
    let print = std::env::var("C30_PRINT").is_ok();
    run("C30", 60, 600, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let big = idx % 7 == 6;
        let case = if big {
            let kind = KINDS[(idx / 7 % 3) as usize];
            let sk = r.below(N_KINDS);
            let n = r.range(20_000, 40_000);
            case_of(&mut r, kind, sk, cap_for(kind, sk, n))
        } else {
            std_case(&mut r, idx, 4000)
        };
        let n = case.scene.tris.len();
        let desc = case.desc.clone();
        let desc = &desc;
        let tris = &case.scene.tris;
        let boxes = case.eff();
        // thread pools and the queues in them come once
        let _ = case.build();
        let w = build_bound(case.kind, n);
        let (b, u) = least_kept(w.kept + 1024, w.peak + FIXED, || case.build());
        let mut b = match b {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build", format!("{desc}: {e}"));
                return;
            }
        };
        let t = match walk(b.nodes(), b.indices()) {
            Ok(t) => t,
            Err(e) => {
                cx.fail("tree", format!("{desc}: {e}"));
                return;
            }
        };
        let levels = t.max_depth as usize + 1;
        let room = FIXED + PER_LEVEL * levels as i64;
        if print {
            eprintln!("U {:?} {n} build kept {:.1} peak {:.1} refs {} nodes {} levels {levels} over {}", case.kind, u.kept as f64 / n as f64, u.peak as f64 / n as f64, b.indices().len(), b.nodes().len(), (u.peak - w.peak / 2).max(0) / levels as i64);
        }
        if u.kept > w.kept + 1024 {
            cx.fail(format!("{:?}:kept", case.kind), format!("{desc}: the BVH of {n} primitives takes {} bytes, more than {}", u.kept, w.kept + 1024));
        }
        if u.peak > w.peak + room {
            cx.fail(format!("{:?}:peak", case.kind), format!("{desc}: building held {} bytes at a time for {n} primitives in {levels} levels, more than {}", u.peak, w.peak + room));
        }
        cx.count("builds_measured", 1);
        cx.count("primitives_measured", n as u64);

        // everything a build takes is given back with the BVH
        let (mut least, mut what) = (leak(|| drop(black_box(case.build()))), "building and dropping a BVH");
        if least <= 0 {
            let leaf = case.leaf;
            let odd: Vec<Aabb> = boxes[1..].to_vec();
            least = leak(|| {
                let _ = black_box(build_tri(case.kind, tris, Some(&odd), leaf));
                let _ = black_box(build_tri(case.kind, &[], None, leaf));
            });
            what = "builds that are rejected";
        }
        let limit = quad_bound(b.nodes().len(), b.indices().len());
        let (q, uq) = least_kept(limit, limit + 96 * levels as i64, || Mbvh::construct(&b));
        if uq.kept > limit || uq.peak > limit + 96 * levels as i64 {
            cx.fail("quad:kept", format!("{desc}: converting {} nodes and {} references held {} and kept {} bytes, more than {limit}", b.nodes().len(), b.indices().len(), uq.peak, uq.kept));
        }
        if least <= 0 {
            least = leak(|| drop(black_box(Mbvh::construct(&b))));
            what = "converting and dropping the quad BVH";
        }
        if least <= 0 {
            least = leak(|| drop(black_box(Mbvh::construct_from_raw(b.nodes(), b.indices()))));
            what = "converting from slices and dropping the quad BVH";
        }
        if least <= 0 {
            least = leak(|| {
                let _ = black_box(case.build().map(|b| b.into_raw()));
                let _ = black_box(Mbvh::construct(&b).into_raw());
            });
            what = "taking the structures apart";
        }
        if least <= 0 {
            least = leak(|| drop(black_box((b.clone(), q.clone(), b.nodes()[0].clone()))));
            what = "cloning and dropping";
        }
        // refitting needs nothing that lasts
        let moved: Vec<Aabb> = boxes.iter().map(|b| mk_aabb(b.min * 0.5, b.max * 0.5 + glam::Vec3::ONE)).collect();
        let mut c = b.clone();
        let (_, ur) = least_use(128 * n as i64 + 1024, || c.refit(&moved));
        if ur.kept > 0 || ur.peak > 128 * n as i64 + 1024 {
            cx.fail("refit", format!("{desc}: refitting held {} and kept {} bytes for {n} primitives", ur.peak, ur.kept));
        }
        if least <= 0 {
            least = leak(|| {
                c.refit(&moved);
                c.refit(&boxes);
                black_box(c.validate(n));
            });
            what = "refitting and validating";
        }
        if least > 0 {
            cx.fail(format!("leak:{what}"), format!("{desc}: {what} keeps {least} bytes every time"));
            return;
        }
        cx.count("repeated_cycles", 6);

        // traversals
        let (lo, hi) = case.scene.bounds();
        for k in 0..if big { 4 } else { 12 } {
            let few = k % 4 == 3;
            let s: Vec<RaySpec> = (0..4)
                .map(|_| {
                    let t = &tris[r.below(n)];
                    let p = inner_point(&mut r, t);
                    gen_ray(&mut r, lo, hi, Some(p))
                })
                .collect();
            let s: [RaySpec; 4] = s.try_into().unwrap();
            let mut ray = s[0].ray();
            let mut pk = packet_of(&s);
            macro_rules! go {
                ($name:expr, $lv:expr, $it:expr) => {{
                    let (seen, u) = least_use(stack_bound($lv), || first_then_all($it, few));
                    if u.kept > 0 || u.peak > stack_bound($lv) {
                        cx.fail(format!("traverse:{}", $name), format!("{desc}: {} held {} and kept {} bytes in a tree of {levels} levels, more than {}", $name, u.peak, u.kept, stack_bound($lv)));
                    }
                    cx.count("traversals_measured", 1);
                    cx.count("primitives_yielded", seen as u64);
                    if u.peak > 0 {
                        cx.count("traversals_with_memory_of_their_own", 1);
                    }
                }};
            }
            go!("Bvh::traverse_iter", levels, b.traverse_iter(&mut ray, tris));
            go!("Bvh::traverse_iter_indices", levels, b.traverse_iter_indices(&mut ray));
            go!("Bvh::traverse_iter_packet", levels, b.traverse_iter_packet(&mut pk, tris));
            go!("Bvh::traverse_iter_indices_packet", levels, b.traverse_iter_indices_packet(&mut pk));
            go!("Mbvh::traverse_iter", 3 * levels, q.traverse_iter(&mut ray, tris));
            go!("Mbvh::traverse_iter_indices", 3 * levels, q.traverse_iter_indices(&mut ray));
            go!("Mbvh::traverse_iter_packet", 3 * levels, q.traverse_iter_packet(&mut pk, tris));
            go!("Mbvh::traverse_iter_indices_packet", 3 * levels, q.traverse_iter_indices_packet(&mut pk));
        }

        // the C API, on a handle that stays
        if n <= 4000 {
            through_c(cx, &mut r, &case, &boxes, &moved, levels);
        }
        b.refit(&boxes);
        cx.eval(case.hash(), n > 2);
    });
}

fn through_c(cx: &mut Ctx, r: &mut vh::rng::Rng, case: &Case, boxes: &[Aabb], moved: &[Aabb], levels: usize) {
    let desc = &case.desc;
    let n = boxes.len();
    let tris = &case.scene.tris;
    let centres: Vec<f32> = tris.iter().flat_map(|t| t.center().to_array()).collect();
    let verts: Vec<f32> = tris.iter().flat_map(|t| t.v).flat_map(|v| v.to_array()).collect();
    let flat = |b: &[Aabb]| -> Vec<f32> { b.iter().flat_map(|b| [b.min.x, b.min.y, b.min.z, 0.0, b.max.x, b.max.y, b.max.z, 0.0]).collect() };
    let (old, new) = (flat(boxes), flat(moved));
    let leaf = case.leaf.unwrap_or(0).min(u32::MAX as usize);
    let create = |count: usize| {
        let mut h = RTBvh::default();
        let rc = unsafe {
            match case.kind {
                Kind::Spatial => c::create_spatial_Bvh(old.as_ptr() as *const RTAabb, count, centres.as_ptr(), 12, verts.as_ptr(), 12, 36, leaf as u32, &mut h),
                _ => c::create_bvh(old.as_ptr() as *const RTAabb, count, centres.as_ptr(), 12, leaf, host::ctype(case.kind), &mut h),
            }
        };
        (rc, h)
    };
    let (rc, h) = create(n);
    let mut m = RTMbvh::default();
    if rc != ResultCode::Ok || unsafe { c::create_mbvh(h, &mut m) } != ResultCode::Ok {
        cx.fail("c:create", format!("{desc}: creating the handles failed"));
        return;
    }
    let mut least = leak(|| {
        let _ = create(0);
    });
    let mut what = "create functions given no primitives";
    if least <= 0 {
        least = leak(|| unsafe {
            c::refit(new.as_ptr() as *const RTAabb, h);
            c::refit(old.as_ptr() as *const RTAabb, h);
        });
        what = "refit";
    }
    extern "C" fn on(_: u32, _: *mut f32, left: *mut std::ffi::c_void) -> bool {
        let left = unsafe { &mut *(left as *mut u32) };
        *left = left.saturating_sub(1);
        *left > 0
    }
    let (lo, hi) = case.scene.bounds();
    for k in 0..4 {
        if least > 0 {
            break;
        }
        let p = inner_point(r, &tris[r.clone().below(n)]);
        let s = gen_ray(r, lo, hi, Some(p));
        let stop = if k % 2 == 0 { u32::MAX } else { 1 };
        let (o, d) = (s.o.to_array(), s.d.to_array());
        #[repr(align(16))]
        struct Four([f32; 4]);
        let f: Vec<Four> = (0..6).map(|i| Four([if i < 3 { o[i] } else { d[i - 3] }; 4])).collect();
        let mut shots = |quads: bool, lanes: usize| {
            let mut left = stop;
            let user = &mut left as *mut u32 as *mut std::ffi::c_void;
            let mut t = Four([s.t; 4]);
            let (base, deep) = (live(), stack_bound(if quads { 3 * levels } else { levels }));
            PEAK.store(base, SeqCst);
            unsafe {
                match (quads, lanes) {
                    (false, 1) => c::intersect(h, o.as_ptr(), d.as_ptr(), t.0.as_mut_ptr(), user, on),
                    (true, 1) => c::intersect_mbvh(m, o.as_ptr(), d.as_ptr(), t.0.as_mut_ptr(), user, on),
                    (false, _) => c::intersect_packet(h, f[0].0.as_ptr(), f[1].0.as_ptr(), f[2].0.as_ptr(), f[3].0.as_ptr(), f[4].0.as_ptr(), f[5].0.as_ptr(), t.0.as_mut_ptr(), user, on),
                    (true, _) => c::intersect_mbvh_packet(m, f[0].0.as_ptr(), f[1].0.as_ptr(), f[2].0.as_ptr(), f[3].0.as_ptr(), f[4].0.as_ptr(), f[5].0.as_ptr(), t.0.as_mut_ptr(), user, on),
                }
            };
            (PEAK.load(SeqCst) - base > deep) as u32
        };
        for (quads, lanes) in [(false, 1), (false, 4), (true, 1), (true, 4)] {
            // too much in every one of several calls
            let mut large = 8;
            let g = leak(|| large = 8 * shots(quads, lanes));
            while large > 1 && shots(quads, lanes) > 0 {
                large -= 1;
            }
            let large = large == 1;
            if g > 0 {
                least = g;
                what = if quads { "intersecting a quad BVH" } else { "intersecting a BVH" };
            }
            if large {
                cx.fail("c:peak", format!("{desc}: {} through the C API took more memory than the depth of the tree ({levels}) calls for", if quads { "intersecting a quad BVH" } else { "intersecting a BVH" }));
            }
            cx.count("c_intersections_measured", 1);
        }
    }
    if least <= 0 {
        // handle ids are never used again, so an emptied entry of the table may stay
        least = leak(|| {
            let (_, h) = create(n);
            let mut m = RTMbvh::default();
            unsafe { c::create_mbvh(h, &mut m) };
            c::free_mbvh(m);
            c::free_bvh(h);
        }) - 1024;
        what = "creating and freeing handles";
    }
    if least > 0 {
        cx.fail(format!("c:leak:{what}"), format!("{desc}: {what} keeps {least} bytes every time"));
    }
    c::free_mbvh(m);
    c::free_bvh(h);
    cx.count("c_cycles", 6);
}
