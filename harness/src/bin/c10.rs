//! C10: invalid build input is rejected exactly, valid input never.
use glam::Vec3;
use rtbvh::*;
use rtbvh_rs::{BvhType, RTAabb, RTBvh, ResultCode};
use std::num::NonZeroUsize;
use vh::{rng::*, run::*, scene::*};

fn kind_of(t: Kind) -> &'static str {
    match t {
        Kind::Locb => "locally ordered clustering",
        Kind::Binned => "binned SAH",
        Kind::Spatial => "spatial SAH",
    }
}

/// The decimal numbers in a text, in order.
fn numbers(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() {
            cur.push(c);
        } else if !cur.is_empty() {
            v.push(cur.parse().unwrap_or(usize::MAX));
            cur.clear();
        }
    }
    v
}

fn code(c: ResultCode) -> i32 {
    c as i32
}

fn bytes(h: &RTBvh) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(h as *const RTBvh as *const u8, 32) }.to_vec()
}

fn main() {
    run("C10", 4000, 60000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        // small counts systematically, larger ones at random
        let grid = 12u64;
        let (np, na) = if idx < 3 * grid * grid {
            let k = idx / 3;
            ((k % grid) as usize, (k / grid) as usize)
        } else {
            let np = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => r.range(1, 4),
                3 => r.range(1024, 1030),
                4 => r.range(2000, 3000),
                _ => r.range(2, 300),
            };
            let na = match r.below(6) {
                0 => np,
                1 => np + 1,
                2 => np.saturating_sub(1),
                3 => 0,
                4 => np * 2,
                _ => r.range(0, 400),
            };
            // (or differing by a power of two only)
            if idx % 11 == 7 {
                (np.min(300), np.min(300) + r.pick(&[1usize << 8, 1 << 16, 1 << 16]))
            } else {
                (np, na)
            }
        };
        let kind = KINDS[(idx % 3) as usize];
        let leaf = pick_leaf(&mut r);
        let sk = r.below(N_KINDS);
        let tris: Vec<Tri> = if np == 0 { vec![] } else { tri_scene(&mut r, sk, np).tris };
        let np = tris.len();
        let mut boxes: Vec<Aabb> = (0..na)
            .map(|i| match tris.get(i) {
                Some(t) => t.exact_aabb(),
                None => mk_aabb(r.vec3(-1.0, 0.0), r.vec3(0.0, 1.0)),
            })
            .collect();
        if r.chance(0.1) {
            for b in boxes.iter_mut() {
                *b = Aabb::empty();
            }
            boxes.truncate(if na == np { np + 1 } else { na });
            if boxes.len() == np {
                boxes = tris.iter().map(|t| t.exact_aabb()).collect();
            }
        }
        let na = boxes.len();
        for some in [false, true] {
            let desc = format!("{} with {np} primitives, {} AABBs, leaf={leaf:?}", kind_of(kind), if some { na.to_string() } else { "no".into() });
            let want = if np == 0 {
                Err(BuildError::NoPrimitives)
            } else if some && na != np {
                Err(BuildError::InequalAabbsAndPrimitives(na, np))
            } else {
                Ok(())
            };
            let got = build_tri(kind, &tris, if some { Some(&boxes) } else { None }, leaf);
            let got2 = match &got {
                Ok(b) => {
                    if b.nodes().is_empty() {
                        cx.fail(format!("{kind:?}:empty-result"), format!("{desc}: success without nodes"));
                        return;
                    }
                    Ok(())
                }
                Err(e) => Err(*e),
            };
            if got2 != want {
                cx.fail(format!("{kind:?}:result"), format!("{desc}: got {got2:?}, expected {want:?}"));
                return;
            }
            match got2 {
                Ok(()) => cx.count("successes", 1),
                Err(e) => {
                    cx.count(if e == BuildError::NoPrimitives { "no_primitives" } else { "count_mismatch" }, 1);
                    let msg = e.to_string();
                    let n = numbers(&msg);
                    if e != BuildError::NoPrimitives && n != vec![na, np] {
                        cx.fail("message", format!("{desc}: message {msg:?} does not show {na} and {np}"));
                        return;
                    }
                    if msg.trim().is_empty() || (e == BuildError::NoPrimitives && !n.is_empty()) {
                        cx.fail("message", format!("{desc}: message {msg:?}"));
                        return;
                    }
                    // through the trait object too
                    let b: Box<dyn std::error::Error> = Box::new(e);
                    if b.to_string() != msg {
                        cx.fail("message", format!("{desc}: differing messages"));
                        return;
                    }
                    let c = code(ResultCode::from(e));
                    let w = if e == BuildError::NoPrimitives { 2 } else { 3 };
                    if c != w {
                        cx.fail("code", format!("{desc}: {e:?} maps to result code {c}, expected {w}"));
                        return;
                    }
                }
            }
            cx.eval(mix((np as u64) << 40 | (na as u64) << 10 | (kind as u64) << 4 | some as u64) ^ leaf.unwrap_or(0) as u64, true);
        }
        // boxes with arbitrary centres through the two box builders
        if kind != Kind::Spatial {
            let prims: Vec<BoxP> = tris.iter().map(|t| BoxP { bb: t.exact_aabb(), c: r.vec3(-3.0, 3.0) }).collect();
            let got = build_box(kind, &prims, Some(&boxes), leaf).map(|_| ()).map_err(|e| e);
            let want = if np == 0 {
                Err(BuildError::NoPrimitives)
            } else if na != np {
                Err(BuildError::InequalAabbsAndPrimitives(na, np))
            } else {
                Ok(())
            };
            if got != want {
                cx.fail(format!("{kind:?}:result"), format!("{} boxes {np}/{na}: got {got:?}, expected {want:?}", kind_of(kind)));
                return;
            }
        }
        // the C API
        let rt: Vec<RTAabb> = tris.iter().map(|t| t.exact_aabb().into()).collect();
        let stride = r.pick(&[12usize, 16]);
        let mut centers: Vec<f32> = vec![];
        for t in &tris {
            let c = t.center();
            centers.extend([c.x, c.y, c.z]);
            if stride == 16 {
                centers.push(r.pick(&[f32::NAN, 3.0, -1.0, 1e30, 0.0]));
            }
        }
        let verts: Vec<Vec3> = tris.iter().flat_map(|t| t.v).collect();
        let nul = |p: *const f32, x: bool| if x { std::ptr::null() } else { p };
        let dangling = std::ptr::NonNull::<f32>::dangling().as_ptr() as *const f32;
        let cp = if np == 0 { dangling } else { centers.as_ptr() };
        let vp = if np == 0 { dangling } else { verts.as_ptr() as *const f32 };
        let bp = if np == 0 { std::ptr::NonNull::<RTAabb>::dangling().as_ptr() as *const RTAabb } else { rt.as_ptr() };
        for variant in 0..5 {
            // null: 0 nothing, 1 centres, 2 result, 3 AABBs, 4 vertices (spatial)
            let mut h = vh::ffi::filled();
            let before = bytes(&h);
            let hp = if variant == 2 { std::ptr::null_mut() } else { &mut h as *mut RTBvh };
            let bx = if variant == 3 { std::ptr::null() } else { bp };
            let rc = unsafe {
                match kind {
                    Kind::Spatial => rtbvh_rs::create_spatial_Bvh(bx, np, nul(cp, variant == 1), stride, nul(vp, variant == 4), 12, 36, leaf.unwrap_or(0) as u32, hp),
                    _ => rtbvh_rs::create_bvh(
                        bx,
                        np,
                        nul(cp, variant == 1),
                        stride,
                        leaf.unwrap_or(0),
                        if kind == Kind::Locb { BvhType::LocallyOrderedClustered } else { BvhType::BinnedSAH },
                        hp,
                    ),
                }
            };
            let null = variant == 1 || variant == 2 || (variant == 4 && kind == Kind::Spatial);
            let c = code(rc);
            let want = if null {
                1
            } else if np == 0 {
                2
            } else {
                0
            };
            let desc = format!("C API, {} with {np} primitives, variant {variant}", kind_of(kind));
            if c != want {
                cx.fail(format!("{kind:?}:c-api-code"), format!("{desc}: result code {c}, expected {want}"));
                return;
            }
            let after = bytes(&h);
            if c == 0 {
                cx.count("c_api_successes", 1);
                if after == before {
                    cx.fail("c-api-result", format!("{desc}: no handle was written"));
                    return;
                }
                rtbvh_rs::free_bvh(h);
            } else {
                cx.count("c_api_errors", 1);
                if after != before {
                    cx.fail("c-api-result", format!("{desc}: result code {c} but a handle was written"));
                    return;
                }
            }
        }
        let _ = NonZeroUsize::new(1);
        cx.sample(|| format!("{}: {np} primitives, {na} AABBs", kind_of(kind)));
    });
}
