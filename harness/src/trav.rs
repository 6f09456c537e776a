//! Bounded drivers around the traversal front ends, and miss confirmation.
use crate::{geo::*, rays::*, scene::Tri};
use glam::Vec4;
use rtbvh::*;

/// A static traversal yields every leaf reference at most once, so anything
/// beyond this many yields is endless.
pub fn cap(refs: usize) -> usize {
    refs * 4 + 64
}

pub const ENDLESS: &str = "traversal yields more primitives than the structure references";

macro_rules! drain {
    ($it:expr, $cap:expr) => {{
        let mut v: Vec<u32> = vec![];
        let mut ended = false;
        let mut it = $it;
        for _ in 0..$cap {
            match it.next() {
                Some((i, _)) => v.push(i),
                None => {
                    ended = true;
                    break;
                }
            }
        }
        if ended {
            Ok(v)
        } else {
            Err(ENDLESS.to_string())
        }
    }};
}

pub fn bvh_static(b: &Bvh, s: &RaySpec) -> Result<Vec<u32>, String> {
    let mut ray = s.ray();
    drain!(b.traverse_iter_indices(&mut ray), cap(b.indices().len()))
}
pub fn quad_static(b: &Mbvh, s: &RaySpec) -> Result<Vec<u32>, String> {
    let mut ray = s.ray();
    drain!(b.traverse_iter_indices(&mut ray), cap(b.indices().len()))
}
pub fn bvh_static4(b: &Bvh, s: &[RaySpec; 4]) -> Result<Vec<u32>, String> {
    let mut p = packet_of(s);
    drain!(b.traverse_iter_indices_packet(&mut p), cap(b.indices().len()))
}
pub fn quad_static4(b: &Mbvh, s: &[RaySpec; 4]) -> Result<Vec<u32>, String> {
    let mut p = packet_of(s);
    drain!(b.traverse_iter_indices_packet(&mut p), cap(b.indices().len()))
}

/// Closest hit by traversal: intersect every yielded primitive, shrinking the limit.
pub fn bvh_closest<T: Primitive + SpatialTriangle>(b: &Bvh, s: &RaySpec, prims: &[T]) -> Result<f32, String> {
    let mut ray = s.ray();
    let mut n = 0;
    for (t, r) in b.traverse_iter(&mut ray, prims) {
        t.intersect(r);
        n += 1;
        if n > cap(b.indices().len()) {
            return Err(ENDLESS.into());
        }
    }
    Ok(ray.t)
}
pub fn quad_closest<T: Primitive + SpatialTriangle>(b: &Mbvh, s: &RaySpec, prims: &[T]) -> Result<f32, String> {
    let mut ray = s.ray();
    let mut n = 0;
    for (t, r) in b.traverse_iter(&mut ray, prims) {
        t.intersect(r);
        n += 1;
        if n > cap(b.indices().len()) {
            return Err(ENDLESS.into());
        }
    }
    Ok(ray.t)
}
pub fn brute<T: SpatialTriangle>(s: &RaySpec, prims: &[T]) -> f32 {
    let mut ray = s.ray();
    for t in prims {
        t.intersect(&mut ray);
    }
    ray.t
}
pub fn bvh_closest4<T: Primitive + SpatialTriangle>(b: &Bvh, s: &[RaySpec; 4], tmin: Vec4, prims: &[T]) -> Result<Vec4, String> {
    let mut p = packet_of(s);
    let mut n = 0;
    for (t, r) in b.traverse_iter_packet(&mut p, prims) {
        t.intersect4(r, tmin);
        n += 1;
        if n > cap(b.indices().len()) {
            return Err(ENDLESS.into());
        }
    }
    Ok(p.t)
}
pub fn quad_closest4<T: Primitive + SpatialTriangle>(b: &Mbvh, s: &[RaySpec; 4], tmin: Vec4, prims: &[T]) -> Result<Vec4, String> {
    let mut p = packet_of(s);
    let mut n = 0;
    for (t, r) in b.traverse_iter_packet(&mut p, prims) {
        t.intersect4(r, tmin);
        n += 1;
        if n > cap(b.indices().len()) {
            return Err(ENDLESS.into());
        }
    }
    Ok(p.t)
}
pub fn brute4<T: SpatialTriangle>(s: &[RaySpec; 4], tmin: Vec4, prims: &[T]) -> Vec4 {
    let mut p = packet_of(s);
    for t in prims {
        t.intersect4(&mut p, tmin);
    }
    p.t
}

/// Membership marks for a yield list.
pub fn marks(v: &[u32], n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    for &i in v {
        if (i as usize) < n {
            m[i as usize] = true;
        }
    }
    m
}

/// A single missed primitive may be rounding at the edge of a box; a miss that
/// persists while the ray is moved slightly is not. `test` gets a perturbed
/// spec and says Some(missed) or None when the perturbed outcome is unclear.
pub fn confirmed(mut test: impl FnMut(usize) -> Option<bool>) -> bool {
    let (mut bad, mut n) = (0, 0);
    for k in 0..24 {
        if let Some(b) = test(k) {
            n += 1;
            bad += b as u32;
            if n == 8 {
                break;
            }
        }
    }
    n == 8 && bad >= 6
}

/// Distance and its tolerance of a hit that no rounding can talk away.
pub fn clear_hit(t: &Tri, s: &RaySpec) -> Option<(f64, f64)> {
    let r = s.r64();
    match tri_verdict(t, &r) {
        Verdict::Hit(x) => {
            let tol = t_tol(t, &r) + 1e-5 * x.abs();
            (x > s.tmin as f64 + tol && x < s.t as f64 - tol).then_some((x, tol))
        }
        _ => None,
    }
}

/// Whether a search that found `got` went past a clear hit that the triangle
/// test itself reports; None without any.
pub fn went_past(got: f32, s: &RaySpec, tris: &[Tri]) -> Option<bool> {
    past(got, s, tris, |t| t.intersect(&mut s.ray()))
}

/// The same for a lane of a packet.
pub fn went_past4(got: f32, s: &RaySpec, tmin: Vec4, tris: &[Tri]) -> Option<bool> {
    past(got, s, tris, |t| t.intersect4(&mut packet_of(&[*s, *s, *s, *s]), tmin).map_or(false, |h| h[0]))
}

fn past(got: f32, s: &RaySpec, tris: &[Tri], hit: impl Fn(&Tri) -> bool) -> Option<bool> {
    let mut any = None;
    for t in tris {
        if let Some((x, tol)) = clear_hit(t, s) {
            if any != Some(true) && hit(t) {
                any = Some(got as f64 > x + 2.0 * tol);
            }
        }
    }
    any
}
