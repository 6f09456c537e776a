//! Ray and packet generators.
use crate::geo::*;
use crate::rng::*;
use crate::scene::*;
use glam::{Vec3, Vec4};
use rtbvh::*;

#[derive(Clone, Copy, Debug)]
pub struct RaySpec {
    pub o: Vec3,
    pub d: Vec3,
    pub t: f32,
    pub tmin: f32,
}

impl RaySpec {
    pub fn ray(&self) -> Ray {
        let mut r = Ray::new(self.o, self.d);
        r.t = self.t;
        r.t_min = self.tmin;
        r
    }
    pub fn r64(&self) -> R64 {
        R64::new(self.o, self.d)
    }
}

/// Point clearly inside a triangle.
pub fn inner_point(r: &mut Rng, t: &Tri) -> Vec3 {
    let mut u = r.uni(0.08, 0.84);
    let mut v = r.uni(0.08, 0.84);
    if u + v > 0.92 {
        u = 1.0 - u;
        v = 1.0 - v;
        let s = (0.92 / (u + v)).min(1.0);
        u *= s;
        v *= s;
    }
    lerp_in(t, u.max(0.04), v.max(0.04))
}

pub fn axis_dir(r: &mut Rng) -> Vec3 {
    // zero components with random sign
    let z = |r: &mut Rng| if r.chance(0.5) { 0.0 } else { -0.0 };
    let mut v = Vec3::new(z(r), z(r), z(r));
    let k = r.below(3);
    v[k] = if r.chance(0.5) { 1.0 } else { -1.0 };
    if r.chance(0.35) {
        let k2 = (k + r.range(1, 2)) % 3;
        v[k2] = r.uni(-1.0, 1.0);
    }
    v
}

/// A ray, most often aimed at the inside of `target`.
pub fn gen_ray(r: &mut Rng, lo: Vec3, hi: Vec3, target: Option<Vec3>) -> RaySpec {
    let ext = (hi - lo).max_element().max(0.1);
    let mid = (lo + hi) * 0.5;
    let p = target.unwrap_or_else(|| {
        let e = (hi - lo) * 0.6 + Vec3::splat(0.01 * ext);
        mid + Vec3::new(r.uni(-e.x, e.x), r.uni(-e.y, e.y), r.uni(-e.z, e.z))
    });
    let (o, mut dir) = match r.below(10) {
        0 | 1 | 2 => {
            let o = mid + r.unit() * ext * r.uni(0.8, 3.0);
            (o, p - o)
        }
        3 | 4 => {
            let d = axis_dir(r);
            let dist = ext * r.uni(0.2, 3.0);
            (p - d * dist, d)
        }
        5 => {
            // from inside the scene
            let o = Vec3::new(r.uni(lo.x, hi.x), r.uni(lo.y, hi.y), r.uni(lo.z, hi.z));
            (o, p - o)
        }
        6 => {
            let o = mid + r.unit() * ext * r.uni(5.0, 30.0);
            (o, p - o)
        }
        7 => {
            // one tiny component
            let mut d = r.unit();
            d[r.below(3)] = r.uni(-1e-4, 1e-4);
            (p - d * ext * r.uni(0.5, 2.0), d)
        }
        8 => {
            let d = r.unit();
            (p - d * ext * r.uni(0.01, 0.5), d)
        }
        _ => {
            let o = mid + r.unit() * ext * r.uni(0.8, 2.0);
            (o, p - o)
        }
    };
    if dir.length() < 1e-6 * ext || !dir.is_finite() {
        dir = Vec3::new(0.3, 0.5, -0.7);
    }
    // non-unit lengths, too
    match r.below(6) {
        0 => dir *= r.uni(0.05, 0.5) / dir.length(),
        1 => dir *= r.uni(1.5, 50.0) / dir.length(),
        _ => dir = dir / dir.length(),
    }
    RaySpec { o, d: dir, t: 1e34, tmin: 1e-4 }
}

pub fn packet_of(rs: &[RaySpec; 4]) -> RayPacket4 {
    let e = |v: Vec3| Vec4::new(v.x, v.y, v.z, 0.0);
    let mut p = RayPacket4::new([e(rs[0].o), e(rs[1].o), e(rs[2].o), e(rs[3].o)], [e(rs[0].d), e(rs[1].d), e(rs[2].d), e(rs[3].d)]);
    p.t = Vec4::new(rs[0].t, rs[1].t, rs[2].t, rs[3].t);
    p
}

pub const WAYS: [&str; 4] = ["bvh-ray", "quad-ray", "bvh-packet", "quad-packet"];

/// A triangle of some size, shape and place.
pub fn gen_tri(r: &mut Rng) -> (Tri, f32) {
    let place = r.pick(&[0.0f32, 1.0, 10.0, 100.0, 1000.0]);
    let size = r.pick(&[0.01f32, 0.1, 1.0, 10.0, 300.0]);
    let c = r.vec3(-1.0, 1.0) * place;
    let mut p = || r.vec3(-1.0, 1.0) * size;
    let (a, b, d) = (p(), p(), p());
    let mut t = Tri::new(c + a, c + b, c + d);
    match r.below(8) {
        0 => {
            // in an axis plane
            let k = r.below(3);
            for v in t.v.iter_mut() {
                v[k] = c[k];
            }
        }
        1 => {
            // right-angled, axis-aligned legs
            let k = r.below(3);
            let (i, j) = ((k + 1) % 3, (k + 2) % 3);
            let mut e1 = Vec3::ZERO;
            e1[i] = size;
            let mut e2 = Vec3::ZERO;
            e2[j] = -size * r.uni(0.1, 1.0);
            t = Tri::new(c, c + e1, c + e2);
        }
        2 => {
            // long and thin
            let d = r.unit() * size;
            t = Tri::new(c - d, c + d, c + r.unit() * size * 0.03);
        }
        3 => {
            // integer coordinates
            for v in t.v.iter_mut() {
                *v = v.round();
            }
        }
        4 => {
            // degenerate
            match r.below(3) {
                0 => t.v[1] = t.v[0],
                1 => t.v[2] = t.v[0] + (t.v[1] - t.v[0]) * r.uni(-1.0, 2.0),
                _ => t = Tri::new(c, c, c),
            }
        }
        _ => {}
    }
    (t, size)
}

/// A point in the triangle's plane: inside, at an edge, or outside.
pub fn plane_point(r: &mut Rng, t: &Tri) -> Vec3 {
    match r.below(7) {
        0..=2 => inner_point(r, t),
        3 => {
            // just inside or outside of an edge
            let e = r.pick(&[-0.03f32, 0.03, -0.1, 0.1, -0.001, 0.001, 0.0]);
            let (u, v) = match r.below(3) {
                0 => (e, r.uni(0.1, 0.8)),
                1 => (r.uni(0.1, 0.8), e),
                _ => {
                    let u = r.uni(0.1, 0.8);
                    (u, 1.0 - u - e)
                }
            };
            lerp_in(t, u, v)
        }
        4 => {
            // beyond a corner: outside of two edges
            let k = r.below(3);
            let (a, b, c) = (t.v[k], t.v[(k + 1) % 3], t.v[(k + 2) % 3]);
            a - (b - a) * r.uni(0.03, 0.8) - (c - a) * r.uni(0.03, 0.8)
        }
        5 => {
            // opposite of a corner: inside the parallelogram, outside the triangle
            let k = r.below(3);
            let (a, b, c) = (t.v[k], t.v[(k + 1) % 3], t.v[(k + 2) % 3]);
            let u = r.uni(0.2, 0.95);
            a + (b - a) * u + (c - a) * r.uni(1.05 - u, 1.0)
        }
        _ => lerp_in(t, r.uni(-2.0, 2.0), r.uni(-2.0, 2.0)),
    }
}

/// A ray whose line passes through `p`; often with limits around its distance.
pub fn ray_at(r: &mut Rng, p: Vec3, size: f32) -> (RaySpec, f32) {
    let dist = size.max(0.05) * r.pick(&[0.2f32, 1.0, 3.0, 20.0]);
    let mut d = match r.below(4) {
        0 => axis_dir(r),
        _ => r.unit(),
    };
    d *= match r.below(5) {
        0 => r.uni(0.05, 0.5),
        1 => r.uni(1.5, 60.0),
        _ => 1.0,
    } / d.length();
    let t = dist / d.length();
    let behind = r.chance(0.15);
    let o = if behind { p + d * t } else { p - d * t };
    let mut s = RaySpec { o, d, t: 1e34, tmin: 1e-4 };
    let h = if behind { -t } else { t };
    match r.below(8) {
        0 => s.t = t * r.uni(1.01, 1.5),
        1 => s.t = t * r.uni(0.2, 0.99),
        2 => s.tmin = t * r.uni(0.2, 0.99),
        3 => s.tmin = t * r.uni(1.01, 2.0),
        4 => {
            s.tmin = t * r.uni(0.5, 0.99);
            s.t = t * r.uni(1.01, 1.5);
        }
        5 => s.tmin = 0.0,
        _ => {}
    }
    (s, h)
}
