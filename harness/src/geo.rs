//! f64 oracles.
use crate::rng::Rng;
use crate::scene::Tri;
use glam::{DVec3, Vec3};

pub fn d(v: Vec3) -> DVec3 {
    DVec3::new(v.x as f64, v.y as f64, v.z as f64)
}

#[derive(Clone, Copy, Debug)]
pub struct R64 {
    pub o: DVec3,
    pub d: DVec3,
}
impl R64 {
    pub fn new(o: Vec3, dir: Vec3) -> Self {
        R64 { o: d(o), d: d(dir) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    /// clear hit at t
    Hit(f64),
    /// clear miss of the (infinite) line through the triangle
    Miss,
    Unclear,
}

/// f64 Moeller-Trumbore with safety margins.
pub fn tri_verdict(t: &Tri, r: &R64) -> Verdict {
    let (a, b, c) = (d(t.v[0]), d(t.v[1]), d(t.v[2]));
    let e1 = b - a;
    let e2 = c - a;
    let n = e1.cross(e2);
    let nl = n.length();
    let dl = r.d.length();
    let me = e1.length().max(e2.length()).max((c - b).length());
    if !(nl > 0.0) || !(dl > 0.0) || me <= 0.0 {
        return Verdict::Unclear;
    }
    // altitude of the triangle versus the magnitude of the coordinates involved
    let alt = nl / me;
    let mag = (a - r.o).length().max((b - r.o).length()).max((c - r.o).length());
    let det = -r.d.dot(n);
    let cosang = det.abs() / (nl * dl);
    if alt < 1e-3 * me || alt < 2e-5 * mag {
        return Verdict::Unclear;
    }
    if cosang < 1e-3 {
        // nearly parallel
        return Verdict::Unclear;
    }
    let s = r.o - a;
    let h = r.d.cross(e2);
    let det = e1.dot(h);
    let f = 1.0 / det;
    let u = f * s.dot(h);
    let q = s.cross(e1);
    let v = f * r.d.dot(q);
    let t = f * e2.dot(q);
    let w = 1.0 - u - v;
    // error of the barycentrics in f32 grows with mag/(alt*cosang)
    let m = (0.02f64).max(2e-6 * mag / (alt * cosang));
    if m > 0.2 {
        return Verdict::Unclear;
    }
    let mn = u.min(v).min(w);
    if mn > m && cosang > 0.02 {
        Verdict::Hit(t)
    } else if mn < -m {
        Verdict::Miss
    } else {
        Verdict::Unclear
    }
}

/// Absolute error allowance for f32 distances to this triangle.
pub fn t_tol(t: &Tri, r: &R64) -> f64 {
    let (a, b, c) = (d(t.v[0]), d(t.v[1]), d(t.v[2]));
    let n = (b - a).cross(c - a).normalize();
    let dl = r.d.length();
    let cosang = (r.d.dot(n) / dl).abs().max(1e-6);
    let me = (b - a).length().max((c - a).length()).max((c - b).length());
    let alt = (b - a).cross(c - a).length() / me;
    let mag = (a - r.o).length().max((b - r.o).length()).max((c - r.o).length()) + r.o.length() + a.length();
    4e-6 * mag * (1.0 + me / alt) / (cosang * dl)
}

/// Exact-ish slab interval of the ray against a box; None if the line misses.
pub fn slab(min: DVec3, max: DVec3, r: &R64) -> Option<(f64, f64)> {
    let mut lo = f64::NEG_INFINITY;
    let mut hi = f64::INFINITY;
    for k in 0..3 {
        if r.d[k] == 0.0 {
            if r.o[k] < min[k] || r.o[k] > max[k] {
                return None;
            }
        } else {
            let a = (min[k] - r.o[k]) / r.d[k];
            let b = (max[k] - r.o[k]) / r.d[k];
            lo = lo.max(a.min(b));
            hi = hi.min(a.max(b));
        }
    }
    if lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}

/// Interval of the box shrunk by a fraction of its extents: clearly passed through.
pub fn clear_slab(min: Vec3, max: Vec3, r: &R64) -> Option<(f64, f64)> {
    let (mn, mx) = (d(min), d(max));
    let e = (mx - mn) * 0.03;
    // rounding allowance for coordinates far from the origin of the ray
    slab(mn + e, mx - e, r)
}

/// Interval of the box grown by an absolute tolerance; None = clear miss.
pub fn grown_slab(min: Vec3, max: Vec3, r: &R64, tol: f64) -> Option<(f64, f64)> {
    slab(d(min) - DVec3::splat(tol), d(max) + DVec3::splat(tol), r)
}

/// Tiny perturbation of a ray that keeps zero direction components exactly as they are.
pub fn perturb(rng: &mut Rng, o: Vec3, dir: Vec3, scale: f32) -> (Vec3, Vec3) {
    let eps = 2e-5 * scale.max(o.abs().max_element()).max(0.1);
    let o2 = o + rng.vec3(-eps, eps);
    let mut d2 = dir;
    for k in 0..3 {
        if d2[k] != 0.0 {
            d2[k] *= 1.0 + rng.uni(-2e-5, 2e-5);
        }
    }
    (o2, d2)
}

pub fn lerp_in(t: &Tri, u: f32, v: f32) -> Vec3 {
    t.v[0] + (t.v[1] - t.v[0]) * u + (t.v[2] - t.v[0]) * v
}

/// f64 determinant of the intersection equations, whose magnitude the library
/// compares with an absolute epsilon.
pub fn det(t: &Tri, r: &R64) -> f64 {
    let (a, b, c) = (d(t.v[0]), d(t.v[1]), d(t.v[2]));
    (b - a).dot(r.d.cross(c - a))
}

/// What the triangle test must answer for given limits: Some(true) a hit, Some(false) none.
pub fn expect_hit(t: &Tri, r: &R64, tmin: f64, lim: f64) -> (Option<bool>, f64, f64) {
    match tri_verdict(t, r) {
        Verdict::Hit(x) => {
            let tol = t_tol(t, r) + 1e-5 * x.abs();
            let e = if x < tmin - tol || x > lim + tol {
                Some(false)
            } else if x > tmin + tol && x < lim - tol {
                // below 1e-5 the ray counts as parallel
                if det(t, r).abs() > 3e-5 {
                    Some(true)
                } else {
                    None
                }
            } else {
                None
            };
            (e, x, tol)
        }
        Verdict::Miss => (Some(false), 0.0, 0.0),
        Verdict::Unclear => (None, 0.0, 0.0),
    }
}

/// How a ray clearly relates to a box, with rounding allowances in ray units.
#[derive(Clone, Copy, Debug)]
pub struct BoxVerdict {
    /// Some(true): the line clearly passes through, Some(false): clearly misses
    pub pass: Option<bool>,
    pub entry: f64,
    pub exit: f64,
    pub tol: f64,
}

/// Compares slab intervals across axes; flat boxes and zero direction components
/// are exact cases of it (within one axis f32 rounding is monotone).
pub fn box_verdict(min: Vec3, max: Vec3, r: &R64) -> BoxVerdict {
    let (mn, mx) = (d(min), d(max));
    let mut lo = [f64::NEG_INFINITY; 3];
    let mut hi = [f64::INFINITY; 3];
    let mut err = [0f64; 3];
    let mut v = BoxVerdict { pass: None, entry: f64::NEG_INFINITY, exit: f64::INFINITY, tol: 0.0 };
    let mut outside = false;
    let mut edge = false;
    for k in 0..3 {
        let mag = mn[k].abs().max(mx[k].abs()) + r.o[k].abs();
        if r.d[k] == 0.0 {
            let e = 1e-6 * mag;
            if r.o[k] < mn[k] - e || r.o[k] > mx[k] + e {
                outside = true;
            } else if r.o[k] <= mn[k] + e || r.o[k] >= mx[k] - e {
                edge = true;
            }
        } else {
            let a = (mn[k] - r.o[k]) / r.d[k];
            let b = (mx[k] - r.o[k]) / r.d[k];
            lo[k] = a.min(b);
            hi[k] = a.max(b);
            err[k] = 1e-6 * mag / r.d[k].abs() + 1e-6 * a.abs().max(b.abs());
        }
    }
    // A ray inside the plane of one of the faces is a borderline case whatever
    // it does along the other axes: its slab for this axis is not a number.
    if edge {
        return v;
    }
    if outside {
        v.pass = Some(false);
        return v;
    }
    let mut pass = true;
    for k in 0..3 {
        for j in 0..3 {
            if j != k && lo[k].is_finite() && hi[j].is_finite() {
                let e = err[k] + err[j];
                if lo[k] > hi[j] + e {
                    v.pass = Some(false);
                    return v;
                }
                if lo[k] > hi[j] - e {
                    pass = false;
                }
            }
        }
    }
    v.entry = lo[0].max(lo[1]).max(lo[2]);
    v.exit = hi[0].min(hi[1]).min(hi[2]);
    v.tol = err[0].max(err[1]).max(err[2]);
    // only the axes that can decide the entry and the exit contribute
    let mut te = 0f64;
    for k in 0..3 {
        if lo[k].is_finite() && (lo[k] + err[k] >= v.entry || hi[k] - err[k] <= v.exit) {
            te = te.max(err[k]);
        }
    }
    v.tol = te;
    if pass {
        v.pass = Some(true);
    }
    v
}
