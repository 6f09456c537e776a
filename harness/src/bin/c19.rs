//! C19: splitting a triangle at a plane loses nothing.
use glam::DVec3;
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*};

/// A triangle that also overrides nothing but the vertices, in another order.
fn clip(t: &Tri, axis: usize, pos: f64, lower: bool) -> Vec<DVec3> {
    // Sutherland-Hodgman in f64
    let v: Vec<DVec3> = t.v.iter().map(|v| d(*v)).collect();
    let inside = |p: &DVec3| if lower { p[axis] <= pos } else { p[axis] >= pos };
    let mut out = vec![];
    for i in 0..3 {
        let (a, b) = (v[i], v[(i + 1) % 3]);
        if inside(&a) {
            out.push(a);
        }
        if inside(&a) != inside(&b) {
            let s = (pos - a[axis]) / (b[axis] - a[axis]);
            let mut p = a + (b - a) * s;
            p[axis] = pos;
            out.push(p);
        }
    }
    out
}

fn main() {
    run("C19", 400, 4000, |cx| {
        let mut r = cx.rng();
        for k in 0..400u64 {
            let (t, _) = gen_tri(&mut r);
            let axis = r.below(3);
            let bb = t.exact_aabb();
            let (lo, hi) = (bb.min[axis], bb.max[axis]);
            let pos = match r.below(8) {
                0 => t.v[r.below(3)][axis],
                1 => lo - r.uni(0.0, 2.0) * (hi - lo).max(0.01),
                2 => hi + r.uni(0.0, 2.0) * (hi - lo).max(0.01),
                3 => (lo + hi) * 0.5,
                4 => {
                    // next to a vertex
                    let x = t.v[r.below(3)][axis];
                    f32::from_bits((x.to_bits() as i64 + r.range(0, 8) as i64 - 4).max(0) as u32)
                }
                _ => lo + (hi - lo) * r.uni(0.0, 1.0),
            };
            if !pos.is_finite() {
                continue;
            }
            let (l, u) = t.split(axis, pos);
            let mag = t.v.iter().fold(pos.abs(), |m, v| m.max(v.abs().max_element())) as f64;
            let tol = 2e-6 * mag + 1e-30;
            let what = || format!("{t:?} split at {pos} on axis {axis}: {:?}..{:?} and {:?}..{:?}", l.min, l.max, u.min, u.max);
            let mut crossing = false;
            for (lower, b) in [(true, &l), (false, &u)] {
                let side = if lower { "lower" } else { "upper" };
                let poly = clip(&t, axis, pos as f64, lower);
                let entirely_other = if lower { lo > pos } else { hi < pos };
                crossing = lo < pos && pos < hi;
                let empty = !b.is_valid();
                if entirely_other {
                    if !empty {
                        cx.fail("not-empty", format!("{}: the {side} box should be empty", what()));
                        return;
                    }
                    continue;
                }
                // a triangle that only touches the plane may leave the touching side empty
                let interior = if lower { lo < pos } else { hi > pos };
                if empty {
                    if interior {
                        cx.fail("lost-side", format!("{}: the {side} box is empty", what()));
                        return;
                    }
                    continue;
                }
                let (bl, bh) = (d(b.min), d(b.max));
                // points of this side, corners of the clipped polygon first
                let mut pts = poly.clone();
                for _ in 0..6 {
                    if poly.len() >= 3 {
                        let (a, c, e) = (poly[r.below(poly.len())], poly[r.below(poly.len())], poly[r.below(poly.len())]);
                        let x = r.f64();
                        let y = r.f64() * (1.0 - x);
                        pts.push(a + (c - a) * x + (e - a) * y);
                    }
                }
                for p in &pts {
                    // points in the plane itself belong to either side
                    if (p[axis] - pos as f64).abs() <= 0.0 && !interior {
                        continue;
                    }
                    for q in 0..3 {
                        if p[q] < bl[q] - tol || p[q] > bh[q] + tol {
                            cx.fail("point-lost", format!("{}: {side} point {p:?} is outside", what()));
                            return;
                        }
                    }
                    cx.count("points_checked", 1);
                }
                for q in 0..3 {
                    if bl[q] < bb.min[q] as f64 - tol || bh[q] > bb.max[q] as f64 + tol {
                        cx.fail("outside-own-box", format!("{}: the {side} box leaves the triangle's own box", what()));
                        return;
                    }
                }
                if (lower && bh[axis] > pos as f64 + tol) || (!lower && bl[axis] < pos as f64 - tol) {
                    cx.fail("wrong-side", format!("{}: the {side} box crosses the plane", what()));
                    return;
                }
                // no larger than the part it bounds
                if interior && !poly.is_empty() {
                    let (mut pl, mut ph) = (poly[0], poly[0]);
                    for p in &poly {
                        pl = pl.min(*p);
                        ph = ph.max(*p);
                    }
                    for q in 0..3 {
                        if bl[q] < pl[q] - tol || bh[q] > ph[q] + tol {
                            cx.fail("loose", format!("{}: the {side} box exceeds its part {pl:?}..{ph:?}", what()));
                            return;
                        }
                    }
                }
            }
            if crossing {
                cx.count("crossing_planes", 1);
            }
            cx.eval(mix(cx.seed ^ cx.idx << 16 ^ k), crossing);
            if k == 0 {
                cx.sample(what);
            }
        }
    });
}
