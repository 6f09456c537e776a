//! C34: the demo crate's camera and triangles show the scene as it is.
use glam::{DVec3, Vec3, Vec4, Vec4Swizzles};
use rtbvh::*;
use shared::{CameraView3D, Timer, Triangle};
use std::cell::RefCell;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*};

fn d(v: Vec3) -> DVec3 {
    DVec3::new(v.x as f64, v.y as f64, v.z as f64)
}
fn v4(v: Vec3, w: f32) -> Vec4 {
    Vec4::new(v.x, v.y, v.z, w)
}

/// The mesh the demo shows.
fn teapot() -> Option<Vec<Tri>> {
    let s = std::fs::read_to_string(concat!("/repo", "/objects/teapot.obj")).ok()?;
    let (mut v, mut t) = (vec![], vec![]);
    for l in s.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("v") => {
                let c: Vec<f32> = w.filter_map(|x| x.parse().ok()).collect();
                v.push(Vec3::new(*c.first()?, *c.get(1)?, *c.get(2)?));
            }
            Some("f") => {
                let c: Vec<usize> = w.filter_map(|x| x.split('/').next()?.parse().ok()).collect();
                if c.len() == 3 {
                    t.push(Tri::new(*v.get(c[0] - 1)?, *v.get(c[1] - 1)?, *v.get(c[2] - 1)?));
                }
            }
            _ => {}
        }
    }
    Some(t)
}

fn look(pos: Vec3, fov: f32, w: u32, h: u32) -> CameraView3D {
    // as in the examples
    let screen_size = (fov * 0.5 / (180.0 / std::f32::consts::PI)).tan();
    let up = Vec3::Y;
    let right = Vec3::Z.cross(up);
    let center = pos + Vec3::Z;
    let aspect_ratio = w as f32 / h as f32;
    let p1 = center - screen_size * right * aspect_ratio + screen_size * up;
    let p2 = center + screen_size * right * aspect_ratio + screen_size * up;
    let p3 = center - screen_size * right * aspect_ratio - screen_size * up;
    CameraView3D {
        pos,
        right: p2 - p1,
        up: p3 - p1,
        p1,
        direction: Vec3::Z,
        inv_width: 1.0 / w as f32,
        inv_height: 1.0 / h as f32,
        aspect_ratio,
        fov,
    }
}

/// What the screen of a camera must be after any history.
fn check_screen(cx: &mut Ctx, what: &str, c: &CameraView3D, span: f64) -> bool {
    let (p, dir) = (d(c.pos), d(c.direction));
    let (p1, r, u) = (d(c.p1), d(c.right), d(c.up));
    let tol = 4e-6 * (1.0 + p.length() + span + p1.length() + r.length() + u.length());
    let mut bad = |sig: &str, msg: String| {
        cx.fail(format!("camera:{sig}"), format!("{what}: {c:?}: {msg}"));
        false
    };
    if (dir.length() - 1.0).abs() > 1e-5 {
        return bad("direction", format!("direction of length {}", dir.length()));
    }
    let mid = p1 + 0.5 * r + 0.5 * u;
    if !((mid - (p + dir)).length() <= tol) {
        return bad("middle", format!("the middle of the screen is {mid:?}, not {:?}", p + dir));
    }
    let s = (c.fov as f64 * 0.5).to_radians().tan();
    let want_r = dir.cross(DVec3::Y) * (2.0 * s * c.aspect_ratio as f64);
    let want_u = DVec3::Y * (-2.0 * s);
    if !((u - want_u).length() <= tol) {
        return bad("height", format!("screen side {u:?}, not {want_u:?}"));
    }
    if !((r - want_r).length() <= tol) {
        return bad("width", format!("screen side {r:?}, not {want_r:?}"));
    }
    true
}

/// Rays of pixels against f64; gives the specs of the packet lanes.
fn check_rays(cx: &mut Ctx, c: &CameraView3D, x: [u32; 4], y: [u32; 4]) -> bool {
    let p4 = c.generate_ray4(x, y);
    let size = d(c.p1).length() + d(c.right).length() + d(c.up).length() + d(c.pos).length();
    for k in 0..4 {
        let to = d(c.p1) + d(c.right) * (x[k] as f64 * c.inv_width as f64) + d(c.up) * (y[k] as f64 * c.inv_height as f64) - d(c.pos);
        let want = to.normalize();
        let tol = 1e-6 + 4e-7 * size * (1.0 + x[k] as f64 * c.inv_width as f64 + y[k] as f64 * c.inv_height as f64) / to.length();
        let r = c.generate_ray(x[k], y[k]);
        let mut lane = Ray::new(
            Vec3::new(p4.origin_x[k], p4.origin_y[k], p4.origin_z[k]),
            Vec3::new(p4.direction_x[k], p4.direction_y[k], p4.direction_z[k]),
        );
        lane.t = p4.t[k];
        let inv = Vec3::new(p4.inv_direction_x[k], p4.inv_direction_y[k], p4.inv_direction_z[k]);
        for (way, r) in [("ray", r), ("lane", lane)] {
            let bad = if r.origin != c.pos {
                "origin"
            } else if !((d(r.direction) - want).length() <= tol) || (d(r.direction).length() - 1.0).abs() > 1e-5 {
                "direction"
            } else if way == "lane" && (0..3).any(|a| {
                let want = 1.0 / r.direction[a];
                !(inv[a] == want || (inv[a] - want).abs() <= 1e-6 * want.abs())
            }) {
                "inverse"
            } else if r.t != 1e34 {
                "limit"
            } else {
                cx.count("camera_rays", 1);
                continue;
            };
            cx.fail(
                format!("{way}:{bad}"),
                format!("pixel {}, {} of {c:?}: {r:?} (should run along {want:?}, within {tol:e}; lane {k} of {x:?}, {y:?})", x[k], y[k]),
            );
            return false;
        }
    }
    true
}

fn check_triangle(cx: &mut Ctx, t: &Tri, s: &Triangle, w: [f32; 3]) -> bool {
    let mut bad = |sig: &str, msg: String| {
        cx.fail(format!("triangle:{sig}"), format!("{t:?}: {s:?}: {msg}"));
        false
    };
    if s.vertex0 != v4(t.v[0], w[0]) || s.vertex1 != v4(t.v[1], w[1]) || s.vertex2 != v4(t.v[2], w[2]) {
        return bad("vertices", "not what it was made of".into());
    }
    if [SpatialTriangle::vertex0(s), SpatialTriangle::vertex1(s), SpatialTriangle::vertex2(s)] != t.v {
        return bad("corners", "answers other corners".into());
    }
    let e = t.exact_aabb();
    let a = Primitive::aabb(s);
    if a.min != e.min || a.max != e.max {
        return bad("box", format!("{a} instead of {e}"));
    }
    let b = bvh::aabb::Bounded::aabb(s);
    if [b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z] != [e.min.x, e.min.y, e.min.z, e.max.x, e.max.y, e.max.z] {
        return bad("other-box", format!("{b:?} instead of {e}"));
    }
    let mean = (d(t.v[0]) + d(t.v[1]) + d(t.v[2])) / 3.0;
    let far = t.v.iter().fold(0.0f64, |m, v| m.max(d(*v).length()));
    if !((d(s.center()) - mean).length() <= 1e-6 * far + 1e-30) {
        return bad("center", format!("center {:?}, not {mean:?}", s.center()));
    }
    let (e1, e2) = (d(t.v[1]) - d(t.v[0]), d(t.v[2]) - d(t.v[0]));
    let n = e1.cross(e2);
    // clearly a triangle: the cross product of rounded edges is accurate
    if n.length() > 1e-3 * e1.length() * e2.length() && n.length() > 1e-12 && n.length() < 1e12 && e1.length().min(e2.length()) > 1e-3 * far {
        let slack = 1e-4 + 1e-6 * far / e1.length().min(e2.length()) / (n.length() / (e1.length() * e2.length()));
        if !((d(s.normal) - n.normalize()).length() <= slack) {
            return bad("normal", format!("normal {:?}, not {:?}", s.normal, n.normalize()));
        }
        cx.count("normals", 1);
    }
    cx.count("triangles", 1);
    true
}

const WAYS: [&str; 6] = ["bvh", "quad", "bvh-iter", "quad-iter", "bvh-packet", "quad-packet"];

struct World<'a> {
    prims: &'a [Triangle],
    b: &'a Bvh,
    m: &'a Mbvh,
}

fn shade<'a, 'b>(it: impl Iterator<Item = (&'a Triangle, &'b mut Ray)>) -> Option<usize> {
    let mut best = None;
    for (t, r) in it {
        if t.intersect(r) {
            best = Some(t as *const Triangle as usize);
        }
    }
    best
}

impl World<'_> {
    /// The loop of the visualizer for one pixel: what is shown there, how far away.
    fn pixel(&self, way: usize, mut ray: Ray) -> (Option<usize>, f32) {
        let r = &mut ray;
        let best = match way {
            0 => shade(self.b.traverse_iter(r, self.prims)),
            1 => shade(self.m.traverse_iter(r, self.prims)),
            2 => shade(IntoRayIterator::iter(self.b, r, self.prims)),
            _ => shade(IntoRayIterator::iter(self.m, r, self.prims)),
        };
        (best.map(|p| (p - self.prims.as_ptr() as usize) / std::mem::size_of::<Triangle>()), ray.t)
    }
    fn pixels(&self, way: usize, mut p: RayPacket4) -> ([Option<usize>; 4], Vec4) {
        let tmin = Vec4::splat(1e-4);
        let mut best = [None; 4];
        let mut on = |id: u32, p: &mut RayPacket4| {
            if let Some(h) = self.prims[id as usize].intersect4(p, tmin) {
                for k in 0..4 {
                    if h[k] {
                        best[k] = Some(id as usize);
                    }
                }
            }
        };
        if way == 4 {
            for (id, p) in self.b.traverse_iter_indices_packet(&mut p) {
                on(id, p);
            }
        } else {
            for (id, p) in self.m.traverse_iter_indices_packet(&mut p) {
                on(id, p);
            }
        }
        (best, p.t)
    }
}

fn spec_of(r: &Ray) -> RaySpec {
    RaySpec { o: r.origin, d: r.direction, t: r.t, tmin: r.t_min }
}

fn perturbed(r: &mut Rng, s: &RaySpec, scale: f32) -> RaySpec {
    let (o, d) = perturb(r, s.o, s.d, scale);
    RaySpec { o, d, ..*s }
}

thread_local! {
    static CLOCK: RefCell<Option<(Timer, std::time::Instant)>> = RefCell::new(None);
}

/// Timers run in step with the clock, also beyond a second and after a reset.
fn check_timer(cx: &mut Ctx, r: &mut Rng) {
    let t0 = std::time::Instant::now();
    CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        let (t, born) = c.get_or_insert_with(|| {
            let b = std::time::Instant::now();
            (Timer::new(), b)
        });
        let lo = t.elapsed();
        let ms = t.elapsed_in_millis() as f64;
        let hi = t.elapsed();
        let (a, b) = (lo.as_secs_f64() * 1e3, hi.as_secs_f64() * 1e3);
        let eps = 2e-3 + 1e-6 * b;
        if !(ms >= a - eps && ms <= b + eps) {
            cx.fail("timer:millis", format!("{ms} ms between {a} and {b}"));
        }
        let up = born.elapsed();
        if hi > up || lo + std::time::Duration::from_millis(10_000) < t0.duration_since(*born) {
            cx.fail("timer:elapsed", format!("{lo:?} to {hi:?}, started {up:?} ago"));
        }
        cx.count(if b >= 1000.0 { "timer_beyond_a_second" } else { "timer_below_a_second" }, 1);
        if r.chance(0.002) {
            let at = std::time::Instant::now();
            t.reset();
            if t.elapsed() > at.elapsed() {
                cx.fail("timer:reset", format!("{:?} after a reset {:?} ago", t.elapsed(), at.elapsed()));
            }
            *born = at;
        }
    });
}

fn main() {
    let pot = teapot();
    run("C34", 100, 1000, |cx| {
        let mut r = cx.rng();
        let tiny = cx.stage == "miri";
        check_timer(cx, &mut r);
        // ---- scene
        let use_pot = !tiny && cx.idx % 15 == 3 && pot.is_some();
        let (name, tris) = if use_pot {
            ("teapot".to_string(), pot.clone().unwrap())
        } else {
            let n = if tiny { r.range(1, 12) } else { r.pick(&[1usize, 3, 20, 100, 400, 1500]) };
            let sk = r.below(N_KINDS);
            let kind_cap = cap_for(Kind::Spatial, sk, n).min(cap_for(Kind::Locb, sk, n));
            let s = tri_scene(&mut r, sk, n.min(kind_cap));
            (format!("{}/{}", s.name, s.tris.len()), s.tris)
        };
        if use_pot {
            cx.count("teapots", 1);
        }
        let scene = Scene { name: name.clone().into(), tris };
        let (lo, hi) = scene.bounds();
        let scale = scene.scale();
        let tris = &scene.tris;
        let mut prims = Vec::with_capacity(tris.len());
        for t in tris {
            let w = [r.uni(-9.0, 9.0), 1.0, r.pick(&[0.0f32, 1.0, 1e30])];
            let s = Triangle::new(v4(t.v[0], w[0]), v4(t.v[1], w[1]), v4(t.v[2], w[2]));
            if !check_triangle(cx, t, &s, w) {
                return;
            }
            prims.push(s);
        }
        // the other crate's bookkeeping must not matter
        for (i, p) in prims.iter_mut().enumerate() {
            bvh::bounding_hierarchy::BHShape::set_bh_node_index(p, i * 7);
        }
        if let Some(i) = (0..prims.len()).find(|&i| bvh::bounding_hierarchy::BHShape::bh_node_index(&prims[i]) != i * 7) {
            cx.fail("triangle:index", format!("index {} of triangle {i}", prims[i].id));
            return;
        }
        // ---- camera and its history
        let (w, h) = if tiny { (4, 2) } else { (r.range(2, 10) as u32 * 4, r.range(4, 24) as u32) };
        let fov = if r.chance(0.2) { 90_f32.to_radians() } else { r.uni(20.0, 130.0) };
        let span = (hi - lo).max_element().max(scale * 1e-3);
        let mid = (lo + hi) * 0.5;
        let sane = span > 1e-3 && scale < 1e5;
        let pos = if !sane {
            r.vec3(-50.0, 50.0)
        } else {
            mid - Vec3::Z * span * r.uni(0.0, 2.0) + r.vec3(-0.3, 0.3) * span
        };
        let mut cam = look(pos, fov, w, h);
        let mut model = (d(pos), DVec3::Z);
        let mut moved = 0.0f64;
        let reach = (pos.length() + span) as f64;
        if !check_screen(cx, "new", &cam, reach) {
            return;
        }
        let steps = r.pick(&[0usize, 1, 2, 5, 12]);
        for step in 0..steps {
            let what;
            if r.chance(0.5) {
                let o = r.vec3(-0.3, 0.3) * if sane { span } else { 3.0 };
                let side = model.1.cross(DVec3::Y);
                model.0 += side * -(o.x as f64) + DVec3::Y * o.y as f64 + model.1 * o.z as f64;
                moved += d(o).length();
                cam.translate(o);
                what = format!("step {step}, moved by {o:?}");
                cx.count("moves", 1);
            } else {
                let o = r.vec3(-0.4, 0.4);
                let to = model.1 - d(cam.right) * o.x as f64 - d(cam.up) * o.y as f64;
                if to.length() < 0.1 || to.normalize().y.abs() > 0.97 {
                    continue; // straight up and down there is no sideways
                }
                model.1 = to.normalize();
                cam.translate_target(o);
                what = format!("step {step}, turned by {o:?}");
                cx.count("turns", 1);
            }
            let tol = 1e-5 * (step + 2) as f64 * (1.0 + reach + moved);
            if !((d(cam.pos) - model.0).length() <= tol && (d(cam.direction) - model.1).length() <= 2e-5 * (step + 2) as f64) {
                cx.fail("camera:move", format!("{what}: {cam:?} should be at {:?}, looking along {:?}", model.0, model.1));
                return;
            }
            model = (d(cam.pos), d(cam.direction));
            if !check_screen(cx, &what, &cam, reach + moved) {
                return;
            }
        }
        for _ in 0..8 {
            let x = [0; 4].map(|_: i32| r.below(w as usize + 1) as u32);
            let y = [0; 4].map(|_: i32| r.below(h as usize + 1) as u32);
            if !check_rays(cx, &cam, x, y) {
                return;
            }
        }
        // ---- the picture, by every route
        let kind = r.pick(&KINDS);
        let leaf = pick_leaf(&mut r);
        let boxes: Option<Vec<Aabb>> = r.chance(0.5).then(|| prims.iter().map(|p| Primitive::aabb(p)).collect());
        let b = match build(kind, &prims, boxes.as_deref(), leaf) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build", format!("{kind:?} {name} leaf={leaf:?}: {e}"));
                return;
            }
        };
        let m = Mbvh::from(b.clone());
        let world = World { prims: &prims, b: &b, m: &m };
        let (mut shown, mut parts) = (0u64, std::collections::HashSet::new());
        let desc = format!("{kind:?} {name} leaf={leaf:?} {w}x{h}");
        let rows = if use_pot || tris.len() > 1000 { 6.min(h) } else { h };
        let first = r.below((h - rows + 1) as usize) as u32;
        for y in first..first + rows {
            for x in (0..w).step_by(4) {
                let xs = [x, x + 1, x + 2, x + 3];
                let p4 = cam.generate_ray4(xs, [y; 4]);
                let rays = xs.map(|x| cam.generate_ray(x, y));
                let mut brute4p = p4;
                for t in &prims {
                    t.intersect4(&mut brute4p, Vec4::splat(1e-4));
                }
                for k in 0..4 {
                    let mut br = rays[k];
                    for t in &prims {
                        t.intersect(&mut br);
                    }
                    for way in 0..4 {
                        let (id, t) = world.pixel(way, rays[k]);
                        judge(cx, &mut r, &world, tris, &desc, way, &rays[k], id, t, br.t, scale);
                        if let (0, Some(i)) = (way, id) {
                            shown += 1;
                            parts.insert(i);
                        }
                    }
                }
                for way in 4..6 {
                    let (ids, ts) = world.pixels(way, p4);
                    for k in 0..4 {
                        let lane = Ray::new(
                            Vec3::new(p4.origin_x[k], p4.origin_y[k], p4.origin_z[k]),
                            Vec3::new(p4.direction_x[k], p4.direction_y[k], p4.direction_z[k]),
                        );
                        judge(cx, &mut r, &world, tris, &desc, way, &lane, ids[k], ts[k], brute4p.t[k], scale);
                    }
                }
                if !cx.violations.is_empty() {
                    return;
                }
            }
        }
        cx.count("pixels", (w * rows) as u64);
        cx.count("pixels_with_something", shown);
        cx.max("triangles_in_a_picture", parts.len() as u64);
        cx.eval(hash_of(&desc, cx.idx), shown > 0);
        cx.sample(|| format!("{desc}: camera moved {steps} times, {shown} pixels show {} triangles", parts.len()));
    });
}

fn hash_of(s: &str, i: u64) -> u64 {
    s.bytes().fold(i.wrapping_mul(0x9e3779b97f4a7c15), |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

#[allow(clippy::too_many_arguments)]
fn judge(cx: &mut Ctx, r: &mut Rng, w: &World, tris: &[Tri], desc: &str, way: usize, ray: &Ray, id: Option<usize>, got: f32, want: f32, scale: f32) {
    let name = WAYS[way];
    // what is shown must be at the distance that was found
    let own = id.map(|i| {
        if way < 4 {
            let mut q = *ray;
            w.prims[i].intersect(&mut q);
            q.t
        } else {
            let s = spec_of(ray);
            let mut p = packet_of(&[s, s, s, s]);
            w.prims[i].intersect4(&mut p, Vec4::splat(1e-4));
            p.t[0]
        }
    });
    let s = spec_of(ray);
    match own {
        Some(t) if (t - got).abs() > 1e-5 * got.abs() => {
            cx.fail(format!("{name}:other"), format!("{desc}: {s:?} shows triangle {id:?} at {t}, but found {got}"));
            return;
        }
        None if got != ray.t => {
            cx.fail(format!("{name}:nothing"), format!("{desc}: {s:?} shows nothing, but found {got}"));
            return;
        }
        _ => {}
    }
    cx.count("routes_judged", 1);
    if got == want {
        return;
    }
    if got < want {
        cx.fail(format!("{name}:too-close"), format!("{desc}: {s:?} finds {got}, all triangles give {want}"));
        return;
    }
    let quad = |s: &RaySpec| packet_of(&[*s, *s, *s, *s]);
    let past = |p: &RaySpec| {
        if way < 4 {
            went_past(w.pixel(way, p.ray()).1, p, tris)
        } else {
            went_past4(w.pixels(way, quad(p)).1[0], p, Vec4::splat(1e-4), tris)
        }
    };
    let now = if way < 4 { went_past(got, &s, tris) } else { went_past4(got, &s, Vec4::splat(1e-4), tris) };
    if now == Some(true) && confirmed(|_| past(&perturbed(r, &s, scale))) {
        cx.fail(format!("{name}:missed"), format!("{desc}: {s:?} finds {got}, all triangles give {want}"));
        return;
    }
    cx.count("edge_misses", 1);
}
