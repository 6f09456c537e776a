//! C36: the scale and the place of the scene, and the length of directions, do not matter.
//! Axes are scaled by powers of two, so that the case is the unscaled one bit by bit.
use glam::{DVec3, Vec3};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

fn pow(k: i32) -> f32 {
    2f32.powi(k)
}

/// How the unscaled case becomes the tested one.
#[derive(Clone, Copy, Debug)]
struct Map {
    s: [i32; 3],
    /// exponent of the length of directions
    j: i32,
}
impl Map {
    fn v(&self, v: Vec3) -> Vec3 {
        Vec3::new(v.x * pow(self.s[0]), v.y * pow(self.s[1]), v.z * pow(self.s[2]))
    }
    fn tri(&self, t: &Tri) -> Tri {
        Tri::new(self.v(t.v[0]), self.v(t.v[1]), self.v(t.v[2]))
    }
    fn t(&self, t: f32) -> f32 {
        if t >= 1e33 {
            t
        } else {
            t * pow(-self.j)
        }
    }
    fn ray(&self, s: &RaySpec) -> RaySpec {
        RaySpec { o: self.v(s.o), d: self.v(s.d) * pow(self.j), t: self.t(s.t), tmin: self.t(s.tmin) }
    }
}

/// The clear hit of the unscaled case that no rounding of coordinates can talk away.
fn sure_hit(t: &Tri, s: &RaySpec) -> Option<(f64, f64)> {
    let (a, b, c) = (d(t.v[0]), d(t.v[1]), d(t.v[2]));
    let n = (b - a).cross(c - a);
    let me = (b - a).length().max((c - a).length()).max((c - b).length());
    let alt = n.length() / me;
    let mag = [a, b, c, d(s.o)].iter().fold(0f64, |m, x| m.max(x.abs().max_element()));
    if alt < 1e-4 * mag {
        return None;
    }
    clear_hit(t, s)
}

fn near(r: &mut Rng, t: &Tri, s: &RaySpec) -> RaySpec {
    let mag = t.v.iter().fold(s.o.abs().max_element(), |m, x| m.max(x.abs().max_element()));
    let e = 5e-7 * mag + 1e-5 * (t.v[1] - t.v[0]).length().min((t.v[2] - t.v[0]).length());
    let mut dir = s.d;
    for k in 0..3 {
        if dir[k] != 0.0 {
            dir[k] *= 1.0 + r.uni(-4e-6, 4e-6);
        }
    }
    RaySpec { o: s.o + r.vec3(-e, e), d: dir, ..*s }
}

/// Plain test in double precision, without thresholds.
fn test64(t: &Tri, o: Vec3, dir: Vec3) -> Option<f64> {
    let (a, b, c, o, dir) = (d(t.v[0]), d(t.v[1]), d(t.v[2]), d(o), d(dir));
    let (e1, e2) = (b - a, c - a);
    let h: DVec3 = dir.cross(e2);
    let det = e1.dot(h);
    let s = o - a;
    let q = s.cross(e1);
    let (u, v, x) = (s.dot(h) / det, dir.dot(q) / det, e2.dot(q) / det);
    (u >= 0.0 && v >= 0.0 && u + v <= 1.0 && x.is_finite()).then_some(x)
}

struct Both {
    bvh: Bvh,
    quad: Mbvh,
}

const WAYS8: [&str; 8] =
    ["bvh-ray", "quad-ray", "bvh-packet", "quad-packet", "bvh-ray-closest", "quad-ray-closest", "bvh-packet-closest", "quad-packet-closest"];

fn closest(b: &Both, way: usize, s: &[RaySpec; 4], tris: &[Tri]) -> Result<[f32; 4], String> {
    let lim = cap(b.bvh.indices().len().max(b.quad.indices().len()));
    let mut n = 0;
    macro_rules! ray {
        ($b:expr) => {{
            let mut ray = s[0].ray();
            for (i, r) in $b.traverse_iter_indices(&mut ray) {
                if let Some(x) = test64(&tris[i as usize], s[0].o, s[0].d) {
                    if x > s[0].tmin as f64 && x < r.t as f64 {
                        r.t = x as f32;
                    }
                }
                n += 1;
                if n > lim {
                    return Err(ENDLESS.into());
                }
            }
            Ok([ray.t; 4])
        }};
    }
    macro_rules! packet {
        ($b:expr) => {{
            let mut p = packet_of(s);
            for (i, r) in $b.traverse_iter_indices_packet(&mut p) {
                for l in 0..4 {
                    if let Some(x) = test64(&tris[i as usize], s[l].o, s[l].d) {
                        if x > s[l].tmin as f64 && x < r.t[l] as f64 {
                            r.t[l] = x as f32;
                        }
                    }
                }
                n += 1;
                if n > lim {
                    return Err(ENDLESS.into());
                }
            }
            Ok(p.t.into())
        }};
    }
    match way {
        4 => ray!(b.bvh),
        5 => ray!(b.quad),
        6 => packet!(b.bvh),
        _ => packet!(b.quad),
    }
}

fn yields(b: &Both, way: usize, s: &[RaySpec; 4]) -> Result<Vec<u32>, String> {
    match way {
        0 => bvh_static(&b.bvh, &s[0]),
        1 => quad_static(&b.quad, &s[0]),
        2 => bvh_static4(&b.bvh, s),
        _ => quad_static4(&b.quad, s),
    }
}

/// Boxes the lines pass and primitives in the leaves among them, as the work of a search.
fn work(nodes: &[BvhNode], t: &Tree, m: &Map, rays: &[RaySpec]) -> u64 {
    let mut n = 0;
    for s in rays {
        let r = m.ray(s).r64();
        for &i in &t.order {
            if slab(d(Vec3::from(nodes[i].bounds.min)), d(Vec3::from(nodes[i].bounds.max)), &r).is_some() {
                n += 1 + if is_leaf(&nodes[i]) { nodes[i].get_count_unchecked() as u64 } else { 0 };
            }
        }
    }
    n
}

fn main() {
    run("C36", 60, 600, |cx| {
        let mut r = cx.rng();
        let tiny = cx.stage == "miri";
        let n = if tiny { r.range(1, 10) } else { r.pick(&[1usize, 2, 5, 20, 60, 60, 200, 600]) };
        let kind = r.pick(&KINDS);
        let sk = r.below(N_KINDS);
        let sc = tri_scene(&mut r, sk, n.min(cap_for(kind, sk, n)));
        let mut base = sc.tris;
        // place
        let far = if r.chance(0.5) {
            let m = r.below(13) as i32;
            let at = Vec3::new(r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)) * pow(m) * 10.0;
            for t in base.iter_mut() {
                *t = Tri::new(t.v[0] + at, t.v[1] + at, t.v[2] + at);
            }
            m
        } else {
            -1
        };
        // scale and directions
        let k = match r.below(5) {
            0 => 0,
            1 => r.range(0, 17) as i32 - 20,
            2 => r.range(0, 100) as i32 - 50,
            3 => r.range(3, 50) as i32,
            _ => r.range(0, 22) as i32 - 7,
        };
        let uneven = r.chance(0.35);
        let j = r.range(0, 50) as i32 - 25;
        let mut m = Map { s: [k; 3], j: r.pick(&[0i32, -k, j]) };
        if uneven {
            for a in 0..3 {
                m.s[a] += r.range(0, 24) as i32 - 12;
            }
        }
        let tris: Vec<Tri> = base.iter().map(|t| m.tri(t)).collect();
        let boxes: Option<Vec<Aabb>> = r.chance(0.3).then(|| tris.iter().map(|t| t.exact_aabb()).collect());
        let leaf = pick_leaf(&mut r);
        // built there, or moved there by a refit
        let refit = r.chance(0.3);
        let name = format!("{kind:?} {} n={} far 2^{far} {m:?} refit {refit} boxes {} leaf {leaf:?}", sc.name, tris.len(), boxes.is_some());
        let made = if refit {
            let src = if r.chance(0.5) { &base } else { &tris };
            build_tri(kind, src, None, leaf).and_then(|b| {
                let mut b = b;
                match &boxes {
                    Some(x) => b.refit(x),
                    None => {
                        let x: Vec<Aabb> = tris.iter().map(|t| t.exact_aabb()).collect();
                        b.refit(&x)
                    }
                }
                Ok(b)
            })
        } else {
            build_tri(kind, &tris, boxes.as_deref(), leaf)
        };
        let bvh = match made {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build", format!("{name}: {e}"));
                return;
            }
        };
        let quad = Mbvh::from(bvh.clone());
        let b = Both { bvh, quad };
        let t = match walk(b.bvh.nodes(), b.bvh.indices()) {
            Ok(t) => t,
            Err(e) => {
                cx.fail("tree", format!("{name}: {e}"));
                return;
            }
        };
        let mut ref_of = vec![false; tris.len()];
        for &i in b.bvh.indices() {
            if let Some(x) = ref_of.get_mut(i as usize) {
                *x = true;
            }
        }
        if let Some(i) = ref_of.iter().position(|x| !x) {
            cx.fail("tree", format!("{name}: triangle {i} is in no leaf"));
            return;
        }
        // relative enclosure: a child inside its parent up to the rounding of the coordinates
        for &i in &t.order {
            if t.parent[i] >= 0 {
                let (c, p) = (&b.bvh.nodes()[i].bounds, &b.bvh.nodes()[t.parent[i] as usize].bounds);
                for a in 0..3 {
                    let e = 4e-6 * c.min[a].abs().max(c.max[a].abs()).max(p.min[a].abs()).max(p.max[a].abs()) + 2e-4;
                    if c.min[a] < p.min[a] - e || c.max[a] > p.max[a] + e || !(c.min[a].is_finite() && c.max[a].is_finite()) {
                        cx.fail("enclosed", format!("{name}: node {i} {c:?} outside its parent {p:?}"));
                        return;
                    }
                }
                cx.count("enclosures", 1);
            }
        }
        let (lo, hi) = Scene { name: String::new(), tris: base.clone() }.bounds();
        let rays = if tiny { 2 } else { 12 };
        let mut specs: Vec<RaySpec> = vec![];
        for _ in 0..rays {
            let g: Vec<RaySpec> = (0..4)
                .map(|_| {
                    let to = r.pick(&base);
                    let target = r.chance(0.85).then(|| inner_point(&mut r, &to));
                    let mut s = gen_ray(&mut r, lo, hi, target);
                    s.tmin = r.pick(&[0.0, 0.0, 1e-4]);
                    if r.chance(0.3) {
                        s.t = (s.o - target.unwrap_or(lo)).length() / s.d.length() * r.uni(0.5, 3.0);
                    }
                    s
                })
                .collect();
            let g: [RaySpec; 4] = [g[0], g[1], g[2], g[3]];
            specs.extend(g);
            let mapped = |g: &[RaySpec; 4]| [m.ray(&g[0]), m.ray(&g[1]), m.ray(&g[2]), m.ray(&g[3])];
            let q = mapped(&g);
            let sure: Vec<Vec<(usize, f64, f64)>> = g
                .iter()
                .map(|s| base.iter().enumerate().filter_map(|(i, t)| sure_hit(t, s).map(|(x, e)| (i, x, e))).collect())
                .collect();
            for way in 0..8 {
                let lanes = if way % 4 < 2 { 1 } else { 4 };
                let (mut got, mut end) = (vec![], [0f32; 4]);
                let ok = if way < 4 { yields(&b, way, &q).map(|v| got = marks(&v, tris.len())) } else { closest(&b, way, &q, &tris).map(|v| end = v) };
                if let Err(e) = ok {
                    cx.fail(WAYS8[way], format!("{name}: {e} {:?}", q));
                    return;
                }
                for l in 0..lanes {
                    for &(i, x, e) in &sure[l] {
                        cx.count(if way < 4 { "sure hits" } else { "sure limits" }, 1);
                        if far >= 8 {
                            cx.count("far", 1);
                        }
                        if uneven {
                            cx.count("uneven", 1);
                        }
                        if k < -8 {
                            cx.count("small", 1);
                        }
                        if k > 8 {
                            cx.count("large", 1);
                        }
                        let scale = pow(-m.j) as f64;
                        let bad = if way < 4 { !got[i] } else { end[l] as f64 > (x + 2.0 * e) * scale };
                        if !bad {
                            continue;
                        }
                        cx.count("single misses", 1);
                        let sure_it = confirmed(|_| {
                            let mut g2 = g;
                            g2[l] = near(&mut r, &base[i], &g[l]);
                            let (x, e) = sure_hit(&base[i], &g2[l])?;
                            let q2 = mapped(&g2);
                            Some(if way < 4 {
                                !marks(&yields(&b, way, &q2).ok()?, tris.len())[i]
                            } else {
                                closest(&b, way, &q2, &tris).ok()?[l] as f64 > (x + 2.0 * e) * scale
                            })
                        });
                        if sure_it {
                            cx.fail(
                                WAYS8[way],
                                format!("{name}: lane {l} of {q:?} hits triangle {i} {:?} at {}, {}", tris[i], x * scale, if way < 4 { "not yielded".to_string() } else { format!("ended at {}", end[l]) }),
                            );
                            return;
                        }
                    }
                }
            }
        }
        // the work of a search, compared with the same scene at its own scale
        // (areas times counts have to be numbers)
        let fits = lo.abs().max(hi.abs()).max_element() * pow(k) < 1e17;
        // (and boxes large compared with the padding of 1e-4)
        let mut sizes: Vec<f32> = base.iter().map(|t| (t.v[0].max(t.v[1]).max(t.v[2]) - t.v[0].min(t.v[1]).min(t.v[2])).max_element()).collect();
        sizes.sort_by(f32::total_cmp);
        let size = sizes[sizes.len() / 10];
        let coarse = k < 0 && size * pow(k) > 0.05;
        if !uneven && (k > 0 && size > 0.01 || coarse) && fits && !refit && tris.len() >= 60 && boxes.is_none() {
            if let Ok(b0) = build_tri(kind, &base, None, leaf) {
                if let Ok(t0) = walk(b0.nodes(), b0.indices()) {
                    let id = Map { s: [0; 3], j: 0 };
                    let mut many = specs.clone();
                    for _ in 0..100 {
                        let to = r.pick(&base);
                        let p = inner_point(&mut r, &to);
                        many.push(gen_ray(&mut r, lo, hi, Some(p)));
                    }
                    let (w0, w1) = (work(b0.nodes(), &t0, &id, &many), work(b.bvh.nodes(), &t, &m, &many));
                    let pc = w1 * 100 / (w0 + 2 * many.len() as u64);
                    cx.count("work compared", 1);
                    cx.max(&format!("work percent {kind:?}{}", if coarse { " smaller" } else { "" }), pc);
                    cx.count("work compared smaller", coarse as u64);
                    if pc > if coarse { 150 } else { 125 } {
                        cx.fail("work", format!("{name}: {w1} boxes and primitives met by {} rays, {w0} at the scene's own scale", many.len()));
                        return;
                    }
                }
            }
        }
        let mut h = mix(k as u64);
        h = mix(h ^ tris.len() as u64);
        h = mix(h ^ far as u64);
        cx.eval(h, tris.len() > 4);
        cx.count(if far >= 0 { "moved" } else { "at home" }, 1);
        cx.count(if refit { "refits" } else { "builds" }, 1);
    });
}
