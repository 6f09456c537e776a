//! C33: structures of structures find what flat ones find.
use glam::{EulerRot, Mat4, Quat, Vec3, Vec4};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*};

struct Mesh {
    tris: Vec<Tri>,
    b: Bvh,
    m: Mbvh,
    bounds: Aabb,
}

#[derive(Debug)]
struct Instance {
    mesh: usize,
    to: Mat4,
    from: Mat4,
    bb: Aabb,
}
impl Primitive for Instance {
    fn center(&self) -> Vec3 {
        self.to.transform_point3(Vec3::ZERO)
    }
    fn aabb(&self) -> Aabb {
        self.bb
    }
}

fn transform(r: &mut Rng) -> Mat4 {
    let q = Quat::from_euler(EulerRot::XYZ, r.uni(-3.0, 3.0), r.uni(-3.0, 3.0), r.uni(-3.0, 3.0));
    let t = r.vec3(-40.0, 40.0);
    let s = match r.below(5) {
        0 => Vec3::ONE,
        1 => Vec3::splat(r.uni(0.3, 3.0)),
        2 => r.vec3(0.3, 3.0),
        3 => r.vec3(0.3, 3.0) * Vec3::new(-1.0, 1.0, r.pick(&[-1.0, 1.0])),
        _ => return Mat4::from_translation(t),
    };
    Mat4::from_scale_rotation_translation(s, q, t)
}

fn place(mesh: usize, to: Mat4, meshes: &[Mesh], roots: bool) -> Instance {
    let m = &meshes[mesh];
    let bb = if roots { m.b.nodes()[0].bounds } else { m.bounds };
    // node bounds hold links in their extra fields
    Instance { mesh, to, from: to.inverse(), bb: mk_aabb(bb.min, bb.max).transformed(to) }
}

fn local(s: &Ray, i: &Instance) -> Ray {
    let mut l = Ray::new(i.from.transform_point3(s.origin), i.from.transform_vector3(s.direction));
    l.t_min = s.t_min;
    l.t = s.t;
    l
}

struct World<'a> {
    meshes: &'a [Mesh],
    inst: &'a [Instance],
    top: Bvh,
    topq: Mbvh,
    /// top level quads, bottom level quads
    ways: [bool; 2],
}

impl World<'_> {
    fn inner(&self, i: &Instance, ray: &mut Ray) -> Option<usize> {
        let m = &self.meshes[i.mesh];
        let mut best = None;
        let at = |t: &Tri| (t as *const Tri as usize - m.tris.as_ptr() as usize) / std::mem::size_of::<Tri>();
        if self.ways[1] {
            for (t, r) in m.m.traverse_iter(ray, &m.tris) {
                if t.intersect(r) {
                    best = Some(at(t));
                }
            }
        } else {
            for (t, r) in m.b.traverse_iter(ray, &m.tris) {
                if t.intersect(r) {
                    best = Some(at(t));
                }
            }
        }
        best
    }
    fn search(&self, s: &RaySpec) -> (f32, Option<(usize, usize)>, u64) {
        let mut ray = s.ray();
        let mut best = None;
        let mut visited = 0;
        let mut visit = |k: usize, r: &mut Ray| {
            let i = &self.inst[k];
            let mut l = local(r, i);
            visited += 1;
            if let Some(t) = self.inner(i, &mut l) {
                r.t = l.t;
                best = Some((k, t));
            }
        };
        if self.ways[0] {
            for (k, r) in self.topq.traverse_iter_indices(&mut ray) {
                visit(k as usize, r);
            }
        } else {
            for (k, r) in self.top.traverse_iter_indices(&mut ray) {
                visit(k as usize, r);
            }
        }
        (ray.t, best, visited)
    }
    fn search4(&self, s: &[RaySpec; 4]) -> (Vec4, u64) {
        let mut pk = packet_of(s);
        let tmin = Vec4::splat(1e-4);
        let mut visited = 0;
        let mut visit = |k: usize, r: &mut RayPacket4| {
            let i = &self.inst[k];
            let m = &self.meshes[i.mesh];
            visited += 1;
            let l = [0, 1, 2, 3].map(|k| local(&r.ray(k), i));
            let mut p = RayPacket4::new(l.map(|l| l.origin.extend(0.0)), l.map(|l| l.direction.extend(0.0)));
            p.t = r.t;
            if self.ways[1] {
                for (t, p) in m.m.traverse_iter_packet(&mut p, &m.tris) {
                    t.intersect4(p, tmin);
                }
            } else {
                for (t, p) in m.b.traverse_iter_packet(&mut p, &m.tris) {
                    t.intersect4(p, tmin);
                }
            }
            r.t = p.t;
        };
        if self.ways[0] {
            for (k, r) in self.topq.traverse_iter_indices_packet(&mut pk) {
                visit(k as usize, r);
            }
        } else {
            for (i, r) in self.top.traverse_iter_packet(&mut pk, self.inst) {
                visit((i as *const Instance as usize - self.inst.as_ptr() as usize) / std::mem::size_of::<Instance>(), r);
            }
        }
        (pk.t, visited)
    }
    fn triangle(&self, k: usize, t: usize) -> Tri {
        let i = &self.inst[k];
        let mut t = self.meshes[i.mesh].tris[t];
        for v in t.v.iter_mut() {
            *v = i.to.transform_point3(*v);
        }
        t
    }
    /// Clear hits, nearest first, that the triangle test itself reports.
    fn wanted(&self, s: &RaySpec) -> Option<(f64, f64, usize, usize)> {
        let mut best: Option<(f64, f64, usize, usize)> = None;
        let ray = s.ray();
        for (k, i) in self.inst.iter().enumerate() {
            let m = &self.meshes[i.mesh];
            for t in 0..m.tris.len() {
                if let Some((x, tol)) = clear_hit(&self.triangle(k, t), s) {
                    if best.map_or(true, |b| x < b.0) {
                        let mut l = local(&ray, i);
                        let mut p = RayPacket4::new([l.origin.extend(0.0); 4], [l.direction.extend(0.0); 4]);
                        p.t = Vec4::splat(l.t);
                        if m.tris[t].intersect(&mut l) && m.tris[t].intersect4(&mut p, Vec4::splat(1e-4)).map_or(false, |h| h[0]) {
                            best = Some((x, tol, k, t));
                        }
                    }
                }
            }
        }
        best
    }
}

fn main() {
    run("C33", 100, 1000, |cx| {
        let mut r = cx.rng();
        let tiny = cx.stage == "miri";
        let mut meshes = vec![];
        for _ in 0..r.range(1, 4) {
            let sk = r.below(3);
            let n = if tiny { r.range(1, 6) } else { r.pick(&[1usize, 2, 12, 40, 120]) };
            let mut tris = tri_scene(&mut r, sk, n).tris;
            let far = tris.iter().flat_map(|t| t.v).fold(1e-3f32, |m, v| m.max(v.abs().max_element()));
            for t in tris.iter_mut() {
                for v in t.v.iter_mut() {
                    *v *= 5.0 / far;
                }
            }
            let kind = r.pick(&KINDS);
            let leaf = pick_leaf(&mut r);
            let b = match build_tri(kind, &tris, None, leaf) {
                Ok(b) => b,
                Err(e) => {
                    cx.fail("build", format!("{kind:?}: {e}"));
                    return;
                }
            };
            let m = Mbvh::construct(&b);
            let mut bounds = Aabb::empty();
            for t in &tris {
                bounds.grow_bb(&t.exact_aabb());
            }
            meshes.push(Mesh { tris, b, m, bounds });
        }
        let m = if tiny { r.range(1, 4) } else { r.pick(&[1usize, 2, 5, 16, 60]) };
        let roots = r.chance(0.5);
        let mut inst: Vec<Instance> = (0..m).map(|_| { let k = r.below(meshes.len()); let t = transform(&mut r); place(k, t, &meshes, roots) }).collect();
        let kind = r.pick(&[Kind::Binned, Kind::Locb]);
        let leaf = pick_leaf(&mut r);
        let plain = r.chance(0.5);
        let boxes = |v: &[Instance]| v.iter().map(|i| i.bb).collect::<Vec<Aabb>>();
        let desc = format!("{m} instances of {} meshes, top level {kind:?} (leaf {leaf:?}) over {}", meshes.len(), if plain { "boxes" } else { "instances" });
        let bbs = boxes(&inst);
        let lf = leaf.and_then(std::num::NonZeroUsize::new);
        let top = if plain {
            let b = Builder { aabbs: r.chance(0.5).then_some(&bbs[..]), primitives: &bbs[..], primitives_per_leaf: lf };
            if kind == Kind::Locb { b.construct_locally_ordered_clustered() } else { b.construct_binned_sah() }
        } else {
            let b = Builder { aabbs: r.chance(0.5).then_some(&bbs[..]), primitives: &inst[..], primitives_per_leaf: lf };
            if kind == Kind::Locb { b.construct_locally_ordered_clustered() } else { b.construct_binned_sah() }
        };
        let mut top = match top {
            Ok(t) => t,
            Err(e) => {
                cx.fail("build", format!("{desc}: {e}"));
                return;
            }
        };
        let frames = if tiny { 1 } else { 3 };
        let mut clear_all = 0;
        for frame in 0..frames {
            if frame > 0 {
                for i in inst.iter_mut() {
                    if r.chance(0.7) {
                        *i = place(i.mesh, transform(&mut r), &meshes, roots);
                    }
                }
                top.refit(&boxes(&inst));
                cx.count("refits", 1);
            }
            let topq = Mbvh::construct(&top);
            let mut w = World { meshes: &meshes, inst: &inst, top: top.clone(), topq, ways: [false; 2] };
            let scale = 60.0f32;
            let a_ray = |r: &mut Rng, w: &World| {
                let k = r.below(m);
                let t = r.below(meshes[inst[k].mesh].tris.len());
                let p = inner_point(r, &w.triangle(k, t));
                let mut s = gen_ray(r, p - Vec3::splat(20.0), p + Vec3::splat(20.0), Some(p));
                s.t = 1e34;
                s.tmin = 1e-4;
                s
            };
            for _ in 0..if tiny { 2 } else { 12 } {
                let s = a_ray(&mut r, &w);
                let want = w.wanted(&s);
                clear_all += want.is_some() as u64;
                for way in 0..4 {
                    w.ways = [way & 1 > 0, way & 2 > 0];
                    let (got, who, visited) = w.search(&s);
                    cx.count("searches", 1);
                    cx.count("instances_visited", visited);
                    if let Some((x, tol, k, t)) = want {
                        if got as f64 > x + 8.0 * tol
                            && confirmed(|_| {
                                let mut p = s;
                                (p.o, p.d) = perturb(&mut r, s.o, s.d, scale);
                                let (x, tol, _, _) = w.wanted(&p)?;
                                Some(w.search(&p).0 as f64 > x + 8.0 * tol)
                            })
                        {
                            cx.fail("missed", format!("{desc}: frame {frame}, way {way}: {s:?} finds {got} {who:?}, past triangle {t} of instance {k} at {x}"));
                            return;
                        }
                    }
                    if let Some((k, t)) = who {
                        let tri = w.triangle(k, t);
                        if let Some((x, tol)) = clear_hit(&tri, &s) {
                            cx.count("distances_judged", 1);
                            if (got as f64 - x).abs() > 30.0 * tol {
                                cx.fail("distance", format!("{desc}: frame {frame}, way {way}: {s:?} finds triangle {t} of instance {k} at {got} instead of {x} (tolerance {tol})"));
                                return;
                            }
                        }
                    }
                }
            }
            for _ in 0..if tiny { 1 } else { 6 } {
                let s = [a_ray(&mut r, &w), a_ray(&mut r, &w), a_ray(&mut r, &w), a_ray(&mut r, &w)];
                let want = s.map(|s| w.wanted(&s));
                for way in 0..4 {
                    w.ways = [way & 1 > 0, way & 2 > 0];
                    let (got, visited) = w.search4(&s);
                    cx.count("packet_searches", 1);
                    cx.count("instances_visited", visited);
                    for l in 0..4 {
                        let Some((x, tol, k, t)) = want[l] else { continue };
                        clear_all += 1;
                        if got[l] as f64 > x + 8.0 * tol
                            && confirmed(|_| {
                                let mut p = s;
                                for x in p.iter_mut() {
                                    (x.o, x.d) = perturb(&mut r, x.o, x.d, scale);
                                }
                                let (x, tol, _, _) = w.wanted(&p[l])?;
                                Some(w.search4(&p).0[l] as f64 > x + 8.0 * tol)
                            })
                        {
                            cx.fail("packet-missed", format!("{desc}: frame {frame}, way {way}: lane {l} of {s:?} finds {}, past triangle {t} of instance {k} at {x}", got[l]));
                            return;
                        }
                    }
                }
            }
        }
        cx.count("clear_hits", clear_all);
        cx.eval(mix(hash_str(&desc) ^ cx.idx), clear_all > 0 && m > 1);
        cx.sample(|| desc.clone());
    });
}
