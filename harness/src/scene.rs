//! Scene generators: triangle sets and box sets, benign to adversarial.
use crate::rng::*;
use glam::Vec3;
use rtbvh::*;
use std::num::NonZeroUsize;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tri {
    pub v: [Vec3; 3],
}

impl Tri {
    pub fn new(a: Vec3, b: Vec3, c: Vec3) -> Self {
        Tri { v: [a, b, c] }
    }
    pub fn exact_aabb(&self) -> Aabb {
        let mut bb = Aabb::empty();
        bb.min = self.v[0].min(self.v[1]).min(self.v[2]);
        bb.max = self.v[0].max(self.v[1]).max(self.v[2]);
        bb
    }
}

impl Primitive for Tri {
    fn center(&self) -> Vec3 {
        (self.v[0] + self.v[1] + self.v[2]) * (1.0 / 3.0)
    }
    fn aabb(&self) -> Aabb {
        self.exact_aabb()
    }
}

impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 {
        self.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.v[2]
    }
}

/// A primitive that is only a box, with a freely chosen centre.
#[derive(Clone, Copy, Debug)]
pub struct BoxP {
    pub bb: Aabb,
    pub c: Vec3,
}

impl Primitive for BoxP {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        self.bb
    }
}

pub fn mk_aabb(min: Vec3, max: Vec3) -> Aabb {
    let mut b = Aabb::new();
    b.min = min;
    b.max = max;
    b
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Locb,
    Binned,
    Spatial,
}
pub const KINDS: [Kind; 3] = [Kind::Locb, Kind::Binned, Kind::Spatial];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BoxSrc {
    None,
    Exact,
    Padded,
    Inflated,
}

pub fn build<T: Primitive + SpatialTriangle>(
    kind: Kind,
    prims: &[T],
    aabbs: Option<&[Aabb]>,
    leaf: Option<usize>,
) -> Result<Bvh, BuildError> {
    let b = Builder { aabbs, primitives: prims, primitives_per_leaf: leaf.and_then(NonZeroUsize::new) };
    match kind {
        Kind::Locb => b.construct_locally_ordered_clustered(),
        Kind::Binned => b.construct_binned_sah(),
        Kind::Spatial => b.construct_spatial_sah(),
    }
}

pub fn build_tri(kind: Kind, prims: &[Tri], aabbs: Option<&[Aabb]>, leaf: Option<usize>) -> Result<Bvh, BuildError> {
    build(kind, prims, aabbs, leaf)
}

pub fn build_box(kind: Kind, prims: &[BoxP], aabbs: Option<&[Aabb]>, leaf: Option<usize>) -> Result<Bvh, BuildError> {
    let b = Builder { aabbs, primitives: prims, primitives_per_leaf: leaf.and_then(NonZeroUsize::new) };
    match kind {
        Kind::Locb => b.construct_locally_ordered_clustered(),
        _ => b.construct_binned_sah(),
    }
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub name: String,
    pub tris: Vec<Tri>,
}

impl Scene {
    pub fn scale(&self) -> f32 {
        let mut m = 1e-3f32;
        for t in &self.tris {
            for v in &t.v {
                m = m.max(v.abs().max_element());
            }
        }
        m
    }
    pub fn bounds(&self) -> (Vec3, Vec3) {
        let mut lo = Vec3::splat(f32::MAX);
        let mut hi = Vec3::splat(f32::MIN);
        for t in &self.tris {
            for v in &t.v {
                lo = lo.min(*v);
                hi = hi.max(*v);
            }
        }
        (lo, hi)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7u64;
        for t in &self.tris {
            for v in &t.v {
                h = mix(h ^ ((v.x.to_bits() as u64) << 32 | v.y.to_bits() as u64)) ^ v.z.to_bits() as u64;
            }
        }
        mix(h)
    }
}

pub fn aabbs_for(src: BoxSrc, tris: &[Tri], r: &mut Rng) -> Option<Vec<Aabb>> {
    match src {
        BoxSrc::None => None,
        BoxSrc::Exact => Some(tris.iter().map(|t| t.exact_aabb()).collect()),
        BoxSrc::Padded => Some(tris.iter().map(|t| t.exact_aabb().with_offset(1e-4)).collect()),
        BoxSrc::Inflated => Some(
            tris.iter()
                .map(|t| {
                    let b = t.exact_aabb();
                    let d = (b.max - b.min) * 0.2 + Vec3::splat(1e-3);
                    mk_aabb(b.min - d * r.uni(0.0, 1.0), b.max + d * r.uni(0.0, 1.0))
                })
                .collect(),
        ),
    }
}

/// The AABBs a builder effectively works with.
pub fn effective(src: &Option<Vec<Aabb>>, tris: &[Tri]) -> Vec<Aabb> {
    match src {
        Some(v) => v.clone(),
        None => tris.iter().map(|t| t.exact_aabb()).collect(),
    }
}

fn small_tri(r: &mut Rng, c: Vec3, s: f32) -> Tri {
    Tri::new(c + r.vec3(-s, s), c + r.vec3(-s, s), c + r.vec3(-s, s))
}

/// Well-shaped triangle of size ~s around c.
fn nice_tri(r: &mut Rng, c: Vec3, s: f32) -> Tri {
    let u = r.unit();
    let mut w = u.cross(r.unit());
    while w.length() < 0.2 {
        w = u.cross(r.unit());
    }
    let w = w.normalize();
    Tri::new(c + u * s, c - u * (s * 0.5) + w * s, c - u * (s * 0.5) - w * s)
}

fn push_quad(out: &mut Vec<Tri>, a: Vec3, b: Vec3, c: Vec3, d: Vec3) {
    out.push(Tri::new(a, b, c));
    out.push(Tri::new(a, c, d));
}

pub const N_KINDS: usize = 27;

/// Scene kinds whose triangles are (mostly) non-degenerate: usable for hit oracles.
pub fn tri_scene(r: &mut Rng, kind: usize, n: usize) -> Scene {
    let n = n.max(1);
    let mut t: Vec<Tri> = Vec::with_capacity(n + 12);
    let name;
    match kind % N_KINDS {
        0 => {
            name = "uniform";
            for _ in 0..n {
                let c = r.vec3(-10.0, 10.0);
                t.push(nice_tri(r, c, 0.5));
            }
        }
        1 => {
            name = "uniform-large";
            for _ in 0..n {
                let c = r.vec3(-10.0, 10.0);
                let s = r.uni(0.2, 8.0);
                t.push(small_tri(r, c, s));
            }
        }
        2 => {
            name = "torus";
            let m = ((n as f32 / 2.0).sqrt().ceil() as usize).max(2);
            let p = |i: usize, j: usize| {
                let u = i as f32 / m as f32 * std::f32::consts::TAU;
                let v = j as f32 / m as f32 * std::f32::consts::TAU;
                Vec3::new((5.0 + 2.0 * v.cos()) * u.cos(), 2.0 * v.sin(), (5.0 + 2.0 * v.cos()) * u.sin())
            };
            'o: for i in 0..m {
                for j in 0..m {
                    push_quad(&mut t, p(i, j), p(i + 1, j), p(i + 1, j + 1), p(i, j + 1));
                    if t.len() >= n {
                        break 'o;
                    }
                }
            }
            t.truncate(n);
        }
        3 => {
            name = "flat-grid";
            // axis-aligned plane at an arbitrary coordinate
            let axis = r.below(3);
            let h = r.uni(-5.0, 5.0);
            let m = ((n as f32 / 2.0).sqrt().ceil() as usize).max(1);
            let p = |x: f32, y: f32| match axis {
                0 => Vec3::new(h, x, y),
                1 => Vec3::new(x, h, y),
                _ => Vec3::new(x, y, h),
            };
            'o2: for i in 0..m {
                for j in 0..m {
                    let (x, y) = (i as f32, j as f32);
                    push_quad(&mut t, p(x, y), p(x + 1.0, y), p(x + 1.0, y + 1.0), p(x, y + 1.0));
                    if t.len() >= n {
                        break 'o2;
                    }
                }
            }
            t.truncate(n);
        }
        4 => {
            name = "city";
            let off = if r.chance(0.5) { Vec3::ZERO } else { r.vec3(-20.0, 20.0) };
            while t.len() < n {
                let o = Vec3::new(r.range(0, 30) as f32, 0.0, r.range(0, 30) as f32) + off;
                let s = Vec3::new(r.range(1, 3) as f32, r.range(1, 9) as f32, r.range(1, 3) as f32);
                let c = |x: f32, y: f32, z: f32| o + Vec3::new(x, y, z) * s;
                push_quad(&mut t, c(0., 0., 0.), c(1., 0., 0.), c(1., 1., 0.), c(0., 1., 0.));
                push_quad(&mut t, c(0., 0., 1.), c(1., 0., 1.), c(1., 1., 1.), c(0., 1., 1.));
                push_quad(&mut t, c(0., 0., 0.), c(0., 0., 1.), c(0., 1., 1.), c(0., 1., 0.));
                push_quad(&mut t, c(1., 0., 0.), c(1., 0., 1.), c(1., 1., 1.), c(1., 1., 0.));
                push_quad(&mut t, c(0., 0., 0.), c(1., 0., 0.), c(1., 0., 1.), c(0., 0., 1.));
                push_quad(&mut t, c(0., 1., 0.), c(1., 1., 0.), c(1., 1., 1.), c(0., 1., 1.));
            }
            t.truncate(n);
        }
        5 => {
            name = "coincident";
            let c = r.vec3(-5.0, 5.0);
            let x = nice_tri(r, c, 1.0);
            for _ in 0..n {
                t.push(x);
            }
        }
        6 => {
            name = "duplicates";
            let k = r.range(1, 6);
            let base: Vec<Tri> = (0..k)
                .map(|_| {
                    let c = r.vec3(-5.0, 5.0);
                    nice_tri(r, c, 1.0)
                })
                .collect();
            for i in 0..n {
                t.push(base[i % k]);
            }
            r.shuffle(&mut t);
        }
        7 => {
            name = "line";
            let axis = r.below(3);
            let step = r.uni(0.05, 2.0);
            let mut d = Vec3::ZERO;
            d[axis] = step;
            let base = nice_tri(r, Vec3::ZERO, 0.4);
            for i in 0..n {
                let o = d * i as f32;
                t.push(Tri::new(base.v[0] + o, base.v[1] + o, base.v[2] + o));
            }
        }
        8 => {
            name = "geometric";
            let ratio = r.uni(1.15, 2.0);
            let mut x = 1e-3f32;
            let d = r.unit();
            for _ in 0..n {
                let c = d * x;
                t.push(nice_tri(r, c, (x * 0.3).max(1e-3)));
                x *= ratio;
                if x > 2000.0 {
                    x = 1e-3;
                }
            }
        }
        9 => {
            name = "needles";
            for _ in 0..n {
                let c = r.vec3(-5.0, 5.0);
                let d = r.unit() * r.uni(3.0, 12.0);
                let w = r.unit() * 0.15;
                t.push(Tri::new(c - d, c + d, c + w));
            }
        }
        10 => {
            name = "big-small";
            for i in 0..n {
                let c = r.vec3(-10.0, 10.0);
                let s = if i % 7 == 0 { 15.0 } else { 0.2 };
                t.push(nice_tri(r, c, s));
            }
        }
        11 => {
            name = "far-offset";
            let off = r.vec3(-3000.0, 3000.0);
            for _ in 0..n {
                let c = off + r.vec3(-10.0, 10.0);
                t.push(nice_tri(r, c, 1.0));
            }
        }
        12 => {
            name = "huge";
            for _ in 0..n {
                let c = r.vec3(-5000.0, 5000.0);
                t.push(nice_tri(r, c, 300.0));
            }
        }
        13 => {
            name = "small";
            for _ in 0..n {
                let c = r.vec3(-0.1, 0.1);
                t.push(nice_tri(r, c, 0.02));
            }
        }
        14 => {
            name = "nested";
            let c = r.vec3(-5.0, 5.0);
            let base = nice_tri(r, Vec3::ZERO, 1.0);
            for i in 0..n {
                let s = 0.05 + i as f32 * 0.02;
                t.push(Tri::new(c + base.v[0] * s, c + base.v[1] * s, c + base.v[2] * s));
            }
        }
        15 => {
            name = "lattice";
            let m = (n as f32).cbrt().ceil() as usize;
            let base = nice_tri(r, Vec3::ZERO, 0.3);
            'o3: for i in 0..m {
                for j in 0..m {
                    for k in 0..m {
                        let o = Vec3::new(i as f32, j as f32, k as f32);
                        t.push(Tri::new(base.v[0] + o, base.v[1] + o, base.v[2] + o));
                        if t.len() >= n {
                            break 'o3;
                        }
                    }
                }
            }
        }
        16 => {
            name = "cluster-outlier";
            let c0 = r.vec3(-1.0, 1.0);
            for i in 0..n {
                let c = if i + 2 >= n { r.vec3(400.0, 500.0) } else { c0 + r.vec3(-0.5, 0.5) };
                t.push(nice_tri(r, c, 0.3));
            }
        }
        17 => {
            name = "half-coincident";
            let x = nice_tri(r, Vec3::ONE, 1.0);
            for i in 0..n {
                if i % 2 == 0 {
                    t.push(x);
                } else {
                    let c = r.vec3(-10.0, 10.0);
                    t.push(nice_tri(r, c, 0.5));
                }
            }
        }
        18 => {
            name = "flat-layers";
            let axis = r.below(3);
            let m = r.range(2, 6);
            for i in 0..n {
                let h = (i % m) as f32 * 2.0;
                let mut tr = small_tri(r, Vec3::ZERO, 1.0);
                let o = r.vec3(-10.0, 10.0);
                for v in tr.v.iter_mut() {
                    *v += o;
                    v[axis] = h;
                }
                t.push(tr);
            }
        }
        19 => {
            name = "negative-octant";
            for _ in 0..n {
                let c = r.vec3(-60.0, -40.0);
                t.push(nice_tri(r, c, 1.0));
            }
        }
        20 => {
            name = "diagonal-slivers";
            for i in 0..n {
                let o = Vec3::splat(i as f32 * 0.1);
                let d = Vec3::new(4.0, 4.0, 4.0);
                t.push(Tri::new(o, o + d, o + Vec3::new(0.5, -0.5, 0.2)));
            }
        }
        21 => {
            name = "walls";
            for i in 0..n {
                let x = i as f32 * 0.5;
                if i % 2 == 0 {
                    t.push(Tri::new(Vec3::new(x, -10.0, -10.0), Vec3::new(x, 10.0, -10.0), Vec3::new(x, 0.0, 10.0)));
                } else {
                    t.push(Tri::new(Vec3::new(-1.0, x, -10.0), Vec3::new(8.0, x, -10.0), Vec3::new(2.0, x, 10.0)));
                }
            }
        }
        22 => {
            name = "same-centres";
            for _ in 0..n {
                let u = r.unit() * r.uni(0.5, 6.0);
                let w = r.unit() * r.uni(0.5, 6.0);
                t.push(Tri::new(u, w, -(u + w)));
            }
        }
        23 => {
            name = "clusters";
            let k = r.range(2, 8);
            let cs: Vec<Vec3> = (0..k).map(|_| r.vec3(-100.0, 100.0)).collect();
            for i in 0..n {
                let c = cs[i % k] + r.vec3(-0.5, 0.5);
                t.push(nice_tri(r, c, 0.1));
            }
        }
        24 => {
            name = "soup-fans";
            let mut c = r.vec3(-5.0, 5.0);
            for i in 0..n {
                if i % 32 == 0 {
                    c = r.vec3(-5.0, 5.0);
                }
                let a = (i % 32) as f32 / 32.0 * std::f32::consts::TAU;
                let b = a + std::f32::consts::TAU / 32.0;
                t.push(Tri::new(c, c + Vec3::new(a.cos(), a.sin(), 0.3) * 3.0, c + Vec3::new(b.cos(), b.sin(), 0.3) * 3.0));
            }
        }
        26 => {
            // every triangle's box reaches close to one corner: deep trees whose
            // traversals have many nodes pending
            name = "deep-nested";
            let levels = if r.chance(0.6) { (n / 8).clamp(6, 62) } else { r.range(20, 64) };
            // set back from the corner, the smallest come first when seen from it
            let back = if r.chance(0.7) { 0.02 } else { 0.0 };
            let lo = r.uni(-44.0, 13.0 - levels as f32 * 0.5);
            let corner = if r.chance(0.5) { Vec3::ZERO } else { r.vec3(-1.0, 1.0) };
            let (sx, sy, sz) = (r.pick(&[1.0, -1.0]), r.pick(&[1.0, -1.0]), r.pick(&[1.0, -1.0]));
            for i in 0..n {
                let e = (lo + (i % levels) as f32).min(13.0);
                let s = e.exp2() * r.uni(1.0, 1.04);
                let v = |x: f32, y: f32, z: f32| corner + Vec3::new((x + back) * sx, (y + back) * sy, (z + back) * sz) * s;
                t.push(Tri::new(v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(0.0, 0.0, 1.0)));
            }
        }
        _ => {
            name = "mixed-degenerate";
            for i in 0..n {
                let c = r.vec3(-5.0, 5.0);
                match i % 5 {
                    0 => t.push(Tri::new(c, c, c)),
                    1 => {
                        let d = r.vec3(-1.0, 1.0);
                        t.push(Tri::new(c, c + d, c + d * 0.5));
                    }
                    _ => t.push(nice_tri(r, c, 0.5)),
                }
            }
        }
    }
    Scene { name: format!("{name}/{}", t.len()), tris: t }
}

/// Sizes: small sizes dominate; thread-spawning (> 1024 per task) and sizes
/// beyond 65535 occur regularly.
pub fn pick_n(r: &mut Rng, idx: u64, max: usize) -> usize {
    let edge = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 28, 29, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4097];
    let n = match idx % 10 {
        0..=2 => r.range(1, 40),
        3 | 4 => r.range(41, 400),
        5 => *edge.get(r.below(edge.len())).unwrap(),
        6 => r.range(400, 1500),
        7 => r.range(1500, 6000),
        8 => {
            if r.chance(0.2) {
                r.range(20_000, 70_000)
            } else {
                r.range(2000, 12_000)
            }
        }
        _ => r.range(2, 200),
    };
    n.min(max)
}

/// Quadratic behaviour of the clustering builder on many ties: cap sizes.
pub fn cap_for(kind: Kind, scene_kind: usize, n: usize) -> usize {
    match (kind, scene_kind % N_KINDS) {
        (_, 26) => n.min(500),
        (Kind::Locb, 5 | 6 | 17) => n.min(600),
        (Kind::Locb, 7 | 14 | 15 | 3) => n.min(6000),
        (Kind::Spatial, _) => n.min(20_000),
        _ => n,
    }
}

pub fn pick_leaf(r: &mut Rng) -> Option<usize> {
    if r.chance(0.15) {
        return Some(r.range(1, 40));
    }
    r.pick(&[None, None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(16), Some(64), Some(300), Some(1000), Some(100_000), Some(1 << 31), Some((1 << 32) + 1), Some(usize::MAX)])
}

pub struct Case {
    pub kind: Kind,
    pub scene: Scene,
    pub src: BoxSrc,
    pub aabbs: Option<Vec<Aabb>>,
    pub leaf: Option<usize>,
    pub desc: String,
}

impl Case {
    pub fn eff(&self) -> Vec<Aabb> {
        effective(&self.aabbs, &self.scene.tris)
    }
    pub fn build(&self) -> Result<Bvh, BuildError> {
        build_tri(self.kind, &self.scene.tris, self.aabbs.as_deref(), self.leaf)
    }
    pub fn hash(&self) -> u64 {
        mix(self.scene.hash() ^ hash_str(&self.desc))
    }
}

/// Standard case: builder x scene kind x size x AABB source x leaf limit.
pub fn std_case(r: &mut Rng, idx: u64, max_n: usize) -> Case {
    // Latin-square style rotation so every (builder, scene kind) pair occurs early.
    let kind = KINDS[(idx % 3) as usize];
    let sk = ((idx / 3) % N_KINDS as u64) as usize;
    let sel = r.u64();
    let n = pick_n(r, sel, max_n);
    let n = cap_for(kind, sk, n);
    if idx % BIG_EVERY == BIG_EVERY / 2 && max_n >= 1000 {
        return big_case(r, idx / BIG_EVERY);
    }
    case_of(r, kind, sk, n)
}

const BIG_EVERY: u64 = 83;

/// More primitives (and many more nodes) than 16 bits can count.
pub fn big_case(r: &mut Rng, k: u64) -> Case {
    let kind = KINDS[(k % 3) as usize];
    let n = r.range(65_600, 75_000);
    let sk = r.pick(&[0usize, 1, 2]);
    let mut c = case_of(r, kind, sk, n);
    if r.chance(0.5) {
        c.leaf = None;
    }
    c.desc = format!("{} leaf={:?}", c.desc, c.leaf);
    c
}

pub fn case_of(r: &mut Rng, kind: Kind, sk: usize, n: usize) -> Case {
    let scene = tri_scene(r, sk, n);
    let src = r.pick(&[BoxSrc::None, BoxSrc::Exact, BoxSrc::Padded, BoxSrc::Inflated]);
    let aabbs = aabbs_for(src, &scene.tris, r);
    let leaf = pick_leaf(r);
    let desc = format!("{:?} {} aabbs={:?} leaf={:?}", kind, scene.name, src, leaf);
    Case { kind, scene, src, aabbs, leaf, desc }
}

/// Random boxes (flat, tiny, huge, nested) with centres that may be unrelated.
pub fn box_scene(r: &mut Rng, n: usize) -> (String, Vec<BoxP>) {
    let mode = r.below(6);
    let wild_centres = r.chance(0.3);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let c = match mode {
            0 | 1 => r.vec3(-20.0, 20.0),
            2 => Vec3::new(i as f32, 0.0, 0.0),
            3 => r.vec3(-1000.0, 1000.0),
            4 => Vec3::splat(3.0),
            _ => Vec3::new((i % 7) as f32, (i / 7 % 7) as f32, (i / 49) as f32),
        };
        let mut e = match r.below(4) {
            0 => r.vec3(0.01, 0.5),
            1 => r.vec3(0.5, 3.0),
            2 => Vec3::splat(0.45),
            _ => r.vec3(0.1, 1.0),
        };
        if mode == 3 {
            e *= 20.0;
        }
        if mode == 1 {
            e[r.below(3)] = 0.0; // flat
        }
        let bb = mk_aabb(c - e, c + e);
        let ce = if wild_centres { r.vec3(-20.0, 20.0) } else { bb.center() };
        v.push(BoxP { bb, c: ce });
    }
    (format!("boxes-mode{mode}{}/{n}", if wild_centres { "-wild" } else { "" }), v)
}
