//! C31: nothing that primitives answer derails a build.
use glam::Vec3;
use rtbvh::*;
use std::sync::atomic::{AtomicU64, Ordering::*};
use vh::{rng::*, run::*, scene::*, tree::*};

/// How far answers can be trusted.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mood {
    /// what it should be
    Sane,
    /// the given kind of oddity for a part of the primitives
    Some(Odd),
    All(Odd),
    /// another sensible answer every time
    Fickle,
    /// anything, every time
    Wild,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Odd {
    Nan,
    OneNan,
    Inf,
    NegInf,
    Mixed,
    Max,
    Huge,
    Large,
    /// boxes: the extents exchanged; centres: far away
    Inverted,
    /// boxes: nothing at all
    Empty,
    /// one and the same
    Same,
    Tiny,
}
const ODDS: [Odd; 12] = [Odd::Nan, Odd::OneNan, Odd::Inf, Odd::NegInf, Odd::Mixed, Odd::Max, Odd::Huge, Odd::Large, Odd::Inverted, Odd::Empty, Odd::Same, Odd::Tiny];

fn any_float(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => f32::NAN,
        1 => f32::INFINITY,
        2 => f32::NEG_INFINITY,
        3 => f32::MAX,
        4 => f32::MIN,
        5 => 0.0,
        6 => -0.0,
        7 => f32::from_bits(r.u64() as u32),
        8 => f32::MIN_POSITIVE * 0.25,
        9 => r.uni(-1e20, 1e20),
        _ => r.uni(-10.0, 10.0),
    }
}
fn any_vec(r: &mut Rng) -> Vec3 {
    Vec3::new(any_float(r), any_float(r), any_float(r))
}

fn odd_point(r: &mut Rng, o: Odd, p: Vec3) -> Vec3 {
    let mut q = p;
    match o {
        Odd::Nan => Vec3::NAN,
        Odd::OneNan => {
            q[r.below(3)] = f32::NAN;
            q
        }
        Odd::Inf => Vec3::INFINITY,
        Odd::NegInf => Vec3::NEG_INFINITY,
        Odd::Mixed => any_vec(r),
        Odd::Max => Vec3::new(r.pick(&[f32::MAX, f32::MIN]), r.pick(&[f32::MAX, f32::MIN]), r.pick(&[f32::MAX, f32::MIN])),
        Odd::Huge => p * 1e37,
        Odd::Large => p * 1e19,
        Odd::Inverted => p + Vec3::splat(1e6),
        Odd::Empty => Vec3::ZERO,
        Odd::Same => Vec3::ONE,
        Odd::Tiny => p * 1e-40,
    }
}

fn odd_box(r: &mut Rng, o: Odd, b: &Aabb) -> Aabb {
    match o {
        Odd::Inverted => mk_aabb(b.max, b.min),
        Odd::Empty => Aabb::empty(),
        Odd::Inf => mk_aabb(Vec3::NEG_INFINITY, Vec3::INFINITY),
        Odd::NegInf => mk_aabb(Vec3::INFINITY, Vec3::NEG_INFINITY),
        Odd::Max => mk_aabb(Vec3::splat(f32::MIN), Vec3::splat(f32::MAX)),
        Odd::Same => mk_aabb(Vec3::ZERO, Vec3::ONE),
        _ => {
            let (a, c) = (odd_point(r, o, b.min), odd_point(r, o, b.max));
            mk_aabb(a, c)
        }
    }
}

#[derive(Debug)]
struct Moody {
    tri: Tri,
    c: Vec3,
    bb: Aabb,
    parts: Option<(Aabb, Aabb)>,
    moods: [Mood; 4],
    salt: AtomicU64,
}
static ANSWERS: AtomicU64 = AtomicU64::new(0);
impl Moody {
    fn again(&self) -> Rng {
        ANSWERS.fetch_add(1, Relaxed);
        Rng::new(mix(self.salt.fetch_add(1, Relaxed)))
    }
    fn vertex(&self, k: usize) -> Vec3 {
        match self.moods[2] {
            Mood::Fickle => self.again().vec3(-10.0, 10.0),
            Mood::Wild => any_vec(&mut self.again()),
            _ => self.tri.v[k],
        }
    }
    fn some_box(&self, wild: bool) -> Aabb {
        let mut r = self.again();
        let mut b = if wild {
            mk_aabb(any_vec(&mut r), any_vec(&mut r))
        } else {
            let p = r.vec3(-10.0, 10.0);
            mk_aabb(p, p + r.vec3(0.0, 2.0))
        };
        b.extra1 = r.u64() as i32;
        b.extra2 = r.u64() as i32;
        b
    }
}
impl Primitive for Moody {
    fn center(&self) -> Vec3 {
        match self.moods[0] {
            Mood::Fickle => self.again().vec3(-10.0, 10.0),
            Mood::Wild => any_vec(&mut self.again()),
            _ => self.c,
        }
    }
    fn aabb(&self) -> Aabb {
        match self.moods[1] {
            Mood::Fickle => self.some_box(false),
            Mood::Wild => self.some_box(true),
            _ => self.bb,
        }
    }
}
/// The default way to split a triangle.
struct Plain<'a>(&'a Moody);
impl SpatialTriangle for Plain<'_> {
    fn vertex0(&self) -> Vec3 {
        self.0.vertex(0)
    }
    fn vertex1(&self) -> Vec3 {
        self.0.vertex(1)
    }
    fn vertex2(&self) -> Vec3 {
        self.0.vertex(2)
    }
}
impl SpatialTriangle for Moody {
    fn vertex0(&self) -> Vec3 {
        self.vertex(0)
    }
    fn vertex1(&self) -> Vec3 {
        self.vertex(1)
    }
    fn vertex2(&self) -> Vec3 {
        self.vertex(2)
    }
    fn split(&self, axis: usize, position: f32) -> (Aabb, Aabb) {
        match (self.moods[3], self.parts) {
            (Mood::Fickle, _) => (self.some_box(false), self.some_box(false)),
            (Mood::Wild, _) => (self.some_box(true), self.some_box(true)),
            (_, Some(p)) => p,
            _ => Plain(self).split(axis, position),
        }
    }
}

fn mood(r: &mut Rng) -> Mood {
    match r.below(8) {
        0 | 1 | 2 => Mood::Sane,
        3 => Mood::Some(r.pick(&ODDS)),
        4 => Mood::All(r.pick(&ODDS)),
        5 => Mood::Some(r.pick(&[Odd::Nan, Odd::OneNan, Odd::Mixed])),
        6 => Mood::Fickle,
        _ => Mood::Wild,
    }
}

fn refs_ok(kind: Kind, n: usize, idx: &[u32], refs: usize) -> Result<(), String> {
    let mut seen = vec![0u32; n];
    for i in idx {
        match seen.get_mut(*i as usize) {
            Some(s) => *s += 1,
            None => return Err(format!("index {i} for {n} primitives")),
        }
    }
    if let Some(i) = seen.iter().position(|s| *s == 0) {
        return Err(format!("primitive {i} is not referenced"));
    }
    if kind != Kind::Spatial && seen.iter().any(|s| *s != 1) {
        return Err("a primitive is referenced more than once".into());
    }
    if refs != idx.len() {
        return Err(format!("leaves hold {refs} of {} references", idx.len()));
    }
    Ok(())
}

fn drained(it: impl Iterator<Item = u32>, n: usize, refs: usize) -> Result<usize, String> {
    let mut k = 0;
    for i in it {
        if i as usize >= n {
            return Err(format!("yields primitive {i} of {n}"));
        }
        k += 1;
        if k > refs {
            return Err("yields more than it references".into());
        }
    }
    Ok(k)
}

fn main() {
    run("C31", 300, 3000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let tiny = cx.stage == "miri";
        let kind = KINDS[(idx % 3) as usize];
        let n = match r.below(6) {
            _ if tiny => r.range(1, 24),
            0 => r.range(1, 8),
            1 | 2 => r.range(8, 100),
            3 => r.range(1025, 2600),
            _ => r.range(100, 600),
        };
        let n = if kind == Kind::Locb { n.min(700) } else { n };
        let moods = [mood(&mut r), mood(&mut r), mood(&mut r), mood(&mut r)];
        let share = r.pick(&[0.02f32, 0.3, 0.7]) as f64;
        let large = r.pick(&[0.1f32, 0.1, 3.0]);
        let base = r.below(N_KINDS);
        let scene = r.chance(0.3).then(|| tri_scene(&mut r, base, cap_for(kind, base, n)));
        let mut given = vec![];
        let prims: Vec<Moody> = (0..scene.as_ref().map_or(n, |s| s.tris.len()))
            .map(|i| {
                let mut tri = match &scene {
                    Some(s) => s.tris[i],
                    None => {
                        let p = r.vec3(-3.0, 3.0);
                        Tri::new(p, p + r.vec3(-large, large), p + r.vec3(-large, large))
                    }
                };
                let (mut c, mut bb) = (tri.center(), tri.exact_aabb());
                bb.extra1 = r.u64() as i32;
                bb.extra2 = r.u64() as i32;
                let mut parts = None;
                let hit = |r: &mut Rng, m: Mood| match m {
                    Mood::Some(o) => r.chance(share as _).then_some(o),
                    Mood::All(o) => Some(o),
                    _ => None,
                };
                if let Some(o) = hit(&mut r, moods[0]) {
                    c = odd_point(&mut r, o, c);
                }
                if let Some(o) = hit(&mut r, moods[1]) {
                    let (e1, e2) = (bb.extra1, bb.extra2);
                    bb = odd_box(&mut r, o, &bb);
                    bb.extra1 = e1;
                    bb.extra2 = e2;
                }
                if let Some(o) = hit(&mut r, moods[2]) {
                    let k = r.below(3);
                    tri.v[k] = odd_point(&mut r, o, tri.v[k]);
                }
                if let Some(o) = hit(&mut r, moods[3]) {
                    parts = Some((odd_box(&mut r, o, &bb), odd_box(&mut r, o, &bb)));
                }
                given.push(bb);
                Moody { tri, c, bb, parts, moods, salt: AtomicU64::new(r.u64()) }
            })
            .collect();
        let n = prims.len();
        let supplied = r.chance(0.5);
        let leaf = r.pick(&[None, Some(1), Some(2), Some(4), Some(16)]);
        let desc = format!("{kind:?}, {n} primitives ({}), leaf={leaf:?}, AABBs {}, centres {:?}, boxes {:?}, vertices {:?}, parts {:?}", scene.as_ref().map_or("soup", |s| &s.name), if supplied { "supplied" } else { "asked for" }, moods[0], moods[1], moods[2], moods[3]);
        let before = ANSWERS.load(Relaxed);
        let b = match build(kind, &prims, supplied.then_some(&given[..]), leaf) {
            Ok(b) => b,
            Err(e) => {
                cx.fail("rejected", format!("{desc}: {e}"));
                return;
            }
        };
        cx.count("answers_made_up", ANSWERS.load(Relaxed) - before);
        let check = |b: &Bvh, when: &str| -> Result<Tree, String> {
            let t = walk(b.nodes(), b.indices()).map_err(|e| format!("{desc}: {when}: {e}"))?;
            refs_ok(kind, n, b.indices(), t.refs).map_err(|e| format!("{desc}: {when}: {e}"))?;
            if !b.validate(n) {
                return Err(format!("{desc}: {when}: does not validate"));
            }
            Ok(t)
        };
        let t = match check(&b, "built") {
            Ok(t) => t,
            Err(e) => {
                cx.fail(format!("{kind:?}:tree"), e);
                return;
            }
        };
        let mut c = b.clone();
        let shape_of = |b: &Bvh, t: &Tree| shape(b.nodes(), b.indices(), t);
        let before = shape_of(&b, &t);
        let wild: Vec<Aabb> = prims.iter().map(|p| p.some_box(r.chance(0.5))).collect();
        c.refit(&wild);
        match check(&c, "refitted") {
            Ok(t) if shape_of(&c, &t) == before => cx.count("refits", 1),
            Ok(_) => cx.fail("refit", format!("{desc}: refitting changed the tree")),
            Err(e) => cx.fail("refit", e),
        }
        for (b, when) in [(&b, "built"), (&c, "refitted")] {
            let refs = b.indices().len();
            let m = Mbvh::construct(b);
            match walk_quad(m.quad_nodes(), m.indices()) {
                Ok(q) => {
                    if let Err(e) = refs_ok(kind, n, m.indices(), q.refs) {
                        cx.fail("quad", format!("{desc}: {when}: {e}"));
                    }
                }
                Err(e) => cx.fail("quad", format!("{desc}: {when}: {e}")),
            }
            for k in 0..if tiny { 2 } else { 6 } {
                let mut one = |r: &mut Rng| {
                    let p = prims[r.below(n)].tri.v[0];
                    let o = r.vec3(-9.0, 9.0);
                    let d = if k % 3 == 2 || !(p - o).is_finite() || p == o { any_vec(r) } else { p - o };
                    (if k % 3 == 2 { any_vec(r) } else { o }, d)
                };
                let s: [(Vec3, Vec3); 4] = [one(&mut r), one(&mut r), one(&mut r), one(&mut r)];
                let mut ray = Ray::new(s[0].0, s[0].1);
                let o = [0, 1, 2, 3].map(|k| s[k].0.extend(0.0));
                let d = [0, 1, 2, 3].map(|k| s[k].1.extend(0.0));
                let mut pk = RayPacket4::new(o, d);
                let x = [
                    drained(b.traverse_iter_indices(&mut ray).map(|x| x.0), n, refs),
                    drained(m.traverse_iter_indices(&mut ray).map(|x| x.0), n, refs),
                    drained(b.traverse_iter_indices_packet(&mut pk).map(|x| x.0), n, refs),
                    drained(m.traverse_iter_indices_packet(&mut pk).map(|x| x.0), n, refs),
                ];
                for (x, name) in x.into_iter().zip(["Bvh", "Mbvh", "Bvh packet", "Mbvh packet"]) {
                    match x {
                        Ok(k) => {
                            cx.count("traversals", 1);
                            cx.count("primitives_yielded", k as u64);
                        }
                        Err(e) => cx.fail("traversal", format!("{desc}: {when}: {name} traversal {e}")),
                    }
                }
            }
        }
        cx.seen("moods", moods.iter().fold(kind as u64, |h, m| mix(h ^ hash_str(&format!("{m:?}")))));
        let odd = moods[..if kind == Kind::Spatial { 4 } else { 2 }].iter().any(|m| *m != Mood::Sane);
        cx.count(if odd { "builds_of_untrustworthy_primitives" } else { "other_builds" }, 1);
        cx.eval(mix(idx ^ before), odd && n > 2);
    });
}
