//! C32: structures come through any history of use.
use glam::{Vec3, Vec4};
use rtbvh::*;
use serde::{de::DeserializeOwned, Serialize};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::Arc;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

enum Thing {
    B(Bvh),
    Q(Mbvh),
}
use Thing::*;

/// A live structure and all that is known about it.
struct Item {
    thing: Thing,
    kind: Kind,
    tris: Arc<Vec<Tri>>,
    /// its boxes are those of whole triangles
    whole: bool,
    /// bits, as of the last change
    hash: u64,
    /// leaves and links, as of the build
    shape: u64,
    /// the references it holds, sorted
    refs: Arc<Vec<u32>>,
    past: String,
}

fn quad_hash(m: &Mbvh) -> u64 {
    let mut h = 77u64;
    for q in m.quad_nodes() {
        let (a, b, c, d, e, f) = q.points();
        for v in [a, b, c, d, e, f] {
            for k in 0..4 {
                h = mix(h ^ v[k].to_bits() as u64);
            }
        }
        for k in 0..4 {
            h = mix(h ^ (q.children[k] as u32 as u64) << 32 ^ q.counts[k] as u32 as u64);
        }
    }
    m.indices().iter().fold(h ^ raw(m.nodes(), &[]), |h, i| mix(h ^ *i as u64))
}

impl Item {
    fn bits(&self) -> u64 {
        match &self.thing {
            B(b) => raw(b.nodes(), b.indices()),
            Q(m) => quad_hash(m),
        }
    }
    fn name(&self) -> &'static str {
        match &self.thing {
            B(_) => "Bvh",
            Q(_) => "Mbvh",
        }
    }
    fn indices(&self) -> &[u32] {
        match &self.thing {
            B(b) => b.indices(),
            Q(m) => m.indices(),
        }
    }
    /// Everything but rays.
    fn structure(&self) -> Result<(), String> {
        if self.bits() != self.hash {
            return Err("its contents changed".into());
        }
        let mut i = self.indices().to_vec();
        i.sort_unstable();
        if i != *self.refs {
            return Err("its references changed".into());
        }
        let inside = |lo: Vec3, hi: Vec3, ids: &[u32]| -> Result<(), String> {
            for &i in ids {
                let b = self.tris[i as usize].exact_aabb();
                if self.whole && !(lo.cmple(b.min).all() && hi.cmpge(b.max).all()) {
                    return Err(format!("the leaf of primitive {i} does not enclose it"));
                }
            }
            Ok(())
        };
        match &self.thing {
            B(b) => {
                let t = walk(b.nodes(), b.indices())?;
                if shape(b.nodes(), b.indices(), &t) != self.shape {
                    return Err("its shape changed".into());
                }
                if !b.validate(self.tris.len()) {
                    return Err("it does not validate".into());
                }
                if b.prim_count() != self.indices().len() {
                    return Err(format!("it counts {} references of {}", b.prim_count(), self.indices().len()));
                }
                let want = match self.kind {
                    Kind::Binned => BuildType::BinnedSAH,
                    Kind::Spatial => BuildType::Spatial,
                    Kind::Locb => BuildType::LocallyOrderedClustered,
                };
                if b.build_type() != want {
                    return Err(format!("it was built by {:?}, and says {:?}", want, b.build_type()));
                }
                for &i in &t.order {
                    let x = &b.nodes()[i];
                    if is_leaf(x) {
                        inside(x.bounds.min, x.bounds.max, &b.indices()[leaf_range(x)])?;
                    }
                }
            }
            Q(m) => {
                let t = walk_quad(m.quad_nodes(), m.indices())?;
                if t.refs != self.refs.len() {
                    return Err(format!("its lanes hold {} of {} references", t.refs, self.refs.len()));
                }
                for s in &t.slots {
                    if s.count > 0 {
                        inside(s.min, s.max, &m.indices()[s.child as usize..(s.child + s.count) as usize])?;
                    }
                }
            }
        }
        Ok(())
    }
    fn closest(&self, s: &RaySpec) -> Result<f32, String> {
        match &self.thing {
            B(b) => bvh_closest(b, s, &self.tris),
            Q(m) => quad_closest(m, s, &self.tris),
        }
    }
    fn closest4(&self, s: &[RaySpec; 4]) -> Result<Vec4, String> {
        match &self.thing {
            B(b) => bvh_closest4(b, s, Vec4::splat(1e-4), &self.tris),
            Q(m) => quad_closest4(m, s, Vec4::splat(1e-4), &self.tris),
        }
    }
    fn yields(&self, s: &RaySpec) -> Result<Vec<u32>, String> {
        match &self.thing {
            B(b) => bvh_static(b, s),
            Q(m) => quad_static(m, s),
        }
    }
    fn a_ray(&self, r: &mut Rng, scale: f32) -> RaySpec {
        let t = &self.tris[r.below(self.tris.len())];
        let p = inner_point(r, t);
        let e = Vec3::splat(scale * 0.5 + 0.5);
        let mut s = gen_ray(r, p - e, p + e, Some(p));
        s.t = 1e34;
        s.tmin = 1e-4;
        s
    }
    fn scale(&self) -> f32 {
        self.tris.iter().flat_map(|t| t.v).fold(1e-3f32, |m, v| m.max(v.abs().max_element()))
    }
    /// Finds what is there; returns how many clear hits were there to be found.
    fn shoot(&self, r: &mut Rng, rays: usize) -> Result<u64, String> {
        let scale = self.scale();
        let mut clear = 0;
        for k in 0..rays {
            if k % 3 == 2 {
                let s = [self.a_ray(r, scale), self.a_ray(r, scale), self.a_ray(r, scale), self.a_ray(r, scale)];
                let got = self.closest4(&s)?;
                for l in 0..4 {
                    let w = went_past4(got[l], &s[l], Vec4::splat(1e-4), &self.tris);
                    clear += w.is_some() as u64;
                    if w == Some(true)
                        && confirmed(|_| {
                            let mut p = s;
                            for x in p.iter_mut() {
                                (x.o, x.d) = perturb(r, x.o, x.d, scale);
                            }
                            went_past4(self.closest4(&p).ok()?[l], &p[l], Vec4::splat(1e-4), &self.tris)
                        })
                    {
                        return Err(format!("lane {l} of {s:?} finds {} beyond a clear hit", got[l]));
                    }
                }
                continue;
            }
            let s = self.a_ray(r, scale);
            let got = self.closest(&s)?;
            let w = went_past(got, &s, &self.tris);
            clear += w.is_some() as u64;
            if got < brute(&s, &self.tris) {
                return Err(format!("{s:?} finds {got}, closer than any triangle"));
            }
            if w == Some(true)
                && confirmed(|_| {
                    let mut p = s;
                    (p.o, p.d) = perturb(r, p.o, p.d, scale);
                    went_past(self.closest(&p).ok()?, &p, &self.tris)
                })
            {
                return Err(format!("{s:?} finds {got} beyond a clear hit"));
            }
        }
        Ok(clear)
    }
}

fn item_of(b: Bvh, kind: Kind, tris: Arc<Vec<Tri>>, past: String) -> Result<Item, String> {
    let t = walk(b.nodes(), b.indices())?;
    let mut refs = b.indices().to_vec();
    refs.sort_unstable();
    let shape = shape(b.nodes(), b.indices(), &t);
    let mut i = Item { thing: B(b), kind, tris, whole: kind != Kind::Spatial, hash: 0, shape, refs: Arc::new(refs), past };
    i.hash = i.bits();
    Ok(i)
}

fn pass_on<T: Serialize + DeserializeOwned>(cbor: bool, x: &T) -> Result<T, String> {
    if cbor {
        let mut v = vec![];
        ciborium::ser::into_writer(x, &mut v).map_err(|e| e.to_string())?;
        ciborium::de::from_reader(&v[..]).map_err(|e| e.to_string())
    } else {
        let v = bincode::serialize(x).map_err(|e| e.to_string())?;
        bincode::deserialize(&v).map_err(|e| e.to_string())
    }
}

/// Another place for every triangle.
fn moved(r: &mut Rng, tris: &[Tri], home: &[Tri]) -> (Vec<Tri>, &'static str) {
    let how = r.below(8);
    let off = r.vec3(-20.0, 20.0);
    let f = r.pick(&[0.1f32, 0.5, 2.0, 10.0]);
    let axis = r.below(3);
    let one = r.below(tris.len());
    let name = ["jittered", "moved", "scaled", "flattened", "brought home", "exchanged", "one moved", "gathered"][how];
    let mut v: Vec<Tri> = tris
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let mut t = *t;
            let j = r.vec3(-1.0, 1.0);
            for v in t.v.iter_mut() {
                match how {
                    0 => *v += j,
                    1 => *v += off,
                    2 if v.abs().max_element() * f < 3e3 => *v *= f,
                    3 => v[axis] = off[axis],
                    6 if i == one => *v += off,
                    7 => *v = *v * 0.01 + off,
                    _ => {}
                }
            }
            t
        })
        .collect();
    match how {
        4 => v = home.to_vec(),
        5 => {
            let k = r.below(v.len());
            v.rotate_left(k);
        }
        _ => {}
    }
    // nothing may wander off to where f32 has no room for margins
    if v.iter().flat_map(|t| t.v).any(|p| p.abs().max_element() > 500.0) {
        v = home.to_vec();
    }
    (v, name)
}

fn main() {
    run("C32", 100, 1000, |cx| {
        let mut r = cx.rng();
        let tiny = cx.stage == "miri";
        let base = r.below(N_KINDS);
        let n = if tiny { r.range(1, 12) } else { r.pick(&[3, 20, 20, 60, 60, 200, 400]) };
        let n = if !tiny && r.chance(0.04) { 1600 } else { r.range(1, n) };
        let sc = tri_scene(&mut r, base, cap_for(Kind::Locb, base, n));
        let mut home: Vec<Tri> = sc.tris.clone();
        let far = home.iter().flat_map(|t| t.v).fold(0.0f32, |m, v| m.max(v.abs().max_element()));
        if !(far < 400.0) {
            for t in home.iter_mut() {
                for v in t.v.iter_mut() {
                    *v *= 100.0 / far;
                }
            }
        }
        let home = Arc::new(home);
        let mut items: Vec<Item> = vec![];
        let steps = if tiny { 8 } else { r.range(8, 40) };
        let mut now = home.clone();
        let mut trail = 5u64;
        let (mut refits, mut checks) = (0, 0);
        for step in 0..steps {
            let op = if items.is_empty() { 0 } else { r.below(14) };
            trail = mix(trail ^ op as u64);
            let at = if items.is_empty() { 0 } else { r.below(items.len()) };
            let fail = |cx: &mut Ctx, i: &Item, what: &str, e: String| {
                cx.fail(format!("{}:{what}", i.name()), format!("{} of {} triangles ({}), after {}: {e}", i.name(), i.tris.len(), sc.name, i.past));
            };
            let mut touched = None;
            match op {
                0 | 1 if items.len() < 6 => {
                    let kind = r.pick(&KINDS);
                    let leaf = pick_leaf(&mut r);
                    let boxes: Vec<Aabb> = now.iter().map(|t| t.exact_aabb()).collect();
                    let given = r.chance(0.5);
                    let i = build_tri(kind, &now, given.then_some(&boxes[..]), leaf).map_err(|e| e.to_string()).and_then(|b| item_of(b, kind, now.clone(), format!("{kind:?} build (leaf {leaf:?})")));
                    match i {
                        Ok(i) => items.push(i),
                        Err(e) => {
                            cx.fail("build", format!("{kind:?}, {} triangles ({}): {e}", now.len(), sc.name));
                            return;
                        }
                    }
                    touched = Some(items.len() - 1);
                }
                2 | 3 | 4 => {
                    let i = &mut items[at];
                    let (t, how) = moved(&mut r, &i.tris, &home);
                    if let B(b) = &mut i.thing {
                        let boxes: Vec<Aabb> = t.iter().map(|t| t.exact_aabb()).collect();
                        b.refit(&boxes);
                        refits += 1;
                        i.tris = Arc::new(t);
                        i.whole = true;
                        i.hash = i.bits();
                        i.past += &format!(", refit ({how})");
                        touched = Some(at);
                        if r.chance(0.3) {
                            now = i.tris.clone();
                        }
                    }
                }
                5 if items.len() < 6 => {
                    let i = &items[at];
                    let c = Item {
                        thing: match &i.thing {
                            B(b) => B(b.clone()),
                            Q(m) => Q(m.clone()),
                        },
                        tris: i.tris.clone(),
                        refs: i.refs.clone(),
                        past: format!("{}, clone", i.past),
                        ..*i
                    };
                    items.push(c);
                    touched = Some(items.len() - 1);
                }
                6 if items.len() > 1 => {
                    items.swap_remove(at);
                }
                7 | 8 if items.len() < 6 => {
                    let i = &items[at];
                    if let B(b) = &i.thing {
                        let (m, how) = match r.below(4) {
                            0 => (Mbvh::construct(b), "construct"),
                            1 => (Mbvh::from(b.clone()), "from"),
                            2 => (Mbvh::construct_from_raw(b.nodes(), b.indices()), "construct_from_raw"),
                            _ => {
                                let (x, y) = b.clone().into_raw();
                                (Mbvh::construct_from_raw(&x, &y), "into_raw, construct_from_raw")
                            }
                        };
                        let mut c = Item { thing: Q(m), tris: i.tris.clone(), refs: i.refs.clone(), past: format!("{}, {how}", i.past), ..*i };
                        c.hash = c.bits();
                        items.push(c);
                        touched = Some(items.len() - 1);
                    }
                }
                9 => {
                    let i = &mut items[at];
                    let cbor = r.chance(0.5);
                    let x = match &i.thing {
                        B(b) => pass_on(cbor, b).map(B),
                        Q(m) => pass_on(cbor, m).map(Q),
                    };
                    match x {
                        Ok(x) => i.thing = x,
                        Err(e) => {
                            fail(cx, i, "pass on", e);
                            return;
                        }
                    }
                    i.past += ", save and load";
                    touched = Some(at);
                }
                10 => {
                    // stopped half way, by a panic or not, with limits left behind
                    let i = &mut items[at];
                    let s = i.a_ray(&mut r, 5.0);
                    let (mut ray, mut pk) = (s.ray(), packet_of(&[s, s, s, s]));
                    let k = r.below(6);
                    let angry = r.chance(0.5);
                    let tris = &i.tris[..];
                    let thing = &i.thing;
                    QUIET.store(angry, std::sync::atomic::Ordering::SeqCst);
                    let x = catch_unwind(AssertUnwindSafe(|| {
                        let each = |j: usize| {
                            if j >= k && angry {
                                panic_any(Ours)
                            }
                            j < k
                        };
                        match thing {
                            B(b) => {
                                b.traverse_iter(&mut ray, tris).enumerate().map(|(j, (t, r))| { t.intersect(r); j }).take_while(|j| each(*j)).count()
                                    + b.traverse_iter_packet(&mut pk, tris).enumerate().take_while(|(j, _)| each(*j)).count()
                            }
                            Q(m) => {
                                m.traverse_iter(&mut ray, tris).enumerate().take_while(|(j, _)| each(*j)).count()
                                    + m.traverse_iter_indices_packet(&mut pk).enumerate().take_while(|(j, _)| each(*j)).count()
                            }
                        }
                    }));
                    QUIET.store(false, std::sync::atomic::Ordering::SeqCst);
                    cx.count(if x.is_err() { "traversals_panicked" } else { "traversals_stopped" }, 1);
                    i.past += ", stopped traversal";
                    touched = Some(at);
                }
                11 if !tiny => {
                    // lent to threads, together with the others
                    let lent = &items;
                    let plan: Vec<(usize, RaySpec)> = (0..12).map(|_| { let k = r.below(lent.len()); (k, lent[k].a_ray(&mut r, 5.0)) }).collect();
                    let want: Vec<_> = plan.iter().map(|(k, s)| lent[*k].yields(s)).collect();
                    let plan = &plan;
                    let got: Vec<Vec<_>> = std::thread::scope(|sc| {
                        let h: Vec<_> = (0..3).map(|o| sc.spawn(move || (0..12).map(|j| { let (k, s) = &plan[(j + o * 4) % 12]; lent[*k].yields(s) }).collect::<Vec<_>>())).collect();
                        h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
                    });
                    for (o, g) in got.iter().enumerate() {
                        for j in 0..12 {
                            if g.get(j) != Some(&want[(j + o * 4) % 12]) {
                                fail(cx, &items[plan[(j + o * 4) % 12].0], "threads", "another thread gets other answers".into());
                                return;
                            }
                        }
                    }
                    cx.count("threads_lent_to", 3);
                }
                12 => {
                    // handed over to a thread for good, and back
                    let i = items.swap_remove(at);
                    let seed = r.u64();
                    let back = std::thread::spawn(move || {
                        let e = i.shoot(&mut Rng::new(seed), 3);
                        (i, e)
                    })
                    .join();
                    match back {
                        Ok((mut i, e)) => {
                            if let Err(e) = e {
                                fail(cx, &i, "rays", e);
                                return;
                            }
                            i.past += ", trip to another thread";
                            items.push(i);
                        }
                        Err(_) => {
                            cx.fail("panic", "traversing in another thread panicked");
                            return;
                        }
                    }
                    touched = Some(items.len() - 1);
                }
                13 => {
                    // builds that come to nothing must not be noticed
                    let none: [Tri; 0] = [];
                    let a = build_tri(r.pick(&KINDS), &none, None, None).is_err();
                    let b = build_tri(r.pick(&KINDS), &now, Some(&[]), None).is_err();
                    if !a || !b {
                        cx.fail("accepted", "a build without primitives, or with AABBs that do not match, succeeded");
                        return;
                    }
                    cx.count("rejected_builds", 2);
                }
                _ => {}
            }
            // what was touched, and another one
            let other = (!items.is_empty()).then(|| r.below(items.len()));
            let all = step + 1 == steps;
            for (k, i) in items.iter().enumerate() {
                if !(all || touched == Some(k) || other == Some(k)) {
                    continue;
                }
                checks += 1;
                if let Err(e) = i.structure() {
                    fail(cx, i, "structure", e);
                    return;
                }
                match i.shoot(&mut r, if tiny { 2 } else { 6 }) {
                    Ok(c) => cx.count("clear_hits", c),
                    Err(e) => {
                        fail(cx, i, "rays", e);
                        return;
                    }
                }
            }
        }
        cx.count("steps", steps as u64);
        cx.count("refits", refits);
        cx.count("checks", checks);
        cx.seen("histories", trail);
        cx.sample(|| format!("{}: {}", sc.name, items.iter().map(|i| format!("[{} {}]", i.name(), i.past)).collect::<Vec<_>>().join(" ")));
        cx.eval(mix(trail ^ cx.idx), refits > 0 && n > 2);
    });
}

struct Ours;
