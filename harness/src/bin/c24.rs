//! C24: traversals enter only boxes the ray can reach.
use glam::Vec3;
use rtbvh::*;
use std::collections::HashMap;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::*, tree::*};

/// A box on the way to leaves: BVH nodes or quad lanes, parents first.
struct B {
    min: Vec3,
    max: Vec3,
    parent: i64,
    /// boxes that are tested together have the same group (the node or quad they hang from)
    leaf: Option<std::ops::Range<usize>>,
    root: bool,
}

struct S {
    boxes: Vec<B>,
    quad: bool,
}

fn of_bvh(nodes: &[BvhNode], t: &Tree) -> S {
    let mut at = vec![-1i64; nodes.len()];
    let mut boxes = vec![];
    for &i in &t.order {
        at[i] = boxes.len() as i64;
        let n = &nodes[i];
        boxes.push(B {
            min: n.bounds.min,
            max: n.bounds.max,
            parent: if t.parent[i] < 0 { -1 } else { at[t.parent[i] as usize] },
            leaf: if is_leaf(n) { Some(leaf_range(n)) } else { None },
            root: i == 0,
        });
    }
    S { boxes, quad: false }
}

fn of_quad(q: &QuadTree) -> S {
    let boxes = q
        .slots
        .iter()
        .map(|s| B { min: s.min, max: s.max, parent: s.parent, leaf: if s.count >= 0 { Some(s.child as usize..(s.child + s.count) as usize) } else { None }, root: false })
        .collect();
    S { boxes, quad: true }
}

/// Can a single ray with limit `t` get into this box? Unclear counts as yes.
fn reach(b: &B, s: &RaySpec, t: f64, quad: bool, packet: bool) -> bool {
    if b.root {
        return true;
    }
    let v = box_verdict(b.min, b.max, &s.r64());
    if v.pass == Some(false) {
        return false;
    }
    if !quad {
        // boxes behind
        let front = if packet { 0.0 } else { s.tmin as f64 };
        if v.exit < front - v.tol {
            return false;
        }
    }
    if quad || packet {
        if v.entry > t + v.tol {
            return false;
        }
    }
    true
}

fn reach_any(b: &B, rs: &[RaySpec], t: &[f64], quad: bool) -> bool {
    let packet = rs.len() > 1;
    rs.iter().zip(t).any(|(r, t)| reach(b, r, *t, quad, packet))
}

fn check_static(cx: &mut Ctx, desc: &str, s: &S, indices: &[u32], n: usize, rs: &[RaySpec], got: Vec<u32>) -> bool {
    let t: Vec<f64> = rs.iter().map(|r| r.t as f64).collect();
    let mut ok = vec![false; s.boxes.len()];
    let mut allowed = vec![0u32; n];
    let (mut culled, mut kept) = (0, 0);
    for (i, b) in s.boxes.iter().enumerate() {
        let up = b.parent < 0 || ok[b.parent as usize];
        ok[i] = up && reach_any(b, rs, &t, s.quad);
        if let Some(l) = &b.leaf {
            if ok[i] {
                kept += l.len();
                for &p in &indices[l.clone()] {
                    allowed[p as usize] += 1;
                }
            } else {
                culled += l.len();
            }
        }
    }
    cx.count("references_out_of_reach", culled as u64);
    cx.count("references_in_reach", kept as u64);
    cx.count("yields", got.len() as u64);
    for p in got {
        if allowed[p as usize] == 0 {
            cx.fail("unreachable-yield", format!("{desc}: primitive {p} is yielded although {rs:?} reaches no leaf that references it"));
            return false;
        }
        allowed[p as usize] -= 1;
    }
    true
}

/// `yields`: primitive and the limits in force before the step that yielded it.
fn check_dynamic(cx: &mut Ctx, desc: &str, s: &S, leaf_of: &HashMap<u32, usize>, rs: &[RaySpec], yields: &[(u32, [f32; 4])]) -> bool {
    // limits in force when the children of a box (or of the root quad) were tested
    let mut tested: HashMap<i64, [f32; 4]> = HashMap::new();
    if s.quad {
        let mut t = [0.0; 4];
        for (i, r) in rs.iter().enumerate() {
            t[i] = r.t;
        }
        tested.insert(-1, t);
    }
    let mut judged: HashMap<usize, ()> = HashMap::new();
    for (p, t) in yields {
        let mut x = match leaf_of.get(p) {
            Some(x) => *x as i64,
            None => {
                cx.fail("unknown-yield", format!("{desc}: yields {p}, which no leaf references"));
                return false;
            }
        };
        while x >= 0 {
            let par = s.boxes[x as usize].parent;
            let lim = *tested.entry(par).or_insert(*t);
            if judged.insert(x as usize, ()).is_none() {
                let l: Vec<f64> = lim.iter().take(rs.len()).map(|f| *f as f64).collect();
                cx.count("boxes_judged_dynamically", 1);
                if !reach_any(&s.boxes[x as usize], rs, &l, s.quad) {
                    let b = &s.boxes[x as usize];
                    cx.fail("entered-out-of-reach", format!("{desc}: {rs:?} entered box {:?}..{:?} with limits {lim:?} (primitive {p} came out)", b.min, b.max));
                    return false;
                }
            }
            x = par;
        }
    }
    true
}

const LOWER: [&str; 4] = ["hit", "artificial", "to-zero", "rise"];

fn main() {
    run("C24", 300, 3000, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let boxes_only = idx % 5 == 4;
        let (desc, b, tris, lo, hi);
        if boxes_only {
            let n = r.range(2, 400);
            let (name, v) = box_scene(&mut r, n);
            let kind = if r.chance(0.5) { Kind::Locb } else { Kind::Binned };
            let leaf = pick_leaf(&mut r);
            let aabbs: Vec<Aabb> = v.iter().map(|p| p.bb).collect();
            desc = format!("{kind:?} {name} leaf={leaf:?}");
            b = build_box(kind, &v, Some(&aabbs), leaf);
            // stand-ins to aim at
            tris = v.iter().map(|p| Tri::new(p.bb.min, p.bb.max, p.bb.center() + (p.bb.max - p.bb.min) * 0.2)).collect::<Vec<_>>();
            lo = v.iter().fold(Vec3::splat(f32::MAX), |a, p| a.min(p.bb.min));
            hi = v.iter().fold(Vec3::splat(f32::MIN), |a, p| a.max(p.bb.max));
        } else {
            let case = std_case(&mut r, idx, 1500);
            desc = case.desc.clone();
            b = case.build();
            let x = case.scene.bounds();
            lo = x.0;
            hi = x.1;
            tris = case.scene.tris;
        }
        let b = match b {
            Ok(b) => b,
            Err(e) => {
                cx.fail("build-error", format!("{desc}: {e}"));
                return;
            }
        };
        let m = Mbvh::construct(&b);
        let n = tris.len();
        let (t, q) = match (walk(b.nodes(), b.indices()), walk_quad(m.quad_nodes(), m.indices())) {
            (Ok(t), Ok(q)) => (t, q),
            (Err(e), _) | (_, Err(e)) => {
                cx.fail("structure", format!("{desc}: {e}"));
                return;
            }
        };
        let ss = [of_bvh(b.nodes(), &t), of_quad(&q)];
        let unique = b.indices().len() == n && b.build_type() != BuildType::Spatial;
        let leaf_of: Vec<HashMap<u32, usize>> = ss
            .iter()
            .map(|s| {
                let mut h = HashMap::new();
                for (i, x) in s.boxes.iter().enumerate() {
                    if let Some(l) = &x.leaf {
                        for &p in &b.indices()[l.clone()] {
                            h.insert(p, i);
                        }
                    }
                }
                h
            })
            .collect();
        let ext = (hi - lo).max_element().max(0.1);
        let mk = |r: &mut Rng| {
            let tt = r.below(n);
            let tg = if r.chance(0.25) { None } else { Some(inner_point(r, &tris[tt])) };
            let mut s = gen_ray(r, lo, hi, tg);
            let dist = ext / s.d.length();
            match r.below(6) {
                0 | 1 => s.t = dist * r.uni(0.05, 2.0),
                2 => s.o = lo + (hi - lo) * r.vec3(0.1, 0.9),
                3 => s.d = -s.d,
                _ => {}
            }
            if r.chance(0.2) {
                s.tmin = dist * r.uni(0.0, 1.5);
            }
            s
        };
        let rounds = if n > 800 { 10 } else { 24 };
        for k in 0..rounds {
            let s = mk(&mut r);
            let sp = match k % 3 {
                0 => {
                    // only one lane is really there: the others look away with tiny limits
                    let mut x = [s; 4];
                    let keep = r.below(4);
                    for (i, y) in x.iter_mut().enumerate() {
                        if i != keep {
                            *y = mk(&mut r);
                            y.t = r.uni(1e-3, 0.05) * ext / y.d.length();
                        }
                    }
                    x
                }
                1 => {
                    let mut x = [s; 4];
                    for y in x.iter_mut().skip(1) {
                        let p = perturb(&mut r, s.o, s.d, ext);
                        y.o = p.0;
                        y.d = p.1;
                        y.t = s.t;
                    }
                    x
                }
                _ => [s, mk(&mut r), mk(&mut r), mk(&mut r)],
            };
            let one = [s];
            let runs: [(&str, usize, &[RaySpec], Result<Vec<u32>, String>); 4] = [
                ("bvh-ray", 0, &one, bvh_static(&b, &s)),
                ("quad-ray", 1, &one, quad_static(&m, &s)),
                ("bvh-packet", 0, &sp, bvh_static4(&b, &sp)),
                ("quad-packet", 1, &sp, quad_static4(&m, &sp)),
            ];
            let mut some = false;
            for (way, w, rs, got) in runs {
                let d = format!("{desc}: {way}");
                match got {
                    Ok(g) => {
                        some |= !g.is_empty();
                        if let Some(p) = g.iter().find(|p| **p as usize >= n) {
                            cx.fail("unknown-yield", format!("{d}: yields {p} of {n}"));
                            return;
                        }
                        if !check_static(cx, &d, &ss[w], b.indices(), n, rs, g) {
                            return;
                        }
                    }
                    Err(e) => {
                        cx.fail("endless", format!("{d}: {e}"));
                        return;
                    }
                }
            }
            // limits that change between steps
            if unique {
                let mode = r.below(LOWER.len());
                let c = cap(b.indices().len());
                for w in 0..2 {
                    // single ray
                    let mut ray = s.ray();
                    let rp: *mut Ray = &mut ray;
                    let mut ys = vec![];
                    let mut rr = r.clone();
                    macro_rules! go {
                        ($it:expr) => {{
                            let mut it = $it;
                            // the limit can only be read through yielded rays: track it here
                            let mut lim = s.t;
                            while ys.len() < c {
                                let before = lim;
                                match it.next() {
                                    Some((i, y)) => {
                                        ys.push((i, [before, 0.0, 0.0, 0.0]));
                                        match mode {
                                            0 => {
                                                tris[i as usize].intersect(y);
                                            }
                                            1 => y.t = y.t.min(ext * 3.0 / s.d.length()) * rr.uni(0.5, 1.0),
                                            2 => {
                                                if rr.chance(0.3) {
                                                    y.t = 0.0
                                                }
                                            }
                                            _ => y.t = ext / s.d.length() * rr.uni(0.2, 2.0),
                                        }
                                        lim = y.t;
                                    }
                                    None => break,
                                }
                            }
                        }};
                    }
                    // SAFETY: the iterator holds the only use of the ray
                    if w == 0 {
                        go!(b.traverse_iter_indices(unsafe { &mut *rp }))
                    } else {
                        go!(m.traverse_iter_indices(unsafe { &mut *rp }))
                    }
                    let d = format!("{desc}: {} with limits set by {}", ["bvh-ray", "quad-ray"][w], LOWER[mode]);
                    if !check_dynamic(cx, &d, &ss[w], &leaf_of[w], &one, &ys) {
                        return;
                    }
                    // packet
                    let mut pk = packet_of(&sp);
                    let pp: *mut RayPacket4 = &mut pk;
                    let mut ys = vec![];
                    macro_rules! go4 {
                        ($it:expr) => {{
                            let mut it = $it;
                            let mut lim = [sp[0].t, sp[1].t, sp[2].t, sp[3].t];
                            while ys.len() < c {
                                let before = lim;
                                match it.next() {
                                    Some((i, y)) => {
                                        ys.push((i, before));
                                        match mode {
                                            0 => {
                                                tris[i as usize].intersect4(y, glam::Vec4::splat(1e-4));
                                            }
                                            1 => {
                                                for l in 0..4 {
                                                    y.t[l] = y.t[l].min(ext * 3.0 / sp[l].d.length()) * rr.uni(0.5, 1.0);
                                                }
                                            }
                                            2 => y.t[rr.below(4)] = 0.0,
                                            _ => {
                                                let l = rr.below(4);
                                                y.t[l] = ext / sp[l].d.length() * rr.uni(0.2, 2.0);
                                            }
                                        }
                                        lim = y.t.to_array();
                                    }
                                    None => break,
                                }
                            }
                        }};
                    }
                    if w == 0 {
                        go4!(b.traverse_iter_indices_packet(unsafe { &mut *pp }))
                    } else {
                        go4!(m.traverse_iter_indices_packet(unsafe { &mut *pp }))
                    }
                    let d = format!("{desc}: {} with limits set by {}", ["bvh-packet", "quad-packet"][w], LOWER[mode]);
                    if !check_dynamic(cx, &d, &ss[w], &leaf_of[w], &sp, &ys) {
                        return;
                    }
                }
            }
            cx.eval(mix(hash_str(&desc) ^ cx.seed ^ idx << 20 ^ k as u64), some && n > 4);
        }
        cx.sample(|| format!("{desc}: {rounds} rays and packets"));
    });
}
