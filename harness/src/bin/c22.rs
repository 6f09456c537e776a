//! C22: saved structures load back identical.
use glam::{Vec3, Vec4};
use rtbvh::*;
use serde::{de::DeserializeOwned, Serialize};
use vh::{fronts::*, rays::*, rng::*, run::*, scene::*, trav::*};

const FORMATS: [&str; 4] = ["bincode", "cbor", "json", "json-value"];

fn save<T: Serialize>(f: usize, x: &T) -> Result<Vec<u8>, String> {
    match f {
        0 => bincode::serialize(x).map_err(|e| e.to_string()),
        1 => {
            let mut v = vec![];
            ciborium::ser::into_writer(x, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        2 => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
        _ => serde_json::to_value(x).and_then(|v| serde_json::to_vec(&v)).map_err(|e| e.to_string()),
    }
}

fn load<T: DeserializeOwned>(f: usize, v: &[u8]) -> Result<T, String> {
    match f {
        0 => bincode::deserialize(v).map_err(|e| e.to_string()),
        1 => ciborium::de::from_reader(v).map_err(|e| e.to_string()),
        2 => serde_json::from_slice(v).map_err(|e| e.to_string()),
        _ => serde_json::from_slice::<serde_json::Value>(v).and_then(|x| serde_json::from_value(x)).map_err(|e| e.to_string()),
    }
}

/// Saves, loads, compares, saves again.
fn trip<T: Serialize + DeserializeOwned>(cx: &mut Ctx, what: &str, desc: &str, f: usize, x: &T, differs: impl Fn(&T, &T) -> Option<String>) -> Option<T> {
    let fm = FORMATS[f];
    let bytes = match save(f, x) {
        Ok(b) => b,
        Err(e) => {
            cx.fail(format!("{what}:save"), format!("{desc}: {fm}: {e}"));
            return None;
        }
    };
    let y: T = match load(f, &bytes) {
        Ok(y) => y,
        Err(e) => {
            cx.fail(format!("{what}:load"), format!("{desc}: {fm}: {e}"));
            return None;
        }
    };
    if let Some(d) = differs(x, &y) {
        cx.fail(format!("{what}:differs"), format!("{desc}: {fm}: {d}"));
        return None;
    }
    match save(f, &y) {
        Ok(b) if b == bytes => {}
        Ok(_) => {
            cx.fail(format!("{what}:resave"), format!("{desc}: {fm}: saving the loaded value gives other bytes"));
            return None;
        }
        Err(e) => {
            cx.fail(format!("{what}:resave"), format!("{desc}: {fm}: {e}"));
            return None;
        }
    }
    cx.count(&format!("{what}_round_trips"), 1);
    cx.count("bytes", bytes.len() as u64);
    Some(y)
}

fn bytes<T>(v: &[T]) -> &[u8] {
    // SAFETY: node types without padding (asserted in main)
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }
}

fn bvh_diff(a: &Bvh, b: &Bvh) -> Option<String> {
    if a.nodes().len() != b.nodes().len() {
        return Some(format!("{} nodes, loaded {}", a.nodes().len(), b.nodes().len()));
    }
    if bytes(a.nodes()) != bytes(b.nodes()) {
        let i = (0..a.nodes().len()).find(|i| bytes(&a.nodes()[*i..i + 1]) != bytes(&b.nodes()[*i..i + 1])).unwrap();
        return Some(format!("node {i} is {}, loaded {}", a.nodes()[i], b.nodes()[i]));
    }
    if a.indices() != b.indices() {
        return Some("indices differ".into());
    }
    if a.build_type() != b.build_type() {
        return Some(format!("build type {:?}, loaded {:?}", a.build_type(), b.build_type()));
    }
    if a.prim_count() != b.prim_count() {
        return Some("primitive counts differ".into());
    }
    None
}

fn quad_diff(a: &Mbvh, b: &Mbvh) -> Option<String> {
    if bytes(a.nodes()) != bytes(b.nodes()) {
        return Some("source nodes differ".into());
    }
    if a.quad_nodes().len() != b.quad_nodes().len() {
        return Some(format!("{} quad nodes, loaded {}", a.quad_nodes().len(), b.quad_nodes().len()));
    }
    if bytes(a.quad_nodes()) != bytes(b.quad_nodes()) {
        return Some("quad nodes differ".into());
    }
    if a.indices() != b.indices() || a.prim_count() != b.prim_count() {
        return Some("indices differ".into());
    }
    None
}

fn aabb_bits(b: &Aabb) -> Vec<u32> {
    vec![b.min.x.to_bits(), b.min.y.to_bits(), b.min.z.to_bits(), b.extra1 as u32, b.max.x.to_bits(), b.max.y.to_bits(), b.max.z.to_bits(), b.extra2 as u32]
}

/// JSON has no way to write infinities and NaN.
fn json_ok(f: usize, v: &[f32]) -> bool {
    f < 2 || v.iter().all(|x| x.is_finite())
}

fn wild(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::MIN_POSITIVE * r.uni(0.0, 1.0),
        3 => r.pick(&[f32::MAX, f32::MIN, 1e34, -1e34, f32::EPSILON]),
        4 => loop {
            let x = f32::from_bits(r.u64() as u32);
            if x.is_finite() {
                break x;
            }
        },
        5 => r.range(0, 1000) as f32,
        _ => r.uni(-100.0, 100.0),
    }
}

fn main() {
    assert_eq!(std::mem::size_of::<BvhNode>(), 32);
    assert_eq!(std::mem::size_of::<MbvhNode>(), 128);
    run("C22", 160, 1600, |cx| {
        let mut r = cx.rng();
        let idx = cx.idx;
        let case = std_case(&mut r, idx, 1500);
        let mut desc = case.desc.clone();
        let tris = &case.scene.tris;
        let n = tris.len();
        let (mut b, empty) = if idx % 16 == 15 { (Bvh::default(), true) } else { (case.build().unwrap_or_default(), false) };
        if empty {
            desc = "empty".into();
        } else if b.nodes().is_empty() {
            cx.fail("build-error", desc);
            return;
        }
        if idx % 6 == 2 && !empty {
            b.refit(&case.eff());
            desc += " refitted";
        }
        let m = Mbvh::construct(&b);
        let f = (idx % 4) as usize;
        let (lb, lm) = match (trip(cx, "bvh", &desc, f, &b, bvh_diff), trip(cx, "quad-bvh", &desc, f, &m, quad_diff)) {
            (Some(x), Some(y)) => (x, y),
            _ => return,
        };
        // across formats
        let g = r.below(4);
        if let Some(x) = trip(cx, "bvh", &desc, g, &lb, bvh_diff) {
            if let Some(d) = bvh_diff(&b, &x) {
                cx.fail("bvh:differs", format!("{desc}: {} then {}: {d}", FORMATS[f], FORMATS[g]));
                return;
            }
        }
        // the quad BVH of the loaded BVH is that of the original
        if let Some(d) = quad_diff(&m, &Mbvh::construct(&lb)) {
            cx.fail("loaded-conversion", format!("{desc}: {}: {d}", FORMATS[f]));
            return;
        }
        if !lb.validate(if empty { 0 } else { n }) {
            cx.fail("loaded-validate", format!("{desc}: {}", FORMATS[f]));
            return;
        }
        // same traversals, in the same order
        let (lo, hi) = case.scene.bounds();
        let mut yields = 0;
        for k in 0..12 {
            let mut mk = || {
                let t = r.below(n);
                let tg = inner_point(&mut r, &tris[t]);
                gen_ray(&mut r, lo, hi, Some(tg))
            };
            let s = mk();
            let sp = [mk(), mk(), mk(), mk()];
            let mut ray = s.ray();
            if k % 3 != 0 {
                ray.t_min = r.pick(&[0.0f32, 1e-6, 0.5, 3.25, -1.0, 1e10]);
            }
            let pk = packet_of(&sp);
            // the ray and packet, saved and loaded as well
            let inv = [1.0 / s.d.x, 1.0 / s.d.y, 1.0 / s.d.z];
            let rd = |a: &Ray, b: &Ray| {
                if a != b || ray_bits(a) != ray_bits(b) {
                    Some(format!("{a:?}, loaded {b:?}"))
                } else {
                    None
                }
            };
            let fr = if json_ok(f, &inv) { f } else { f % 2 };
            let lr = match trip(cx, "ray", &desc, fr, &ray, rd) {
                Some(x) => x,
                None => return,
            };
            let pd = |a: &RayPacket4, b: &RayPacket4| {
                if pk_bits(a) != pk_bits(b)
                    || [(a.inv_direction_x, b.inv_direction_x), (a.inv_direction_y, b.inv_direction_y), (a.inv_direction_z, b.inv_direction_z)]
                        .iter()
                        .any(|(x, y)| x.to_array().map(f32::to_bits) != y.to_array().map(f32::to_bits))
                {
                    Some(format!("{a:?}, loaded {b:?}"))
                } else {
                    None
                }
            };
            let invs: Vec<f32> = sp.iter().flat_map(|s| [1.0 / s.d.x, 1.0 / s.d.y, 1.0 / s.d.z]).collect();
            let fp = if json_ok(f, &invs) { f } else { f % 2 };
            let lp = match trip(cx, "packet", &desc, fp, &pk, pd) {
                Some(x) => x,
                None => return,
            };
            for quad in [false, true] {
                let want = ends_ray(&b, &m, &ray, tris, quad);
                let got = ends_ray(&lb, &lm, &lr, tris, quad);
                let want4 = ends_packet(&b, &m, &pk, tris, quad);
                let got4 = ends_packet(&lb, &lm, &lp, tris, quad);
                for (w, g) in want.iter().zip(&got).chain(want4.iter().zip(&got4)) {
                    if w.2 != g.2 {
                        cx.fail("traversal", format!("{desc}: {}: {} yields {:?} items, on the loaded structure {:?}", FORMATS[f], w.0, w.2.as_ref().map(|v| v.len()), g.2.as_ref().map(|v| v.len())));
                        return;
                    }
                    yields += w.2.as_ref().map(|v| v.len()).unwrap_or(0);
                }
            }
            // closest hits, and single box and triangle tests
            let same = |a: Result<f32, String>, b: Result<f32, String>| a.map(f32::to_bits) == b.map(f32::to_bits);
            if !same(bvh_closest(&b, &s, tris), bvh_closest(&lb, &s, tris)) || !same(quad_closest(&m, &s, tris), quad_closest(&lm, &s, tris)) {
                cx.fail("closest", format!("{desc}: {}: {s:?}", FORMATS[f]));
                return;
            }
            for t in 0..4.min(n) {
                let t = &tris[(t * 7 + k) % n];
                let bb = t.exact_aabb();
                let (mut r1, mut r2) = (ray, lr);
                let (mut p1, mut p2) = (pk, lp);
                let tm = Vec4::splat(1e-4);
                if bb.intersect(&r1).map(f32::to_bits) != bb.intersect(&r2).map(f32::to_bits)
                    || bb.intersects(&r1) != bb.intersects(&r2)
                    || bb.intersect4(&p1).map(|x| x.map(f32::to_bits)) != bb.intersect4(&p2).map(|x| x.map(f32::to_bits))
                    || t.intersect(&mut r1) != t.intersect(&mut r2)
                    || t.intersect4(&mut p1, tm) != t.intersect4(&mut p2, tm)
                    || r1 != r2
                    || pk_bits(&p1) != pk_bits(&p2)
                {
                    cx.fail("loaded-ray", format!("{desc}: {}: {s:?} {sp:?} behave differently once loaded", FORMATS[f]));
                    return;
                }
            }
        }
        cx.count("yields_compared", yields as u64);
        // single nodes and boxes with arbitrary content
        for _ in 0..40 {
            let mut bb = mk_aabb(Vec3::new(wild(&mut r), wild(&mut r), wild(&mut r)), Vec3::new(wild(&mut r), wild(&mut r), wild(&mut r)));
            bb.extra1 = r.u64() as i32;
            bb.extra2 = r.pick(&[i32::MIN, i32::MAX, -1, 0, 7]);
            let ad = |a: &Aabb, b: &Aabb| if aabb_bits(a) != aabb_bits(b) { Some(format!("{a:?}, loaded {b:?}")) } else { None };
            if trip(cx, "aabb", "box", f, &bb, ad).is_none() {
                return;
            }
            let mut nd = BvhNode::new();
            nd.bounds = bb;
            let nd_d = |a: &BvhNode, b: &BvhNode| if aabb_bits(&a.bounds) != aabb_bits(&b.bounds) { Some(format!("{a}, loaded {b}")) } else { None };
            if trip(cx, "node", "node", f, &nd, nd_d).is_none() {
                return;
            }
            let mut q = MbvhNode::new();
            for l in 0..4 {
                q.set_bounds(l, &[wild(&mut r), wild(&mut r), wild(&mut r)], &[wild(&mut r), wild(&mut r), wild(&mut r)]);
                q.children[l] = r.u64() as i32;
                q.counts[l] = r.u64() as i32;
            }
            let qd = |a: &MbvhNode, b: &MbvhNode| if bytes(std::slice::from_ref(a)) != bytes(std::slice::from_ref(b)) { Some(format!("{a:?}, loaded {b:?}")) } else { None };
            if trip(cx, "quad-node", "quad node", f, &q, qd).is_none() {
                return;
            }
            let mut af = Aabb::<f32>::new();
            af.min = bb.min;
            af.max = bb.max;
            af.extra1 = wild(&mut r);
            af.extra2 = wild(&mut r);
            let fd = |a: &Aabb<f32>, b: &Aabb<f32>| {
                if a.extra1.to_bits() != b.extra1.to_bits() || a.extra2.to_bits() != b.extra2.to_bits() || a.min != b.min || a.max != b.max {
                    Some(format!("{a:?}, loaded {b:?}"))
                } else {
                    None
                }
            };
            if trip(cx, "aabb-f32", "box", f, &af, fd).is_none() {
                return;
            }
        }
        for ty in [BuildType::None, BuildType::LocallyOrderedClustered, BuildType::BinnedSAH, BuildType::Spatial] {
            if trip(cx, "build-type", "build type", f, &ty, |a, b| if a != b { Some(format!("{a:?}, loaded {b:?}")) } else { None }).is_none() {
                return;
            }
        }
        cx.eval(mix(case.hash() ^ f as u64), yields > 0 && n > 4);
        cx.sample(|| format!("{desc}: {} then {}", FORMATS[f], FORMATS[g]));
    });
}
