//! Every way to obtain a traversal, drained under a few online checks.
use crate::{rays::*, scene::*, trav::*};
use rtbvh::*;

pub type R = Result<Vec<u32>, String>;

pub fn ray_bits(r: &Ray) -> [u32; 8] {
    [r.origin.x.to_bits(), r.origin.y.to_bits(), r.origin.z.to_bits(), r.t_min.to_bits(), r.direction.x.to_bits(), r.direction.y.to_bits(), r.direction.z.to_bits(), r.t.to_bits()]
}
pub fn pk_bits(p: &RayPacket4) -> Vec<u32> {
    [p.origin_x, p.origin_y, p.origin_z, p.direction_x, p.direction_y, p.direction_z, p.t].iter().flat_map(|v| v.to_array()).map(|f| f.to_bits()).collect()
}

/// Drains a front end; every yielded ray must be the caller's, unchanged; an
/// exhausted traversal must stay exhausted.
pub fn drain<X, Y>(mut it: impl Iterator<Item = (X, Y)>, cap: usize, mut id: impl FnMut(X) -> Result<u32, String>, mut ok: impl FnMut(Y) -> bool) -> R {
    let mut v = vec![];
    loop {
        match it.next() {
            Some((x, y)) => {
                v.push(id(x)?);
                if !ok(y) {
                    return Err("the yielded ray differs from the caller's".into());
                }
                if v.len() > cap {
                    return Err(ENDLESS.into());
                }
            }
            None => break,
        }
    }
    for _ in 0..6 {
        if it.next().is_some() {
            return Err("an exhausted traversal yields again".into());
        }
    }
    Ok(v)
}

pub fn pos_in<T>(prims: &[T], p: &T) -> Result<u32, String> {
    let (a, b) = (prims.as_ptr() as usize, p as *const T as usize);
    let sz = std::mem::size_of::<T>();
    if b < a || (b - a) % sz != 0 || (b - a) / sz >= prims.len() {
        return Err("yielded primitive is not an element of the slice".into());
    }
    Ok(((b - a) / sz) as u32)
}

pub fn ends(b: &Bvh, m: &Mbvh, s: &RaySpec, prims: &[Tri], quad: bool) -> Vec<(&'static str, bool, R)> {
    ends_ray(b, m, &s.ray(), prims, quad)
}

pub fn ends_ray(b: &Bvh, m: &Mbvh, s: &Ray, prims: &[Tri], quad: bool) -> Vec<(&'static str, bool, R)> {
    let c = cap(b.indices().len());
    let want = ray_bits(s);
    let ok = |r: &mut Ray| ray_bits(r) == want;
    let mut out: Vec<(&'static str, bool, R)> = vec![];
    let pid = |p: &Tri| pos_in(prims, p);
    macro_rules! go {
        ($name:expr, prim, $it:expr) => {{
            let mut ray = *s;
            let x = drain($it(&mut ray), c, pid, ok);
            let x = if ray_bits(&ray) != want { Err("traversal changed the ray".into()) } else { x };
            out.push(($name, true, x));
        }};
        ($name:expr, index, $it:expr) => {{
            let mut ray = *s;
            let x = drain($it(&mut ray), c, |i: u32| Ok(i), ok);
            let x = if ray_bits(&ray) != want { Err("traversal changed the ray".into()) } else { x };
            out.push(($name, false, x));
        }};
    }
    if !quad {
        go!("Bvh::traverse_iter", prim, |r| b.traverse_iter(r, prims));
        go!("Bvh::traverse_iter_indices", index, |r| b.traverse_iter_indices(r));
        go!("IntoRayIterator for Bvh", prim, |r| IntoRayIterator::iter(b, r, prims));
        go!("IntoRayIndexIterator for Bvh", index, |r| IntoRayIndexIterator::iter(b, r));
        go!("BvhIterator::new", prim, |r| BvhIterator::new(r, b, prims));
        go!("BvhIterator::from_slices", prim, |r| BvhIterator::from_slices(r, b.nodes(), b.indices(), prims));
        go!("BvhIndexIterator::new", index, |r| BvhIndexIterator::new(r, b));
        go!("BvhIndexIterator::from_slices", index, |r| BvhIndexIterator::from_slices(r, b.nodes(), b.indices()));
    } else {
        go!("Mbvh::traverse_iter", prim, |r| m.traverse_iter(r, prims));
        go!("Mbvh::traverse_iter_indices", index, |r| m.traverse_iter_indices(r));
        go!("IntoRayIterator for Mbvh", prim, |r| IntoRayIterator::iter(m, r, prims));
        go!("IntoRayIndexIterator for Mbvh", index, |r| IntoRayIndexIterator::iter(m, r));
        go!("MbvhIterator::new", prim, |r| MbvhIterator::new(r, m, prims));
        go!("MbvhIterator::from_slices", prim, |r| MbvhIterator::from_slices(r, m.quad_nodes(), m.indices(), prims));
        go!("MbvhIndexIterator::new", index, |r| MbvhIndexIterator::new(r, m));
        go!("MbvhIndexIterator::from_slices", index, |r| MbvhIndexIterator::from_slices(r, m.quad_nodes(), m.indices()));
    }
    out
}

pub fn ends4(b: &Bvh, m: &Mbvh, s: &[RaySpec; 4], prims: &[Tri], quad: bool) -> Vec<(&'static str, bool, R)> {
    ends_packet(b, m, &packet_of(s), prims, quad)
}

pub fn ends_packet(b: &Bvh, m: &Mbvh, s: &RayPacket4, prims: &[Tri], quad: bool) -> Vec<(&'static str, bool, R)> {
    let c = cap(b.indices().len());
    let want = pk_bits(s);
    let ok = |r: &mut RayPacket4| pk_bits(r) == want;
    let mut out: Vec<(&'static str, bool, R)> = vec![];
    let pid = |p: &Tri| pos_in(prims, p);
    macro_rules! go {
        ($name:expr, prim, $it:expr) => {{
            let mut ray = *s;
            let x = drain($it(&mut ray), c, pid, ok);
            let x = if pk_bits(&ray) != want { Err("traversal changed the packet".into()) } else { x };
            out.push(($name, true, x));
        }};
        ($name:expr, index, $it:expr) => {{
            let mut ray = *s;
            let x = drain($it(&mut ray), c, |i: u32| Ok(i), ok);
            let x = if pk_bits(&ray) != want { Err("traversal changed the packet".into()) } else { x };
            out.push(($name, false, x));
        }};
    }
    if !quad {
        go!("Bvh::traverse_iter_packet", prim, |r| b.traverse_iter_packet(r, prims));
        go!("Bvh::traverse_iter_indices_packet", index, |r| b.traverse_iter_indices_packet(r));
        go!("IntoPacketIterator for Bvh", prim, |r| IntoPacketIterator::iter(b, r, prims));
        go!("IntoPacketIndexIterator for Bvh", index, |r| IntoPacketIndexIterator::iter(b, r));
        go!("BvhPacketIterator::new", prim, |r| BvhPacketIterator::new(r, b, prims));
        go!("BvhPacketIterator::from_slices", prim, |r| BvhPacketIterator::from_slices(r, b.nodes(), b.indices(), prims));
        go!("BvhPacketIndexIterator::new", index, |r| BvhPacketIndexIterator::new(r, b));
        go!("BvhPacketIndexIterator::from_slices", index, |r| BvhPacketIndexIterator::from_slices(r, b.nodes(), b.indices()));
    } else {
        go!("Mbvh::traverse_iter_packet", prim, |r| m.traverse_iter_packet(r, prims));
        go!("Mbvh::traverse_iter_indices_packet", index, |r| m.traverse_iter_indices_packet(r));
        go!("IntoPacketIterator for Mbvh", prim, |r| IntoPacketIterator::iter(m, r, prims));
        go!("IntoPacketIndexIterator for Mbvh", index, |r| IntoPacketIndexIterator::iter(m, r));
        go!("MbvhPacketIterator::new", prim, |r| MbvhPacketIterator::new(r, m, prims));
        go!("MbvhPacketIterator::from_slices", prim, |r| MbvhPacketIterator::from_slices(r, m.quad_nodes(), m.indices(), prims));
        go!("MbvhPacketIndexIterator::new", index, |r| MbvhPacketIndexIterator::new(r, m));
        go!("MbvhPacketIndexIterator::from_slices", index, |r| MbvhPacketIndexIterator::from_slices(r, m.quad_nodes(), m.indices()));
    }
    out
}

