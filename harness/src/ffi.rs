//! Driving the C API: guarded caller memory, handle views, recording callbacks.
use crate::scene::*;
use glam::Vec3;
use rtbvh::*;
use rtbvh_rs as c;
pub use rtbvh_rs::{BvhType as CType, RTAabb, RTBvh, RTMbvh, ResultCode};
use std::ffi::c_void;

/// Caller memory holding exactly `n` floats. Natively it ends where an
/// inaccessible page begins and starts after canaries.
pub struct Floats {
    ptr: *mut f32,
    n: usize,
    map: *mut c_void,
    map_len: usize,
}

const CANARY: u32 = 0x7fc0_dead;

impl Floats {
    #[cfg(not(miri))]
    pub fn new(v: &[f32]) -> Floats {
        unsafe {
            let page = 4096;
            let bytes = v.len() * 4;
            let body = (bytes + 64 + page - 1) / page * page;
            let map_len = body + page;
            let map = libc::mmap(std::ptr::null_mut(), map_len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(map != libc::MAP_FAILED, "mmap");
            assert_eq!(libc::mprotect((map as *mut u8).add(body) as *mut c_void, page, libc::PROT_NONE), 0);
            let ptr = (map as *mut u8).add(body - bytes) as *mut f32;
            std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len());
            for k in 1..=16 {
                *(ptr.sub(k) as *mut u32) = CANARY;
            }
            Floats { ptr, n: v.len(), map, map_len }
        }
    }
    #[cfg(miri)]
    pub fn new(v: &[f32]) -> Floats {
        // exactly the array itself: Miri checks every access
        let b: Box<[f32]> = v.into();
        let n = b.len();
        Floats { ptr: Box::into_raw(b) as *mut f32, n, map: std::ptr::null_mut(), map_len: 0 }
    }
    pub fn set(&mut self, v: &[f32]) {
        assert_eq!(v.len(), self.n);
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), self.ptr, self.n) }
    }
    pub fn p(&self) -> *const f32 {
        self.ptr
    }
    pub fn m(&mut self) -> *mut f32 {
        self.ptr
    }
    pub fn get(&self) -> Vec<f32> {
        unsafe { std::slice::from_raw_parts(self.ptr, self.n) }.to_vec()
    }
    pub fn bits(&self) -> Vec<u32> {
        self.get().iter().map(|f| f.to_bits()).collect()
    }
    pub fn intact(&self) -> bool {
        if cfg!(miri) {
            return true;
        }
        (1..=16).all(|k| unsafe { *(self.ptr.sub(k) as *const u32) == CANARY })
    }
}

impl Drop for Floats {
    fn drop(&mut self) {
        #[cfg(not(miri))]
        unsafe {
            libc::munmap(self.map, self.map_len);
        }
        #[cfg(miri)]
        unsafe {
            drop(Box::from_raw(std::slice::from_raw_parts_mut(self.ptr, self.n)));
            let _ = (self.map, self.map_len);
        }
    }
}

/// RTAabbs as floats of caller memory; the unused integer fields get `junk`.
pub fn rt_boxes(b: &[Aabb], junk: u32) -> Floats {
    let mut v = Vec::with_capacity(b.len() * 8);
    for (i, b) in b.iter().enumerate() {
        let j = f32::from_bits(if junk == 0 { 0 } else { junk ^ (i as u32 & 7) });
        v.extend([b.min.x, b.min.y, b.min.z, j, b.max.x, b.max.y, b.max.z, j]);
    }
    Floats::new(&v)
}

/// What a C caller sees of a handle.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct View {
    pub id: u32,
    pub node_count: u32,
    pub nodes: *const c_void,
    pub index_count: u32,
    pub indices: *const u32,
}

pub fn view(h: &RTBvh) -> View {
    assert_eq!(std::mem::size_of::<RTBvh>(), std::mem::size_of::<View>());
    unsafe { *(h as *const RTBvh as *const View) }
}
pub fn view_m(h: &RTMbvh) -> View {
    assert_eq!(std::mem::size_of::<RTMbvh>(), std::mem::size_of::<View>());
    unsafe { *(h as *const RTMbvh as *const View) }
}
pub fn handle(v: View) -> RTBvh {
    unsafe { std::mem::transmute(v) }
}
/// A handle variable with content, to see whether a failing call writes to it.
pub fn filled() -> RTBvh {
    handle(View { id: 0xdead_0001, node_count: 77, nodes: 0x1230 as *const c_void, index_count: 88, indices: 0x4560 as *const u32 })
}
pub fn handle_m(v: View) -> RTMbvh {
    unsafe { std::mem::transmute(v) }
}

impl View {
    pub fn nodes(&self) -> &[BvhNode] {
        if self.nodes.is_null() || self.node_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.nodes as *const BvhNode, self.node_count as usize) }
    }
    pub fn quads(&self) -> &[MbvhNode] {
        if self.nodes.is_null() || self.node_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.nodes as *const MbvhNode, self.node_count as usize) }
    }
    pub fn indices(&self) -> &[u32] {
        if self.indices.is_null() || self.index_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.indices, self.index_count as usize) }
    }
    /// Bitwise hash of everything the handle points to.
    pub fn hash(&self, quad: bool) -> u64 {
        let mut h = crate::rng::mix(self.index_count as u64);
        if self.nodes.is_null() {
            return h;
        }
        let w = self.node_count as usize * if quad { 128 } else { 32 } / 4;
        for k in 0..w {
            h = crate::rng::mix(h ^ unsafe { *(self.nodes as *const u32).add(k) } as u64);
        }
        for i in self.indices() {
            h = crate::rng::mix(h ^ *i as u64);
        }
        h
    }
}

/// Caller memory of the intersect functions.
pub struct RayMem {
    pub o: Floats,
    pub d: Floats,
    pub t: Floats,
    pub p: [Floats; 6],
    pub t4: Floats,
}

impl RayMem {
    pub fn new() -> RayMem {
        let f = |n: usize| Floats::new(&vec![0.0; n]);
        RayMem { o: f(3), d: f(3), t: f(1), p: [f(4), f(4), f(4), f(4), f(4), f(4)], t4: f(4) }
    }
    pub fn intact(&self) -> bool {
        self.o.intact() && self.d.intact() && self.t.intact() && self.t4.intact() && self.p.iter().all(|p| p.intact())
    }
}

/// What the callback does and what it saw.
pub struct Rec<'a> {
    pub tag: u64,
    pub lanes: usize,
    pub visits: Vec<u32>,
    /// return true at this visit
    pub stop_at: usize,
    /// value written when stopping
    pub stop_t: f32,
    /// limits left behind by the previous visit
    pub last_t: [u32; 4],
    pub err: Option<String>,
    pub cap: usize,
    pub hit: Option<&'a dyn Fn(u32, &mut [f32])>,
}

pub const TAG: u64 = 0x5eed_ba5e_0dd5_ca11;

impl<'a> Rec<'a> {
    pub fn new(lanes: usize, cap: usize) -> Rec<'a> {
        Rec { tag: TAG, lanes, visits: vec![], stop_at: usize::MAX, stop_t: 0.0, last_t: [0; 4], err: None, cap, hit: None }
    }
}

extern "C" fn record(id: u32, t: *mut f32, user: *mut c_void) -> bool {
    let bad = |m: &str| {
        eprintln!("panic: {m}");
        std::process::abort()
    };
    if user.is_null() || t.is_null() {
        bad("the callback got a null pointer");
    }
    let r = unsafe { &mut *(user as *mut Rec) };
    if r.tag != TAG {
        bad("the callback got other user data than the caller passed");
    }
    let t = unsafe { std::slice::from_raw_parts_mut(t, r.lanes) };
    for (k, x) in t.iter().enumerate() {
        if x.to_bits() != r.last_t[k] && r.err.is_none() {
            r.err = Some(format!("visit {}: limit {k} is {x:e}, the previous visit left {:e}", r.visits.len(), f32::from_bits(r.last_t[k])));
        }
    }
    r.visits.push(id);
    let mut stop = false;
    if r.visits.len() >= r.stop_at {
        if r.visits.len() > r.stop_at && r.err.is_none() {
            r.err = Some("visited another primitive after the callback returned true".into());
        }
        for (k, x) in t.iter_mut().enumerate() {
            *x = r.stop_t + k as f32;
        }
        stop = true;
    } else if let Some(f) = r.hit {
        f(id, t);
    }
    if r.visits.len() > r.cap && r.err.is_none() {
        r.err = Some("endless visits".into());
        stop = true;
    }
    for (k, x) in t.iter().enumerate() {
        r.last_t[k] = x.to_bits();
    }
    stop
}

pub enum Target {
    B(RTBvh),
    M(RTMbvh),
}

/// Calls one of the four intersect functions; returns code and final limits.
pub fn shoot(mem: &mut RayMem, on: &Target, rays: &[crate::rays::RaySpec], rec: &mut Rec) -> (ResultCode, Vec<f32>) {
    rec.visits.clear();
    rec.err = None;
    let user = rec as *mut Rec as *mut c_void;
    if rays.len() == 1 {
        let r = &rays[0];
        mem.o.set(&[r.o.x, r.o.y, r.o.z]);
        mem.d.set(&[r.d.x, r.d.y, r.d.z]);
        mem.t.set(&[r.t]);
        rec.lanes = 1;
        rec.last_t = [r.t.to_bits(); 4];
        let before = (mem.o.bits(), mem.d.bits());
        let rc = unsafe {
            match on {
                Target::B(h) => c::intersect(*h, mem.o.p(), mem.d.p(), mem.t.m(), user, record),
                Target::M(h) => c::intersect_mbvh(*h, mem.o.p(), mem.d.p(), mem.t.m(), user, record),
            }
        };
        if (mem.o.bits(), mem.d.bits()) != before && rec.err.is_none() {
            rec.err = Some("the caller's origin or direction was modified".into());
        }
        let t = mem.t.get();
        return (rc, t);
    }
    for k in 0..3 {
        let o: Vec<f32> = rays.iter().map(|r| r.o[k]).collect();
        let d: Vec<f32> = rays.iter().map(|r| r.d[k]).collect();
        mem.p[k].set(&o);
        mem.p[k + 3].set(&d);
    }
    let t: Vec<f32> = rays.iter().map(|r| r.t).collect();
    mem.t4.set(&t);
    rec.lanes = 4;
    for k in 0..4 {
        rec.last_t[k] = t[k].to_bits();
    }
    let before: Vec<Vec<u32>> = mem.p.iter().map(|p| p.bits()).collect();
    let [ox, oy, oz, dx, dy, dz] = &mem.p;
    let rc = unsafe {
        match on {
            Target::B(h) => c::intersect_packet(*h, ox.p(), oy.p(), oz.p(), dx.p(), dy.p(), dz.p(), mem.t4.ptr, user, record),
            Target::M(h) => c::intersect_mbvh_packet(*h, ox.p(), oy.p(), oz.p(), dx.p(), dy.p(), dz.p(), mem.t4.ptr, user, record),
        }
    };
    if mem.p.iter().map(|p| p.bits()).collect::<Vec<_>>() != before && rec.err.is_none() {
        rec.err = Some("the caller's origins or directions were modified".into());
    }
    (rc, mem.t4.get())
}

/// The Rust primitives that correspond to what the C functions are given.
#[derive(Clone, Copy, Debug)]
pub struct CTri {
    pub c: Vec3,
    pub v: [Vec3; 3],
}
impl Primitive for CTri {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        let mut b = Aabb::empty();
        for v in self.v {
            b.grow(v);
        }
        b
    }
}
impl SpatialTriangle for CTri {
    fn vertex0(&self) -> Vec3 {
        self.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.v[2]
    }
}
#[derive(Clone, Copy, Debug)]
pub struct CPoint(pub Vec3);
impl Primitive for CPoint {
    fn center(&self) -> Vec3 {
        self.0
    }
    fn aabb(&self) -> Aabb {
        let mut b = Aabb::empty();
        b.grow(self.0);
        b
    }
}

/// What lies in the gaps of caller memory: values that show when they are read.
pub fn fill(n: usize) -> Vec<f32> {
    const JUNK: [f32; 8] = [f32::NAN, 2.5, -7.0, f32::INFINITY, 1e30, 0.0, 1.5, -0.25];
    (0..n).map(|i| JUNK[(crate::rng::mix(i as u64 ^ (n as u64) << 32) % 8) as usize]).collect()
}

/// `n` vectors, `stride` bytes apart, the gaps filled with junk; no gap behind the last.
pub fn strided(v: &[Vec3], stride: usize, last_full: bool) -> Vec<f32> {
    let s = stride / 4;
    let mut o = fill(v.len() * s);
    for (i, p) in v.iter().enumerate() {
        o[i * s] = p.x;
        o[i * s + 1] = p.y;
        o[i * s + 2] = p.z;
    }
    if !last_full && !v.is_empty() {
        o.truncate((v.len() - 1) * s + 3);
    }
    o
}

pub fn ctype(k: Kind) -> CType {
    if k == Kind::Locb {
        CType::LocallyOrderedClustered
    } else {
        CType::BinnedSAH
    }
}
