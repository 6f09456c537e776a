//! Perturbing thread schedules: delays at the library's scheduling points and
//! inside primitive callbacks, CPU affinity, thread pools.
use crate::rng::*;
use crate::scene::*;
use glam::Vec3;
use rtbvh::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

pub static SEED: AtomicU64 = AtomicU64::new(0);
pub static MODE: AtomicUsize = AtomicUsize::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static POINTS: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

fn nap(x: u64) {
    match x % 16 {
        0..=3 => std::thread::yield_now(),
        4 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 63)),
        5..=7 => {
            for _ in 0..(x >> 8 & 1023) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// Called by the library (cfg rtbvh_verif) at task starts and node allocations.
pub fn point(id: u32) {
    POINTS[(id & 3) as usize].fetch_add(1, Relaxed);
    let m = MODE.load(Relaxed);
    if m == 0 {
        return;
    }
    let c = COUNT.fetch_add(1, Relaxed);
    let x = mix(SEED.load(Relaxed) ^ mix(c));
    match m {
        1 => nap(x),
        2 => {
            if x & 1 == 0 {
                std::thread::yield_now()
            }
        }
        _ => {
            // whole phases of slowness for whoever comes by
            if (c / 8) % 3 == 0 {
                std::thread::sleep(std::time::Duration::from_micros(20));
            }
        }
    }
}

pub fn callback() {
    let m = MODE.load(Relaxed);
    if m == 0 {
        return;
    }
    let c = COUNT.fetch_add(1, Relaxed);
    let x = mix(SEED.load(Relaxed) ^ mix(c ^ 0xabcdef));
    if x % 64 == 0 {
        nap(x >> 8);
    }
}

/// A triangle whose callbacks take irregular time.
#[derive(Clone, Copy, Debug)]
pub struct SlowTri(pub Tri);
impl Primitive for SlowTri {
    fn center(&self) -> Vec3 {
        callback();
        self.0.center()
    }
    fn aabb(&self) -> Aabb {
        callback();
        self.0.aabb()
    }
}
impl SpatialTriangle for SlowTri {
    fn vertex0(&self) -> Vec3 {
        callback();
        self.0.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.0.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.0.v[2]
    }
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &s)).collect()
    }
}

pub fn set_cpus(c: &[usize]) -> bool {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        for &i in c {
            libc::CPU_SET(i, &mut s);
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s) == 0
    }
}
