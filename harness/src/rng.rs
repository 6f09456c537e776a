//! Small deterministic PRNG (splitmix64) - every random choice of the harness
//! derives from (VERIF_SEED, property, case index).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0x1234_5678, s.as_bytes())
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xD1B5_4A32_D192_ED03))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f32, hi: f32) -> f32 {
        (lo as f64 + self.f64() * (hi as f64 - lo as f64)) as f32
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn vec3(&mut self, lo: f32, hi: f32) -> glam::Vec3 {
        glam::Vec3::new(self.uni(lo, hi), self.uni(lo, hi), self.uni(lo, hi))
    }
    pub fn unit(&mut self) -> glam::Vec3 {
        loop {
            let v = self.vec3(-1.0, 1.0);
            let l = v.length();
            if l > 0.1 && l <= 1.0 {
                return v / l;
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
