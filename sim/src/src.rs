//! The one source of every choice of a run: a seeded PRNG whose draws are recorded, or a recorded
//! list of draws played back (each clamped to what is asked for). Shrinking edits that list.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for ch in out.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()]);
        }
    }
}

/// Expand a 64 bit value to n bytes
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    Rng(mix(seed)).fill(&mut v);
    v
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
    stack: Vec<u32>,
    /// the main stream of a run is spilled, streams derived from it are not
    pub spilled: bool,
}

/// Where draws are copied to as they are made, so that they survive the end of the process: count,
/// then values
static SPILL: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub fn spill_to(p: *mut u64) {
    unsafe { *p = 0 };
    SPILL.store(p, std::sync::atomic::Ordering::SeqCst);
}

pub const MAX_DRAWS: usize = 200_000;

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { rng: Rng(seed), replay: None, rec: vec![], spans: vec![], stack: vec![], spilled: false }
    }
    pub fn replaying(choices: Vec<u64>) -> Src {
        Src { rng: Rng(0), replay: Some(choices), rec: vec![], spans: vec![], stack: vec![], spilled: false }
    }

    /// Uniform in 0..n. 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                if n == 1 {
                    0
                } else {
                    ((self.rng.next() as u128 * n as u128) >> 64) as u64
                }
            }
        };
        let p = SPILL.load(std::sync::atomic::Ordering::Relaxed);
        if !p.is_null() && self.spilled && self.rec.len() < MAX_DRAWS {
            unsafe {
                *p.add(1 + self.rec.len()) = v;
                *p = self.rec.len() as u64 + 1;
            }
        }
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usr(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// index with probability proportional to its weight
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    /// A number that is mostly small and sometimes large, at most max
    pub fn small(&mut self, max: u64) -> u64 {
        let caps = [2u64, 5, 12, 40, 200, max];
        let c = caps[self.weighted(&[6, 6, 4, 3, 2, 1])].min(max);
        self.below(c + 1)
    }
    /// n bytes: zeros, ones, one bit, or pseudo random
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.weighted(&[1, 1, 1, 12]) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let b = self.us(n * 8);
                    v[b / 8] |= 0x80 >> (b % 8);
                }
                v
            }
            _ => {
                let s = self.u64();
                expand(s, n)
            }
        }
    }
    pub fn random(&mut self, n: usize) -> Vec<u8> {
        let s = self.u64();
        expand(s, n)
    }
    pub fn begin(&mut self) {
        self.stack.push(self.rec.len() as u32);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.stack.pop() {
            let e = self.rec.len() as u32;
            if e > s {
                self.spans.push((s, e));
            }
        }
    }
    /// Loop guard: go round again? Each iteration should sit in a span so that it can be deleted
    pub fn again(&mut self, num: u64, den: u64) -> bool {
        self.rec.len() < MAX_DRAWS && self.chance(num, den)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 leaves the order alone
            let j = i - self.us(i + 1);
            xs.swap(i, j);
        }
    }
}
