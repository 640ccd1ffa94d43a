//! The tape: every random choice of a case is one recorded draw. Replaying the
//! recorded draws replays the case; editing them (see `shrink`) shrinks it.

pub struct Tape {
    pub rec: Vec<u32>,
    src: Src,
    pos: usize,
}

enum Src {
    Rng(u64, u64),
    Replay(Vec<u32>),
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Tape {
    pub fn random(prop: &str, seed: u64, case: u64) -> Tape {
        let mut s = hash_str(prop) ^ seed.wrapping_mul(0xD1342543DE82EF95) ^ case.wrapping_mul(0xA24BAED4963EE407);
        let a = splitmix(&mut s);
        Tape { rec: vec![], src: Src::Rng(a ^ case, 0), pos: 0 }
    }
    pub fn replay(v: Vec<u32>) -> Tape {
        Tape { rec: vec![], src: Src::Replay(v), pos: 0 }
    }
    /// A draw in 0..n; 0 is the simplest value.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Src::Rng(s, _) => ((splitmix(s) >> 11) % n as u64) as u32,
            Src::Replay(v) => v.get(self.pos).map(|x| (*x as usize % n) as u32).unwrap_or(0),
        };
        self.pos += 1;
        self.rec.push(v);
        v as usize
    }
    pub fn u32(&mut self) -> u32 {
        let hi = self.below(1 << 16) as u32;
        let lo = self.below(1 << 16) as u32;
        hi << 16 | lo
    }
    /// true with probability num/den; false is the simple value
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let d = self.below(den);
        d >= den - num.min(den)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index by weights; the first entry is the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut d = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if d < *x {
                return i;
            }
            d -= x;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Greedy tape shrinker. `fails` says whether the edited tape still fails the same way.
pub fn shrink(mut best: Vec<u32>, mut budget: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                budget -= 1;
                if fails(&c) {
                    best = c;
                    improved = true;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) && budget > 0 {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 || budget == 0 {
                break;
            }
            size = (size / 2).max(1);
        }
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] > 1 {
                for v in [1, best[i] / 2, best[i] - 1] {
                    if v >= best[i] || budget == 0 {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
