/// SplitMix64-seeded xoshiro256**. One integer decides everything.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Derive an independent seed from a seed and a path of labels.
pub fn derive(seed: u64, parts: &[u64]) -> u64 {
    let mut x = seed ^ 0xA5A5_5A5A_1234_8765;
    let mut out = splitmix(&mut x);
    for p in parts {
        x = out ^ p.wrapping_mul(0xD6E8FEB86659FD93);
        out = splitmix(&mut x);
    }
    out
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &n) in w.iter().enumerate() {
            if x < n {
                return i;
            }
            x -= n;
        }
        unreachable!()
    }
}

/// Source of scheduling decisions: either a PRNG (recording) or a list being
/// replayed. Past the end of a replayed list every choice is 0.
#[derive(Clone, Debug)]
pub struct Chooser {
    rng: Option<Rng>,
    list: Vec<u32>,
    pos: usize,
}

impl Chooser {
    pub fn seeded(seed: u64) -> Self {
        Chooser { rng: Some(Rng::new(seed)), list: Vec::new(), pos: 0 }
    }
    pub fn replay(list: Vec<u32>) -> Self {
        Chooser { rng: None, list, pos: 0 }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        match &mut self.rng {
            Some(r) => {
                let c = r.below(n);
                self.list.push(c as u32);
                c
            }
            None => {
                let c = self.list.get(self.pos).copied().unwrap_or(0) as usize;
                self.pos += 1;
                c % n
            }
        }
    }
    pub fn taken(&self) -> &[u32] {
        &self.list
    }
}
