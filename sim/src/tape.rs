//! Choice tape: every nondeterministic decision of a simulated run is drawn from here.
//! A run is a pure function of (property, tape). A seed generates a tape lazily; a replay
//! file carries the recorded tape. Choice 0 is always the simplest choice, so that zeroing
//! and deleting entries minimises schedules, faults and inputs alike.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
}

pub struct Tape {
    rng: Option<Rng>,
    input: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), input: vec![], pos: 0, rec: Vec::with_capacity(4096) }
    }
    pub fn from_data(data: Vec<u32>) -> Self {
        Tape { rng: None, input: data, pos: 0, rec: Vec::with_capacity(4096) }
    }
    /// 0..n (n >= 1)
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            None => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                (v as u64 % n as u64) as u32
            }
        };
        self.rec.push(v);
        v as usize
    }
    /// true with probability num/den; choice 0 = false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        if num == 0 {
            return false;
        }
        self.pick(den) >= den - num.min(den)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick(hi - lo + 1)
    }
    pub fn raw(&mut self) -> u32 {
        self.pick(u32::MAX as usize) as u32
    }
    pub fn choose<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    /// weighted index; weight of index 0 should be the simplest
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.pick(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// Fisher-Yates; all-zero choices = identity
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.pick(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
