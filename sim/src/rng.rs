//! The one source of nondeterminism: every schedule, fault and payload choice of
//! a simulated run is a `draw`. A run is a pure function of its tape.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Src {
    state: Option<u64>,
    pub tape: Vec<u64>,
    pos: usize,
    /// draws after which everything reads as 0 (keeps runs bounded)
    pub limit: usize,
    /// when set, draws are also written through to this file (abort diagnosis)
    pub spill: Option<std::fs::File>,
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { state: Some(seed), tape: Vec::new(), pos: 0, limit: 400_000, spill: None }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { state: None, tape, pos: 0, limit: 400_000, spill: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// a value in 0..n; 0 is always the simplest choice
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.state.as_mut() {
            Some(st) => {
                let v = if self.pos >= self.limit {
                    0
                } else {
                    *st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    let r = mix(*st);
                    ((r as u128 * n as u128) >> 64) as u64
                };
                self.tape.push(v);
                if let Some(f) = self.spill.as_mut() {
                    use std::io::Write;
                    let _ = f.write_all(&v.to_le_bytes());
                }
                v
            }
            None => match self.tape.get(self.pos) {
                Some(v) => *v % n,
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        (self.draw(1 << 32) << 32) | self.draw(1 << 32)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den);
        v >= den - num.min(den) && num > 0
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// index chosen by weight; index 0 is the simple choice
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut v = self.draw(tot.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
}
