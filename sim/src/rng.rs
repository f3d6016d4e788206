//! The only source of choice: one PRNG, or a recorded tape of its draws.

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0xA5A5_5A5A_1234_5678))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

static SPILL: std::sync::Mutex<Option<(std::fs::File, std::fs::File)>> = std::sync::Mutex::new(None);
static SPILLING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// write every draw and trace line out at once (for runs that may not return)
pub fn spill_to(path: &str) {
    let f = |e: &str| std::fs::File::create(format!("{}.{}", path, e)).ok();
    if let (Some(a), Some(b)) = (f("tape"), f("trace")) {
        *SPILL.lock().unwrap() = Some((a, b));
        SPILLING.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}
fn spill(text: &str, trace: bool) {
    use std::io::Write;
    if SPILLING.load(std::sync::atomic::Ordering::Relaxed) {
        if let Some((a, b)) = &mut *SPILL.lock().unwrap() {
            let _ = if trace { writeln!(b, "{}", text) } else { write!(a, "{} ", text) };
        }
    }
}
pub fn spill_note(line: &str) {
    spill(line, true)
}

/// Draws are recorded on a tape; a replay reads the tape instead of the PRNG
/// (missing entries read as 0, entries out of range are reduced).
pub struct Src {
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pos: usize,
    /// not part of the recorded run
    quiet: bool,
}

impl Src {
    pub fn record(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: Vec::with_capacity(1024), pos: 0, quiet: false }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { rng: None, tape, pos: 0, quiet: false }
    }
    pub fn quiet(mut self) -> Src {
        self.quiet = true;
        self
    }
    pub fn mark(&self) -> usize {
        self.pos
    }
    /// the choices made since the mark
    pub fn since(&self, mark: usize) -> Vec<u64> {
        let n = self.tape.len();
        self.tape[mark.min(n)..self.pos.min(n)].to_vec()
    }
    /// the choices another process made from a copy of this source
    pub fn adopt(&mut self, tape: Vec<u64>, pos: usize) {
        self.tape = tape;
        self.pos = pos;
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        if !self.quiet && SPILLING.load(std::sync::atomic::Ordering::Relaxed) {
            spill(&v.to_string(), false);
        }
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; a zero draw is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// index drawn by weight; a zero draw is the first entry with weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// a generator for bulk content, seeded by one draw
    pub fn sub(&mut self) -> Rng {
        Rng::new(self.below(1 << 32))
    }
}
