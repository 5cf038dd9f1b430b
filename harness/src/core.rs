//! Choice-sequence driven case generation: every case is a list of bounded
//! choices, so it can be enumerated exhaustively, sampled from a seed, replayed
//! and shrunk without any per-property code.

use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

enum Mode {
    Fixed,
    Random(Rng),
}

/// The case under execution, visible to the watchdog.
pub static CURRENT: Mutex<(u64, Vec<u32>, String)> = Mutex::new((0, vec![], String::new()));

pub struct Src {
    mode: Mode,
    fixed: Vec<u32>,
    pos: usize,
    pub record: Vec<(u32, u32)>,
    /// Size profile: 0 = the exhaustively enumerated (small) profile, 1 = random (larger).
    pub profile: u32,
}

impl Src {
    pub fn random(seed: u64, profile: u32) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), fixed: vec![], pos: 0, record: vec![], profile }
    }
    pub fn fixed(choices: Vec<u32>, profile: u32) -> Self {
        Src { mode: Mode::Fixed, fixed: choices, pos: 0, record: vec![], profile }
    }
    /// A choice in 0..n.
    pub fn pick(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = if self.pos < self.fixed.len() {
            self.fixed[self.pos].min(n - 1)
        } else {
            match &mut self.mode {
                Mode::Fixed => 0,
                Mode::Random(r) => (r.next() % n as u64) as u32,
            }
        };
        self.pos += 1;
        self.record.push((v, n));
        if let Ok(mut c) = CURRENT.lock() {
            c.1.push(v);
        }
        v
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn range(&mut self, lo: u32, hi_incl: u32) -> u32 {
        lo + self.pick(hi_incl - lo + 1)
    }
    pub fn small(&self) -> bool {
        self.profile == 0
    }
}

pub enum Outcome {
    Ok,
    Discard,
}

pub type Res = Result<Outcome, String>;

/// Records a human-readable description of the input being run.
pub fn note(s: String) {
    if let Ok(mut c) = CURRENT.lock() {
        c.2 = s;
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
