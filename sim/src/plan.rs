//! A plan fixes one simulated execution completely: programs, operands, heap behaviour, faults,
//! thread schedule, entropy. Running the same plan twice gives the same execution.

use serde::{Deserialize, Serialize};

fn is0(x: &usize) -> bool {
    *x == 0
}
fn is0i(x: &i64) -> bool {
    *x == 0
}
fn is0u8(x: &u8) -> bool {
    *x == 0
}
fn isf(x: &bool) -> bool {
    !*x
}
fn ise(x: &String) -> bool {
    x.is_empty()
}
fn is0u(x: &u64) -> bool {
    *x == 0
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub f: String,
    #[serde(default, skip_serializing_if = "is0")]
    pub d: usize,
    #[serde(default, skip_serializing_if = "is0")]
    pub a: usize,
    #[serde(default, skip_serializing_if = "is0")]
    pub b: usize,
    #[serde(default, skip_serializing_if = "is0")]
    pub c: usize,
    #[serde(default, skip_serializing_if = "is0")]
    pub p: usize,
    #[serde(default, skip_serializing_if = "is0u8")]
    pub rm: u8,
    #[serde(default, skip_serializing_if = "is0u8")]
    pub rdx: u8,
    #[serde(default, skip_serializing_if = "is0")]
    pub cc: usize,
    #[serde(default, skip_serializing_if = "is0i")]
    pub n: i64,
    #[serde(default, skip_serializing_if = "is0i")]
    pub m: i64,
    #[serde(default, skip_serializing_if = "ise")]
    pub s: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Num {
    #[serde(default, skip_serializing_if = "ise")]
    pub sp: String, // "", "inf", "-inf", "nan", "zero"
    #[serde(default)]
    pub w: usize, // words
    #[serde(default, skip_serializing_if = "isf")]
    pub neg: bool,
    #[serde(default)]
    pub e: i64,
    #[serde(default, skip_serializing_if = "is0u8")]
    pub pat: u8,
    #[serde(default, skip_serializing_if = "is0u")]
    pub seed: u64,
    #[serde(default, skip_serializing_if = "isf")]
    pub inexact: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "k")]
pub enum FK {
    At { idx: u32, n: u32 },
    From { idx: u32 },
    Size { min: usize },
    Budget { bytes: usize },
    Prob { seed: u64, pm: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    #[serde(default, skip_serializing_if = "is0")]
    pub t: usize,
    pub op: usize,
    pub kind: FK,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Heap {
    #[serde(default)]
    pub fill: u8,
    #[serde(default)]
    pub seed: u64,
    #[serde(default, skip_serializing_if = "isf")]
    pub guard: bool,
    #[serde(default, skip_serializing_if = "isf")]
    pub inplace: bool,
    #[serde(default, skip_serializing_if = "isf")]
    pub offset: bool,
    #[serde(default, skip_serializing_if = "isf")]
    pub lifo: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Sched {
    pub points: Vec<(u64, u32)>,
    pub stalls: Vec<(u64, u8, u64)>,
    /// (thread, its own step count, length): the thread is taken off the processor when it has
    /// made that many steps itself, and stays off for so many steps of the others.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub parks: Vec<(u8, u64, u64)>,
    pub quantum: u64,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    #[serde(default)]
    pub family: String,
    #[serde(default)]
    pub heap: Heap,
    #[serde(default)]
    pub nums: Vec<Num>,
    /// Programs, one per simulated thread (one entry: no scheduler involved).
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub sched: Sched,
    /// Entropy the simulated generator hands out: mode, seed, explicit words.
    #[serde(default)]
    pub rng: (u8, u64),
    /// Lazily initialised process state is set up before the program (no first use under fault).
    #[serde(default)]
    pub warm: bool,
    /// A failed operation is not repeated: its result is discarded and the program goes on.
    #[serde(default, skip_serializing_if = "isf")]
    pub noretry: bool,
    /// Number of constants caches and contexts available to each thread.
    #[serde(default)]
    pub ncc: usize,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x2545f4914f6cdd1d);
        for _ in 0..3 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
}
