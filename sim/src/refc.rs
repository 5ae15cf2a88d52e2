//! Independent reference values of pi, e, ln 2 and ln 10 (fixed point, own arithmetic), and their
//! correct rounding. Shares no code with the library under test.

use std::sync::OnceLock;

pub const BITS: usize = 40_000;
const W: usize = BITS / 64 + 4; // fraction words; guard words included

type Fx = Vec<u64>; // little-endian, W fraction words + 1 integer word

fn zero() -> Fx {
    vec![0; W + 1]
}
fn add(a: &mut Fx, b: &Fx) {
    let mut c = 0u128;
    for i in 0..=W {
        let t = a[i] as u128 + b[i] as u128 + c;
        a[i] = t as u64;
        c = t >> 64;
    }
}
fn sub(a: &mut Fx, b: &Fx) {
    let mut br = 0i128;
    for i in 0..=W {
        let t = a[i] as i128 - b[i] as i128 + br;
        a[i] = t as u64;
        br = t >> 64;
    }
}
fn div_small(a: &mut Fx, d: u64, top: &mut usize) {
    let mut r = 0u128;
    let mut first = true;
    let hi = *top;
    for i in (0..=hi).rev() {
        let t = (r << 64) | a[i] as u128;
        a[i] = (t / d as u128) as u64;
        r = t % d as u128;
        if first {
            if a[i] == 0 && i > 0 {
                *top = i - 1;
            } else {
                first = false;
            }
        }
    }
}
fn mul_small(a: &mut Fx, m: u64) {
    let mut c = 0u128;
    for x in a.iter_mut() {
        let t = *x as u128 * m as u128 + c;
        *x = t as u64;
        c = t >> 64;
    }
}
/// sum over k of s^k / ((2k+1) * n^(2k+1)); alternating: arctan(1/n), otherwise artanh(1/n)
fn inv_series(n: u64, alternating: bool) -> Fx {
    let mut term = zero();
    term[W] = 1;
    let mut top = W;
    div_small(&mut term, n, &mut top);
    let mut acc = term.clone();
    let mut k = 1u64;
    loop {
        div_small(&mut term, n * n, &mut top);
        if term[..=top].iter().all(|x| *x == 0) {
            break;
        }
        let mut q = term.clone();
        let mut t2 = top;
        div_small(&mut q, 2 * k + 1, &mut t2);
        if alternating && k & 1 == 1 {
            sub(&mut acc, &q);
        } else {
            add(&mut acc, &q);
        }
        k += 1;
    }
    acc
}
fn lin(parts: &[(i64, u64, bool)]) -> Fx {
    let mut a = zero();
    for (c, n, alt) in parts {
        let mut s = inv_series(*n, *alt);
        mul_small(&mut s, c.unsigned_abs());
        if *c > 0 {
            add(&mut a, &s);
        } else {
            sub(&mut a, &s);
        }
    }
    a
}

static VALS: OnceLock<[Fx; 4]> = OnceLock::new();
pub fn init() {
    VALS.get_or_init(|| {
        let h: Vec<std::thread::JoinHandle<Fx>> = vec![
            std::thread::spawn(|| lin(&[(16, 5, true), (-4, 239, true)])),
            std::thread::spawn(|| {
                let mut term = zero();
                term[W] = 1;
                let mut acc = term.clone();
                let mut top = W;
                let mut k = 1;
                loop {
                    div_small(&mut term, k, &mut top);
                    if term[..=top].iter().all(|x| *x == 0) {
                        break;
                    }
                    add(&mut acc, &term);
                    k += 1;
                }
                acc
            }),
            std::thread::spawn(|| lin(&[(18, 26, false), (-2, 4801, false), (8, 8749, false)])),
            std::thread::spawn(|| lin(&[(46, 31, false), (34, 49, false), (20, 161, false)])),
        ];
        let mut v: Vec<Fx> = h.into_iter().map(|h| h.join().expect("reference")).collect();
        let d = v.pop().unwrap();
        let c = v.pop().unwrap();
        let b = v.pop().unwrap();
        let a = v.pop().unwrap();
        [a, b, c, d]
    });
}

/// The constant correctly rounded to `p` bits (multiple of 64): (mantissa words little-endian, exponent).
/// `rm`: 0 ToEven, 1 Up, 2 Down, 3 ToZero, 4 FromZero, 5 ToOdd, 6: truncation (caller allows an ulp).
pub fn round(which: usize, p: usize, rm: u8) -> (Vec<u64>, i32) {
    init();
    let v = &VALS.get().unwrap()[which];
    // top bit
    let mut hi = W;
    while v[hi] == 0 {
        hi -= 1;
    }
    let lead = 63 - v[hi].leading_zeros() as usize;
    let top = hi * 64 + lead; // bit index of the leading one
    let e = top as i64 - (W * 64) as i64 + 1;
    assert!(p + 128 < top);
    let lo = top + 1 - p; // bit index of the last kept bit
    let n = p / 64;
    let mut m = vec![0u64; n];
    let (ws, bs) = (lo / 64, lo % 64);
    for i in 0..n {
        let a = v[ws + i] >> bs;
        let b = if bs > 0 && ws + i + 1 <= W { v[ws + i + 1] << (64 - bs) } else { 0 };
        m[i] = a | b;
    }
    let rbit = (v[(lo - 1) / 64] >> ((lo - 1) % 64)) & 1;
    let inc = match rm {
        // irrational: the discarded part is never exactly a half or zero
        0 | 5 => rbit == 1,
        1 | 4 => true,
        _ => false,
    };
    let mut e = e as i32;
    if inc {
        let mut c = 1u64;
        for x in m.iter_mut() {
            let (y, o) = x.overflowing_add(c);
            *x = y;
            c = o as u64;
            if c == 0 {
                break;
            }
        }
        if c == 1 {
            m[n - 1] = 1 << 63;
            e += 1;
        }
    }
    (m, e)
}

/// |a - b| <= 1 unit in the last place, for two mantissas of equal length and exponent
pub fn within_ulp(a: &[u64], b: &[u64]) -> bool {
    if a == b {
        return true;
    }
    let up = |x: &[u64]| {
        let mut v = x.to_vec();
        for w in v.iter_mut() {
            let (y, o) = w.overflowing_add(1);
            *w = y;
            if !o {
                break;
            }
        }
        v
    };
    up(a) == b || up(b) == a
}
