//! Seeded generators of simulated programs.

use crate::exprs;
use crate::ops::*;
use crate::plan::*;

/// Size profile of one scenario.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sz {
    Tiny,  // 1..3 words
    Small, // 1..8
    Mid,   // 4..40
    Big,   // 40..260: Toom-Cook and recursive division territory
    Huge,  // thousands of words (FFT multiplication)
}

pub fn words(r: &mut Rng, s: Sz) -> usize {
    match s {
        Sz::Tiny => 1 + r.us(3),
        Sz::Small => 1 + r.us(8),
        Sz::Mid => 4 + r.us(37),
        Sz::Big => 33 + r.us(228),
        Sz::Huge => 5401 + r.us(120),
    }
}

pub fn prec(r: &mut Rng, s: Sz) -> usize {
    let w = words(r, s);
    if r.chance(70) {
        w * 64
    } else {
        (w * 64).saturating_sub(r.us(64)).max(1)
    }
}

/// An exponent for a value of `w` words; `wide` allows the whole range.
pub fn expo(r: &mut Rng, w: usize, wide: bool) -> i64 {
    match r.below(if wide { 16 } else { 10 }) {
        0 | 1 => r.range(-3, 3),
        2 => 0,
        3 => 1,
        4 | 5 => r.range(-70, 70),
        6 => r.range(-(w as i64) * 64, w as i64 * 64),
        7 => w as i64 * 64,
        8 => r.range(-12, 12),
        9 => r.range(-400, 130),
        10 => r.range(-2000, 2000),
        11..=13 => r.range(-20_000, 20_000),
        _ => r.range(-5_000, 100),
    }
}

pub fn num(r: &mut Rng, s: Sz, wide: bool) -> Num {
    let w = words(r, s);
    let sp = if r.chance(4) { r.pick(&["inf", "-inf", "nan", "zero", "zero"]).to_string() } else { String::new() };
    Num {
        sp,
        w,
        neg: r.chance(35),
        e: expo(r, w, wide),
        pat: if r.chance(40) { 0 } else { r.below(12) as u8 },
        seed: r.next() & 0xffff_ffff_ffff,
        inexact: r.chance(15),
    }
}

/// A value for transcendental functions: moderate exponent so that the work stays bounded.
pub fn num_fn(r: &mut Rng, s: Sz) -> Num {
    let mut n = num(r, s, false);
    n.e = match r.below(9) {
        8 => {
            if r.chance(50) {
                r.range(90, 1500)
            } else {
                r.range(28, 40)
            }
        }
        0 | 1 => r.range(-2, 2),
        2 => r.range(-30, 8),
        3 => r.range(-130, 30),
        4 => 0,
        5 => 1,
        6 => r.range(-6, 6),
        _ => r.range(-200, 90),
    };
    n
}

pub fn dec_text(r: &mut Rng, digits: usize, emax: i64) -> String {
    let mut s = String::new();
    if r.chance(30) {
        s.push(if r.chance(50) { '-' } else { '+' });
    }
    let dot = if r.chance(75) { Some(r.us(digits + 1)) } else { None };
    for i in 0..digits {
        if dot == Some(i) {
            s.push('.');
        }
        s.push((b'0' + r.below(10) as u8) as char);
    }
    if dot.is_some() && s.ends_with('.') {
        s.push('0');
    }
    if r.chance(60) {
        let e = r.range(-emax, emax);
        s.push_str(&format!("e{}{}", if e >= 0 && r.chance(40) { "+" } else { "" }, e));
    }
    if r.chance(5) {
        s = r.pick(&["inf", "+inf", "-nan", "in", "na", "infx", "0.e5", ".5", "5.", "00001.5000e-0007", "--1", "1e5e", "1.2.3", "-.0e-9", "e5", "1e99999999999", "1e-99999999999", "-Inf", "nan", "NaN", "abc", "", ".", "1e", "0", "-0.0", "0.000", "1e-100000", "1e+4000"]).to_string();
    }
    s
}
pub fn rdx_text(r: &mut Rng, rx: u8, digits: usize) -> String {
    let set: &[u8] = match rx % 4 {
        0 => return dec_text(r, digits, 300),
        1 => b"01",
        2 => b"01234567",
        _ => b"0123456789abcdefABCDEF",
    };
    let mut s = String::new();
    if r.chance(30) {
        s.push('-');
    }
    let dot = r.us(digits + 1);
    for i in 0..digits {
        if i == dot {
            s.push('.');
        }
        s.push(*r.pick(set) as char);
    }
    if s.ends_with('.') {
        s.push('0');
    }
    if r.chance(60) {
        let e = if r.chance(5) { *r.pick(&[0x7fff_ffffi64, 0x8000_0000, 0x7fff_fff0, 0x2000_0000, 0x7fff_ffff_ffff, 536870912, 715827882]) + r.range(-70, 70) } else { r.range(0, 200) };
        let sg = *r.pick(&["", "+", "-"]);
        let body = match rx % 4 {
            1 => format!("{e:b}"),
            2 => format!("{e:o}"),
            _ => format!("{e:x}"),
        };
        s.push_str(if rx % 4 == 3 { "_e" } else { "e" });
        s.push_str(sg);
        s.push_str(&body);
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Arith,
    Root,
    Func,
    Conv,
    Const,
    Make,
    InPlace,
    Expr,
    Ctx,
    Query,
    Random,
    Serde,
    Cache,
}

pub fn op(r: &mut Rng, k: Kind, s: Sz, ncc: usize) -> Op {
    let p = if s == Sz::Mid && matches!(k, Kind::Func | Kind::Expr | Kind::Ctx) && r.chance(85) { (2 + r.us(12)) * 64 } else { prec(r, s) };
    let mut o = Op { a: r.us(6), b: r.us(6), c: r.us(6), d: r.us(NREG), p, rm: r.below(7) as u8, cc: r.us(ncc.max(1)), ..Default::default() };
    match k {
        Kind::Arith => {
            o.f = match r.below(12) {
                0 | 1 => "add",
                2 | 3 => "sub",
                4 | 5 => "mul",
                6 | 7 => "div",
                8 => "rem",
                9 => "mul_full",
                10 => r.pick(&["add_full", "sub_full"]),
                _ => r.pick(&PLAIN),
            }
            .into();
            if o.f == "round" {
                o.n = r.range(0, 200);
            }
        }
        Kind::Root => {
            o.f = r.pick(&["reciprocal", "sqrt", "cbrt", "powi", "sqrt", "cbrt"]).to_string();
            o.n = match r.below(4) {
                0 => r.range(0, 9),
                1 => 1 << r.below(8),
                2 => r.range(0, 300),
                _ => r.range(0, 40),
            };
        }
        Kind::Func => {
            o.f = if r.chance(20) { r.pick(&BIN_CC).to_string() } else { r.pick(&UN_CC).to_string() };
            if s == Sz::Big {
                o.p = (30 + r.us(90)) * 64;
                if o.f == "log10" || o.f == "log" {
                    o.f = "atan".into();
                }
                if r.chance(12) {
                    // the rectangular summation of the series that need few terms
                    o.f = r.pick(&["sinh", "sin", "cos", "exp"]).to_string();
                    o.p = (850 + r.us(150)) * 64;
                }
            }
            // functions read the small-exponent registers
            o.a = 6 + r.us(4);
            o.b = 6 + r.us(4);
        }
        Kind::Conv => {
            o.rdx = if r.chance(60) { 0 } else { r.below(4) as u8 };
            o.f = r.pick(&["format", "parse", "to_radix", "from_radix", "from_str", "display", "display", "reparse", "from_ext", "fbin", "foct", "fhex"]).to_string();
            if r.chance(60) {
                o.a = 6 + r.us(4);
            }
            match o.f.as_str() {
                "parse" | "from_ext" => {
                    let dg = 1 + r.us(match s {
                        Sz::Tiny => 40,
                        Sz::Small => 160,
                        Sz::Mid => 700,
                        _ => 3000,
                    });
                    if o.f == "from_ext" {
                        o.rdx = 0;
                    }
                    o.s = rdx_text(r, o.rdx, dg);
                    o.n = r.chance(25) as i64;
                }
                "from_str" => {
                    let dg = 1 + r.us(120);
                    o.s = dec_text(r, dg, 300)
                }
                "from_radix" => {
                    o.n = (r.next() >> 20) as i64;
                    o.c = 1 + r.us(match s {
                        Sz::Tiny => 40,
                        Sz::Small => 160,
                        _ => 900,
                    });
                    o.m = r.range(-300, 300);
                }
                _ => {}
            }
        }
        Kind::Const => {
            o.f = r.pick(&CONSTS).to_string();
            if r.chance(10) {
                o.p = [0, 1, 63, 64, 65, 127, 128, 129][r.us(8)];
            }
        }
        Kind::Make => {
            o.f = r
                .pick(&["new", "from_f64", "from_f32", "from_word", "from_i8", "from_u32", "from_i64", "from_u128", "from_i128", "max_value", "min_value", "min_positive", "min_positive_normal", "from_words", "from_ext_f64", "clone"])
                .to_string();
            o.n = r.next() as i64;
            o.m = if o.f == "from_words" { r.range(-2000, 2000) } else { r.next() as i64 };
        }
        Kind::InPlace => {
            o.f = r.pick(&["set_precision", "set_precision", "try_set_precision", "set_exponent", "set_sign"]).to_string();
            o.d = r.us(10);
            o.n = if o.f == "try_set_precision" { (1 + o.p as i64 / 64 + r.range(-2, 3)).max(1) * 64 } else { r.range(-500, 500) };
        }
        Kind::Expr => {
            o.f = "expr".into();
            o.c = r.us(exprs::N);
            o.a = 6 + r.us(4);
            o.b = 6 + r.us(4);
            o.d = 6 + r.us(4);
            if r.chance(20) {
                o.n = -r.range(1, 400);
                o.m = r.range(1, 400);
            }
        }
        Kind::Ctx => {
            o.f = r
                .pick(&["ctx_expr", "ctx_expr", "ctx_expr", "ctx_new", "ctx_clone", "ctx_rebuild", "ctx_set_p", "ctx_set_rm", "ctx_set_emin", "ctx_set_emax", "ctx_set_consts", "ctx_get", "ctx_pi", "ctx_e", "ctx_ln2", "ctx_ln10", "ctx_fun"])
                .to_string();
            o.cc = r.us(3);
            o.c = r.us(exprs::N);
            o.a = 6 + r.us(4);
            o.b = 6 + r.us(4);
            o.d = 6 + r.us(4);
            match o.f.as_str() {
                "ctx_clone" => o.n = r.range(0, 2),
                "ctx_set_emin" => o.n = -limit(r),
                "ctx_set_emax" => o.m = limit(r),
                "ctx_new" => {
                    o.n = -limit(r);
                    o.m = limit(r);
                }
                "ctx_get" => {
                    o.n = r.range(-300, 300);
                    o.m = limit(r);
                }
                "ctx_expr" if r.chance(15) => o.m = 3,
                "ctx_pi" | "ctx_e" | "ctx_ln2" | "ctx_ln10" => o.b = r.us(12),
                _ => {}
            }
        }
        Kind::Query => {
            o.f = r.pick(&["cmp", "abs_cmp", "eq", "lt", "is_int", "classify"]).to_string();
        }
        Kind::Random => {
            o.f = "random".into();
            let any = |r: &mut Rng| match r.below(4) {
                0 => r.range(i32::MIN as i64, i32::MAX as i64),
                1 => i32::MAX as i64 - r.range(0, 2),
                _ => expo(r, 4, true),
            };
            let a = any(r);
            let b = any(r);
            o.n = a;
            o.m = if r.chance(15) { a } else { b };
        }
        Kind::Serde => {
            o.f = r.pick(&["ser", "de"]).to_string();
            o.n = r.range(0, 19);
            o.m = r.next() as i64;
            if o.f == "ser" {
                o.m = r.chance(30) as i64;
                o.a = r.us(10);
            } else {
                let dg = 1 + r.us(60);
                o.s = dec_text(r, dg, 200);
            }
        }
        Kind::Cache => {
            o.f = r.pick(&["consts_new", "consts_swap"]).to_string();
            o.n = r.range(0, 2);
        }
    }
    if o.f == "set_precision" || o.f == "try_set_precision" {
        // in place: the value is left in the register
    } else if o.d >= 6 && o.d < 10 && !matches!(k, Kind::Expr | Kind::Ctx) && !matches!(o.f.as_str(), "set_exponent" | "set_sign") {
        // registers 6..9 keep values fit for transcendental functions
        o.d = if r.chance(50) { r.us(6) } else { 10 + r.us(2) };
    }
    if matches!(k, Kind::Expr) {
        // `d` is the third operand; the result replaces it, so keep values tame
        o.d = 6 + r.us(4);
    }
    o
}

pub fn kind(r: &mut Rng, w: &[(Kind, u64)]) -> Kind {
    let t: u64 = w.iter().map(|x| x.1).sum();
    let mut k = r.below(t);
    for (x, n) in w {
        if k < *n {
            return *x;
        }
        k -= n;
    }
    w[0].0
}

/// Registers: 0..5 general values, 6..9 moderate values for functions, 10..11 small.
pub fn regs(r: &mut Rng, s: Sz, wide: bool) -> Vec<Num> {
    let mut v = regs0(r, s, wide);
    if r.chance(9) {
        // special values everywhere
        for n in v.iter_mut() {
            if r.chance(45) {
                n.sp = special(r);
                if n.sp == "int" || n.sp == "half" {
                    n.e = if r.chance(60) { r.range(0, 4) } else { r.range(0, 1000) };
                }
            }
        }
    }
    v
}

fn special(r: &mut Rng) -> String {
    r.pick(&["inf", "-inf", "nan", "zero", "int", "int", "int", "int", "half", "half"]).to_string()
}

fn regs0(r: &mut Rng, s: Sz, wide: bool) -> Vec<Num> {
    let mut v = Vec::new();
    let fs = if s == Sz::Huge || s == Sz::Big { Sz::Small } else { s };
    // sums of values far apart cost work in proportion to the distance, so all general values
    // of one scenario lie around one point of the exponent range
    let centre = match r.below(4) {
        _ if !wide => None,
        0 => Some(i32::MAX as i64 - 200),
        1 => Some(i32::MIN as i64 + 200),
        // products and quotients at the ends of the range
        2 => Some(*r.pick(&[i32::MIN as i64 / 2 - 80, i32::MIN as i64 / 2 + 40, i32::MAX as i64 / 2])),
        _ => None,
    };
    for i in 0..NREG {
        v.push(if (6..10).contains(&i) { num_fn(r, fs) } else if i >= 10 { num(r, Sz::Tiny, false) } else { num(r, s, wide) });
        if let (Some(c), true) = (centre, i < 6) {
            v[i].e = c + r.range(-200, 200);
            if c < i32::MIN as i64 / 2 - 1000 && r.chance(35) {
                v[i].sp = r.pick(&["sub", "sub", "sub", "minpos", "minposn"]).to_string();
            }
        }
    }
    v
}

/// A limit for exponents, sometimes one that is clamped.
fn limit(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => -r.range(1, 100),
        2 => i32::MAX as i64 - r.range(0, 2),
        3 => i32::MIN as i64 + 1 + r.range(0, 2),
        4 => r.range(1, 70),
        _ => r.range(1, 100_000),
    }
}

/// Requests whose results are exact: a number with few digits (register 0, seldom marked as
/// inexact), powers of it (registers 1, 2), and the functions that undo them.
pub fn exacts(r: &mut Rng, nums: &mut [Num], v: &mut Vec<Op>, count: usize) {
    let long = |r: &mut Rng| match r.below(4) {
        0 => 1,
        1 => 1 + r.us(4),
        2 => 1 + r.us(16),
        _ => 8 + r.us(30),
    };
    let flag = r.chance(35);
    let int = |r: &mut Rng, e: i64, w: usize, neg: bool| Num { sp: "int".into(), e, w, neg, inexact: flag && r.chance(50), ..Default::default() };
    let w = long(r);
    nums[0] = match r.below(4) {
        0 => Num { pat: 4, w, e: r.range(-60, 60), seed: r.next(), inexact: flag, ..Default::default() },
        1 => {
            let e = *r.pick(&[10, 10, 2, 3, 5, 4, 8, 16, 1, 9]);
            int(r, e, w, false)
        }
        2 => Num { sp: "half".into(), e: r.range(1, 40), w, inexact: flag, ..Default::default() },
        _ => {
            let e = r.range(1, 5000);
            int(r, e, w, false)
        }
    };
    // one, zero, a small whole number, half of an odd number, minus one
    let (w1, w2, w3, w4, w5) = (long(r), long(r), long(r), long(r), long(r));
    nums[3] = int(r, 1, w1, false);
    nums[4] = int(r, 0, w2, false);
    let (k, n) = (r.range(1, 30), r.chance(40));
    nums[5] = int(r, k, w3, n);
    nums[6] = Num { sp: "half".into(), e: 2 * r.range(0, 6) + 1, w: w4, neg: r.chance(40), inexact: flag && r.chance(50), ..Default::default() };
    nums[7] = int(r, 1, w5, true);
    let k = match r.below(4) {
        0 => 2,
        1 => 3,
        2 => r.range(1, 12),
        _ => r.range(1, 60),
    };
    let full = 14 * k as usize + 64 * r.us(12);
    let mk = |r: &mut Rng, f: &str, a: usize, b: usize, d: usize, p: usize| Op { f: f.into(), a, b, c: a, d, p, rm: r.below(7) as u8, ..Default::default() };
    let mut o = mk(r, "powi", 0, 0, 1, full);
    o.n = k;
    v.push(o);
    let mut o = mk(r, "powi", 0, 0, 2, full * 2);
    o.n = 2 * k;
    v.push(o);
    for _ in 0..count {
        let p = if r.chance(30) { 1 + r.us(128) } else { long(r) * 64 - if r.chance(20) { r.us(63) } else { 0 } };
        let src = 1 + r.us(2);
        let mut o = match r.below(16) {
            0 | 1 => mk(r, "log", src, 0, 10, p),
            2 => mk(r, "log", 2, 1, 10, p),
            3 => mk(r, "log10", src, 0, 10, p),
            4 => mk(r, "log2", src, 0, 10, p),
            5 => mk(r, "sqrt", 2, 0, 10, p),
            6 => mk(r, "cbrt", src, 0, 10, p),
            7 | 8 => mk(r, "pow", 2, 6, 10, p),
            9 => mk(r, "pow", 0, 5, 10, p),
            10 => mk(r, "powi", 0, 0, 10, p),
            11 => mk(r, "div", 2, 1, 10, p),
            12 => {
                let f = *r.pick(&["ln", "log2", "log10", "log", "acosh", "acos", "asin", "atan", "atanh", "sqrt", "cbrt", "exp", "pow", "reciprocal"]);
                mk(r, f, 3, 0, 10, p)
            }
            13 => {
                let f = *r.pick(&["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "atanh", "exp", "sqrt", "cbrt", "pow"]);
                mk(r, f, 4, 0, 10, p)
            }
            14 => {
                let f = *r.pick(&["asin", "acos", "atan", "atanh", "cbrt", "pow", "reciprocal", "powi"]);
                mk(r, f, 7, 5, 10, p)
            }
            _ => mk(r, "log", 0, 1, 10, p),
        };
        if o.f == "powi" {
            o.n = r.range(0, 40);
        }
        v.push(o);
    }
}

/// An operation aimed at rarely taken paths of the code, with its operands in registers `i` and `i + 1`.
pub fn corner(r: &mut Rng, nums: &mut [Num], i: usize) -> Op {
    let k = r.below(13);
    corner_of(r, nums, i, k)
}

pub fn corner_of(r: &mut Rng, nums: &mut [Num], i: usize, kind: u64) -> Op {
    let s = match r.below(12) {
        0..=7 => Sz::Tiny,
        8..=10 => Sz::Small,
        _ => Sz::Mid,
    };
    let (a, b) = (i, i + 1);
    let mut o = Op { a, b, c: a, d: 10 + r.us(2), p: prec(r, s), rm: r.below(7) as u8, ..Default::default() };
    let rnd = |r: &mut Rng, s: Sz| {
        let mut n = num(r, s, false);
        n.sp.clear();
        n
    };
    nums[a] = rnd(r, s);
    nums[b] = rnd(r, s);
    let ends = |r: &mut Rng| match r.below(6) {
        0 => i32::MAX as i64 - r.range(0, 3),
        1 => i32::MAX as i64 - r.range(0, 300),
        2 => i32::MIN as i64 + r.range(0, 3),
        3 => i32::MIN as i64 + r.range(0, 300),
        4 => r.range(i32::MIN as i64, i32::MAX as i64),
        _ => r.range(-100_000, 100_000),
    };
    match kind {
        0 => {
            // decimal texts around the ends of the exponent range
            o.f = "parse".into();
            let k = match r.below(8) {
                0 | 1 => 646_456_993i64,
                2 => *r.pick(&[700_000_000, 323_228_496, 100_000, 1_292_913_986, i32::MAX as i64]),
                3 => r.range(0, i32::MAX as i64),
                4 => {
                    let b = r.below(28);
                    646_456_993 + r.range(0, 1 << b)
                }
                5 => {
                    let b = r.below(28);
                    r.range(0, 1 << b)
                }
                _ => 646_456_993,
            };
            let e = (k + r.range(-120, 120)) * if r.chance(60) { -1 } else { 1 };
            let dg = 1 + r.us(90);
            let mut t: String = (0..dg).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            if r.chance(60) {
                t.insert(r.us(dg), '.');
            }
            o.s = format!("{}{}e{}", if r.chance(30) { "-" } else { "" }, t, e);
            if r.chance(30) {
                o.f = "from_str".into();
            }
        }
        1 => {
            // the same in other radixes, where the values become subnormal
            o.f = "parse".into();
            o.rdx = 1 + r.below(3) as u8;
            let (div, set): (i64, &[u8]) = match o.rdx {
                1 => (1, b"01"),
                2 => (3, b"01234567"),
                _ => (4, b"0123456789abcdef"),
            };
            let e = (1i64 << 31) / div + r.range(-60, 200);
            let dg = 1 + r.us(90);
            let mut t: String = (0..dg).map(|_| *r.pick(set) as char).collect();
            if r.chance(60) {
                t.insert(r.us(dg), '.');
            }
            let es = match o.rdx {
                1 => format!("{e:b}"),
                2 => format!("{e:o}"),
                _ => format!("{e:x}"),
            };
            o.s = format!("{}{}e{}{}", t, if o.rdx == 3 { "_" } else { "" }, if r.chance(80) { "-" } else { "" }, es);
            o.n = r.chance(35) as i64;
        }
        2 => {
            // text of subnormal and of very large or small values
            o.f = r.pick(&["format", "to_radix", "display", "reparse", "fhex", "fbin"]).to_string();
            o.rdx = if r.chance(70) { 0 } else { r.below(4) as u8 };
            if r.chance(60) {
                nums[a].sp = r.pick(&["sub", "sub", "minpos", "minposn", "max", "min"]).to_string();
            } else {
                nums[a].e = ends(r);
            }
        }
        3 | 4 => {
            // subnormal operands and results
            o.f = r.pick(&["mul", "div", "rem", "sqrt", "cbrt", "reciprocal", "add", "sub", "powi", "mul_full", "set_precision", "round", "int", "add_full", "rem", "div", "ln", "log2"]).to_string();
            nums[a].sp = r.pick(&["sub", "sub", "minpos", "minposn", ""]).to_string();
            nums[a].e = i32::MIN as i64 + r.range(0, 200);
            nums[b].sp = r.pick(&["sub", "", "", "minpos"]).to_string();
            nums[b].e = if o.f == "rem" || r.chance(40) { i32::MIN as i64 + r.range(0, 150) } else { r.range(-100, 100) };
            if matches!(o.f.as_str(), "add" | "sub" | "add_full") {
                nums[b].e = nums[a].e + r.range(-100, 100);
            }
            o.n = r.range(0, 3);
            if o.f == "round" {
                o.n = r.range(0, 300);
            }
            if o.f == "set_precision" {
                o.d = a;
            }
        }
        5 => {
            // functions far out
            o.f = r.pick(&["acosh", "asinh", "ln", "log2", "log10", "tanh", "atan", "cosh", "sinh", "exp", "acosh", "asinh"]).to_string();
            nums[a].e = match r.below(3) {
                0 => i32::MAX as i64 - r.range(0, 2),
                1 => r.range(140, 1000),
                _ => r.range(100, i32::MAX as i64),
            };
            if o.f == "acosh" {
                nums[a].neg = false;
            }
        }
        6 => {
            // functions of tiny values
            o.f = r.pick(&["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log2"]).to_string();
            nums[a].e = match r.below(4) {
                0 => i32::MIN as i64 + r.range(0, 70),
                1 => -r.range(20, 700),
                2 => -r.range(0, i32::MAX as i64),
                _ => -(o.p as i64) / 2 + r.range(-80, 80),
            };
            if r.chance(20) {
                nums[a].sp = "sub".into();
            }
            if o.f == "acosh" {
                // just above one
                nums[a].e = 1;
                nums[a].pat = 7;
                nums[a].neg = false;
            }
            if r.chance(25) && matches!(o.f.as_str(), "asin" | "acos" | "atanh" | "ln" | "log2") {
                // just below one
                nums[a].e = 0;
                nums[a].pat = 8;
                nums[a].sp.clear();
            }
        }
        7 => {
            // exact logarithms
            let base = *r.pick(&[2i64, 3, 5, 7, 10, 10, 10, 16, 12]);
            let k = r.range(0, if base == 16 { 15 } else { 17 });
            let mut v = 1i64;
            for _ in 0..k {
                v = v.saturating_mul(base);
            }
            nums[a].sp = "int".into();
            nums[a].neg = false;
            nums[a].e = v;
            nums[b].sp = "int".into();
            nums[b].neg = false;
            nums[b].e = base;
            if r.chance(20) {
                // the logarithm is a fraction
                nums[b].e = base * base;
            }
            if r.chance(10) {
                nums.swap(a, b);
                if k == 0 {
                    nums[b].e = base;
                }
            }
            o.f = if nums[b].e != base { "log" } else { match base {
                2 => "log2",
                10 if r.chance(60) => "log10",
                _ => "log",
            } }
            .into();
        }
        8 => {
            // integer powers
            o.f = "pow".into();
            nums[b].sp = r.pick(&["int", "int", "int", "half", "zero"]).to_string();
            nums[b].e = match r.below(4) {
                0 => r.range(0, 2),
                1 => 1 << r.below(12),
                2 => r.range(0, 60),
                _ => r.range(0, 1 << 33),
            };
            nums[b].neg = r.chance(50);
            match r.below(4) {
                0 => {
                    nums[a].sp = "int".into();
                    nums[a].e = if r.chance(50) { r.range(0, 3) } else { *r.pick(&[4, 9, 16, 25, 49, 81, 100, 256, 1296, 65536]) };
                }
                1 => nums[a].e = r.range(-400, 400),
                2 => nums[a].e = ends(r),
                _ => {}
            }
        }
        9 => {
            // powers that leave the range
            o.f = "powi".into();
            nums[a].e = ends(r);
            o.n = match r.below(3) {
                0 => r.range(0, 5),
                1 => r.range(0, 1000),
                _ => r.range(0, 1 << 20),
            };
            if nums[a].w > 2 {
                nums[a].w = 2;
            }
        }
        10 => {
            // divisions and roots whose intermediate remainders have zeros at the top
            o.f = r.pick(&["div", "div", "div", "sqrt", "cbrt", "rem"]).to_string();
            let big = r.chance(70);
            let n = if big { 72 + r.us(140) } else { 2 + r.us(30) };
            nums[a].w = n + r.us(n);
            nums[b].w = 1 + n.min(71 + r.us(n));
            nums[a].pat = *r.pick(&[10, 10, 11, 1, 3, 7, 9, 2]);
            nums[b].pat = *r.pick(&[10, 11, 3, 7, 8, 9, 0, 2]);
            nums[a].e = r.range(-3, 3);
            nums[b].e = r.range(-3, 3);
            if o.f == "rem" {
                nums[a].e = nums[a].w as i64 * 64;
            }
            if o.f == "cbrt" {
                nums[a].w = nums[a].w.min(60);
                o.p = nums[a].w * 64;
            } else {
                o.p = nums[a].w.max(nums[b].w) * 64;
            }
        }
        11 => {
            // products of unequal lengths around the thresholds of the multiplication algorithms
            o.f = r.pick(&["mul", "mul_full", "mul"]).to_string();
            let t = *r.pick(&[30usize, 70, 140, 220, 220, 300]);
            nums[a].w = t + r.us(t);
            nums[b].w = (nums[a].w / (1 + r.us(6))).max(1) + r.us(8);
            for k in [a, b] {
                if r.chance(40) {
                    nums[k].pat = *r.pick(&[10, 11, 2, 5, 9]);
                }
            }
            o.p = (1 + r.us(nums[a].w + nums[b].w)) * 64;
        }
        _ => {
            // cancellation and far apart operands
            o.f = r.pick(&["add", "sub", "add_full", "sub_full", "rem", "cmp"]).to_string();
            nums[b] = nums[a].clone();
            nums[b].e += match r.below(5) {
                0 | 1 => 0,
                2 => r.range(-2, 2),
                3 => r.range(-800, 800),
                _ => r.range(-40, 40),
            };
            if r.chance(60) {
                nums[b].w = words(r, s);
            }
            if r.chance(30) {
                nums[b].neg ^= true;
            }
            if r.chance(30) {
                nums[b].pat = r.below(12) as u8;
            }
        }
    }
    o
}

pub fn heap(r: &mut Rng) -> Heap {
    Heap { fill: r.below(7) as u8, seed: r.next() & 0xffff_ffff, guard: false, inplace: r.chance(50), offset: r.chance(50), lifo: r.chance(50) }
}

pub fn size(r: &mut Rng) -> Sz {
    match r.below(20) {
        0..=9 => Sz::Tiny,
        10..=16 => Sz::Small,
        17..=18 => Sz::Mid,
        _ => {
            if r.chance(60) {
                Sz::Big
            } else {
                Sz::Mid
            }
        }
    }
}

/// Size fit for a kind of operation: expensive kinds never run at Big/Huge.
pub fn fit(k: Kind, s: Sz) -> Sz {
    match k {
        Kind::Arith | Kind::Make | Kind::InPlace | Kind::Query => s,
        Kind::Root | Kind::Conv => {
            if s == Sz::Huge {
                Sz::Big
            } else {
                s
            }
        }
        Kind::Const | Kind::Func => {
            if s == Sz::Huge {
                Sz::Big
            } else {
                s
            }
        }
        _ => match s {
            Sz::Big | Sz::Huge => Sz::Mid,
            x => x,
        },
    }
}

pub fn program(r: &mut Rng, len: usize, w: &[(Kind, u64)], s: Sz, ncc: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..len {
        let k = kind(r, w);
        v.push(op(r, k, fit(k, s), ncc));
    }
    v
}

/// Splices context set-up in front of programs that use contexts.
pub fn with_ctx(r: &mut Rng, prog: &mut Vec<Op>, s: Sz) {
    if prog.iter().any(uses_ctx) {
        for i in 0..2 {
            prog.insert(
                0,
                Op { f: "ctx_new".into(), cc: i, p: prec(r, fit(Kind::Ctx, s)), rm: r.below(7) as u8, n: -r.range(300, 100_000), m: r.range(300, 100_000), ..Default::default() },
            );
        }
    }
}
