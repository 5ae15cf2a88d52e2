//! The operations a simulated program can perform on the code under test (all through its public
//! interface), and exact encodings of what they return.

use crate::exprs;
use crate::heap::{self, Arm};
use crate::plan::{Num, Op, Rng};
use astro_float::ctx::{Context, Contextable};
use astro_float::{BigFloat, Consts, Error, FromExt, Radix, RoundingMode, Sign, INF_NEG, INF_POS, NAN};
use std::fmt::Write;
use std::str::FromStr;

pub const NREG: usize = 12;
pub const NCC: usize = 3;

macro_rules! lib {
    ($e:expr) => {{
        let _g = Arm::on();
        $e
    }};
}

pub struct Env {
    pub regs: Vec<BigFloat>,
    pub ccs: Vec<Option<Consts>>,
    pub ctxs: Vec<Option<Context>>,
}

pub enum Out {
    Num(BigFloat),
    Txt(Result<String, Error>),
    Fmt(bool, String),
    Digits(Result<(Sign, Vec<u8>, i32), Error>),
    Opt(Option<i128>),
    Bool(bool),
    Unit(Result<(), Error>),
    Ser(Result<String, String>),
    De(Result<BigFloat, String>),
    Bytes(Vec<u8>),
    Skip,
}

pub fn rm(i: u8) -> RoundingMode {
    match i % 7 {
        0 => RoundingMode::ToEven,
        1 => RoundingMode::Up,
        2 => RoundingMode::Down,
        3 => RoundingMode::ToZero,
        4 => RoundingMode::FromZero,
        5 => RoundingMode::ToOdd,
        _ => RoundingMode::None,
    }
}
pub fn rdx(i: u8) -> Radix {
    match i % 4 {
        0 => Radix::Dec,
        1 => Radix::Bin,
        2 => Radix::Oct,
        _ => Radix::Hex,
    }
}

fn err_code(e: &Error) -> u8 {
    match e {
        Error::ExponentOverflow(Sign::Pos) => 1,
        Error::ExponentOverflow(Sign::Neg) => 2,
        Error::DivisionByZero => 3,
        Error::InvalidArgument => 4,
        Error::MemoryAllocation => 5,
    }
}
const MEM: u8 = 5;

pub fn enc_num(x: &BigFloat, v: &mut Vec<u8>) {
    if x.is_nan() {
        v.push(b'N');
        v.push(x.err().map_or(0, |e| err_code(&e)));
    } else if x.is_inf_pos() {
        v.push(b'I');
        v.push(1);
    } else if x.is_inf_neg() {
        v.push(b'I');
        v.push(0);
    } else if let Some((m, n, s, e, i)) = x.as_raw_parts() {
        v.push(b'V');
        v.push(if s == Sign::Pos { 1 } else { 0 });
        v.push(i as u8);
        v.extend_from_slice(&(n as u64).to_le_bytes());
        v.extend_from_slice(&e.to_le_bytes());
        for w in m {
            v.extend_from_slice(&w.to_le_bytes());
        }
    } else {
        v.push(b'?');
    }
}

pub fn enc(o: &Out) -> Vec<u8> {
    let mut v = Vec::new();
    match o {
        Out::Num(x) => enc_num(x, &mut v),
        Out::Txt(Ok(s)) => {
            v.push(b'T');
            v.extend_from_slice(s.as_bytes());
        }
        Out::Fmt(ok, s) => {
            v.push(b'F');
            v.push(*ok as u8);
            v.extend_from_slice(s.as_bytes());
        }
        Out::Digits(Ok((s, d, e))) => {
            v.push(b'D');
            v.push(if *s == Sign::Pos { 1 } else { 0 });
            v.extend_from_slice(&e.to_le_bytes());
            v.extend_from_slice(d);
        }
        Out::Opt(x) => {
            v.push(b'O');
            match x {
                None => v.push(9),
                Some(x) => v.push((x.signum() + 1) as u8),
            }
        }
        Out::Bool(b) => {
            v.push(b'B');
            v.push(*b as u8);
        }
        Out::Unit(Ok(())) => v.push(b'U'),
        Out::Ser(Ok(s)) => {
            v.push(b'S');
            v.extend_from_slice(s.as_bytes());
        }
        Out::Ser(Err(s)) => {
            v.push(b'E');
            v.push(if s.contains("emory") { MEM } else { 20 });
        }
        Out::De(Ok(x)) => enc_num(x, &mut v),
        Out::De(Err(s)) => {
            v.push(b'E');
            v.push(if s.contains("emory") { MEM } else { 20 });
        }
        Out::Bytes(b) => {
            v.push(b'R');
            v.extend_from_slice(b);
        }
        Out::Txt(Err(e)) | Out::Digits(Err(e)) | Out::Unit(Err(e)) => {
            v.push(b'E');
            v.push(err_code(e));
        }
        Out::Skip => v.push(b'-'),
    }
    v
}

/// The documented report of a failed allocation.
pub fn is_mem_err(b: &[u8]) -> bool {
    match b.first() {
        Some(b'N') | Some(b'E') => b.get(1) == Some(&MEM),
        // formatting traits cannot carry the reason: an error, or the text "Err"
        Some(b'F') => b.get(1) == Some(&0) || &b[2..] == b"Err",
        _ => false,
    }
}

pub fn show(b: &[u8]) -> String {
    match b.first() {
        Some(b'V') if b.len() >= 15 => {
            let n = u64::from_le_bytes(b[3..11].try_into().unwrap());
            let e = i32::from_le_bytes(b[11..15].try_into().unwrap());
            let words: Vec<String> = b[15..].chunks(8).rev().map(|c| format!("{:016x}", u64::from_le_bytes(c.try_into().unwrap()))).collect();
            let mut w = words.join("_");
            if w.len() > 400 {
                w = format!("{}..{} ({} words)", &w[..180], &w[w.len() - 180..], words.len());
            }
            format!("{}0x.{} *2^{} bits={} inexact={}", if b[1] == 1 { '+' } else { '-' }, w, e, n, b[2])
        }
        Some(b'N') => match b[1] {
            0 => "NaN".into(),
            1 | 2 => "NaN(ExponentOverflow)".into(),
            3 => "NaN(DivisionByZero)".into(),
            4 => "NaN(InvalidArgument)".into(),
            _ => "NaN(MemoryAllocation)".into(),
        },
        Some(b'I') => (if b[1] == 1 { "+Inf" } else { "-Inf" }).into(),
        Some(b'T') | Some(b'S') => format!("text {:?}", clip(&String::from_utf8_lossy(&b[1..]))),
        Some(b'F') => format!("{} after writing {:?}", if b[1] == 1 { "Ok" } else { "fmt::Error" }, clip(&String::from_utf8_lossy(&b[2..]))),
        Some(b'E') => format!("Err(code {})", b[1]),
        Some(b'D') => format!("digits sign={} e={} {:?}", b[1], i32::from_le_bytes(b[2..6].try_into().unwrap()), clip(&b[6..].iter().map(|d| (b'0' + d) as char).collect::<String>())),
        Some(b'!') => format!("panic {:?}", String::from_utf8_lossy(&b[1..])),
        _ => format!("{:?}", &b[..b.len().min(60)]),
    }
}
fn clip(s: &str) -> String {
    if s.len() > 300 {
        let mut a = 140;
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        format!("{}..({} bytes)", &s[..a], s.len())
    } else {
        s.into()
    }
}

pub fn build_num(n: &Num) -> BigFloat {
    match n.sp.as_str() {
        "inf" => return INF_POS,
        "-inf" => return INF_NEG,
        "nan" => return NAN,
        "zero" => return lib!(BigFloat::new(n.w.max(1) * 64)),
        "max" => return lib!(BigFloat::max_value(n.w.max(1) * 64)),
        "min" => return lib!(BigFloat::min_value(n.w.max(1) * 64)),
        "minpos" => return lib!(BigFloat::min_positive(n.w.max(1) * 64)),
        "minposn" => return lib!(BigFloat::min_positive_normal(n.w.max(1) * 64)),
        "int" | "half" => {
            let k = if n.neg { -n.e } else { n.e };
            let p = n.w.max(1) * 64;
            let mut v = if n.sp == "int" { lib!(BigFloat::from_i64(k, p)) } else { lib!(BigFloat::from_f64(k as f64 / 2.0, p)) };
            if n.inexact {
                v.set_inexact(true);
            }
            return v;
        }
        _ => {}
    }
    let w = n.w.max(1);
    let mut r = Rng::new(n.seed);
    let mut m = vec![0u64; w];
    match n.pat {
        1 => {}
        2 => m.iter_mut().for_each(|x| *x = u64::MAX),
        3 => m[0] |= 1,
        4 => m[w - 1] = (r.below(1000) + 1) << 54,
        5 => {
            // runs of zeros and ones
            let mut bit = true;
            let mut i = 0;
            while i < w * 64 {
                let len = 1 + r.us(w * 24 + 8);
                if bit {
                    for k in i..(i + len).min(w * 64) {
                        m[k / 64] |= 1 << (k % 64);
                    }
                }
                bit = !bit;
                i += len;
            }
        }
        6 => m[w - 1] = r.next() & !0x7ff,
        7 => {
            // 1 + tiny
            m[0] = r.next() | 1;
        }
        8 => {
            // 1 - tiny
            m.iter_mut().for_each(|x| *x = u64::MAX);
            m[0] = r.next();
        }
        9 => {
            // integer spread over the high words
            let k = 1 + r.us(w);
            for i in 0..k {
                m[w - 1 - i] = r.next();
            }
        }
        10 => {
            // a few words or bits among zeros
            for _ in 0..1 + r.us(4) {
                let i = r.us(w);
                m[i] |= if r.chance(50) { r.next() } else { 1 << r.below(64) };
            }
        }
        11 => {
            // a few zeros among ones
            m.iter_mut().for_each(|x| *x = u64::MAX);
            for _ in 0..1 + r.us(4) {
                let i = r.us(w);
                m[i] &= if r.chance(50) { r.next() } else { !(1 << r.below(64)) };
            }
        }
        _ => m.iter_mut().for_each(|x| *x = r.next()),
    }
    m[w - 1] |= 1 << 63;
    if n.pat == 4 {
        // normalise small integers
        while m[w - 1] >> 63 == 0 {
            m[w - 1] <<= 1;
        }
    }
    let s = if n.neg { Sign::Neg } else { Sign::Pos };
    if n.sp == "sub" {
        // subnormal: the smallest exponent and leading zeros
        let z = 1 + r.us(w * 64 - 1);
        for i in 0..z {
            m[w - 1 - i / 64] &= !(1u64 << (63 - i % 64));
        }
        let b = w * 64 - z - 1;
        m[b / 64] |= 1 << (b % 64);
        return lib!(BigFloat::from_raw_parts(&m, b + 1, s, astro_float::EXPONENT_MIN, n.inexact));
    }
    let e = n.e.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
    lib!(BigFloat::from_raw_parts(&m, w * 64, s, e, n.inexact))
}

pub fn new_env(nums: &[Num], ncc: usize) -> Env {
    let mut regs: Vec<BigFloat> = nums.iter().take(NREG).map(build_num).collect();
    while regs.len() < NREG {
        let i = regs.len() as u64;
        regs.push(lib!(BigFloat::from_u64(i + 1, 64)));
    }
    let mut ccs = Vec::new();
    for i in 0..NCC {
        ccs.push(if i < ncc.max(1) { Some(lib!(Consts::new()).expect("Consts::new without faults")) } else { None });
    }
    Env { regs, ccs, ctxs: vec![None, None, None] }
}

/// Formatting sink decided by the plan.
pub struct Sink<'a> {
    pub buf: String,
    pub fail_at: Option<usize>,
    pub mode: i64,
    pub other: Option<&'a BigFloat>,
    pub nested: Vec<u8>,
    pub calls: u32,
}
pub const SINK_PANIC: &str = "sink panics as planned";

impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _g = Arm::off();
        let f = heap::faults_suspend();
        self.calls += 1;
        let r = self.go(s);
        heap::faults_resume(f);
        r
    }
}
impl Sink<'_> {
    fn go(&mut self, s: &str) -> std::fmt::Result {
        if self.mode == 3 || self.mode == 4 {
            if let Some(o) = self.other {
                let mut inner = Sink { buf: String::new(), fail_at: None, mode: 0, other: None, nested: vec![], calls: 0 };
                if self.mode == 3 {
                    let ok = lib!(write!(inner, "{}", o)).is_ok();
                    self.nested.push(ok as u8);
                    self.nested.extend_from_slice(inner.buf.as_bytes());
                } else {
                    let x = lib!(BigFloat::from_str("-1.25e3"));
                    match x {
                        Ok(x) => enc_num(&x, &mut self.nested),
                        Err(_) => self.nested.push(b'E'),
                    }
                }
            }
        }
        if let Some(k) = self.fail_at {
            if self.buf.len() + s.len() > k {
                let mut room = k - self.buf.len().min(k);
                while !s.is_char_boundary(room) {
                    room -= 1;
                }
                self.buf.push_str(&s[..room]);
                if self.mode == 2 {
                    panic!("{}", SINK_PANIC);
                }
                if self.mode == 5 {
                    // a transient failure: what comes afterwards is accepted
                    self.fail_at = None;
                }
                return Err(std::fmt::Error);
            }
        }
        self.buf.push_str(s);
        Ok(())
    }
}

pub const UN_RM: [&str; 3] = ["reciprocal", "sqrt", "cbrt"];
pub const UN_CC: [&str; 16] = ["ln", "log2", "log10", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"];
pub const BIN_RM: [&str; 4] = ["add", "sub", "mul", "div"];
pub const BIN_CC: [&str; 2] = ["pow", "log"];
pub const PLAIN: [&str; 16] = [
    "rem", "add_full", "sub_full", "mul_full", "neg", "abs", "int", "fract", "ceil", "floor", "round", "min", "max", "clamp", "signum", "clone",
];
pub const CONSTS: [&str; 4] = ["pi", "e", "ln2", "ln10"];
pub const FMTS: [&str; 4] = ["display", "fbin", "foct", "fhex"];

static SHARED: std::sync::OnceLock<Vec<BigFloat>> = std::sync::OnceLock::new();
static SHARED_CC: std::sync::Mutex<Option<Consts>> = std::sync::Mutex::new(None);

/// Operands and a cache shared by all simulated threads.
pub fn set_shared(v: Vec<BigFloat>, cc: Option<Consts>) {
    let _ = SHARED.set(v);
    *SHARED_CC.lock().unwrap_or_else(|e| e.into_inner()) = cc;
}
pub fn shared() -> &'static [BigFloat] {
    SHARED.get().map_or(&[], |v| v.as_slice())
}
pub fn shared_cc() -> std::sync::MutexGuard<'static, Option<Consts>> {
    SHARED_CC.lock().unwrap_or_else(|e| e.into_inner())
}

/// Performs one operation. Registers are read-only here except for in-place operations (`d`).
pub fn exec(env: &mut Env, op: &Op) -> Out {
    let (a, b, c, d) = (op.a % NREG, op.b % NREG, op.c % NREG, op.d % NREG);
    let p = op.p;
    let r = rm(op.rm);
    let rx = rdx(op.rdx);
    // disjoint borrows; operands are read through raw pointers so that in-place ops can coexist
    let Env { regs, ccs, ctxs } = env;
    let sh = op.s == "sh";
    let src: *const BigFloat = if sh { shared().as_ptr() } else { regs.as_ptr() };
    let (ra, rb, rc) = unsafe { (&*src.add(a), &*src.add(b), &*src.add(c)) };
    let mut guard: Option<std::sync::MutexGuard<'static, Option<Consts>>> = None;
    macro_rules! cc {
        () => {{
            if op.cc == 9 {
                guard = Some(lib!(shared_cc()));
                guard.as_mut().unwrap().as_mut().expect("shared cache")
            } else {
                let i = op.cc % NCC;
                let i = if ccs[i].is_none() { 0 } else { i };
                ccs[i].as_mut().expect("cache")
            }
        }};
    }
    macro_rules! ctx {
        () => {{
            let i = op.cc % 3;
            if ctxs[i].is_none() {
                return Out::Skip;
            }
            ctxs[i].as_mut().unwrap()
        }};
    }
    macro_rules! un {
        ($f:ident) => {{
            let cc = cc!();
            Out::Num(lib!((*ra).$f(p, r, cc)))
        }};
    }
    let out = match op.f.as_str() {
        "add" => Out::Num(lib!((*ra).add(&(*rb), p, r))),
        "sub" => Out::Num(lib!((*ra).sub(&(*rb), p, r))),
        "mul" => Out::Num(lib!((*ra).mul(&(*rb), p, r))),
        "div" => Out::Num(lib!((*ra).div(&(*rb), p, r))),
        "rem" => Out::Num(lib!((*ra).rem(&(*rb)))),
        "add_full" => Out::Num(lib!((*ra).add_full_prec(&(*rb)))),
        "sub_full" => Out::Num(lib!((*ra).sub_full_prec(&(*rb)))),
        "mul_full" => Out::Num(lib!((*ra).mul_full_prec(&(*rb)))),
        "reciprocal" => Out::Num(lib!((*ra).reciprocal(p, r))),
        "sqrt" => Out::Num(lib!((*ra).sqrt(p, r))),
        "cbrt" => Out::Num(lib!((*ra).cbrt(p, r))),
        "powi" => Out::Num(lib!((*ra).powi(op.n as usize, p, r))),
        "ln" => un!(ln),
        "log2" => un!(log2),
        "log10" => un!(log10),
        "exp" => un!(exp),
        "sin" => un!(sin),
        "cos" => un!(cos),
        "tan" => un!(tan),
        "asin" => un!(asin),
        "acos" => un!(acos),
        "atan" => un!(atan),
        "sinh" => un!(sinh),
        "cosh" => un!(cosh),
        "tanh" => un!(tanh),
        "asinh" => un!(asinh),
        "acosh" => un!(acosh),
        "atanh" => un!(atanh),
        "pow" => {
            let cc = cc!();
            Out::Num(lib!((*ra).pow(&(*rb), p, r, cc)))
        }
        "log" => {
            let cc = cc!();
            Out::Num(lib!((*ra).log(&(*rb), p, r, cc)))
        }
        "neg" => Out::Num(lib!((*ra).neg())),
        "abs" => Out::Num(lib!((*ra).abs())),
        "int" => Out::Num(lib!((*ra).int())),
        "fract" => Out::Num(lib!((*ra).fract())),
        "ceil" => Out::Num(lib!((*ra).ceil())),
        "floor" => Out::Num(lib!((*ra).floor())),
        "round" => Out::Num(lib!((*ra).round(op.n as usize, r))),
        "min" => Out::Num(lib!((*ra).min(&(*rb)))),
        "max" => Out::Num(lib!((*ra).max(&(*rb)))),
        "clamp" => Out::Num(lib!((*ra).clamp(&(*rb), &(*rc)))),
        "signum" => Out::Num(lib!((*ra).signum())),
        "clone" => Out::Num(lib!((*ra).clone())),
        "cmp" => Out::Opt(lib!((*ra).cmp(&(*rb)))),
        "abs_cmp" => Out::Opt(lib!((*ra).abs_cmp(&(*rb)))),
        "eq" => Out::Bool(lib!((*ra) == (*rb))),
        "lt" => Out::Bool(lib!((*ra) < (*rb))),
        "is_int" => Out::Bool(lib!((*ra).is_int())),
        "classify" => Out::Bytes(format!("{:?}", lib!((*ra).classify())).into_bytes()),
        "set_precision" => {
            let x = &mut regs[d];
            let st = lib!(x.set_precision(p, r));
            match st {
                Ok(()) => {
                    let mut v = vec![b'='];
                    enc_num(&regs[d], &mut v);
                    Out::Bytes(v)
                }
                Err(e) => Out::Unit(Err(e)),
            }
        }
        "try_set_precision" => {
            let x = &mut regs[d];
            let ok = lib!(x.try_set_precision(p, r, op.n as usize));
            if x.is_nan() && x.err() == Some(Error::MemoryAllocation) {
                return Out::Unit(Err(Error::MemoryAllocation));
            }
            let mut v = vec![b'?', ok as u8];
            if ok {
                enc_num(&regs[d], &mut v);
            }
            Out::Bytes(v)
        }
        "set_exponent" => {
            let x = &mut regs[d];
            lib!(x.set_exponent(op.n as i32));
            let mut v = vec![];
            enc_num(x, &mut v);
            Out::Bytes(v)
        }
        "set_sign" => {
            let x = &mut regs[d];
            lib!(x.set_sign(if op.n > 0 { Sign::Pos } else { Sign::Neg }));
            let mut v = vec![];
            enc_num(x, &mut v);
            Out::Bytes(v)
        }
        "new" => Out::Num(lib!(BigFloat::new(p))),
        "from_f64" => Out::Num(lib!(BigFloat::from_f64(f64::from_bits(op.n as u64), p))),
        "from_f32" => Out::Num(lib!(BigFloat::from_f32(f32::from_bits(op.n as u32), p))),
        "from_word" => Out::Num(lib!(BigFloat::from_word(op.n as u64, p))),
        "from_i8" => Out::Num(lib!(BigFloat::from_i8(op.n as i8, p))),
        "from_u32" => Out::Num(lib!(BigFloat::from_u32(op.n as u32, p))),
        "from_i64" => Out::Num(lib!(BigFloat::from_i64(op.n, p))),
        "from_u128" => Out::Num(lib!(BigFloat::from_u128(((op.n as u64 as u128) << 64) | op.m as u64 as u128, p))),
        "from_i128" => Out::Num(lib!(BigFloat::from_i128(((op.n as i128) << 64) | op.m as u64 as i128, p))),
        "max_value" => Out::Num(lib!(BigFloat::max_value(p))),
        "min_value" => Out::Num(lib!(BigFloat::min_value(p))),
        "min_positive" => Out::Num(lib!(BigFloat::min_positive(p))),
        "min_positive_normal" => Out::Num(lib!(BigFloat::min_positive_normal(p))),
        "from_words" => {
            let mut g = Rng::new(op.n as u64);
            let w: Vec<u64> = (0..(p / 64).max(1)).map(|_| g.next()).collect();
            Out::Num(lib!(BigFloat::from_words(&w, Sign::Neg, op.m as i32)))
        }
        "parse" => {
            let cc = cc!();
            let pp = if op.n == 1 { usize::MAX } else { p };
            Out::Num(lib!(BigFloat::parse(&op.s, rx, pp, r, cc)))
        }
        "from_str" => match lib!(BigFloat::from_str(&op.s)) {
            Ok(x) => Out::Num(x),
            Err(e) => Out::Unit(Err(e)),
        },
        "from_ext" => {
            let cc = cc!();
            Out::Num(lib!(<BigFloat as FromExt<&str>>::from_ext(op.s.as_str(), p, r, cc)))
        }
        "from_ext_f64" => {
            let cc = cc!();
            Out::Num(lib!(BigFloat::from_ext(f64::from_bits(op.n as u64), p, r, cc)))
        }
        "format" => {
            let cc = cc!();
            Out::Txt(lib!((*ra).format(rx, r, cc)))
        }
        // decimal text of a register, parsed back
        "reparse" => {
            let cc = cc!();
            let t = lib!((*ra).format(rx, r, cc));
            match t {
                Ok(t) => Out::Num(lib!(BigFloat::parse(&t, rx, p, r, cc))),
                Err(e) => Out::Unit(Err(e)),
            }
        }
        "to_radix" => {
            let cc = cc!();
            Out::Digits(lib!((*ra).convert_to_radix(rx, r, cc)))
        }
        "from_radix" => {
            let cc = cc!();
            let mut g = Rng::new(op.n as u64);
            let base = match rx {
                Radix::Bin => 2,
                Radix::Oct => 8,
                Radix::Dec => 10,
                Radix::Hex => 16,
            };
            let mut ds: Vec<u8> = (0..op.c.max(1)).map(|_| g.below(base) as u8).collect();
            if ds[0] == 0 {
                ds[0] = 1;
            }
            Out::Num(lib!(BigFloat::convert_from_radix(Sign::Pos, &ds, op.m as i32, rx, p, r, cc)))
        }
        "display" | "fbin" | "foct" | "fhex" => {
            let mut s = Sink {
                buf: String::new(),
                fail_at: if matches!(op.m, 1 | 2 | 5) { Some(op.n as usize) } else { None },
                mode: op.m,
                other: if matches!(op.m, 3 | 4) { Some(&(*rb)) } else { None },
                nested: vec![],
                calls: 0,
            };
            let x = &(*ra);
            let ok = lib!(match op.f.as_str() {
                "display" => write!(s, "{}", x),
                "fbin" => write!(s, "{:b}", x),
                "foct" => write!(s, "{:o}", x),
                _ => write!(s, "{:X}", x),
            })
            .is_ok();
            if matches!(op.m, 3 | 4) {
                s.buf.push_str(" | ");
                s.buf.push_str(&String::from_utf8_lossy(&s.nested));
            }
            Out::Fmt(ok, s.buf)
        }
        "pi" => {
            let cc = cc!();
            Out::Num(lib!(cc.pi(p, r)))
        }
        "e" => {
            let cc = cc!();
            Out::Num(lib!(cc.e(p, r)))
        }
        "ln2" => {
            let cc = cc!();
            Out::Num(lib!(cc.ln_2(p, r)))
        }
        "ln10" => {
            let cc = cc!();
            Out::Num(lib!(cc.ln_10(p, r)))
        }
        "consts_new" => match lib!(Consts::new()) {
            Ok(x) => {
                let old = ccs[op.cc % NCC].replace(x);
                lib!(drop(old));
                Out::Unit(Ok(()))
            }
            Err(e) => Out::Unit(Err(e)),
        },
        "consts_swap" => {
            let i = op.cc % NCC;
            let j = op.n as usize % NCC;
            if ccs[i].is_some() && ccs[j].is_some() {
                ccs.swap(i, j);
            }
            Out::Unit(Ok(()))
        }
        // exchanges this thread's cache with the one in the global slot
        "cc_trade" => {
            let mut g = lib!(shared_cc());
            let i = op.n as usize % NCC;
            if ccs[i].is_some() && g.is_some() {
                std::mem::swap(&mut ccs[i], &mut *g);
            }
            lib!(drop(g));
            Out::Skip
        }
        "random" => Out::Num(lib!(BigFloat::random_normal(p, op.n as i32, op.m as i32))),
        "expr" => {
            let cc = cc!();
            let (lo, hi) = expr_range(op);
            Out::Num(lib!(exprs::run(op.c, &(*ra), &(*rb), &regs[d], (p, r, cc, lo, hi))))
        }
        "ctx_new" => match lib!(Consts::new()) {
            Ok(cc) => {
                let (lo, hi) = expr_range(op);
                ctxs[op.cc % 3] = Some(lib!(Context::new(p, r, cc, lo, hi)));
                Out::Unit(Ok(()))
            }
            Err(e) => Out::Unit(Err(e)),
        },
        "ctx_clone" => {
            let x = ctx!();
            match lib!(x.clone()) {
                Ok(y) => {
                    let old = ctxs[op.n as usize % 3].replace(y);
                    lib!(drop(old));
                    Out::Unit(Ok(()))
                }
                Err(e) => Out::Unit(Err(e)),
            }
        }
        "ctx_rebuild" => {
            let i = op.cc % 3;
            match ctxs[i].take() {
                None => Out::Skip,
                Some(x) => {
                    let (p0, r0, cc, lo, hi) = lib!(x.to_raw_parts());
                    let v = format!("{p0} {r0:?} {lo} {hi}");
                    ctxs[i] = Some(lib!(Context::new(p0, r0, cc, lo, hi)));
                    Out::Bytes(v.into_bytes())
                }
            }
        }
        "ctx_set_p" => {
            let x = ctx!();
            lib!(x.set_precision(p));
            Out::Unit(Ok(()))
        }
        "ctx_set_rm" => {
            let x = ctx!();
            lib!(x.set_rounding_mode(r));
            Out::Unit(Ok(()))
        }
        "ctx_set_emin" => {
            let x = ctx!();
            lib!(x.set_emin(op.n as i32));
            Out::Unit(Ok(()))
        }
        "ctx_set_emax" => {
            let x = ctx!();
            lib!(x.set_emax(op.m as i32));
            Out::Unit(Ok(()))
        }
        "ctx_set_consts" => {
            let x = ctx!();
            match lib!(Consts::new()) {
                Ok(cc) => {
                    lib!(x.set_consts(cc));
                    Out::Unit(Ok(()))
                }
                Err(e) => Out::Unit(Err(e)),
            }
        }
        "ctx_get" => {
            let x = ctx!();
            let (p0, r0, lo, hi) = (x.precision(), x.rounding_mode(), x.emin(), x.emax());
            let mut s = format!(
                "{p0} {r0:?} {lo} {hi} | {} {:?} {} {}",
                Contextable::precision(x),
                Contextable::rounding_mode(x),
                Contextable::emin(x),
                Contextable::emax(x)
            );
            // the same settings, and unclamped ones, in tuples
            let t3 = (p0, r0, Contextable::consts(x));
            s += &format!(" | {} {:?} {} {}", t3.precision(), t3.rounding_mode(), t3.emin(), t3.emax());
            let t5 = (p0, r0, x.consts(), op.n as i32, op.m as i32);
            s += &format!(" | {} {:?} {} {}", t5.precision(), t5.rounding_mode(), t5.emin(), t5.emax());
            Out::Bytes(s.into_bytes())
        }
        "ctx_pi" | "ctx_e" | "ctx_ln2" | "ctx_ln10" => {
            let x = ctx!();
            let (p0, r0, lo, hi) = (x.precision(), x.rounding_mode(), x.emin(), x.emax());
            macro_rules! k {
                ($($n:literal $f:ident $g:ident),+) => {
                    match op.f.as_str() {
                        $($n => match op.b % 6 {
                            0 => lib!(x.$f()),
                            1 => lib!(Contextable::$f(x)),
                            2 => lib!((p0, r0, x.consts()).$f()),
                            3 => lib!((p0, r0, Contextable::consts(x), lo, hi).$f()),
                            4 => lib!(Contextable::consts(&mut (p0, r0, x.consts())).$g(p0, r0)),
                            _ => lib!(Contextable::consts(&mut (p0, r0, x.consts(), lo, hi)).$g(p0, r0)),
                        },)+
                        _ => unreachable!(),
                    }
                };
            }
            Out::Num(k!("ctx_pi" const_pi pi, "ctx_e" const_e e, "ctx_ln2" const_ln2 ln_2, "ctx_ln10" const_ln10 ln_10))
        }
        "ctx_expr" => {
            let x = ctx!();
            if tuple3(op) {
                let (p, r) = (x.precision(), x.rounding_mode());
                Out::Num(lib!(exprs::run3(op.c, &(*ra), &(*rb), &regs[d], (p, r, x.consts()))))
            } else {
                Out::Num(lib!(exprs::run_ctx(op.c, &(*ra), &(*rb), &regs[d], x)))
            }
        }
        "ctx_fun" => {
            let x = ctx!();
            let (p, r) = (x.precision(), x.rounding_mode());
            Out::Num(lib!((*ra).atan(p, r, x.consts())))
        }
        "ser" => Out::Ser(crate::serdex::ser(&(*ra), op)),
        "de" => Out::De(crate::serdex::de(op)),
        "thread_exit_fmt" | "nop" => Out::Skip,
        other => panic!("afsim: unknown operation {other}"),
    };
    lib!(drop(guard));
    out
}

/// A `ctx_expr` whose settings come as a tuple without exponent limits.
pub fn tuple3(op: &Op) -> bool {
    op.f == "ctx_expr" && op.m == 3
}

pub fn expr_range(op: &Op) -> (i32, i32) {
    let lo = if op.n == 0 { -100000 } else { op.n };
    let hi = if op.m == 0 { 100000 } else { op.m };
    (lo as i32, hi as i32)
}

/// Registers the operation reads (to check that they stay untouched).
pub fn reads(op: &Op) -> [usize; 3] {
    [op.a % NREG, op.b % NREG, op.c % NREG]
}

pub fn in_place(op: &Op) -> bool {
    matches!(op.f.as_str(), "set_precision" | "try_set_precision" | "set_exponent" | "set_sign")
}

pub fn uses_ctx(op: &Op) -> bool {
    op.f.starts_with("ctx_")
}

/// Replaces every cache by a fresh one (the reference run's view of the world).
pub fn refresh(env: &mut Env) {
    for c in env.ccs.iter_mut() {
        if c.is_some() {
            let n = lib!(Consts::new()).expect("Consts::new");
            let old = c.replace(n);
            lib!(drop(old));
        }
    }
    for c in env.ctxs.iter_mut().flatten() {
        let n = lib!(Consts::new()).expect("Consts::new");
        lib!(c.set_consts(n));
    }
}

/// Touches everything the library initialises lazily for the process and for this thread.
pub fn warm_up() {
    let mut nums = vec![Num { w: 2, e: 0, pat: 0, seed: 5, ..Default::default() }];
    nums.push(Num { w: 2, e: 1, pat: 0, seed: 6, ..Default::default() });
    let mut env = new_env(&nums, 1);
    for (a, fs) in [(0, &UN_CC[..]), (1, &["acosh", "ln", "pow", "log"][..]), (0, &UN_RM[..]), (0, &BIN_RM[..]), (0, &PLAIN[..]), (0, &CONSTS[..]), (0, &FMTS[..])] {
        for f in fs {
            exec_drop(&mut env, &Op { f: f.to_string(), a, b: 1 - a, p: 64, ..Default::default() });
        }
    }
    for s in ["1.5", "-2.5e-70"] {
        exec_drop(&mut env, &Op { f: "from_str".into(), s: s.into(), ..Default::default() });
    }
    exec_drop(&mut env, &Op { f: "ctx_new".into(), p: 128, ..Default::default() });
    exec_drop(&mut env, &Op { f: "ctx_expr".into(), c: 22, b: 1, p: 64, ..Default::default() });
    let _g = Arm::on();
    drop(env);
}
fn exec_drop(env: &mut Env, op: &Op) {
    let s0 = crate::rt::steps();
    let o = exec(env, op);
    if std::env::var_os("AFSIM_WARM").is_some() {
        crate::shm::rec_event(&format!("warm {} {} {}", op.f, op.c, crate::rt::steps() - s0));
    }
    let _g = Arm::on();
    drop(o);
}
