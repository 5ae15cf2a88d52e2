//! Programs written with the `expr!` macro of the code under test.

use astro_float::ctx::Context;
use astro_float::{expr, BigFloat, Consts, RoundingMode};

pub type Tup<'a> = (usize, RoundingMode, &'a mut Consts, i32, i32);

macro_rules! table {
    ([$a:ident, $b:ident, $c:ident] $($id:literal : $e:expr),+ $(,)?) => {
        pub const N: usize = [$($id),+].len();
        #[allow(unused_variables)]
        pub fn run(id: usize, $a: &BigFloat, $b: &BigFloat, $c: &BigFloat, t: Tup) -> BigFloat {
            let ctx = (t.0, t.1, &mut *t.2, t.3, t.4);
            match id % N {
                $($id => expr!($e, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)),)+
                _ => unreachable!(),
            }
        }
        #[allow(unused_variables)]
        pub fn run_ctx(id: usize, $a: &BigFloat, $b: &BigFloat, $c: &BigFloat, mut ctx: &mut Context) -> BigFloat {
            match id % N {
                $($id => expr!($e, ctx),)+
                _ => unreachable!(),
            }
        }
        pub const TEXT: [&str; N] = [$(stringify!($e)),+];
    };
}

table! { [a, b, c]
    0: a + b,
    1: a - b * c,
    2: (a + b) / (a - b),
    3: a % b,
    4: sqrt(a) + cbrt(b),
    5: recip(a) - recip(b),
    6: ln(a) - ln(b),
    7: log2(a) * log10(b),
    8: log(a, b),
    9: exp(a) - 1,
    10: pow(a, b),
    11: sin(a + b),
    12: cos(a - b),
    13: tan(a * b),
    14: asin(a / b),
    15: acos(a / b),
    16: atan(a) - atan(b),
    17: sinh(a) / cosh(a),
    18: tanh(a - b),
    19: asinh(a) - asinh(b),
    20: acosh(a + 1),
    21: atanh(a / b),
    22: pi * a + e,
    23: ln_2 + ln_10 - ln(20),
    24: -a + "1.5" - 2.25e-3,
    25: sin(a) * sin(a) + cos(a) * cos(a),
    26: exp(ln(a)) - a,
    27: (a + 1) - a,
    28: sin(pi * a / b),
    29: sqrt(a * a + b * b),
    30: pow(e, ln(a)),
    31: cos(pi / 2 - a / "1e10"),
    32: tan(atan(a) + pi / 4),
    33: ln(1 + a / "1e20"),
    34: asin(sin(a / b)) + acos(cos(a / b)),
    35: (a - b) + (b - c) + (c - a),
    36: sin(a + "1e5") * exp(-(a * a)),
    37: acosh(1 + a * a / "1e12"),
    38: tan(pi / 2 - a / "1e15"),
    39: log(1 + a / "1e15", 1 + b / "1e15"),
}

/// Some of the expressions, without limits for the exponent.
pub const SUB: [usize; 6] = [1, 10, 11, 22, 23, 32];
#[allow(unused_variables)]
pub fn run3(id: usize, a: &BigFloat, b: &BigFloat, c: &BigFloat, t: (usize, RoundingMode, &mut Consts)) -> BigFloat {
    let ctx = (t.0, t.1, &mut *t.2);
    match id % 6 {
        0 => expr!(a - b * c, (ctx.0, ctx.1, &mut *ctx.2)),
        1 => expr!(pow(a, b), (ctx.0, ctx.1, &mut *ctx.2)),
        2 => expr!(sin(a + b), (ctx.0, ctx.1, &mut *ctx.2)),
        3 => expr!(pi * a + e, (ctx.0, ctx.1, &mut *ctx.2)),
        4 => expr!(ln_2 + ln_10 - ln(20), (ctx.0, ctx.1, &mut *ctx.2)),
        _ => expr!(tan(atan(a) + pi / 4), (ctx.0, ctx.1, &mut *ctx.2)),
    }
}
