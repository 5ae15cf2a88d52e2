//! Deterministic simulation of programs that use the astro-float library.

mod driver;
mod explore;
mod exprs;
mod gen;
mod heap;
mod judge;
mod ops;
mod plan;
mod refc;
mod rt;
mod run;
mod sched;
mod serdex;
mod shm;

#[global_allocator]
static A: heap::SimHeap = heap::SimHeap;

use plan::*;
use run::*;

fn main() {
    shm::init();
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok());
    let s = |i: usize| args.get(i).map_or("", |s| s.as_str());
    std::env::set_var("RUST_BACKTRACE", "0");
    if s(1) == "replay" || s(2) == "A04" {
        refc::init();
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(s(2), if s(3).is_empty() { "quick" } else { s(3) }, num(4)),
        Some("worker") => {
            driver::load_known();
            driver::worker(s(2), s(3), num(4).unwrap_or(1), num(5).unwrap_or(0), num(6).unwrap_or(1), num(7).unwrap_or(1), num(8).unwrap_or(100));
            0
        }
        Some("survey") => driver::survey(s(2), "quick", num(3).unwrap_or(200)),
        Some("replay") => driver::replay(s(2)),
        Some("selftest") => driver::selftest(num(2).unwrap_or(40)),
        Some("probe") => {
            probe(&args[2..]);
            0
        }
        _ => {
            eprintln!("usage: afsim check PROPERTY [quick|thorough [SCENARIOS]] | replay FILE | selftest [N]");
            2
        }
    };
    std::process::exit(code);
}

fn probe(args: &[String]) {
    use gen::*;
    let n: u64 = args[0].parse().unwrap();
    let k = match args[1].as_str() {
        "arith" => Kind::Arith,
        "root" => Kind::Root,
        "func" => Kind::Func,
        "conv" => Kind::Conv,
        "const" => Kind::Const,
        "make" => Kind::Make,
        "inplace" => Kind::InPlace,
        "expr" => Kind::Expr,
        "ctx" => Kind::Ctx,
        "random" => Kind::Random,
        "serde" => Kind::Serde,
        _ => Kind::Query,
    };
    let sz = match args[2].as_str() {
        "tiny" => Sz::Tiny,
        "small" => Sz::Small,
        "mid" => Sz::Mid,
        "big" => Sz::Big,
        _ => Sz::Huge,
    };
    let warm = args.get(3).is_some();
    let t0 = std::time::Instant::now();
    let mut st: Vec<(u64, String)> = vec![];
    for seed in 0..n {
        let mut r = Rng::new(seed);
        let p = Plan { prop: "x".into(), seed, heap: heap(&mut r), nums: regs(&mut r, sz, k == Kind::Arith), threads: vec![{ let mut v = program(&mut r, 3, &[(k, 1)], sz, 1); with_ctx(&mut r, &mut v, sz); v }], warm, ncc: 1, ..Default::default() };
        let x = run(&p, Mode::default());
        if x.status != Status::Ok || !x.recs.viols.is_empty() || !x.recs.panics.is_empty() {
            println!("seed {seed}: {:?} viols {:?} panics {:?} last {:?}", x.status, x.recs.viols.iter().map(|v| (&v.code, &v.text)).collect::<Vec<_>>(), x.recs.panics, x.last_started().map(|l| serde_json::to_string(&p.threads[0][l.1 as usize]).unwrap()));
        }
        for q in &x.recs.res {
            st.push((q.steps, format!("{} {} -> {} stack {}", seed, serde_json::to_string(&p.threads[0][q.op as usize]).unwrap(), ops::show(&q.bytes), q.stack)));
        }
    }
    st.sort();
    println!("{} runs {:?}", n, t0.elapsed());
    for q in [0.1, 0.5, 0.9, 0.99, 1.0] {
        let i = ((st.len() - 1) as f64 * q) as usize;
        println!("{q}: {} {}", st[i].0, st[i].1);
    }
    println!("max stack {}", st.iter().map(|s| s.1.rsplit(' ').next().unwrap().parse::<u64>().unwrap()).max().unwrap());
}
