//! Seeded search: one scenario per seed, several fault and schedule variations per scenario.

use crate::gen::{self, Kind, Sz};
use crate::judge::{Judge, V};
use crate::ops;
use crate::plan::*;
use crate::run::Mode;
use std::collections::{HashMap, HashSet};

pub struct Ex {
    pub j: Judge,
    /// The last plan judged.
    pub last: Option<Plan>,
    /// Allocation sites that have failed so far in this worker.
    pub seen: HashSet<u64>,
    /// Call sites (return addresses) a failed allocation has been reported through so far.
    pub calls: HashSet<u32>,
    pub found: Vec<(Plan, V)>,
    pub thorough: bool,
    pub known: fn(&str, &Plan, &V) -> Option<String>,
    pub known_hits: std::collections::BTreeMap<String, String>,
}

impl Ex {
    /// Judges one plan; true if it counts as a violation.
    fn try_plan(&mut self, p: &Plan) -> bool {
        self.last = Some(p.clone());
        match self.j.judge(p) {
            Some(v) => {
                if let Some(k) = (self.known)(&p.prop, p, &v) {
                    self.known_hits.entry(k).or_insert_with(|| v.text.clone());
                    self.j.st.add("known_findings_met", 1);
                    return false;
                }
                self.found.push((p.clone(), v));
                true
            }
            None => {
                if !self.j.rejected && self.j.st.samples.len() < 3 && p.seed % 7 == 3 {
                    let s = serde_json::to_string(p).unwrap();
                    if s.len() < 6000 {
                        self.j.st.samples.push(s);
                    }
                }
                false
            }
        }
    }
}

const ALL: &[(Kind, u64)] = &[
    (Kind::Arith, 18),
    (Kind::Root, 10),
    (Kind::Func, 26),
    (Kind::Conv, 16),
    (Kind::Const, 8),
    (Kind::Make, 5),
    (Kind::InPlace, 3),
    (Kind::Expr, 8),
    (Kind::Ctx, 3),
    (Kind::Query, 1),
    (Kind::Random, 1),
];

fn base(prop: &str, seed: u64, r: &mut Rng, s: Sz, wide: bool) -> Plan {
    Plan {
        prop: prop.into(),
        seed,
        family: match s {
            Sz::Huge => "huge".into(),
            Sz::Big => "big".into(),
            _ => String::new(),
        },
        heap: gen::heap(r),
        nums: gen::regs(r, s, wide),
        threads: vec![vec![]],
        rng: (0, r.next() & 0xffff_ffff),
        warm: true,
        ncc: 1,
        ..Default::default()
    }
}

/// Fault kinds for one operation that makes `n` requests of the given sizes.
fn fault(r: &mut Rng, op: usize, sizes: &[u64]) -> Fault {
    let n = sizes.len().max(1) as u64;
    let kind = match r.below(20) {
        0..=8 => FK::At { idx: r.below(n) as u32, n: 1 },
        9 => FK::At { idx: n.saturating_sub(1 + r.below(4)) as u32, n: 1 },
        10 | 11 => FK::At { idx: r.below(n) as u32, n: 1 + r.below(6) as u32 },
        12 | 13 => FK::From { idx: r.below(n) as u32 },
        14 => FK::From { idx: 0 },
        15 => FK::Size { min: sizes.get(r.us(sizes.len().max(1))).copied().unwrap_or(8) as usize },
        16 => FK::Budget { bytes: r.below(1 + sizes.iter().sum::<u64>()) as usize },
        17 => FK::Budget { bytes: r.below(1 + 4 * sizes.iter().max().copied().unwrap_or(8)) as usize },
        18 => FK::Prob { seed: r.next() & 0xffff_ffff, pm: 1 + r.below(60) as u32 },
        _ => FK::Prob { seed: r.next() & 0xffff_ffff, pm: 100 + r.below(600) as u32 },
    };
    Fault { t: 0, op, kind }
}

/// Single failures aimed at what has never failed so far: for every operation the request with the
/// most call sites on its stack through which no failure has been reported yet (`deep`: the request
/// whose whole stack is new). None when nothing new is left.
fn aim(ex: &mut Ex, r: &mut Rng, p: &Plan, g: &crate::run::RunRes, deep: bool) -> Option<Plan> {
    let nops = p.threads[0].len();
    // per operation: site -> (occurrences, one of them at random)
    let mut per: Vec<HashMap<u64, (u64, u32)>> = vec![HashMap::new(); nops];
    let mut order: Vec<Vec<u64>> = vec![vec![]; nops];
    for a in &g.recs.allocs {
        let op = a.op as usize;
        if op < nops {
            let e = per[op].entry(a.site).or_insert_with(|| {
                order[op].push(a.site);
                (0, a.idx)
            });
            e.0 += 1;
            if e.0 < 64 && r.below(e.0) == 0 {
                e.1 = a.idx;
            }
        }
    }
    let mut q = p.clone();
    q.faults.clear();
    for op in 0..nops {
        let mut best: Option<(usize, u64)> = None;
        for s in &order[op] {
            let n = if deep {
                !ex.seen.contains(s) as usize
            } else {
                g.recs.stacks.get(s).map_or(0, |f| f.iter().filter(|x| !ex.calls.contains(x)).count())
            };
            if n > best.map_or(0, |b| b.0) {
                best = Some((n, *s));
            }
        }
        if let Some((_, s)) = best {
            ex.seen.insert(s);
            if let Some(f) = g.recs.stacks.get(&s) {
                ex.calls.extend(f.iter());
            }
            q.faults.push(Fault { t: 0, op, kind: FK::At { idx: per[op][&s].1, n: 1 } });
        }
    }
    if q.faults.is_empty() {
        None
    } else {
        Some(q)
    }
}

/// Judges up to `n` plans with such failures.
fn aimed(ex: &mut Ex, r: &mut Rng, p: &Plan, g: &crate::run::RunRes, n: usize) -> bool {
    for _ in 0..n {
        match aim(ex, r, p, g, false) {
            Some(mut q) => {
                q.noretry = r.chance(50);
                if ex.try_plan(&q) {
                    return true;
                }
            }
            None => break,
        }
    }
    false
}

fn sizes_of(g: &crate::run::RunRes, op: usize) -> Vec<u64> {
    g.recs.allocs.iter().filter(|a| a.op as usize == op).map(|a| a.size).collect()
}

pub fn scenario(ex: &mut Ex, prop: &str, seed: u64) {
    match prop {
        "A01" => a01(ex, seed),
        "A02" => a02(ex, seed),
        "A03" => a03(ex, seed),
        "A04" => a04(ex, seed),
        "A05" => a05(ex, seed),
        "A06" => a06(ex, seed),
        "A07" => a07(ex, seed),
        "A08" => a08(ex, seed),
        "A09" => a09(ex, seed),
        "A10" => a10(ex, seed),
        "A11" => a11(ex, seed),
        "A12" => a12(ex, seed),
        "A13" => a13(ex, seed),
        _ => {}
    }
}

fn pick_size(ex: &Ex, r: &mut Rng) -> Sz {
    let t = if ex.thorough { 30 } else { 60 };
    if r.below(t) == 0 {
        Sz::Huge
    } else {
        gen::size(r)
    }
}

/// A program mixing kinds; at Huge only cheap-per-word operations.
fn mixed(r: &mut Rng, s: Sz, len: usize, ncc: usize) -> Vec<Op> {
    let mut v = if s == Sz::Huge {
        let mut v = vec![];
        for _ in 0..len.min(1) {
            let mut o = gen::op(r, Kind::Arith, s, ncc);
            if !["mul", "div", "mul_full", "add", "sub"].contains(&o.f.as_str()) {
                o.f = "mul".into();
            }
            v.push(o);
        }
        v
    } else {
        gen::program(r, len, ALL, s, ncc)
    };
    gen::with_ctx(r, &mut v, s);
    v
}

/// Now and then: one to three operations on rarely taken paths instead of a general program.
fn corners(r: &mut Rng, p: &mut Plan, pct: u64) {
    if !r.chance(pct) {
        return;
    }
    let n = 1 + r.us(3);
    p.threads[0].clear();
    if r.chance(if p.prop == "A11" { 60 } else { 20 }) {
        let k = 1 + r.us(4);
        return gen::exacts(r, &mut p.nums, &mut p.threads[0], k);
    }
    for i in 0..n {
        let o = gen::corner(r, &mut p.nums, i * 2);
        p.threads[0].push(o);
    }
}

fn a01(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = pick_size(ex, &mut r);
    let wide = r.chance(15);
    let mut p = base("A01", seed, &mut r, s, wide);
    p.warm = !r.chance(8);
    let len = 1 + r.us(4);
    p.threads[0] = mixed(&mut r, s, len, 1);
    if s != Sz::Huge {
        corners(&mut r, &mut p, 30);
    }
    if r.chance(6) {
        // requests far beyond what the simulated machine has
        for o in p.threads[0].iter_mut() {
            if ["add", "mul", "div", "sqrt", "pi", "sin", "exp", "new", "from_f64", "parse", "ln", "format"].contains(&o.f.as_str()) {
                o.p = 1usize << (33 + r.us(20));
            }
        }
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
    if ex.try_plan(&Plan { faults: vec![], ..p.clone() }) || ex.j.rejected {
        return;
    }
    let nops = p.threads[0].len();
    // first: call sites, then allocation sites that have never failed so far (in this worker)
    let mut budget = if s == Sz::Huge { 5 } else { 22 };
    for deep in [false, true] {
        while budget > 0 {
            let q = match aim(ex, &mut r, &p, &g, deep) {
                Some(q) => q,
                None => break,
            };
            budget -= 1;
            if ex.try_plan(&q) {
                return;
            }
        }
        budget = budget.min(if s == Sz::Huge { 2 } else { 8 });
    }
    for _ in 0..if s == Sz::Huge { 2 } else { 6 } {
        let mut q = p.clone();
        for op in 0..nops {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        q.noretry = r.chance(20);
        if ex.try_plan(&q) {
            return;
        }
    }
}

/// Programs that lean on cached state.
fn stateful(r: &mut Rng, s: Sz, len: usize, ncc: usize) -> Vec<Op> {
    let w: &[(Kind, u64)] = match r.below(6) {
        0 => &[(Kind::Const, 1)],
        1 => &[(Kind::Conv, 1)],
        2 => &[(Kind::Const, 2), (Kind::Func, 3)],
        3 => &[(Kind::Ctx, 5), (Kind::Const, 1)],
        4 => &[(Kind::Const, 3), (Kind::Conv, 3), (Kind::Func, 3), (Kind::Cache, 1)],
        _ => ALL,
    };
    let mut v = Vec::new();
    for _ in 0..len {
        let sz = match r.below(8) {
            0 | 1 => Sz::Tiny,
            2 | 3 => Sz::Small,
            4 | 5 => Sz::Mid,
            _ => s,
        };
        let k = gen::kind(r, w);
        v.push(gen::op(r, k, gen::fit(k, sz), ncc));
    }
    if r.chance(30) {
        // the same request again, later
        let n = v.len();
        let o = v[r.us(n)].clone();
        v.push(o);
    }
    gen::with_ctx(r, &mut v, s);
    v
}

fn a02(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = gen::size(&mut r);
    let mut p = base("A02", seed, &mut r, s, false);
    p.ncc = 1 + r.us(2);
    let len = 2 + r.us(5);
    p.threads[0] = if r.chance(70) { stateful(&mut r, s, len, p.ncc) } else { mixed(&mut r, s, len, p.ncc) };
    corners(&mut r, &mut p, 12);
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let nops = p.threads[0].len();
    if aimed(ex, &mut r, &p, &g, 8) {
        return;
    }
    for k in 0..7 {
        let mut q = p.clone();
        q.noretry = k % 2 == 1;
        let some = r.chance(50);
        for op in 0..nops {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() && !(some && r.chance(50)) {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a03(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    if r.chance(7) {
        let mut p = waves(&mut r, "A03", seed, 30_000);
        p.warm = r.chance(30);
        // functions that take the same constants from the cache, in between
        for _ in 0..r.us(4) {
            let mut o = gen::op(&mut r, Kind::Func, Sz::Small, 1);
            o.cc = 0;
            let at = r.us(p.threads[0].len() + 1);
            p.threads[0].insert(at, o);
        }
        ex.try_plan(&p);
        return;
    }
    let s = if r.chance(4) { Sz::Big } else { gen::size(&mut r) };
    let mut p = base("A03", seed, &mut r, s, false);
    p.ncc = 1 + r.us(3);
    let len = 3 + r.us(10);
    p.threads[0] = stateful(&mut r, s, len, p.ncc);
    p.warm = r.chance(50);
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    // the same requests in other orders
    for _ in 0..3 {
        let mut q = p.clone();
        let t = &mut q.threads[0];
        let skip = t.iter().filter(|o| o.f == "ctx_new").count().min(2);
        for i in (skip + 1..t.len()).rev() {
            let j = skip + r.us(i - skip + 1);
            t.swap(i, j);
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

/// Long and short requests for one constant in turns, over two orders of magnitude.
fn waves(r: &mut Rng, prop: &str, seed: u64, top: usize) -> Plan {
    let mut p = base(prop, seed, r, Sz::Tiny, false);
    p.family = "big".into();
    let c = *r.pick(&ops::CONSTS);
    let top = if c == "ln10" { top * 2 / 5 } else { top };
    let n = 3 + r.us(5);
    for i in 0..n {
        let mut o = gen::op(r, Kind::Const, Sz::Tiny, 1);
        if i == 0 || i == 2 || r.chance(75) {
            o.f = c.into();
        }
        o.p = if (i % 2 == 0 && o.f == c) || i == 0 { (top as f64 * (0.1 + 0.9 * r.below(1000) as f64 / 1000.0)) as usize } else { r.range(1, [64, 128, 500, 2000][i % 4]) as usize };
        o.cc = 0;
        p.threads[0].push(o);
    }
    p
}

fn a04_waves(ex: &mut Ex, mut r: Rng, seed: u64) {
    let p = waves(&mut r, "A04", seed, 36_000);
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p) * 8, trace: true, ..Default::default() });
    for k in 0..2 {
        let mut q = p.clone();
        q.noretry = k == 0;
        for op in 0..q.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() && r.chance(40) {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a04(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    if r.chance(5) {
        return a04_waves(ex, r, seed);
    }
    let s = match r.below(12) {
        0..=3 => Sz::Tiny,
        4..=7 => Sz::Small,
        8..=10 => Sz::Mid,
        _ => Sz::Big,
    };
    let mut p = base("A04", seed, &mut r, s, false);
    p.ncc = 1 + r.us(2);
    if s == Sz::Big {
        p.family = "big".into();
    }
    let len = 2 + r.us(8);
    let one = if r.chance(40) { Some(*r.pick(&ops::CONSTS)) } else { None };
    let dense = r.chance(25);
    let start = gen::words(&mut r, s);
    for i in 0..len {
        let k = match r.below(10) {
            0 => Kind::Func,
            1 => Kind::Conv,
            2 => Kind::Cache,
            _ => Kind::Const,
        };
        let z = if r.chance(35) { Sz::Small } else { s };
        let mut o = gen::op(&mut r, k, if k == Kind::Const { z } else { gen::fit(k, Sz::Small) }, p.ncc);
        if k == Kind::Const {
            if let Some(c) = one {
                o.f = c.into();
            }
            if dense {
                // consecutive sizes, where cache boundaries lie
                o.p = (start + i) * 64;
            } else if r.chance(20) {
                o.p = ((47 * (1 << r.below(9))) as i64 + r.range(-70, 70)).max(1) as usize;
            }
        }
        p.threads[0].push(o);
    }
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p) * 4, trace: true, ..Default::default() });
    if aimed(ex, &mut r, &p, &g, 6) {
        return;
    }
    for k in 0..5 {
        let mut q = p.clone();
        q.noretry = k % 2 == 0;
        for op in 0..q.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() && r.chance(60) {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a05(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = if r.chance(70) { Sz::Tiny } else { Sz::Small };
    let mut p = base("A05", seed, &mut r, s, false);
    let nt = 2 + r.us(if ex.thorough { 5 } else { 3 });
    p.warm = r.chance(35);
    p.ncc = 1;
    p.threads.clear();
    let style = r.below(8);
    // threads that contend: all draw from the same few requests, mostly on new caches
    let pool: Option<Vec<Op>> = if r.chance(40) {
        let k = [Kind::Const, Kind::Const, Kind::Conv, Kind::Func, Kind::Root, Kind::Expr, Kind::Arith][r.us(7)];
        let mut v = vec![];
        let mut first = gen::op(&mut r, k, gen::fit(k, s), 1);
        while first.f == "random" {
            first = gen::op(&mut r, k, gen::fit(k, s), 1);
        }
        for i in 0..2 + r.us(2) {
            let mut o = first.clone();
            if i > 0 {
                o.p = gen::prec(&mut r, gen::fit(k, s));
                if r.chance(30) {
                    o.rm = r.below(7) as u8;
                }
                if r.chance(30) {
                    o = gen::op(&mut r, k, gen::fit(k, s), 1);
                }
            }
            v.push(o);
        }
        v.retain(|o| o.f != "random" && !ops::uses_ctx(o));
        Some(v)
    } else {
        None
    };
    for _ in 0..nt {
        if let Some(v) = pool.as_ref() {
            let mut t = vec![];
            for _ in 0..2 + r.us(3) {
                if r.chance(50) {
                    t.push(Op { f: "consts_new".into(), ..Default::default() });
                }
                t.push(r.pick(v).clone());
            }
            p.threads.push(t);
            continue;
        }
        let w: &[(Kind, u64)] = match style {
            0 => &[(Kind::Const, 1)],
            1 => &[(Kind::Conv, 1)],
            2 => &[(Kind::Func, 3), (Kind::Const, 1)],
            3 => &[(Kind::Expr, 2), (Kind::Ctx, 2), (Kind::Conv, 1)],
            _ => ALL,
        };
        let len = 1 + r.us(4);
        let mut t = gen::program(&mut r, len, w, s, 1);
        gen::with_ctx(&mut r, &mut t, s);
        t.retain(|o| o.f != "random");
        for o in t.iter_mut() {
            if !matches!(o.f.as_str(), "parse" | "from_ext" | "from_str") && !ops::in_place(o) && r.chance(45) {
                o.s = "sh".into();
            }
            if !ops::uses_ctx(o) && r.chance(40) {
                o.cc = 9;
            }
        }
        if r.chance(25) {
            let i = r.us(t.len() + 1);
            t.insert(i, Op { f: "cc_trade".into(), ..Default::default() });
        }
        p.threads.push(t);
    }
    let mut total = 0;
    let mut rare: Vec<Vec<u64>> = vec![];
    let mut statics: Vec<Vec<crate::shm::Static>> = vec![];
    for t in 0..nt {
        let g = ex.j.gold(&p, Mode { only: Some(t), rare: true, limit: Judge::gold_limit(&p), ..Default::default() });
        total += g.stat("steps");
        rare.push(g.recs.rare.clone());
        statics.push(g.recs.statics.clone());
    }
    let total = total.max(50);
    // statics somebody writes to: the places where threads can meet
    let written: std::collections::HashSet<u32> = statics.iter().flatten().filter(|s| s.1 > 0).map(|s| s.0).collect();
    for s in statics.iter_mut() {
        s.retain(|s| written.contains(&s.0));
    }
    if !written.is_empty() {
        ex.j.st.add("programs_with_written_statics", 1);
    }
    let more = if written.is_empty() { 0 } else { 6 };
    for k in 0..more + if ex.thorough { 12 } else { 8 } {
        let mut q = p.clone();
        q.sched = sched(&mut r, nt, total, k);
        if k % 2 == 0 || k >= 8 && more > 0 {
            // threads stop in the middle of rarely executed code while the others run on
            q.sched.parks = parks(&mut r, &rare, &statics, total);
            if r.chance(70) {
                q.sched.points.clear();
                q.sched.quantum = total * 4 + 1000;
            }
        }
        if k % 4 == 3 && p.warm {
            // memory runs short in one thread only
            let t = r.us(nt);
            for op in 0..q.threads[t].len() {
                if r.chance(60) {
                    let mut f = fault(&mut r, op, &[64, 64, 64, 128, 128, 256, 64, 64, 64, 64, 512, 64]);
                    f.t = t;
                    q.faults.push(f);
                }
            }
        }
        if ex.try_plan(&q) || ex.j.rejected {
            return;
        }
    }
}

fn parks(r: &mut Rng, rare: &[Vec<u64>], statics: &[Vec<crate::shm::Static>], total: u64) -> Vec<(u8, u64, u64)> {
    let mut v = vec![];
    let met = statics.iter().any(|s| !s.is_empty()) && r.chance(75);
    for _ in 0..1 + r.us(4) {
        let t = r.us(rare.len());
        let at = if met && !statics[t].is_empty() {
            // just before, just after, or soon after an access to a static
            let st = r.pick(&statics[t]);
            *r.pick(&st.2)
        } else if rare[t].is_empty() {
            continue;
        } else {
            *r.pick(&rare[t])
        };
        let max = if r.chance(70) { 2 } else { 2 << r.below(6) };
        let at = at + r.below(max);
        let len = if r.chance(50) { total * 2 } else { 1 + r.below(total) };
        v.push((t as u8, at.max(1), len));
    }
    v
}

fn sched(r: &mut Rng, nt: usize, total: u64, k: usize) -> Sched {
    let mut s = Sched { seed: r.next() & 0xffff_ffff, ..Default::default() };
    match (k + r.us(2)) % 4 {
        0 => {
            // a few preemptions at random depths
            let n = 1 + r.us(6);
            for _ in 0..n {
                s.points.push((1 + r.below(total), r.below(8) as u32));
            }
            s.quantum = total + 1000;
        }
        1 => {
            // many short slices at the start: races on first use
            let n = 20 + r.us(300);
            let max = 1 << r.below(9);
            for _ in 0..n {
                s.points.push((1 + r.below(max), r.below(8) as u32));
            }
            s.quantum = 1000 + r.below(total);
        }
        2 => {
            let b = r.below(16);
            s.quantum = 50 + r.below(1 << b);
        }
        _ => {
            let n = 1 + r.us(20);
            for _ in 0..n {
                s.points.push((1 + r.below(1 + total / n as u64), r.below(8) as u32));
            }
            s.quantum = 200 + r.below(total);
        }
    }
    if r.chance(40) {
        for _ in 0..1 + r.us(2) {
            s.stalls.push((r.below(total), r.us(nt) as u8, r.below(total * 2)));
        }
    }
    s
}

fn a06(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = pick_size(ex, &mut r);
    let wide = r.chance(15);
    let mut p = base("A06", seed, &mut r, s, wide);
    p.warm = r.chance(65);
    let len = 1 + r.us(6);
    p.threads[0] = mixed(&mut r, s, len, 1);
    if s != Sz::Huge {
        corners(&mut r, &mut p, 25);
    }
    if r.chance(25) {
        for op in 0..p.threads[0].len() {
            if r.chance(50) {
                p.faults.push(fault(&mut r, op, &[64, 64, 128, 64, 256, 64, 64, 64]));
            }
        }
    }
    for fill in if s == Sz::Huge { vec![3u8] } else { vec![1u8, 3, 4, 2] } {
        let mut q = p.clone();
        q.heap = gen::heap(&mut r);
        q.heap.fill = fill;
        q.heap.guard = r.chance(8);
        if ex.try_plan(&q) || ex.j.rejected {
            return;
        }
    }
}

fn a07(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = pick_size(ex, &mut r);
    let wide = r.chance(15);
    let mut p = base("A07", seed, &mut r, s, wide);
    let len = 1 + r.us(6);
    p.threads[0] = mixed(&mut r, s, len, 1);
    if s != Sz::Huge {
        corners(&mut r, &mut p, 25);
    }
    p.heap.guard = r.chance(55) && s != Sz::Huge;
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
    if ex.try_plan(&p) || ex.j.rejected || aimed(ex, &mut r, &p, &g, 8) {
        return;
    }
    for _ in 0..3 {
        let mut q = p.clone();
        q.heap = Heap { guard: r.chance(55) && s != Sz::Huge, ..gen::heap(&mut r) };
        for op in 0..p.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a08(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = gen::size(&mut r);
    let mut p = base("A08", seed, &mut r, s, false);
    p.ncc = 1 + r.us(2);
    if r.chance(50) {
        // rounds of identical requests
        let len = 1 + r.us(5);
        let mut body = stateful(&mut r, s, len, p.ncc);
        for o in body.iter_mut() {
            o.d = 11;
            o.a %= 10;
            o.b %= 10;
            o.c %= 10;
            if ops::in_place(o) || o.f == "random" {
                o.f = "add".into();
            }
            if o.f == "expr" || o.f == "ctx_expr" {
                o.d = 11;
            }
            if o.f == "consts_swap" || o.f == "ctx_set_p" {
                o.f = "pi".into();
            }
        }
        let n = body.len();
        for _ in 0..6 {
            p.threads[0].extend(body.iter().cloned());
        }
        p.family = format!("rounds:{n}");
        if ex.try_plan(&p) || ex.j.rejected {
            return;
        }
        let mut q = p.clone();
        q.noretry = true;
        for i in 0..n {
            let k = 1 + r.us(60);
            q.faults.push(fault(&mut r, n + i, &vec![64; k]));
        }
        ex.try_plan(&q);
    } else {
        let len = 1 + r.us(6);
        p.threads[0] = mixed(&mut r, s, len, p.ncc);
        corners(&mut r, &mut p, 25);
        if r.chance(20) {
            let n = p.threads[0].len();
            p.threads[0].insert(r.us(n), sink_op(&mut r, 2));
        }
        let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
        if ex.try_plan(&p) || ex.j.rejected {
            return;
        }
        if aimed(ex, &mut r, &p, &g, 10) {
            return;
        }
        for k in 0..5 {
            let mut q = p.clone();
            q.noretry = k % 2 == 0;
            for op in 0..p.threads[0].len() {
                let sz = sizes_of(&g, op);
                if !sz.is_empty() {
                    q.faults.push(fault(&mut r, op, &sz));
                }
            }
            if ex.try_plan(&q) {
                return;
            }
        }
    }
}

fn sink_op(r: &mut Rng, mode: i64) -> Op {
    Op {
        f: if r.chance(70) { "display".into() } else { r.pick(&ops::FMTS).to_string() },
        a: r.us(10),
        b: r.us(10),
        m: mode,
        n: match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.range(0, 6),
            3 => r.range(0, 90),
            // far into a long text, at its last bytes or beyond
            _ => {
                let k = r.range(3, 15);
                r.range(0, 1 << k)
            }
        },
        ..Default::default()
    }
}

fn a09(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = match r.below(10) {
        0..=5 => Sz::Tiny,
        6..=8 => Sz::Small,
        _ => Sz::Mid,
    };
    let mut p = base("A09", seed, &mut r, s, false);
    // printed values: moderate exponents, several sizes
    for (i, n) in p.nums.iter_mut().enumerate() {
        if i % 2 == 0 {
            n.e = n.e.clamp(-300, 300);
        } else {
            *n = gen::num_fn(&mut r, s);
        }
    }
    let len = 2 + r.us(5);
    for _ in 0..len {
        let m = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 5,
            3 | 4 => 2,
            5 | 6 => 3,
            _ => 4,
        };
        let o = sink_op(&mut r, m);
        p.threads[0].push(o);
        if r.chance(50) {
            let z = if r.chance(70) { Kind::Conv } else { Kind::Const };
            let mut o = gen::op(&mut r, z, s, 1);
            o.d = 11;
            p.threads[0].push(o);
        }
        if r.chance(60) {
            p.threads[0].push(sink_op(&mut r, 0));
        }
    }
    p.warm = r.chance(60);
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    for _ in 0..2 {
        let mut q = p.clone();
        q.warm = true;
        for op in 0..q.threads[0].len() {
            if r.chance(60) {
                let n = 1 + r.us(30);
                q.faults.push(fault(&mut r, op, &vec![64; n]));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
    // the same sinks in threads that also format while being torn down
    let mut q = p.clone();
    let nt = 2 + r.us(2);
    let prog = q.threads[0].clone();
    q.threads.clear();
    for t in 0..nt {
        let mut v: Vec<Op> = prog.iter().filter(|_| r.chance(60)).cloned().collect();
        let a = r.us(10);
        if r.chance(50) {
            // teardown before the thread's own formatting state exists, or after
            v.push(Op { f: "display".into(), a, ..Default::default() });
            v.push(Op { f: "at_exit_fmt".into(), a, ..Default::default() });
        } else {
            v.insert(0, Op { f: "at_exit_fmt".into(), a, s: if t == 1 { "1.5e-3".into() } else { String::new() }, ..Default::default() });
        }
        q.threads.push(v);
    }
    q.family = "threads".into();
    q.sched = sched(&mut r, nt, 20_000, 1);
    // results of a thread are compared with its own program run alone, so judge each text there
    ex.try_plan(&q);
}

fn a10(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = match r.below(10) {
        0..=5 => Sz::Tiny,
        6..=8 => Sz::Small,
        _ => Sz::Mid,
    };
    let mut p = base("A10", seed, &mut r, s, false);
    for n in p.nums.iter_mut() {
        n.e = n.e.clamp(-300, 300);
    }
    let len = 2 + r.us(5);
    for _ in 0..len {
        let mut o = gen::op(&mut r, Kind::Serde, s, 1);
        if o.f == "de" {
            o.n = r.range(0, 16);
            if o.n == 5 && r.chance(70) {
                o.m = (r.range(-1_000_000, 1_000_000) as f64 / 1024.0).to_bits() as i64;
            }
            if o.n == 6 && r.chance(70) {
                o.m = (r.range(-1_000_000, 1_000_000) as f32 / 64.0).to_bits() as i64;
            }
        }
        p.threads[0].push(o);
    }
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
    if aimed(ex, &mut r, &p, &g, 6) {
        return;
    }
    for _ in 0..6 {
        let mut q = p.clone();
        for op in 0..q.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a11(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = gen::size(&mut r);
    let mut p = base("A11", seed, &mut r, s, false);
    p.ncc = 1 + r.us(2);
    let len = 2 + r.us(6);
    if r.chance(40) {
        // many requests with exact results, or far out, in a row, without any fault
        if r.chance(55) {
            let n = 6 + r.us(12);
            gen::exacts(&mut r, &mut p.nums, &mut p.threads[0], n);
        } else {
            for i in 0..5 {
                let k = *r.pick(&[5, 6, 6, 6, 6, 7, 8, 9, 0, 10]);
                let o = gen::corner_of(&mut r, &mut p.nums, i * 2, k);
                p.threads[0].push(o);
            }
        }
        ex.try_plan(&p);
        return;
    }
    p.threads[0] = if r.chance(60) { stateful(&mut r, s, len, p.ncc) } else { mixed(&mut r, s, len, p.ncc) };
    corners(&mut r, &mut p, 25);
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p), trace: true, ..Default::default() });
    if aimed(ex, &mut r, &p, &g, 6) {
        return;
    }
    for k in 0..5 {
        let mut q = p.clone();
        q.noretry = k % 2 == 1;
        for op in 0..q.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() && r.chance(70) {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
    // one request that fails again and again, then once with memory available
    let op = r.us(p.threads[0].len());
    let sz = sizes_of(&g, op);
    if !sz.is_empty() {
        let mut q = p.clone();
        q.noretry = true;
        let n = 5 + r.us(10);
        let o = q.threads[0][op].clone();
        q.threads[0].truncate(op);
        let same = r.chance(50);
        let f0 = fault(&mut r, op, &sz);
        for i in 0..n {
            q.threads[0].push(o.clone());
            let f = if same { Fault { op: op + i, ..f0.clone() } } else { fault(&mut r, op + i, &sz) };
            q.faults.push(f);
        }
        q.threads[0].push(o);
        ex.try_plan(&q);
    }
}

fn a12(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let mut p = base("A12", seed, &mut r, Sz::Tiny, false);
    let len = 1 + r.us(8);
    for _ in 0..len {
        let s = if r.chance(80) { Sz::Small } else { Sz::Mid };
        let mut o = gen::op(&mut r, Kind::Random, s, 1);
        o.p = gen::prec(&mut r, s);
        if o.n > o.m {
            std::mem::swap(&mut o.n, &mut o.m);
        }
        if r.chance(10) {
            o.n = i32::MIN as i64;
            o.m = i32::MAX as i64;
        }
        p.threads[0].push(o);
    }
    for mode in 0..10u8 {
        let mut q = p.clone();
        q.rng = (mode, r.next() & 0xffff_ffff_ffff);
        if mode == 9 {
            q.faults.push(Fault { t: 0, op: r.us(len), kind: FK::From { idx: 0 } });
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}

fn a13(ex: &mut Ex, seed: u64) {
    let mut r = Rng::new(seed);
    let s = if r.chance(60) { Sz::Tiny } else { Sz::Small };
    let mut p = base("A13", seed, &mut r, s, false);
    let len = 4 + r.us(12);
    for _ in 0..len {
        let k = if r.chance(80) { Kind::Ctx } else { gen::kind(&mut r, ALL) };
        let mut o = gen::op(&mut r, k, gen::fit(k, s), 1);
        if o.f == "random" {
            o.f = "pi".into();
        }
        if k == Kind::Ctx {
            if r.chance(60) {
                o.cc = r.us(2);
            }
            if o.f == "ctx_new" && r.chance(50) {
                o.f = "ctx_expr".into();
                o.n = 0;
                o.m = 0;
            }
        }
        p.threads[0].push(o);
    }
    gen::with_ctx(&mut r, &mut p.threads[0], s);
    if ex.try_plan(&p) || ex.j.rejected {
        return;
    }
    let g = ex.j.gold(&p, Mode { limit: Judge::gold_limit(&p) * 4, trace: true, ..Default::default() });
    if aimed(ex, &mut r, &p, &g, 6) {
        return;
    }
    for k in 0..4 {
        let mut q = p.clone();
        q.noretry = k % 2 == 0;
        for op in 0..q.threads[0].len() {
            let sz = sizes_of(&g, op);
            if !sz.is_empty() && r.chance(35) {
                q.faults.push(fault(&mut r, op, &sz));
            }
        }
        if ex.try_plan(&q) {
            return;
        }
    }
}
