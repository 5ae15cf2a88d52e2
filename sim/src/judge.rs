//! Decides whether one plan's execution satisfies its property. A judgement depends on the plan
//! alone (and the code under test), so replaying a plan repeats it exactly.

use crate::ops::{self, enc, is_mem_err, show, SINK_PANIC};
use crate::plan::*;
use crate::refc;
use crate::run::{self, Mode, RunRes, Status};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct V {
    /// Class of the violation, stable under minimisation.
    pub class: String,
    pub op: String,
    pub text: String,
    /// Stack of the point that matters (failing allocation, bad access), as image offsets.
    pub frames: Vec<u32>,
    /// Where a panic was raised.
    pub loc: String,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub c: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sites: HashSet<u64>,
    pub scheds: HashSet<u64>,
    pub cov: Vec<u8>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.c.entry(k.to_string()).or_insert(0) += n;
        }
    }
    fn absorb(&mut self, r: &RunRes) {
        self.runs += 1;
        self.steps += r.stat("steps");
        for f in &r.recs.faults {
            self.add(["", "fault.single", "fault.from_onward", "fault.large_blocks", "fault.budget", "fault.random", "fault.machine_limit"][f.kind as usize % 7], 1);
            self.sites.insert(f.site);
        }
        self.add("allocations", r.stat("allocs"));
        self.add("entropy_draws", r.stat("rng_draws"));
        self.add("clock_reads", r.stat("clock_reads"));
        self.add("thread_switches", r.stat("switches"));
        self.add("futex_waits", r.stat("futex_waits"));
        self.add("threads_parked_at_rare_code", r.stat("parked"));
        self.add("preempted_inside_library", r.stat("preempt_in_lib"));
        if r.stat("sched_hash") != 0 {
            self.scheds.insert(r.stat("sched_hash"));
        }
        if self.cov.len() < r.recs.cov.len() {
            self.cov.resize(r.recs.cov.len(), 0);
        }
        for (a, b) in self.cov.iter_mut().zip(&r.recs.cov) {
            *a |= *b;
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

#[derive(Default)]
pub struct Judge {
    pub st: Stats,
    gold: Vec<(u64, RunRes)>,
    /// The last judged plan did not qualify (its reference run already fails).
    pub rejected: bool,
    pub verbose: bool,
}

type R = Option<V>;

fn is_panic(b: &[u8]) -> bool {
    b.first() == Some(&b'!')
}
fn planned_panic(b: &[u8]) -> bool {
    is_panic(b) && &b[1..] == SINK_PANIC.as_bytes()
}
fn opname(plan: &Plan, t: usize, i: usize) -> String {
    plan.threads.get(t).and_then(|p| p.get(i)).map_or("?".into(), |o| o.f.clone())
}
fn optext(plan: &Plan, t: usize, i: usize) -> String {
    plan.threads.get(t).and_then(|p| p.get(i)).map_or("at thread exit".into(), |o| serde_json::to_string(o).unwrap())
}

impl Judge {
    pub fn run(&mut self, plan: &Plan, m: Mode) -> RunRes {
        let r = run::run(plan, m);
        self.st.absorb(&r);
        if self.verbose {
            eprintln!("-- run faults={} pristine={} only={:?} limit={}: {:?}", m.faults, m.pristine, m.only, m.limit, r.status);
            for q in &r.recs.res {
                eprintln!("   t{} op{} phase{} steps {} fired {}: {} = {}", q.t, q.op, q.phase, q.steps, q.fired, optext(plan, q.t as usize, q.op as usize), show(&q.bytes));
            }
            for v in &r.recs.viols {
                eprintln!("   viol {} {} a={} b={} op={}", v.code, v.text, v.a, v.b, v.op);
            }
            for p in &r.recs.panics {
                eprintln!("   panic {:?}", p);
            }
            for e in &r.recs.events {
                eprintln!("   event {}", e);
            }
        }
        r
    }
    /// Reference run, remembered across the variations of one program.
    pub fn gold(&mut self, plan: &Plan, m: Mode) -> RunRes {
        let mut p = plan.clone();
        if !m.faults {
            p.faults.clear();
        }
        p.prop.clear();
        p.noretry = p.noretry && m.faults;
        if m.only.is_some() {
            p.sched = Sched::default();
        }
        let key = hash(format!("{}|{:?}", serde_json::to_string(&p).unwrap(), (m.faults, m.pristine, m.trace, m.only, m.limit, m.leak, m.rare, m.fill)).as_bytes());
        if let Some((_, r)) = self.gold.iter().find(|g| g.0 == key) {
            return r.clone();
        }
        let r = self.run(&p, m);
        if self.gold.len() >= 8 {
            self.gold.remove(0);
        }
        self.gold.push((key, r.clone()));
        r
    }

    /// Crash, abort, hang, corruption: always wrong.
    fn bad(&self, plan: &Plan, r: &RunRes) -> R {
        let last = r.last_started().unwrap_or((0, 0));
        let (t, i) = (last.0 as usize, last.1 as usize);
        let mk = |class: &str, text: String, frames: Vec<u32>| {
            Some(V { class: class.into(), op: opname(plan, t, i), text: format!("{text} in operation {i} of thread {t}: {}", optext(plan, t, i)), frames, loc: String::new() })
        };
        let lastf = if r.status == Status::Signal(6) {
            // the failure that led to the abort, not those inside the abort machinery
            r.recs.faults.iter().rev().take(4).find(|f| !crate::driver::symbols(&f.frames).iter().any(|s| s.contains("rust_oom") || s.contains("rust_panic_with_hook"))).map_or(vec![], |f| f.frames.clone())
        } else {
            r.recs.faults.last().map_or(vec![], |f| f.frames.clone())
        };
        if let Some(v) = r.recs.viols.first() {
            let fr = if v.code == "heap" || lastf.is_empty() { v.frames.clone() } else { lastf };
            return mk(&v.code, v.text.clone(), fr);
        }
        match &r.status {
            Status::Ok => None,
            Status::Signal(6) => mk("abort", "the process was aborted".into(), lastf),
            Status::Signal(n) => mk("crash", format!("the process died with signal {n}"), lastf),
            Status::Exit(n) => mk("exit", format!("the process exited with code {n}"), lastf),
            Status::Wall => mk("hang", "no step was made for 150 s".into(), lastf),
        }
    }
    /// A run good enough to serve as reference.
    fn clean(r: &RunRes) -> bool {
        r.status == Status::Ok && r.recs.viols.is_empty() && r.recs.res.iter().all(|q| q.fired == 0 && (!is_panic(&q.bytes) || planned_panic(&q.bytes)))
    }
    fn mk(&self, plan: &Plan, r: &RunRes, class: &str, t: u8, op: u32, text: String) -> R {
        let frames = r.recs.faults.iter().rev().find(|f| f.t == t && f.op == op).map_or(vec![], |f| f.frames.clone());
        let loc = r.recs.panics.iter().find(|p| p.0 == t && p.1 == op).map_or(String::new(), |p| p.2.clone());
        Some(V {
            class: class.into(),
            op: opname(plan, t as usize, op as usize),
            text: format!("{text}; operation {op} of thread {t}: {}{}", optext(plan, t as usize, op as usize), if loc.is_empty() { String::new() } else { format!("; panic: {loc}") }),
            frames,
            loc,
        })
    }
    fn reject(&mut self, why: &str) -> R {
        self.rejected = true;
        self.st.add(&format!("rejected.{why}"), 1);
        None
    }
    fn note(&mut self, plan: &Plan, r: &RunRes) {
        // one distinct execution: programs, results, faults that fired, schedule
        let mut h = hash(serde_json::to_string(&plan.threads).unwrap().as_bytes());
        let mut nontrivial = false;
        for q in &r.recs.res {
            h = h.rotate_left(7) ^ hash(&q.bytes) ^ q.phase as u64;
            nontrivial |= q.steps > 20;
        }
        for f in &r.recs.faults {
            h = h.rotate_left(5) ^ f.site ^ f.idx as u64;
        }
        h ^= r.stat("sched_hash");
        h ^= (plan.heap.fill as u64) << 40 ^ plan.heap.seed;
        if nontrivial {
            self.st.distinct.insert(h);
        }
    }

    pub fn limit_for(g: &RunRes) -> u64 {
        g.recs.res.iter().map(|q| q.steps).max().unwrap_or(0) * 16 + 2_000_000
    }
    pub fn gold_limit(plan: &Plan) -> u64 {
        match plan.family.as_str() {
            "huge" => 400_000_000,
            "big" | "deep" => 60_000_000,
            _ => 10_000_000,
        }
    }

    pub fn judge(&mut self, plan: &Plan) -> R {
        self.rejected = false;
        let r = match plan.prop.as_str() {
            "A01" => self.a01(plan),
            "A02" => self.a02(plan),
            "A03" => self.a03(plan),
            "A04" => self.a04(plan),
            "A05" => self.a05(plan),
            "A06" => self.a06(plan),
            "A07" => self.a07(plan),
            "A08" => self.a08(plan),
            "A09" => self.a09(plan),
            "A10" => self.a10(plan),
            "A11" => self.a11(plan),
            "A12" => self.a12(plan),
            "A13" => self.a13(plan),
            _ => None,
        };
        if self.rejected {
            self.st.add("rejected", 1);
        } else {
            self.st.add("judged", 1);
        }
        r
    }

    // ---- A01: a failed allocation gives the documented error, never anything else ----
    fn a01(&mut self, plan: &Plan) -> R {
        let g = self.gold(plan, Mode { limit: Self::gold_limit(plan), trace: true, ..Default::default() });
        if !Self::clean(&g) {
            return self.reject("reference");
        }
        let f = self.run(plan, Mode { faults: true, limit: Self::limit_for(&g), ..Default::default() });
        self.note(plan, &f);
        if plan.noretry && f.recs.viols.first().is_some_and(|v| v.code == "steps") && f.recs.res.iter().any(|q| q.phase == 1 && q.fired > 0) {
            // its operands are not those of the reference run
            return self.reject("other_operands");
        }
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        let mut failed_before = false;
        for q in &f.recs.res {
            if q.phase == 1 && failed_before && !is_panic(&q.bytes) && plan.noretry {
                continue; // its operands are not those of the reference run
            }
            failed_before |= q.phase == 1 && q.fired > 0;
            if q.phase != 1 {
                if plan.noretry {
                    continue;
                }
                // results outside the fault window are the concern of other properties, except
                // that they must not be lost to a panic
                if q.phase == 0 && is_panic(&q.bytes) && !planned_panic(&q.bytes) {
                    return self.mk(plan, &f, "panic", q.t, q.op, format!("an unaffected later operation panicked: {}", show(&q.bytes)));
                }
                continue;
            }
            let want = match g.result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            if is_panic(&q.bytes) && !planned_panic(&q.bytes) {
                return self.mk(plan, &f, "panic", q.t, q.op, format!("panic instead of an error after {} failed allocation(s)", q.fired));
            }
            let same = q.bytes == want.bytes;
            if !same && !(q.fired > 0 && is_mem_err(&q.bytes)) {
                return self.mk(plan, &f, "wrong", q.t, q.op, format!("after {} failed allocation(s) the operation returned {} although the exact result is {}", q.fired, show(&q.bytes), show(&want.bytes)));
            }
            self.st.add(if q.fired == 0 { "outcome.not_reached" } else if same { "outcome.absorbed" } else { "outcome.error" }, 1);
        }
        None
    }

    /// The plan with failed operations removed (they must have left no trace).
    fn without_failed(plan: &Plan, f: &RunRes) -> Plan {
        let mut p = plan.clone();
        p.faults.clear();
        p.noretry = false;
        for q in &f.recs.res {
            if q.phase == 1 && (is_mem_err(&q.bytes) || is_panic(&q.bytes)) {
                if let Some(o) = p.threads.get_mut(q.t as usize).and_then(|t| t.get_mut(q.op as usize)) {
                    if matches!(o.f.as_str(), "ctx_new" | "ctx_clone" | "consts_new" | "ctx_set_consts") || !o.f.is_empty() {
                        o.f = "nop".into();
                    }
                }
            }
        }
        p
    }

    // ---- A02: after a failed operation everything works as if it had never been tried ----
    fn a02(&mut self, plan: &Plan) -> R {
        let lim = Self::gold_limit(plan);
        if !plan.noretry {
            let g = self.gold(plan, Mode { pristine: true, limit: lim, ..Default::default() });
            if !Self::clean(&g) {
                return self.reject("reference");
            }
            let f = self.run(plan, Mode { faults: true, limit: Self::limit_for(&g), ..Default::default() });
            self.note(plan, &f);
            return self.recovered(plan, &f, &g, true);
        }
        // reference limit first, so that a hopeless program is not run twice
        let f = self.run(plan, Mode { faults: true, limit: lim, ..Default::default() });
        let p2 = Self::without_failed(plan, &f);
        let g = self.gold(&p2, Mode { pristine: true, limit: lim / 2, ..Default::default() });
        if !Self::clean(&g) {
            return self.reject("reference");
        }
        self.note(plan, &f);
        self.recovered(plan, &f, &g, false)
    }
    fn recovered(&mut self, plan: &Plan, f: &RunRes, g: &RunRes, retry: bool) -> R {
        if f.recs.viols.iter().any(|v| v.code == "operand") {
            return self.bad(plan, f);
        }
        // aborts and crashes while the fault is being injected belong to A01; anything that
        // breaks later does not
        if f.status != Status::Ok || !f.recs.viols.is_empty() {
            let last = f.last_started().unwrap_or((0, 0));
            let in_fault = plan.faults.iter().any(|x| x.t == last.0 as usize && x.op == last.1 as usize);
            let done1 = f.recs.res.iter().any(|q| q.t == last.0 && q.op == last.1 && q.phase == 1);
            if in_fault && !done1 {
                return self.reject("died_under_fault");
            }
            return self.bad(plan, f);
        }
        let mut failed_before = false;
        for q in &f.recs.res {
            if q.phase == 1 {
                failed_before |= q.fired > 0;
                self.st.add("failed_operations", (q.fired > 0) as u64);
                if !retry && !is_mem_err(&q.bytes) && !is_panic(&q.bytes) {
                    // it succeeded in spite of the fault: then with the right value
                } else {
                    continue;
                }
            }
            let want = match g.result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            if q.bytes != want.bytes {
                if q.phase == 1 {
                    return self.reject("wrong_under_fault");
                }
                if !failed_before {
                    return self.reject("history");
                }
                let what = if q.phase == 2 { "the same call repeated with memory available" } else { "a later call" };
                let class = if is_panic(&q.bytes) { "panic" } else { "wrong" };
                return self.mk(plan, f, class, q.t, q.op, format!("after a failed operation, {what} returned {} instead of {}", show(&q.bytes), show(&want.bytes)));
            }
            self.st.add("checked_after_failure", failed_before as u64);
        }
        None
    }

    // ---- A03: results do not depend on what a cache, context or thread was used for before ----
    fn a03(&mut self, plan: &Plan) -> R {
        let lim = Self::gold_limit(plan);
        let g = self.gold(plan, Mode { pristine: true, limit: lim, ..Default::default() });
        if !Self::clean(&g) {
            return self.reject("reference");
        }
        let f = self.run(plan, Mode { limit: Self::limit_for(&g), ..Default::default() });
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            let want = match g.result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            if q.bytes != want.bytes {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("with reused state the operation returned {} but with fresh state {}", show(&q.bytes), show(&want.bytes)));
            }
            self.st.add("compared", 1);
        }
        None
    }

    // ---- A04: constants are right whatever was asked before ----
    fn a04(&mut self, plan: &Plan) -> R {
        let big = plan.threads.iter().flatten().filter(|o| const_index(&o.f).is_some()).map(|o| o.p).max().unwrap_or(0);
        let f = self.run(plan, Mode { faults: true, limit: Self::gold_limit(plan) * if big > 6000 { 40 } else { 4 }, ..Default::default() });
        self.note(plan, &f);
        if f.status != Status::Ok || !f.recs.viols.is_empty() {
            let last = f.last_started().unwrap_or((0, 0));
            let o = &plan.threads[last.0 as usize][(last.1 as usize).min(plan.threads[last.0 as usize].len() - 1)];
            let in_fault = plan.faults.iter().any(|x| x.t == last.0 as usize && x.op == last.1 as usize);
            if const_index(&o.f).is_none() || in_fault {
                return self.reject("other_operation_died");
            }
            return self.bad(plan, &f);
        }
        for q in &f.recs.res {
            let o = match plan.threads[q.t as usize].get(q.op as usize) {
                Some(o) => o,
                None => continue,
            };
            let k = match const_index(&o.f) {
                Some(k) => k,
                None => continue,
            };
            let (p, rm) = if o.f.starts_with("ctx_") { continue } else { (o.p, o.rm % 7) };
            if q.phase == 1 && (is_mem_err(&q.bytes) || is_panic(&q.bytes)) {
                self.st.add("failed_requests", 1);
                continue;
            }
            if let Some(t) = check_const(k, p, rm, &q.bytes) {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, t);
            }
            self.st.add("constants_checked", 1);
        }
        None
    }

    // ---- A05: threads do not influence each other ----
    fn a05(&mut self, plan: &Plan) -> R {
        let n = plan.threads.len();
        let mut gs = Vec::new();
        let mut total = 0;
        for t in 0..n {
            let g = self.gold(plan, Mode { only: Some(t), rare: true, limit: Self::gold_limit(plan), ..Default::default() });
            if !Self::clean(&g) {
                return self.reject("reference");
            }
            total += g.stat("steps");
            gs.push(g);
        }
        let f = self.run(plan, Mode { faults: true, limit: total * 16 + 20_000_000, ..Default::default() });
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            if q.op == 1000 {
                continue;
            }
            let want = match gs[q.t as usize].result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            if q.phase == 1 && q.fired > 0 && is_mem_err(&q.bytes) {
                continue;
            }
            if q.bytes != want.bytes {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("with other threads running the operation returned {} but alone {}", show(&q.bytes), show(&want.bytes)));
            }
            self.st.add("compared", 1);
        }
        // every planned operation must have completed
        for t in 0..n {
            let want = gs[t].recs.res.len();
            let got = f.recs.res.iter().filter(|q| q.t as usize == t && q.phase != 2 && q.op != 1000).count();
            if got < want {
                return self.mk(plan, &f, "lost", t as u8, got as u32, format!("thread {t} completed {got} of {want} operations"));
            }
        }
        None
    }

    // ---- A06: nothing depends on addresses or on what fresh memory contains ----
    fn a06(&mut self, plan: &Plan) -> R {
        let mut base = plan.clone();
        base.heap = Heap { fill: 0, seed: 1, ..Default::default() };
        let m = Mode { faults: true, limit: Self::gold_limit(plan), ..Default::default() };
        let g = self.gold(&base, m);
        if g.status != Status::Ok || !g.recs.viols.is_empty() || g.recs.res.iter().any(|q| is_panic(&q.bytes)) {
            return self.reject("reference");
        }
        let f = self.run(plan, Mode { limit: Self::limit_for(&g), ..m });
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            let want = match g.recs.res.iter().find(|w| w.t == q.t && w.op == q.op && w.phase == q.phase) {
                Some(w) => w,
                None => continue,
            };
            if q.bytes != want.bytes {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("with other memory contents and addresses the operation returned {} instead of {}", show(&q.bytes), show(&want.bytes)));
            }
            if q.steps != want.steps && !plan.heap.inplace {
                self.st.add("step_count_differs", 1);
            }
            self.st.add("compared", 1);
        }
        None
    }

    // ---- A07: memory is only accessed inside live blocks ----
    fn a07(&mut self, plan: &Plan) -> R {
        let f = self.run(plan, Mode { faults: true, limit: Self::gold_limit(plan), ..Default::default() });
        self.note(plan, &f);
        if f.recs.viols.iter().any(|v| v.code == "heap") {
            return self.bad(plan, &f);
        }
        // the debug build checks the conditions under which the unsafe operations are safe
        if let Some(p) = f.recs.panics.iter().find(|p| p.2.contains("unsafe precondition")) {
            return self.mk(plan, &f, "unsafe", p.0, p.1, "an unsafe operation was performed outside its conditions".into());
        }
        match f.status {
            Status::Signal(4) | Status::Signal(7) | Status::Signal(11) => return self.bad(plan, &f),
            Status::Ok => {}
            _ => return self.reject("died_otherwise"),
        }
        self.st.add("operations", f.recs.res.len() as u64);
        None
    }

    // ---- A08: memory is given back ----
    fn a08(&mut self, plan: &Plan) -> R {
        let f = self.run(plan, Mode { faults: true, leak: true, limit: Self::gold_limit(plan), ..Default::default() });
        self.note(plan, &f);
        if self.verbose {
            eprintln!("   live: {:?}", (0..plan.threads[0].len()).map(|i| f.stat(&format!("live{i}"))).collect::<Vec<_>>());
        }
        if f.status != Status::Ok || !f.recs.viols.is_empty() || f.recs.res.iter().any(|q| is_panic(&q.bytes) && !planned_panic(&q.bytes)) {
            return self.reject("died_otherwise");
        }
        let (n0, n1) = (f.stat("live0_n"), f.stat("live1_n"));
        if n1 > n0 {
            let what: Vec<String> = f.recs.events.iter().filter(|e| e.starts_with("leaked")).cloned().collect();
            // the operation that allocated the oldest leaked block
            let op = what.first().and_then(|w| w.rsplit(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
            return self.mk(plan, &f, "leak", 0, op, format!("{} block(s), {} bytes still allocated after everything was dropped and the thread had ended: {}", n1 - n0, f.stat("live1_b").saturating_sub(f.stat("live0_b")), what.join("; ")));
        }
        // rounds of the same requests: after the first unfaulted round the amount in use is stable
        if plan.family.starts_with("rounds:") {
            let per: usize = plan.family[7..].parse().unwrap_or(0);
            let prog = &plan.threads[0];
            if per > 0 && prog.len() % per == 0 {
                let rounds = prog.len() / per;
                // requests that feed on the results of the round before are not the same requests
                for i in 4 * per..prog.len() {
                    if f.result(0, i, 0).map(|q| &q.bytes) != f.result(0, i - per, 0).map(|q| &q.bytes) {
                        return self.reject("rounds_differ");
                    }
                }
                for k in 0..per {
                    for r in 4..rounds {
                        let (a, b) = (f.stat(&format!("live{}", (r - 1) * per + k)), f.stat(&format!("live{}", r * per + k)));
                        if b > a {
                            return self.mk(plan, &f, "growth", 0, (r * per + k) as u32, format!("memory in use grows with every repetition of the same requests: {a} bytes after round {r}, {b} after round {}", r + 1));
                        }
                        self.st.add("rounds_compared", 1);
                    }
                }
            }
        }
        self.st.add("operations", f.recs.res.len() as u64);
        None
    }

    // ---- A09: formatting into sinks that fail, panic or call back ----
    fn a09(&mut self, plan: &Plan) -> R {
        // texts of the involved values, each formatted alone
        let mut plain = plan.clone();
        plain.faults.clear();
        for t in plain.threads.iter_mut() {
            for o in t.iter_mut() {
                if ops::FMTS.contains(&o.f.as_str()) {
                    o.m = 0;
                    o.n = 0;
                }
            }
        }
        let mut other = plain.clone();
        for (t, s) in other.threads.iter_mut().zip(&plan.threads) {
            for (o, so) in t.iter_mut().zip(s) {
                if so.m == 3 && ops::FMTS.contains(&o.f.as_str()) {
                    o.a = o.b;
                    o.f = "display".into();
                }
            }
        }
        let lim = Self::gold_limit(plan);
        let m = Mode { pristine: true, limit: lim, ..Default::default() };
        let g = self.gold(&plain, m);
        let g2 = self.gold(&other, m);
        if !Self::clean(&g) || !Self::clean(&g2) {
            return self.reject("reference");
        }
        let f = self.run(plan, Mode { faults: true, limit: Self::limit_for(&g), ..Default::default() });
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            let o = match plan.threads[q.t as usize].get(q.op as usize) {
                Some(o) => o,
                None => continue,
            };
            if q.phase == 1 && q.fired > 0 && is_mem_err(&q.bytes) {
                continue;
            }
            let w = match g.result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            let fmt = ops::FMTS.contains(&o.f.as_str());
            if !fmt {
                if q.bytes != w.bytes {
                    return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("after formatting into a misbehaving sink the operation returned {} instead of {}", show(&q.bytes), show(&w.bytes)));
                }
                continue;
            }
            let text = String::from_utf8_lossy(&w.bytes[2..]).into_owned();
            let want: Vec<u8> = match o.m {
                1 | 5 if (o.n as usize) < text.len() => {
                    self.st.add(if o.m == 1 { "sink.error" } else { "sink.transient_error" }, 1);
                    enc(&ops::Out::Fmt(false, text[..o.n as usize].into()))
                }
                2 if (o.n as usize) < text.len() => {
                    self.st.add("sink.panic", 1);
                    let mut v = vec![b'!'];
                    v.extend_from_slice(SINK_PANIC.as_bytes());
                    v
                }
                3 | 4 => {
                    self.st.add("sink.reentrant", 1);
                    // one nested call per write the implementation makes: at least one
                    let inner: Vec<u8> = if o.m == 3 {
                        let mut v = vec![1u8];
                        v.extend_from_slice(&g2.result(q.t as usize, q.op as usize, 0).map(|x| x.bytes[2..].to_vec()).unwrap_or_default());
                        v
                    } else {
                        vec![]
                    };
                    let got = &q.bytes;
                    let head = format!("{text} | ");
                    if got.len() < 2 || got[0] != b'F' || got[1] != 1 || !got[2..].starts_with(head.as_bytes()) {
                        // short of memory, the outer call may print the error mark
                        if q.phase == 1 && q.fired > 0 && got.starts_with(b"F\x01Err | ") {
                            continue;
                        }
                        return self.mk(plan, &f, if is_panic(got) { "panic" } else { "wrong" }, q.t, q.op, format!("formatting with a sink that itself uses the library gave {} instead of {:?}", show(got), text));
                    }
                    let tail = String::from_utf8_lossy(&got[2 + head.len()..]).into_owned();
                    if o.m == 3 {
                        let unit = String::from_utf8_lossy(&inner).into_owned();
                        if tail.is_empty() || unit.is_empty() || tail.replace(&unit, "") != "" {
                            return self.mk(plan, &f, "wrong", q.t, q.op, format!("the nested formatting gave {tail:?} instead of {unit:?}"));
                        }
                    } else if tail.contains('E') || tail.is_empty() {
                        return self.mk(plan, &f, "wrong", q.t, q.op, "the nested parsing failed".into());
                    }
                    continue;
                }
                _ => {
                    self.st.add("sink.plain", 1);
                    enc(&ops::Out::Fmt(true, text.clone()))
                }
            };
            if q.bytes != want {
                return self.mk(plan, &f, if is_panic(&q.bytes) && !planned_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("the sink saw {} where {} was expected", show(&q.bytes), show(&want)));
            }
        }
        // formatting from thread teardown
        for q in f.recs.res.iter().filter(|q| q.op == 1000) {
            self.st.add("sink.thread_teardown", 1);
            if is_panic(&q.bytes) {
                return self.mk(plan, &f, "panic", q.t, q.op, format!("using the library while the thread was being torn down: {}", show(&q.bytes)));
            }
            let prog = &plan.threads[q.t as usize];
            if let Some(i) = prog.iter().position(|o| o.f == "at_exit_fmt") {
                // the program formats the same value right before
                if i > 0 && prog[i].s.is_empty() && prog[i - 1].f == "display" && prog[i - 1].m == 0 && prog[i - 1].a == prog[i].a {
                    if let Some(w) = g.result(q.t as usize, i - 1, 0) {
                        if w.bytes != q.bytes {
                            return self.mk(plan, &f, "wrong", q.t, q.op, format!("formatting during thread teardown gave {} instead of {}", show(&q.bytes), show(&w.bytes)));
                        }
                    }
                }
            }
        }
        None
    }

    // ---- A10: serialisation over failing streams ----
    fn a10(&mut self, plan: &Plan) -> R {
        let mut plain = plan.clone();
        plain.faults.clear();
        for o in plain.threads[0].iter_mut() {
            if o.f == "ser" {
                o.f = "display".into();
                o.m = 0;
                o.n = 0;
            }
        }
        let lim = Self::gold_limit(plan);
        let g = self.gold(&plain, Mode { pristine: true, limit: lim, ..Default::default() });
        if !Self::clean(&g) {
            return self.reject("reference");
        }
        let f = self.run(plan, Mode { faults: true, limit: Self::limit_for(&g), ..Default::default() });
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            let o = &plan.threads[0][q.op as usize];
            let w = match g.result(0, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            let want: Vec<u8> = if o.f == "ser" {
                if o.m == 1 {
                    self.st.add("stream.failed", 1);
                    vec![b'E', 20]
                } else {
                    let mut v = vec![b'S'];
                    v.extend_from_slice(&w.bytes[2..]);
                    v
                }
            } else {
                self.st.add(&format!("token.{}", if o.f == "de" { o.n } else { -1 }), (o.f == "de") as u64);
                w.bytes.clone()
            };
            if q.phase == 1 && q.fired > 0 && q.bytes.first() == Some(&b'E') {
                self.st.add("stream.out_of_memory", 1);
                continue;
            }
            if q.bytes != want {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("got {} instead of {}{}", show(&q.bytes), show(&want), if q.fired > 0 { " while memory was short" } else { "" }));
            }
            if o.f == "de" && q.phase == 0 {
                if let Some(t) = crate::serdex::expected(o, &q.bytes) {
                    return self.mk(plan, &f, "wrong", q.t, q.op, t);
                }
            }
        }
        None
    }

    // ---- A11: every operation makes progress: work and stack stay bounded ----
    fn a11(&mut self, plan: &Plan) -> R {
        let mut lim = Self::gold_limit(plan);
        let mut g = self.gold(plan, Mode { pristine: true, limit: lim, ..Default::default() });
        if !Self::clean(&g) && g.recs.viols.iter().any(|v| v.code == "steps") && plan.threads[0].iter().any(|o| const_index(&o.f).is_some() && o.p > 6000) {
            // long constants cost more than the usual limit allows
            lim *= 40;
            g = self.gold(plan, Mode { pristine: true, limit: lim, ..Default::default() });
        }
        if let Some(v) = g.recs.viols.iter().find(|v| v.code == "steps" && plan.family != "huge") {
            // the result of an elementary function of modest operands is found with bounded work
            let at = (v.op as usize).min(plan.threads[0].len() - 1);
            let o = &plan.threads[0][at];
            if elementary(plan, at) && o.p <= 4096 && plan.nums.iter().all(|n| n.w <= 64) && plan.threads[0].iter().all(|o| o.p <= 4096) {
                lim = 40 * 10_000_000;
                g = self.gold(plan, Mode { pristine: true, limit: lim, ..Default::default() });
                if let Some(w) = g.recs.viols.iter().find(|v| v.code == "steps") {
                    if elementary(plan, (w.op as usize).min(plan.threads[0].len() - 1)) {
                        return self.bad(plan, &g);
                    }
                }
            }
        }
        if !Self::clean(&g) {
            // work that has an a-priori bound must not exceed it even without any fault
            if let Some(v) = g.recs.viols.iter().find(|v| v.code == "steps") {
                let o = &plan.threads[0][(v.op as usize).min(plan.threads[0].len() - 1)];
                if bounded_op(o) && plan.family != "huge" {
                    return self.bad(plan, &g);
                }
            }
            if std::env::var_os("AFSIM_REJ").is_some() {
                if let Some(v) = g.recs.viols.iter().find(|v| v.code == "steps") {
                    let o = &plan.threads[0][(v.op as usize).min(plan.threads[0].len() - 1)];
                    eprintln!("REJ {} {} {} {}", plan.family, o.f, serde_json::to_string(o).unwrap(), serde_json::to_string(&[&plan.nums[o.a % plan.nums.len()], &plan.nums[o.b % plan.nums.len()]]).unwrap());
                }
            }
            return self.reject("reference");
        }
        let flim = Self::limit_for(&g);
        let f = self.run(plan, Mode { faults: true, limit: flim, ..Default::default() });
        self.note(plan, &f);
        // without retry the operations after a failed one work on other operands
        let slow = f.recs.viols.first().is_some_and(|v| v.code == "steps");
        let g = if plan.noretry && (f.status == Status::Ok || slow) {
            let p2 = Self::without_failed(plan, &f);
            let g2 = self.gold(&p2, Mode { pristine: true, limit: lim, ..Default::default() });
            if !Self::clean(&g2) || (slow && Self::limit_for(&g2) > flim) {
                return self.reject("reference");
            }
            g2
        } else {
            g
        };
        if f.recs.viols.iter().any(|v| v.code == "steps" || v.code == "deadlock") || f.status == Status::Wall {
            return self.bad(plan, &f);
        }
        if f.status != Status::Ok || !f.recs.viols.is_empty() {
            return self.reject("died_otherwise");
        }
        for q in &f.recs.res {
            let w = match g.result(q.t as usize, q.op as usize, 0) {
                Some(w) => w,
                None => continue,
            };
            if q.phase == 1 && plan.noretry {
                continue;
            }
            let bound = match q.phase {
                1 => w.steps * 3 + 300_000,
                _ => w.steps * 4 + 300_000,
            };
            if q.steps > bound {
                return self.mk(plan, &f, "work", q.t, q.op, format!("took {} steps where {} suffice on a fresh state (bound {bound})", q.steps, w.steps));
            }
            if q.stack > w.stack + 65_536 || q.stack > 400_000 {
                return self.mk(plan, &f, "stack", q.t, q.op, format!("used {} bytes of stack where {} suffice on a fresh state", q.stack, w.stack));
            }
            let r = (q.steps * 100 / (w.steps + 10_000)) as u64;
            let k = if q.phase == 1 { "max_work_ratio_pct.failing" } else if q.phase == 2 { "max_work_ratio_pct.retry" } else { "max_work_ratio_pct.reused" };
            let e = self.st.c.entry(k.into()).or_insert(0);
            *e = (*e).max(r);
            let e = self.st.c.entry("max_stack_bytes".into()).or_insert(0);
            *e = (*e).max(q.stack);
        }
        None
    }

    // ---- A12: random numbers honour their contract for every entropy ----
    fn a12(&mut self, plan: &Plan) -> R {
        let f = self.run(plan, Mode { faults: true, limit: Self::gold_limit(plan), ..Default::default() });
        self.note(plan, &f);
        if f.status != Status::Ok || !f.recs.viols.is_empty() {
            return self.bad(plan, &f);
        }
        for q in &f.recs.res {
            let o = &plan.threads[q.t as usize][q.op as usize];
            if o.f != "random" {
                continue;
            }
            if q.phase == 1 && q.fired > 0 && is_mem_err(&q.bytes) {
                continue;
            }
            if is_panic(&q.bytes) {
                return self.mk(plan, &f, "panic", q.t, q.op, format!("entropy mode {}", plan.rng.0));
            }
            let b = &q.bytes;
            let mut why = String::new();
            if b.first() != Some(&b'V') {
                why = "is not a number".into();
            } else {
                let n = u64::from_le_bytes(b[3..11].try_into().unwrap()) as usize;
                let e = i32::from_le_bytes(b[11..15].try_into().unwrap()) as i64;
                let pw = (o.p + 63) / 64 * 64;
                let bits = (b.len() - 15) * 8;
                if bits != pw {
                    why = format!("has {bits} bits instead of {pw}");
                } else if b[15..].iter().all(|x| *x == 0) {
                    why = "is zero".into();
                } else if b[b.len() - 1] & 0x80 == 0 || n != bits {
                    why = "is not normalised".into();
                } else if o.n <= o.m && (e < o.n || e > o.m) {
                    why = format!("has exponent {e} outside {}..={}", o.n, o.m);
                } else if b[2] != 0 {
                    why = "is marked inexact".into();
                }
            }
            if !why.is_empty() {
                return self.mk(plan, &f, "contract", q.t, q.op, format!("the random number {} (entropy mode {}): {}", why, plan.rng.0, show(b)));
            }
            self.st.add(&format!("entropy_mode.{}", plan.rng.0), 1);
        }
        None
    }

    // ---- A13: a context is its settings, nothing else ----
    fn a13(&mut self, plan: &Plan) -> R {
        let f = self.run(plan, Mode { faults: true, limit: Self::gold_limit(plan) * 4, ..Default::default() });
        let (p2, expect) = match model_ctx(plan, &f) {
            Some(x) => x,
            None => return self.reject("model"),
        };
        let g = self.gold(&p2, Mode { pristine: true, limit: Self::gold_limit(plan), ..Default::default() });
        if !Self::clean(&g) {
            return self.reject("reference");
        }
        self.note(plan, &f);
        if let Some(v) = self.bad(plan, &f) {
            return Some(v);
        }
        for q in &f.recs.res {
            if q.phase == 1 && q.fired > 0 && is_mem_err(&q.bytes) {
                continue;
            }
            let want: &[u8] = match expect.get(&q.op) {
                Some(w) => w,
                None => match g.result(0, q.op as usize, 0) {
                    Some(w) => &w.bytes,
                    None => continue,
                },
            };
            let skip = enc(&ops::Out::Skip);
            if want == skip.as_slice() {
                continue;
            }
            if q.bytes != want {
                return self.mk(plan, &f, if is_panic(&q.bytes) { "panic" } else { "wrong" }, q.t, q.op, format!("through the context: {}; from the same settings and operands: {}", show(&q.bytes), show(want)));
            }
            self.st.add("compared", 1);
        }
        None
    }
}

fn bounded_op(o: &Op) -> bool {
    const_index(&o.f).is_some()
        || ["add", "sub", "mul", "div", "mul_full", "neg", "abs", "clone", "format", "parse", "display", "to_radix", "from_str", "set_precision", "consts_new", "random", "ser", "de"].contains(&o.f.as_str())
}

/// Functions whose work does not depend on the exponents of the operands.
fn elementary(plan: &Plan, at: usize) -> bool {
    let o = &plan.threads[0][at];
    if ["sin", "cos", "tan"].contains(&o.f.as_str()) {
        // large arguments are reduced with as many digits of pi as their exponent asks for
        let a = o.a % plan.nums.len();
        return plan.nums[a].sp.is_empty() && plan.nums[a].e <= 64 && plan.threads[0][..at].iter().all(|q| q.d != o.a);
    }
    ["ln", "log2", "log10", "log", "exp", "pow", "powi", "sqrt", "cbrt", "recip", "reciprocal", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "asin", "acos", "atan"]
        .contains(&o.f.as_str())
}

pub fn const_index(f: &str) -> Option<usize> {
    match f {
        "pi" | "ctx_pi" => Some(0),
        "e" | "ctx_e" => Some(1),
        "ln2" | "ctx_ln2" => Some(2),
        "ln10" | "ctx_ln10" => Some(3),
        _ => None,
    }
}

/// None if `b` encodes the constant `k` rounded to `p` bits.
pub fn check_const(k: usize, p: usize, rm: u8, b: &[u8]) -> Option<String> {
    let name = ["pi", "e", "ln 2", "ln 10"][k];
    if p == 0 {
        return None; // unspecified here
    }
    let pw = (p + 63) / 64 * 64;
    if pw + 200 > refc::BITS {
        return None;
    }
    let (m, e) = refc::round(k, pw, rm);
    if b.first() != Some(&b'V') || b.len() != 15 + pw / 8 {
        return Some(format!("{name} with {p} bits came back as {}", show(b)));
    }
    let ge = i32::from_le_bytes(b[11..15].try_into().unwrap());
    let gm: Vec<u64> = b[15..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let ok = b[1] == 1 && ge == e && if rm == 6 { refc::within_ulp(&gm, &m) } else { gm == m };
    if ok {
        None
    } else {
        let mut w = vec![b'V', 1, b[2]];
        w.extend_from_slice(&(pw as u64).to_le_bytes());
        w.extend_from_slice(&e.to_le_bytes());
        for x in &m {
            w.extend_from_slice(&x.to_le_bytes());
        }
        Some(format!("{name} with {p} bits, rounding {:?}, came back as {} but is {}", ops::rm(rm), show(b), show(&w)))
    }
}

/// Reference model of contexts: settings per slot. Rewrites context operations into context-free
/// ones with explicit settings; also returns results that are known outright.
#[allow(clippy::type_complexity)]
fn model_ctx(plan: &Plan, f: &RunRes) -> Option<(Plan, BTreeMap<u32, Vec<u8>>)> {
    #[derive(Clone)]
    struct C {
        p: usize,
        rm: u8,
        lo: i64,
        hi: i64,
    }
    let mut slots: [Option<C>; 3] = [None, None, None];
    let mut p2 = plan.clone();
    p2.faults.clear();
    p2.noretry = false;
    let mut exp = BTreeMap::new();
    let unit = enc(&ops::Out::Unit(Ok(())));
    for (i, o) in plan.threads[0].iter().enumerate() {
        let n = &mut p2.threads[0][i];
        let failed = f.recs.res.iter().any(|q| q.op as usize == i && q.phase == 1 && is_mem_err(&q.bytes)) && plan.noretry;
        if failed {
            n.f = "nop".into();
            continue;
        }
        if !ops::uses_ctx(o) {
            continue;
        }
        let s = o.cc % 3;
        n.f = "nop".into();
        if o.f == "ctx_new" {
            let (lo, hi) = ops::expr_range(o);
            slots[s] = Some(C { p: o.p, rm: o.rm % 7, lo: (lo as i64).min(0), hi: (hi as i64).max(0) });
            exp.insert(i as u32, unit.clone());
            continue;
        }
        let c = match &slots[s] {
            None => {
                exp.insert(i as u32, enc(&ops::Out::Skip));
                continue;
            }
            Some(c) => c.clone(),
        };
        match o.f.as_str() {
            "ctx_clone" => {
                slots[o.n as usize % 3] = Some(c);
                exp.insert(i as u32, unit.clone());
            }
            "ctx_rebuild" => {
                exp.insert(i as u32, enc(&ops::Out::Bytes(format!("{} {:?} {} {}", c.p, ops::rm(c.rm), c.lo, c.hi).into_bytes())));
            }
            "ctx_get" => {
                let h = format!("{} {:?} {} {}", c.p, ops::rm(c.rm), c.lo, c.hi);
                let (lo, hi) = ((o.n as i32).min(0), (o.m as i32).max(0));
                let t = format!("{} {:?}", c.p, ops::rm(c.rm));
                exp.insert(i as u32, enc(&ops::Out::Bytes(format!("{h} | {h} | {t} {} {} | {t} {lo} {hi}", i32::MIN, i32::MAX).into_bytes())));
            }
            "ctx_set_p" => {
                slots[s].as_mut()?.p = o.p;
                exp.insert(i as u32, unit.clone());
            }
            "ctx_set_rm" => {
                slots[s].as_mut()?.rm = o.rm % 7;
                exp.insert(i as u32, unit.clone());
            }
            "ctx_set_emin" => {
                slots[s].as_mut()?.lo = (o.n as i32 as i64).min(0);
                exp.insert(i as u32, unit.clone());
            }
            "ctx_set_emax" => {
                slots[s].as_mut()?.hi = (o.m as i32 as i64).max(0);
                exp.insert(i as u32, unit.clone());
            }
            "ctx_set_consts" => {
                exp.insert(i as u32, unit.clone());
            }
            "ctx_pi" | "ctx_e" | "ctx_ln2" | "ctx_ln10" => {
                n.f = o.f[4..].into();
                n.p = c.p;
                n.rm = c.rm;
                n.cc = 0;
            }
            "ctx_expr" => {
                n.f = "expr".into();
                n.p = c.p;
                n.rm = c.rm;
                n.cc = 0;
                // zero stands for the default limit; these are clamped to zero
                n.n = if c.lo == 0 { 1 } else { c.lo };
                n.m = if c.hi == 0 { -1 } else { c.hi };
                if ops::tuple3(o) {
                    n.c = crate::exprs::SUB[o.c % 6];
                    n.n = i32::MIN as i64;
                    n.m = i32::MAX as i64;
                }
            }
            "ctx_fun" => {
                n.f = "atan".into();
                n.p = c.p;
                n.rm = c.rm;
                n.cc = 0;
            }
            _ => return None,
        }
    }
    Some((p2, exp))
}
