//! Executes a plan in a forked child: pristine process state for every execution, and crashes,
//! aborts and hangs of the code under test stay contained and are observed from outside.

use crate::heap::{self, Arm};
use crate::ops::{self, Out};
use crate::plan::*;
use crate::rt;
use crate::sched;
use crate::shm::{self, Recs};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Default, Serialize, Deserialize)]
pub struct Mode {
    /// Inject the plan's allocation faults (with the retry protocol).
    pub faults: bool,
    /// Every operation sees fresh caches, fresh contexts' caches and a fresh thread.
    pub pristine: bool,
    /// Record every allocation request.
    pub trace: bool,
    /// Run only this thread's program, alone (reference for concurrent plans).
    pub only: Option<usize>,
    /// Step budget per operation (0: default).
    pub limit: u64,
    /// Check conservation after each op / at the end.
    pub leak: bool,
    /// Report the steps at which rarely executed code is reached.
    pub rare: bool,
    /// Override of the heap fill pattern.
    pub fill: Option<(u8, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    Exit(i32),
    Signal(i32),
    Wall,
}

#[derive(Clone, Debug)]
pub struct RunRes {
    pub status: Status,
    pub recs: Recs,
}

impl RunRes {
    pub fn result(&self, t: usize, op: usize, phase: u8) -> Option<&shm::Res> {
        self.recs.res.iter().find(|r| r.t as usize == t && r.op as usize == op && r.phase == phase)
    }
    pub fn stat(&self, k: &str) -> u64 {
        self.recs.stats.iter().rev().find(|s| s.0 == k).map_or(0, |s| s.1)
    }
    pub fn last_started(&self) -> Option<(u8, u32)> {
        self.recs.started.last().copied()
    }
}

pub const DEFAULT_LIMIT: u64 = 600_000_000;

pub fn to_f(k: &FK) -> heap::F {
    match *k {
        FK::At { idx, n } => heap::F::At { idx, n },
        FK::From { idx } => heap::F::From { idx },
        FK::Size { min } => heap::F::Size { min },
        FK::Budget { bytes } => heap::F::Budget { bytes },
        FK::Prob { seed, pm } => heap::F::Prob { seed, pm },
    }
}

// ---- simulated entropy ----
static RNG_MODE: AtomicU64 = AtomicU64::new(0);
static RNG_ST: AtomicU64 = AtomicU64::new(1);
pub static RNG_DRAWS: AtomicU64 = AtomicU64::new(0);

fn sim_rng() -> u64 {
    let _g = Arm::off();
    let n = RNG_DRAWS.fetch_add(1, Ordering::Relaxed);
    let st = RNG_ST.fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed);
    let mut z = st;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^= z >> 31;
    const EXT: [u64; 10] = [0, u64::MAX, 1 << 63, (1 << 63) - 1, 1, 0x8000_0000_0000_0001, 1 << 32, u32::MAX as u64, 1 << 31, u64::MAX - 1];
    match RNG_MODE.load(Ordering::Relaxed) {
        0 => z,
        1 => 0,
        2 => u64::MAX,
        3 => 1 << 63,
        4 => EXT[(z % 10) as usize],
        5 => {
            if z & 3 == 0 {
                EXT[((z >> 8) % 10) as usize]
            } else {
                z.rotate_left(17)
            }
        }
        6 => n,                                   // counter
        7 => z & z.rotate_left(7) & z.rotate_left(31), // sparse
        8 => z | z.rotate_left(9) | z.rotate_left(33), // dense
        _ => 0x5555_5555_5555_5555 << (n & 1),
    }
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let was = heap::set_armed(false);
        if unsafe { rt::IN_CHILD } {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            shm::rec_panic(&format!("{msg} @ {loc}"));
            // the unwinding machinery runs unarmed; the op's guard restores the state
            let _ = was;
        } else {
            eprintln!("afsim: internal panic: {info}");
        }
    }));
    rand::rngs::SIM_RNG.store(sim_rng as *const () as usize, Ordering::Relaxed);
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}

fn on_thread<R, F: FnOnce() -> R>(f: F) -> R {
    let mut f = Some(f);
    let mut out: Option<R> = None;
    let a = SendPtr(&mut f as *mut Option<F>);
    let b = SendPtr(&mut out as *mut Option<R>);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(unsafe {
            // the parent joins before `f` and `out` go away
            struct W<F>(F);
            unsafe impl<F> Send for W<F> {}
            let w = W(move || {
                let (a, b) = (a, b);
                rt::note_stack_top();
                let f = (*a.0).take().unwrap();
                let r = f();
                *b.0 = Some(r);
            });
            let bx: Box<dyn FnOnce()> = Box::new(move || {
                let w = w;
                (w.0)()
            });
            let bx: Box<dyn FnOnce() + Send> = std::mem::transmute(std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce() + 'static>>(bx));
            bx
        })
        .expect("spawn");
    h.join().expect("program thread");
    out.expect("program result")
}

fn exec_caught(env: &mut ops::Env, op: &Op) -> (Out, Option<Vec<u8>>) {
    let r = catch_unwind(AssertUnwindSafe(|| ops::exec(env, op)));
    heap::set_armed(false);
    match r {
        Ok(o) => (o, None),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let mut v = vec![b'!'];
            v.extend_from_slice(m.as_bytes());
            (Out::Skip, Some(v))
        }
    }
}

fn drop_out(o: Out) {
    let _g = Arm::on();
    drop(o);
}

fn enc_regs(env: &ops::Env, op: &Op) -> Vec<u8> {
    let mut v = Vec::new();
    for i in ops::reads(op) {
        ops::enc_num(&env.regs[i], &mut v);
    }
    v
}

fn enc_reg(x: &astro_float::BigFloat) -> Vec<u8> {
    let mut v = Vec::new();
    ops::enc_num(x, &mut v);
    v
}

/// One operation with the fault, retry and checking protocol.
fn step(env: &mut ops::Env, t: u8, i: usize, op: &Op, plan: &Plan, mode: Mode, multi: bool) -> bool {
    rt::set_cur(t, i as u32);
    shm::rec_start(t, i as u32);
    let fs: Vec<heap::F> =
        if mode.faults { plan.faults.iter().filter(|f| f.t == t as usize && f.op == i).map(|f| to_f(&f.kind)).collect() } else { vec![] };
    let faulty = !fs.is_empty();
    let before = if faulty { enc_regs(env, op) } else { vec![] };
    let snap = if faulty && ops::in_place(op) {
        let _g = Arm::on();
        Some(env.regs[op.d % ops::NREG].clone())
    } else {
        None
    };
    if !multi {
        rt::set_limit(if mode.limit > 0 { mode.limit } else { DEFAULT_LIMIT });
        rt::stack_reset();
    }
    let s0 = rt::steps();
    heap::reset_peak();
    heap::op_begin(&fs);
    let (out, panicked) = exec_caught(env, op);
    let (_, fired) = heap::op_end();
    let bytes = panicked.clone().unwrap_or_else(|| ops::enc(&out));
    let steps = rt::steps() - s0;
    let stack = if multi { 0 } else { rt::stack_used() as u64 };
    shm::rec_res(t, i as u32, if faulty { 1 } else { 0 }, &bytes, steps, stack, fired);
    let mut out = out;
    let mut snap = snap;
    if faulty && fired > 0 {
        if !ops::in_place(op) && enc_regs(env, op) != before {
            shm::rec_viol("operand", "an operand changed while the operation failed", 0, 0, i as u64);
        }
        if op.f == "set_precision" && panicked.is_none() && ops::is_mem_err(&bytes) {
            let now = enc_reg(&env.regs[op.d % ops::NREG]);
            if snap.as_ref().map(enc_reg) != Some(now) {
                shm::rec_viol("operand", "the number was changed although changing its precision failed", 0, 0, i as u64);
            }
        }
        if !heap::check_all() {
            return false;
        }
        let failed = panicked.is_some() || ops::is_mem_err(&bytes);
        if let Some(s) = snap.take() {
            let d = op.d % ops::NREG;
            if failed || !plan.noretry {
                // whatever the failed in-place call left behind must still be a usable value
                let _g = Arm::on();
                let c = env.regs[d].clone();
                drop(c);
                let old = std::mem::replace(&mut env.regs[d], s);
                drop(old);
            } else {
                let _g = Arm::on();
                drop(s);
            }
        }
        if plan.noretry {
            if failed {
                drop_out(out);
                out = Out::Skip;
            }
        } else {
            drop_out(out);
            heap::op_begin(&[]);
            let s1 = rt::steps();
            if !multi {
                rt::set_limit(if mode.limit > 0 { mode.limit } else { DEFAULT_LIMIT });
            }
            let (o2, p2) = exec_caught(env, op);
            heap::op_end();
            let b2 = p2.unwrap_or_else(|| ops::enc(&o2));
            shm::rec_res(t, i as u32, 2, &b2, rt::steps() - s1, 0, 0);
            out = o2;
        }
    }
    if let Some(s) = snap {
        let _g = Arm::on();
        drop(s);
    }
    if !multi && !heap::check_all() {
        return false;
    }
    if multi && heap::corrupted() {
        return false;
    }
    match out {
        Out::Num(x) => {
            let _g = Arm::on();
            let old = std::mem::replace(&mut env.regs[op.d % ops::NREG], x);
            drop(old);
        }
        o => drop_out(o),
    }
    if mode.leak {
        let (n, b) = heap::live();
        shm::rec_stat(&format!("live{i}"), b as u64);
        let _ = n;
        shm::rec_stat(&format!("peak{i}"), heap::peak() as u64);
    }
    true
}

fn program(plan: &Plan, mode: Mode) {
    let t = mode.only.unwrap_or(0);
    let mut env = ops::new_env(&plan.nums, plan.ncc);
    if mode.rare {
        rt::edges_start();
    }
    for (i, op) in plan.threads[t].iter().enumerate() {
        let go = if mode.pristine {
            ops::refresh(&mut env);
            let e = &mut env;
            on_thread(|| step(e, t as u8, i, op, plan, mode, false))
        } else {
            step(&mut env, t as u8, i, op, plan, mode, false)
        };
        if !go {
            break;
        }
    }
    if mode.rare {
        shm::rec_rare(&rt::edges_rare());
        shm::rec_statics(&rt::statics_seen());
    }
    let _g = Arm::on();
    drop(env);
}

fn concurrent(plan: &Plan, mode: Mode) {
    let n = plan.threads.len();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for t in 0..n {
        let env = ops::new_env(&plan.nums, plan.ncc);
        let plan2 = plan.clone();
        bodies.push(Box::new(move || {
            let mut env = env;
            for (i, op) in plan2.threads[t].iter().enumerate() {
                if op.f == "at_exit_fmt" {
                    register_exit(&env, op);
                    continue;
                }
                if !step(&mut env, t as u8, i, op, &plan2, mode, true) {
                    break;
                }
            }
            let _g = Arm::on();
            drop(env);
        }));
    }
    rt::set_limit(if mode.limit > 0 { mode.limit } else { DEFAULT_LIMIT });
    let s = sched::run(
        sched::Cfg { points: plan.sched.points.clone(), stalls: plan.sched.stalls.clone(), parks: plan.sched.parks.clone(), quantum: plan.sched.quantum, seed: plan.sched.seed },
        bodies,
    );
    shm::rec_stat("switches", s.switches);
    shm::rec_stat("sched_hash", s.hash);
    shm::rec_stat("futex_waits", s.waits);
    shm::rec_stat("preempt_in_lib", s.in_lib);
    shm::rec_stat("parked", s.parked);
    let tr: Vec<String> = s.trace.iter().take(400).map(|x| format!("{}:{}>{}{}", x.0, x.1, x.2, ["", "b", "x", "y"][x.3 as usize & 3])).collect();
    shm::rec_event(&format!("schedule {}", tr.join(" ")));
    heap::check_all();
}

// A value formatted from a destructor that runs while the thread is being torn down.
struct AtExit {
    x: Option<astro_float::BigFloat>,
    op: Op,
    t: u8,
}
impl Drop for AtExit {
    fn drop(&mut self) {
        let was = heap::set_armed(false);
        rt::set_cur(self.t, 1000);
        shm::rec_start(self.t, 1000);
        let x = self.x.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut env = ops::Env { regs: vec![], ccs: vec![None, None, None], ctxs: vec![None, None, None] };
            env.regs.push(x);
            while env.regs.len() < ops::NREG {
                env.regs.push(astro_float::NAN);
            }
            let o = ops::exec(&mut env, &self.op);
            let b = ops::enc(&o);
            drop_out(o);
            let _g = Arm::on();
            drop(env);
            b
        }));
        heap::set_armed(false);
        let b = r.unwrap_or_else(|_| b"!panic while the thread was being torn down".to_vec());
        shm::rec_res(self.t, 1000, 0, &b, 0, 0, 0);
        heap::set_armed(was);
    }
}
thread_local! {
    static EXITS: std::cell::RefCell<Vec<AtExit>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn register_exit(env: &ops::Env, op: &Op) {
    let x = {
        let _g = Arm::on();
        env.regs[op.a % ops::NREG].clone()
    };
    let mut o = op.clone();
    o.f = if op.s.is_empty() { "display".into() } else { "from_str".into() };
    o.a = 0;
    EXITS.with(|e| e.borrow_mut().push(AtExit { x: Some(x), op: o, t: rt::cur_thread() }));
}

fn enter_child() {
    unsafe {
        let was = rt::IN_CHILD;
        rt::IN_CHILD = true;
        extern "C" {
            fn open(p: *const i8, f: i32, ...) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        alarm(150);
        // the runtime's last words on an abort are of no interest
        if !was && std::env::var_os("AFSIM_STDERR").is_none() {
            let n = open(c"/dev/null".as_ptr(), 1);
            if n >= 0 {
                dup2(n, 2);
            }
        }
    }
}

/// `warmed`: forked from the warm process, whose heap and lazily initialised state exist already.
fn child(plan: &Plan, mode: Mode, warmed: bool) {
    enter_child();
    let (fill, fseed) = mode.fill.unwrap_or((plan.heap.fill, plan.heap.seed));
    let cfg = heap::Cfg { fill, seed: fseed, guard: plan.heap.guard, inplace: plan.heap.inplace, offset: plan.heap.offset, lifo: plan.heap.lifo };
    if warmed {
        heap::reconfigure(cfg, mode.trace);
    } else {
        heap::init(cfg, mode.trace);
    }
    rt::note_stack_top();
    RNG_MODE.store(plan.rng.0 as u64, Ordering::Relaxed);
    RNG_ST.store(plan.rng.1, Ordering::Relaxed);
    rt::set_limit(DEFAULT_LIMIT * 4);
    if plan.warm && !warmed {
        on_thread(|| ops::warm_up());
    }
    let (n0, b0) = heap::live();
    let t0 = rt::steps();
    if mode.only.is_some() || plan.threads.len() == 1 {
        if plan.threads.len() > 1 {
            // reference run of one thread of a concurrent plan: shared operands exist here too
            let sh = ops::new_env(&plan.nums, 1);
            let ops::Env { regs, mut ccs, .. } = sh;
            ops::set_shared(regs, ccs[0].take());
        }
        on_thread(|| program(plan, mode));
    } else {
        let sh = ops::new_env(&plan.nums, 1);
        let ops::Env { regs, mut ccs, .. } = sh;
        ops::set_shared(regs, ccs[0].take());
        concurrent(plan, mode);
    }
    heap::check_all();
    let (n1, b1) = heap::live();
    shm::rec_stat("live0_n", n0 as u64);
    shm::rec_stat("live0_b", b0 as u64);
    shm::rec_stat("live1_n", n1 as u64);
    shm::rec_stat("live1_b", b1 as u64);
    shm::rec_stat("steps", rt::steps() - t0);
    shm::rec_stat("allocs", heap::total_allocs());
    shm::rec_stat("rng_draws", RNG_DRAWS.load(Ordering::Relaxed));
    shm::rec_stat("clock_reads", sched::CLOCK_READS.load(Ordering::Relaxed) as u64);
    if mode.leak && n1 > n0 {
        for (sz, site, op) in heap::live_sites(n1 - n0).into_iter().take(8) {
            shm::rec_event(&format!("leaked block of {sz} bytes, site {site:016x}, op {op}"));
        }
    }
    shm::rec_cov();
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn pipe2(fd: *mut i32, flags: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

unsafe fn read_all(fd: i32, b: &mut [u8]) -> bool {
    let mut k = 0;
    while k < b.len() {
        let n = read(fd, b.as_mut_ptr().add(k), b.len() - k);
        if n <= 0 {
            return false;
        }
        k += n as usize;
    }
    true
}
unsafe fn write_all(fd: i32, b: &[u8]) -> bool {
    let mut k = 0;
    while k < b.len() {
        let n = write(fd, b.as_ptr().add(k), b.len() - k);
        if n <= 0 {
            return false;
        }
        k += n as usize;
    }
    true
}

// The warm process: every lazily initialised part of the library has been used once in it, under
// the simulated heap; executions of warm plans are forked from it, so all start from the same state.
#[derive(Clone, Copy, PartialEq)]
enum Warm {
    None,
    Up(i32, i32),
    Broken,
}
static mut WARM: Warm = Warm::None;

unsafe fn warm_start() -> Warm {
    let (mut c, mut d) = ([0i32; 2], [0i32; 2]);
    if pipe2(c.as_mut_ptr(), 0o2000000) != 0 || pipe2(d.as_mut_ptr(), 0o2000000) != 0 {
        return Warm::Broken;
    }
    let pid = fork();
    if pid < 0 {
        rt::die("fork failed");
    }
    if pid == 0 {
        close(c[1]);
        close(d[0]);
        enter_child();
        heap::init(heap::Cfg { fill: 3, seed: 0x5eed, ..Default::default() }, false);
        rt::note_stack_top();
        RNG_ST.store(1, Ordering::Relaxed);
        rt::set_limit(DEFAULT_LIMIT * 4);
        let ok = catch_unwind(AssertUnwindSafe(|| on_thread(|| ops::warm_up()))).is_ok();
        if !ok || !heap::check_all() {
            rt::exit_now(1);
        }
        RNG_DRAWS.store(0, Ordering::Relaxed);
        alarm(0);
        if !write_all(d[1], b"w") {
            rt::exit_now(1);
        }
        loop {
            let mut l = [0u8; 8];
            if !read_all(c[0], &mut l) {
                rt::exit_now(0);
            }
            let mut b = vec![0u8; u64::from_le_bytes(l) as usize];
            if !read_all(c[0], &mut b) {
                rt::exit_now(0);
            }
            let pid = fork();
            if pid < 0 {
                rt::exit_now(2);
            }
            if pid == 0 {
                close(c[0]);
                close(d[1]);
                let (plan, mode): (Plan, Mode) = match serde_json::from_slice(&b) {
                    Ok(x) => x,
                    Err(_) => rt::die("bad plan"),
                };
                drop(b);
                child(&plan, mode, true);
                rt::exit_now(0);
            }
            let mut st = 0i32;
            while waitpid(pid, &mut st, 0) < 0 {}
            if !write_all(d[1], &st.to_le_bytes()) {
                rt::exit_now(0);
            }
        }
    }
    close(c[0]);
    close(d[1]);
    let mut b = [0u8; 1];
    if read_all(d[0], &mut b) {
        Warm::Up(c[1], d[0])
    } else {
        // each execution warms up by itself and reports what goes wrong
        close(c[1]);
        close(d[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        Warm::Broken
    }
}

unsafe fn run_warm(plan: &Plan, mode: Mode) -> Option<i32> {
    if WARM == Warm::None {
        WARM = warm_start();
    }
    let (c, d) = match WARM {
        Warm::Up(c, d) => (c, d),
        _ => return None,
    };
    shm::reset();
    let b = serde_json::to_vec(&(plan, mode)).expect("plan");
    let mut st = [0u8; 4];
    if !write_all(c, &(b.len() as u64).to_le_bytes()) || !write_all(c, &b) || !read_all(d, &mut st) {
        rt::die("the warm process is gone");
    }
    Some(i32::from_le_bytes(st))
}

pub fn run(plan: &Plan, mode: Mode) -> RunRes {
    let st = unsafe {
        let w = if plan.warm { run_warm(plan, mode) } else { None };
        w.unwrap_or_else(|| {
            shm::reset();
            let pid = fork();
            if pid < 0 {
                rt::die("fork failed");
            }
            if pid == 0 {
                child(plan, mode, false);
                rt::exit_now(0);
            }
            let mut st = 0i32;
            while waitpid(pid, &mut st, 0) < 0 {}
            st
        })
    };
    let status = if st & 0x7f == 0 {
        match (st >> 8) & 0xff {
            0 => Status::Ok,
            c => Status::Exit(c),
        }
    } else {
        let sg = st & 0x7f;
        if sg == 14 || sg == 9 {
            Status::Wall
        } else {
            Status::Signal(sg)
        }
    };
    RunRes { status, recs: shm::read() }
}
