//! Deterministic thread scheduler. Simulated threads are real OS threads, but only the holder of
//! the token runs; who holds it next, and when it is taken away, comes from the plan. Blocking
//! system calls of std's synchronisation (futex) are emulated, so lazy initialisation, mutexes and
//! channels inside the code under test block and wake under the simulator's control.

use crate::heap;
use crate::rt;
use crate::shm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq)]
enum S {
    Unused,
    Ready,
    Blocked,
    Done,
}

struct T {
    s: S,
    addr: usize,
    bits: u32,
    deadline: u64, // in steps, u64::MAX: none
    timed_out: bool,
    faults: heap::OpFaults,
    op: u32,
    local: u64,
    tok: AtomicU32,
}

pub struct Cfg {
    pub points: Vec<(u64, u32)>,
    pub stalls: Vec<(u64, u8, u64)>,
    pub parks: Vec<(u8, u64, u64)>,
    pub quantum: u64,
    pub seed: u64,
}

struct G {
    active: bool,
    n: usize,
    cur: usize,
    cfg: Option<Cfg>,
    pos: usize,
    next: u64,
    last: u64,
    switches: u64,
    hash: u64,
    blocked_waits: u64,
    preempt_in_lib: u64,
    trace: Vec<(u64, u8, u8, u8)>,
    time_skip: u64,
    since: u64,
    parked: u64,
}

#[allow(clippy::declare_interior_mutable_const)]
const T0: T = T {
    s: S::Unused,
    addr: 0,
    bits: 0,
    deadline: u64::MAX,
    timed_out: false,
    faults: heap_none(),
    op: 0,
    local: 0,
    tok: AtomicU32::new(0),
};
const fn heap_none() -> heap::OpFaults {
    heap::OpFaults::NONE
}
static mut TS: [T; MAXT] = [T0; MAXT];
static mut GS: G = G {
    active: false,
    n: 0,
    cur: 0,
    cfg: None,
    pos: 0,
    next: u64::MAX,
    last: 0,
    switches: 0,
    hash: 0xcbf29ce484222325,
    blocked_waits: 0,
    preempt_in_lib: 0,
    trace: Vec::new(),
    time_skip: 0,
    since: 0,
    parked: 0,
};
static REG: AtomicU32 = AtomicU32::new(0);
static FIN: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static EXIT: ExitGuard = const { ExitGuard };
}
struct ExitGuard;
impl Drop for ExitGuard {
    fn drop(&mut self) {
        leave();
    }
}

#[allow(static_mut_refs)]
fn g() -> &'static mut G {
    unsafe { &mut *std::ptr::addr_of_mut!(GS) }
}
#[allow(static_mut_refs)]
fn ts() -> &'static mut [T; MAXT] {
    unsafe { &mut *std::ptr::addr_of_mut!(TS) }
}

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        rt::raw_syscall(202, a as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        rt::raw_syscall(202, a as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0);
    }
}

pub fn active() -> bool {
    g().active
}
pub fn next_switch() -> u64 {
    let g = g();
    if g.active {
        g.next
    } else {
        u64::MAX
    }
}
fn my_tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(usize::MAX)
}

fn mixh(v: u64) {
    let g = g();
    g.hash ^= v;
    g.hash = g.hash.wrapping_mul(0x100000001b3);
    g.hash ^= g.hash >> 31;
}

fn plan_next() {
    let g = g();
    let now = rt::steps();
    let c = g.cfg.as_ref().unwrap();
    let gap = if g.pos < c.points.len() { c.points[g.pos].0.max(1) } else { c.quantum.max(50) };
    g.next = now + gap;
    for (at, _, _) in &c.stalls {
        if *at > now && *at < g.next {
            g.next = *at;
        }
    }
    aim();
}

/// The next switch comes no later than the current thread's next planned parking place.
fn aim() {
    let g = g();
    let have = ts()[g.cur].local;
    for (t, l, _) in &g.cfg.as_ref().unwrap().parks {
        if *t as usize == g.cur && *l > have {
            g.next = g.next.min(g.since + (*l - have));
        }
    }
}

/// Parks the current thread if it has reached one of its parking places.
fn park() -> bool {
    let g = g();
    let now = rt::steps();
    let me = g.cur;
    let have = ts()[me].local;
    let local = have + (now - g.since);
    let c = g.cfg.as_mut().unwrap();
    let hit = c.parks.iter().position(|(t, l, _)| *t as usize == me && *l > have && *l <= local);
    if let Some(i) = hit {
        let len = c.parks[i].2;
        // the simulator's own memory is not subject to the faults of the operation
        let a = heap::Arm::off();
        c.stalls.push((now, me as u8, len));
        drop(a);
        g.parked += 1;
        return true;
    }
    false
}

fn stalled(t: usize, now: u64) -> bool {
    g().cfg.as_ref().unwrap().stalls.iter().any(|(at, tt, len)| *tt as usize == t && now >= *at && now < at + len)
}

fn wake_timers() {
    let now = rt::steps() + g().time_skip;
    for t in ts().iter_mut() {
        if t.s == S::Blocked && t.deadline <= now {
            t.s = S::Ready;
            t.timed_out = true;
        }
    }
}

/// Chooses who runs next. `choice` None: forced switch (the current thread cannot go on).
fn pick(choice: Option<u32>) -> Option<usize> {
    let g = g();
    loop {
        wake_timers();
        let now = rt::steps();
        let mut r = [0usize; MAXT];
        let mut n = 0;
        for (i, t) in ts().iter().enumerate() {
            if t.s == S::Ready && !stalled(i, now) {
                r[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            // everyone able to run is stalled: the stall ends
            for (i, t) in ts().iter().enumerate() {
                if t.s == S::Ready {
                    r[n] = i;
                    n += 1;
                }
            }
        }
        if n > 0 {
            let k = match choice {
                Some(c) => c as usize % n,
                None => {
                    let mut h = g.cfg.as_ref().unwrap().seed ^ g.switches.wrapping_mul(0x9e3779b97f4a7c15);
                    h ^= h >> 29;
                    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
                    (h >> 33) as usize % n
                }
            };
            return Some(r[k]);
        }
        // only sleepers with a deadline can go on: simulated time jumps
        let d = ts().iter().filter(|t| t.s == S::Blocked && t.deadline != u64::MAX).map(|t| t.deadline).min();
        match d {
            Some(d) => g.time_skip += d.saturating_sub(rt::steps() + g.time_skip),
            None => return None,
        }
    }
}

fn hand_over(to: usize, reason: u8, wait: bool) {
    let g = g();
    let from = g.cur;
    if to == from && wait {
        plan_next();
        return;
    }
    g.switches += 1;
    mixh(((rt::steps() - g.last) << 8) | (from as u64) << 4 | to as u64);
    g.last = rt::steps();
    if g.trace.len() < 4000 {
        let a = heap::Arm::off();
        g.trace.push((rt::steps(), from as u8, to as u8, reason));
        drop(a);
    }
    let me = &mut ts()[from];
    me.faults = heap::save();
    me.op = rt::cur_op();
    me.local += rt::steps() - g.since;
    g.since = rt::steps();
    let t = &ts()[to];
    heap::restore(&t.faults);
    rt::set_cur(to as u8, t.op);
    g.cur = to;
    plan_next();
    unsafe { rt::renext() };
    t.tok.store(1, Ordering::SeqCst);
    futex_wake(&t.tok);
    if wait {
        wait_token(from);
    }
}

fn wait_token(me: usize) {
    let t = &ts()[me].tok;
    while t.load(Ordering::SeqCst) == 0 {
        futex_wait(t, 0);
    }
    t.store(0, Ordering::SeqCst);
}

/// Preemption point reached.
pub fn tick() {
    let g = g();
    if !g.active || my_tid() != g.cur || rt::steps() < g.next {
        return;
    }
    if park() {
        // accounts for the steps up to here, so that this place is behind the thread
        ts()[g.cur].local += rt::steps() - g.since;
        g.since = rt::steps();
        if heap::armed() {
            g.preempt_in_lib += 1;
        }
        let to = pick(None).unwrap_or(g.cur);
        hand_over(to, 0, true);
        return;
    }
    let c = g.cfg.as_ref().unwrap();
    let choice = if g.pos < c.points.len() {
        let v = c.points[g.pos].1;
        g.pos += 1;
        v
    } else {
        // fair round robin once the planned switches are used up
        (g.cur as u32).wrapping_add(1)
    };
    let to = pick(Some(choice)).unwrap_or(g.cur);
    if heap::armed() {
        g.preempt_in_lib += 1;
    }
    hand_over(to, 0, true);
}

fn block_and_switch(reason: u8) {
    match pick(None) {
        Some(to) => {
            if to == g().cur {
                return;
            }
            hand_over(to, reason, true)
        }
        None => {
            shm::rec_viol("deadlock", "no simulated thread can make progress", 0, 0, rt::cur_op() as u64);
            rt::exit_now(4);
        }
    }
}

fn leave() {
    let me = my_tid();
    if me == usize::MAX {
        return;
    }
    let gg = g();
    ts()[me].s = S::Done;
    if ts().iter().all(|t| t.s == S::Done || t.s == S::Unused) {
        gg.active = false;
        FIN.store(1, Ordering::SeqCst);
        futex_wake(&FIN);
        return;
    }
    match pick(None) {
        Some(to) => hand_over(to, 2, false),
        None => {
            shm::rec_viol("deadlock", "a thread ended and no other can make progress", 0, 0, 0);
            rt::exit_now(4);
        }
    }
}

pub struct Summary {
    pub switches: u64,
    pub hash: u64,
    pub waits: u64,
    pub in_lib: u64,
    pub parked: u64,
    pub trace: Vec<(u64, u8, u8, u8)>,
}

/// Runs the bodies as simulated threads until all have ended.
pub fn run(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Summary {
    let n = bodies.len();
    assert!(n <= MAXT);
    {
        let gg = g();
        gg.n = n;
        gg.trace = Vec::with_capacity(4096);
        for t in ts().iter_mut().take(n) {
            t.s = S::Ready;
        }
    }
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                TID.with(|t| t.set(i));
                EXIT.with(|_| ());
                rt::note_stack_top();
                REG.store(i as u32 + 1, Ordering::SeqCst);
                futex_wake(&REG);
                wait_token(i);
                b();
            })
            .expect("spawn");
        while REG.load(Ordering::SeqCst) != i as u32 + 1 {
            let v = REG.load(Ordering::SeqCst);
            if v != i as u32 + 1 {
                futex_wait(&REG, v);
            }
        }
        hs.push(h);
    }
    let first;
    {
        let gg = g();
        gg.cfg = Some(cfg);
        gg.active = true;
        gg.last = rt::steps();
        first = pick(None).unwrap();
        gg.cur = first;
        gg.since = rt::steps();
        rt::set_cur(first as u8, 0);
        plan_next();
        unsafe { rt::renext() };
    }
    ts()[first].tok.store(1, Ordering::SeqCst);
    futex_wake(&ts()[first].tok);
    while FIN.load(Ordering::SeqCst) == 0 {
        futex_wait(&FIN, 0);
    }
    for h in hs {
        let _ = h.join();
    }
    let gg = g();
    Summary { switches: gg.switches, hash: gg.hash, waits: gg.blocked_waits, in_lib: gg.preempt_in_lib, parked: gg.parked, trace: std::mem::take(&mut gg.trace) }
}

// ---- seams below std: libc symbols the standard library calls ----

unsafe fn set_errno(e: i32) {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    *__errno_location() = e;
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 && g().active && my_tid() == g().cur {
        let op = b & 127;
        match op {
            0 | 9 => {
                let cur = (*(a as *const AtomicU32)).load(Ordering::SeqCst);
                if cur != c as u32 {
                    set_errno(11);
                    return -1;
                }
                let gg = g();
                gg.blocked_waits += 1;
                let me = my_tid();
                let t = &mut ts()[me];
                t.addr = a;
                t.bits = if op == 9 { f as u32 } else { u32::MAX };
                t.timed_out = false;
                t.deadline = if d != 0 {
                    let q = &*(d as *const Timespec);
                    let ns = q.s.max(0) as u64 * 1_000_000_000 + q.ns as u64;
                    if op == 9 { (ns / 1000).saturating_sub(1_700_000_000_000_000) } else { rt::steps() + gg.time_skip + ns / 1000 }
                } else {
                    u64::MAX
                };
                t.s = S::Blocked;
                block_and_switch(1);
                if ts()[me].timed_out {
                    set_errno(110);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let bits = if op == 10 { f as u32 } else { u32::MAX };
                let mut k = 0usize;
                for t in ts().iter_mut() {
                    if k < c && t.s == S::Blocked && t.addr == a && t.bits & bits != 0 {
                        t.s = S::Ready;
                        t.deadline = u64::MAX;
                        k += 1;
                    }
                }
                return k as i64;
            }
            _ => {}
        }
    }
    let r = rt::raw_syscall(n as usize, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r as i64
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let gg = g();
    if gg.active && my_tid() == gg.cur {
        if let Some(to) = pick(None) {
            if to != gg.cur {
                hand_over(to, 3, true);
            }
        }
        return 0;
    }
    rt::raw_syscall(24, 0, 0, 0, 0, 0, 0);
    0
}

pub static CLOCK_READS: AtomicU32 = AtomicU32::new(0);

/// Simulated clock for the code under test: one microsecond per step, with seeded skew.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if rt::IN_CHILD && heap::armed() {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let us = rt::steps() + g().time_skip;
        (*t).s = 1_700_000_000 + (us / 1_000_000) as i64;
        (*t).ns = ((us % 1_000_000) * 1000) as i64;
        return 0;
    }
    let r = rt::raw_syscall(228, id as usize, t as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}
