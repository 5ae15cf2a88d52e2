//! Runtime of a simulated execution: the step clock (one step per control-flow edge of the code
//! under test), preemption points, stack depth, allocation-site identities, raw system calls.

use crate::sched;
use crate::shm;
use std::arch::asm;
use std::cell::Cell;

pub static mut STEPS: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut IN_CHILD: bool = false;
pub const COVN: usize = 1 << 16;
pub static mut COV: [u8; COVN] = [0; COVN];
pub static mut NGUARDS: usize = 0;
pub static mut MIN_SP: usize = usize::MAX;
static mut CUR_OP: u32 = 0;
static mut CUR_T: u8 = 0;

thread_local! {
    pub static STACK_TOP: Cell<usize> = const { Cell::new(0) };
    pub static IN_RT: Cell<bool> = const { Cell::new(false) };
}

pub fn cur_op() -> u32 {
    unsafe { CUR_OP }
}
pub fn set_cur(t: u8, op: u32) {
    unsafe {
        CUR_T = t;
        CUR_OP = op;
    }
}
pub fn cur_thread() -> u8 {
    unsafe { CUR_T }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}

/// The op may use at most `n` more steps; beyond that the run ends as "no progress".
pub fn set_limit(n: u64) {
    unsafe {
        LIMIT = STEPS.saturating_add(n);
        renext();
    }
}
pub unsafe fn renext() {
    NEXT = LIMIT.min(sched::next_switch());
}

pub fn note_stack_top() {
    let x = 0u8;
    STACK_TOP.with(|c| c.set(&x as *const u8 as usize));
}
pub fn stack_reset() {
    unsafe { MIN_SP = usize::MAX }
}
/// Deepest stack use (bytes below the current frame) since `stack_reset`.
pub fn stack_used() -> usize {
    let x = 0u8;
    let here = &x as *const u8 as usize;
    unsafe { here.saturating_sub(MIN_SP) }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = (NGUARDS % COVN) as u32;
        p = p.add(1);
    }
}

pub static mut PCS: [(usize, usize); 256] = [(0, 0); 256];
pub static mut NPCS: usize = 0;

/// Addresses of the instrumented edges, module by module, in the order of their guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    if start != stop && NPCS < 256 {
        PCS[NPCS] = (start as usize, stop as usize);
        NPCS += 1;
    }
}
/// Image offset of edge `id` (1-based).
pub fn edge_pc(id: usize) -> usize {
    let mut k = id.wrapping_sub(1);
    unsafe {
        for i in 0..NPCS {
            let n = (PCS[i].1 - PCS[i].0) / 16;
            if k < n {
                return *((PCS[i].0 + k * 16) as *const usize) - exe_base();
            }
            k -= n;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS += 1;
    let id = *g as usize;
    COV[id & (COVN - 1)] = 1;
    if EDGES {
        let e = &mut EDGE[id & (COVN - 1)];
        if e.0 == 0 {
            e.1 = STEPS;
        }
        e.0 += 1;
        e.2 = STEPS;
    }
    let x = 0u8;
    let sp = &x as *const u8 as usize;
    if sp < MIN_SP {
        MIN_SP = sp;
    }
    if STEPS >= NEXT {
        slow();
    }
}

static mut EDGES: bool = false;
static mut EDGE: [(u32, u64, u64); COVN] = [(0, 0, 0); COVN];
static mut EDGE0: u64 = 0;
pub fn edges_start() {
    unsafe {
        EDGES = true;
        EDGE0 = STEPS;
    }
    statics_watch(true);
}
/// Step counts (since `edges_start`) at which rarely executed edges were first and last reached.
pub fn edges_rare() -> Vec<u64> {
    let mut v = Vec::new();
    unsafe {
        EDGES = false;
        for e in (*std::ptr::addr_of!(EDGE)).iter() {
            if e.0 > 0 && e.0 <= 6 {
                v.push(e.1 - EDGE0);
                if e.0 > 1 {
                    v.push(e.2 - EDGE0);
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Accesses of the code under test to the writable statics of the image.
#[derive(Clone, Copy)]
struct Cell1 {
    addr: u32,
    n: u32,
    stores: u32,
    seen: [u64; 6],
}
const CELLS: usize = 1024;
static mut CELL: [Cell1; CELLS] = [Cell1 { addr: 0, n: 0, stores: 0, seen: [0; 6] }; CELLS];
static mut MEM_LO: usize = 0;
static mut MEM_LEN: usize = 0;
static mut MEM_RNG: u64 = 1;

fn statics_watch(on: bool) {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        MEM_LO = std::ptr::addr_of!(__data_start) as usize;
        MEM_LEN = if on { std::ptr::addr_of!(_end) as usize - MEM_LO } else { 0 };
    }
}
#[cold]
#[inline(never)]
unsafe fn shared(a: usize, w: bool) {
    let addr = ((a - MEM_LO) >> 3) as u32 + 1;
    let mut i = (addr as usize).wrapping_mul(0x9e37_79b1) >> 7 & (CELLS - 1);
    for _ in 0..32 {
        let c = &mut CELL[i];
        if c.addr == 0 {
            c.addr = addr;
        }
        if c.addr == addr {
            c.n += 1;
            c.stores += w as u32;
            // a sample of the accesses; stores and the first ones are preferred
            MEM_RNG = MEM_RNG.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = (MEM_RNG >> 33) as usize % (c.n as usize);
            if c.n as usize <= c.seen.len() {
                c.seen[c.n as usize - 1] = STEPS - EDGE0;
            } else if k < c.seen.len() || (w && c.stores < 4) {
                c.seen[k % c.seen.len()] = STEPS - EDGE0;
            }
            return;
        }
        i = (i + 1) & (CELLS - 1);
    }
}
/// The writable statics accessed since `edges_start`: address, number of stores, steps of some accesses.
pub fn statics_seen() -> Vec<(u32, u32, Vec<u64>)> {
    statics_watch(false);
    let mut v: Vec<_> = unsafe { (*std::ptr::addr_of!(CELL)).iter() }
        .filter(|c| c.addr != 0)
        .map(|c| (c.addr, c.stores, c.seen[..c.seen.len().min(c.n as usize)].to_vec()))
        .collect();
    v.sort();
    v
}
macro_rules! accesses {
    ($($n:ident $w:expr),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: usize) {
            if a.wrapping_sub(MEM_LO) < MEM_LEN {
                shared(a, $w);
            }
        }
    )* };
}
accesses!(__sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false, __sanitizer_cov_load8 false,
    __sanitizer_cov_load16 false, __sanitizer_cov_store1 true, __sanitizer_cov_store2 true, __sanitizer_cov_store4 true,
    __sanitizer_cov_store8 true, __sanitizer_cov_store16 true);

#[cold]
#[inline(never)]
unsafe fn slow() {
    if !IN_CHILD {
        NEXT = u64::MAX;
        return;
    }
    if STEPS >= LIMIT {
        shm::rec_viol("steps", "operation used up its step budget without finishing", STEPS, 0, CUR_OP as u64);
        exit_now(3);
    }
    sched::tick();
    renext();
}

pub fn exe_base() -> usize {
    extern "C" {
        static __ehdr_start: u8;
    }
    unsafe { std::ptr::addr_of!(__ehdr_start) as usize }
}

pub fn frames(out: &mut [usize]) -> usize {
    let mut fp: usize;
    unsafe {
        asm!("mov {}, rbp", out(reg) fp);
    }
    let top = STACK_TOP.try_with(|c| c.get()).unwrap_or(0);
    let base = exe_base();
    let mut n = 0;
    let x = 0u8;
    let lo = &x as *const u8 as usize;
    let mut guard = 0;
    while n < out.len() && fp > lo.wrapping_sub(256) && fp + 16 <= top && fp & 7 == 0 && guard < 64 {
        guard += 1;
        let (next, ret) = unsafe { (*(fp as *const usize), *((fp + 8) as *const usize)) };
        if ret > base && ret < base + (64 << 20) {
            let r = ret - base;
            if n == 0 || out[n - 1] != r {
                out[n] = r;
                n += 1;
            }
        }
        if next <= fp {
            break;
        }
        fp = next;
    }
    n
}

/// Identity of the allocation site: hash of the nearest return addresses.
#[inline(never)]
pub fn site() -> u64 {
    let mut f = [0usize; 12];
    let n = frames(&mut f);
    let mut h = 0xcbf29ce484222325u64;
    // skip the allocator's own frames (0..1)
    for r in f.iter().take(n).skip(1) {
        h ^= *r as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
pub unsafe fn mmap(addr: usize, len: usize, prot: usize, flags: usize) -> usize {
    raw_syscall(9, addr, len, prot, flags, usize::MAX, 0) as usize
}
pub unsafe fn mprotect(addr: usize, len: usize, prot: usize) -> isize {
    raw_syscall(10, addr, len, prot, 0, 0, 0)
}
pub unsafe fn madvise_dontneed(addr: usize, len: usize) {
    raw_syscall(28, addr, len, 4, 0, 0, 0);
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw_syscall(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn die(msg: &str) -> ! {
    eprintln!("afsim: {msg}");
    exit_now(9);
}
pub fn write_err(msg: &str) {
    unsafe {
        raw_syscall(1, 2, msg.as_ptr() as usize, msg.len(), 0, 0, 0);
    }
}
