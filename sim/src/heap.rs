//! Simulated heap: every allocation made while the code under test runs goes through here.
//! Decides, from the plan, which requests fail, what fresh memory contains, where blocks lie,
//! and checks every block for overruns, use after free, bad frees and leaks.

use crate::rt;
use crate::shm;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct SimHeap;

const BASE: usize = 0x10_0000_0000;
const SIZE: usize = 24 << 30;
/// Blocks with an inaccessible page behind them live here.
const GBASE: usize = BASE + SIZE + (1 << 30);
const GSIZE: usize = 16 << 30;
const MAX_BLOCK: usize = 512 << 20; // the simulated machine has no larger contiguous block
const MAX_LIVE: usize = 1 << 30;
const HDR: usize = 112;
const REAR: usize = 48;
const MAGIC: u64 = 0x51ab_0f00_d15e_a5e5;
const FREED: u64 = 0xdead_0f00_d15e_a5e5;
const KEY: usize = 0x5a5a_1234_9876_a5a5;
const NCLASS: usize = 160;

#[repr(C)]
struct Hdr {
    magic: u64,
    user: usize,
    size: usize,
    align: usize,
    total: usize,
    class: usize,
    prev: *mut Hdr,
    next: *mut Hdr,
    id: u64,
    site: u64,
    op: u64,
    pad: u64,
}

#[derive(Clone, Copy, Default)]
pub struct Cfg {
    pub fill: u8,
    pub seed: u64,
    pub guard: bool,
    pub inplace: bool,
    pub offset: bool,
    pub lifo: bool,
}

#[derive(Clone, Copy)]
pub enum F {
    At { idx: u32, n: u32 },
    From { idx: u32 },
    Size { min: usize },
    Budget { bytes: usize },
    Prob { seed: u64, pm: u32 },
}

pub const NF: usize = 16;

struct St {
    inited: bool,
    cfg: Cfg,
    bump: usize,
    gbump: usize,
    heads: [*mut Hdr; NCLASS],
    tails: [*mut Hdr; NCLASS],
    q_head: *mut Hdr,
    q_tail: *mut Hdr,
    q_bytes: usize,
    live_head: *mut Hdr,
    live_n: usize,
    live_b: usize,
    peak_b: usize,
    next_id: u64,
    rng: u64,
    // fault state of the current op of the current thread
    faults: [Option<F>; NF],
    faults_on: bool,
    op_idx: u32,
    op_live0: usize,
    op_net: isize,
    fired: u32,
    last_site: u64,
    trace: bool,
    /// An operation is being performed (requests outside are not traced).
    in_op: bool,
    /// Bytes around blocks and in freed blocks.
    rz: u8,
    poison: u8,
    total_allocs: u64,
    viol: bool,
}

static mut ST: St = St {
    inited: false,
    cfg: Cfg { fill: 0, seed: 0, guard: false, inplace: false, offset: false, lifo: false },
    bump: BASE,
    gbump: GBASE,
    heads: [std::ptr::null_mut(); NCLASS],
    tails: [std::ptr::null_mut(); NCLASS],
    q_head: std::ptr::null_mut(),
    q_tail: std::ptr::null_mut(),
    q_bytes: 0,
    live_head: std::ptr::null_mut(),
    live_n: 0,
    live_b: 0,
    peak_b: 0,
    next_id: 1,
    rng: 1,
    faults: [None; NF],
    faults_on: false,
    op_idx: 0,
    op_live0: 0,
    op_net: 0,
    fired: 0,
    last_site: 0,
    trace: false,
    in_op: false,
    rz: 0,
    poison: 0,
    total_allocs: 0,
    viol: false,
};

static LOCK: AtomicBool = AtomicBool::new(false);
fn lock() {
    while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

pub fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}
pub fn set_armed(v: bool) -> bool {
    ARMED.try_with(|a| a.replace(v)).unwrap_or(false)
}

/// Guard: code under test runs (allocations are simulated) until dropped.
pub struct Arm(bool);
impl Arm {
    pub fn on() -> Arm {
        Arm(set_armed(true))
    }
    pub fn off() -> Arm {
        Arm(set_armed(false))
    }
}
impl Drop for Arm {
    fn drop(&mut self) {
        set_armed(self.0);
    }
}

#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

/// Called in the forked child before anything else.
pub fn init(cfg: Cfg, trace: bool) {
    let s = st();
    unsafe {
        let flags = 0x02 | 0x20 | 0x4000 | 0x100000; // PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        if rt::mmap(BASE, SIZE, 3, flags) != BASE || rt::mmap(GBASE, GSIZE, 0, flags) != GBASE {
            rt::die("cannot map the simulated heap");
        }
    }
    s.cfg = cfg;
    s.rng = cfg.seed | 1;
    s.rz = (mix(cfg.seed ^ 0x77) as u8) | 0x80;
    s.poison = (mix(cfg.seed ^ 0x99) as u8) | 1;
    s.trace = trace;
    s.inited = true;
}

/// Other rules from here on; blocks that exist stay as they are.
pub fn reconfigure(cfg: Cfg, trace: bool) {
    let s = st();
    s.cfg = cfg;
    s.rng = cfg.seed | 1;
    s.trace = trace;
    s.total_allocs = 0;
    while !s.q_head.is_null() {
        unsafe { release_one() };
    }
    s.q_tail = std::ptr::null_mut();
}

pub fn set_fill(fill: u8, seed: u64) {
    let s = st();
    s.cfg.fill = fill;
    s.rng = seed | 1;
}

pub fn live() -> (usize, usize) {
    let s = st();
    (s.live_n, s.live_b)
}
pub fn peak() -> usize {
    st().peak_b
}
pub fn reset_peak() {
    let s = st();
    s.peak_b = s.live_b;
}
pub fn total_allocs() -> u64 {
    st().total_allocs
}

/// Per-op fault control (saved and restored by the scheduler on a thread switch).
#[derive(Clone, Copy)]
pub struct OpFaults {
    faults: [Option<F>; NF],
    on: bool,
    idx: u32,
    net: isize,
    fired: u32,
    last: u64,
    in_op: bool,
}
impl OpFaults {
    pub const NONE: OpFaults = OpFaults { faults: [None; NF], on: false, idx: 0, net: 0, fired: 0, last: 0, in_op: false };
    #[allow(dead_code)]
    pub fn none() -> Self {
        OpFaults { faults: [None; NF], on: false, idx: 0, net: 0, fired: 0, last: 0, in_op: false }
    }
}
pub fn save() -> OpFaults {
    let s = st();
    OpFaults { faults: s.faults, on: s.faults_on, idx: s.op_idx, net: s.op_net, fired: s.fired, last: s.last_site, in_op: s.in_op }
}
pub fn restore(o: &OpFaults) {
    let s = st();
    s.faults = o.faults;
    s.faults_on = o.on;
    s.op_idx = o.idx;
    s.op_net = o.net;
    s.fired = o.fired;
    s.last_site = o.last;
    s.in_op = o.in_op;
}

pub fn op_begin(fs: &[F]) {
    let s = st();
    s.faults = [None; NF];
    for (i, f) in fs.iter().take(NF).enumerate() {
        s.faults[i] = Some(*f);
    }
    s.faults_on = !fs.is_empty();
    s.op_idx = 0;
    s.op_live0 = s.live_b;
    s.op_net = 0;
    s.fired = 0;
    s.in_op = true;
}
/// Ends the op's fault window; returns (requests seen, faults fired).
pub fn op_end() -> (u32, u32) {
    let s = st();
    s.faults_on = false;
    s.in_op = false;
    (s.op_idx, s.fired)
}
pub fn faults_suspend() -> bool {
    let s = st();
    std::mem::replace(&mut s.faults_on, false)
}
pub fn faults_resume(v: bool) {
    st().faults_on = v;
}
pub fn last_fail_site() -> u64 {
    st().last_site
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}

fn decide_fail(size: usize, site: u64) -> bool {
    let s = st();
    let idx = s.op_idx;
    s.op_idx += 1;
    let mut fail = false;
    let mut kind = 0u8;
    if s.faults_on {
        for f in s.faults.iter().flatten() {
            let hit = match *f {
                F::At { idx: i, n } => idx >= i && idx - i < n,
                F::From { idx: i } => idx >= i,
                F::Size { min } => size >= min,
                F::Budget { bytes } => s.op_net + size as isize > bytes as isize,
                F::Prob { seed, pm } => (mix(seed ^ (idx as u64).wrapping_mul(0x9e3779b97f4a7c15)) % 1000) < pm as u64,
            };
            if hit {
                fail = true;
                kind = match *f {
                    F::At { .. } => 1,
                    F::From { .. } => 2,
                    F::Size { .. } => 3,
                    F::Budget { .. } => 4,
                    F::Prob { .. } => 5,
                };
                break;
            }
        }
    }
    if !fail && (size > MAX_BLOCK || s.live_b + size > MAX_LIVE) {
        fail = true;
        kind = 6;
    }
    if s.trace && s.in_op {
        shm::rec_alloc(rt::cur_thread(), rt::cur_op(), idx, size as u64, site);
    }
    if fail {
        s.fired += 1;
        s.last_site = site;
        if s.fired <= 64 {
            shm::rec_fault(rt::cur_thread(), rt::cur_op(), idx, size as u64, kind, site);
        }
    }
    fail
}

fn class_of(total: usize) -> (usize, usize) {
    // returns (class, rounded total)
    if total <= 2048 {
        let c = (total + 63) / 64;
        (c, c * 64)
    } else {
        let lz = 63 - (total as u64 - 1).leading_zeros() as usize; // floor(log2(total-1))
        let step = 1usize << (lz - 1); // two classes per power of two
        let r = (total + step - 1) / step * step;
        let c = 33 + (lz - 11) * 2 + if r == (1 << (lz + 1)) { 1 } else { 0 };
        (c, r)
    }
}

unsafe fn fill(p: *mut u8, n: usize, kind: u8) {
    let s = st();
    match kind {
        0 => std::ptr::write_bytes(p, 0, n),
        1 => std::ptr::write_bytes(p, 0xff, n),
        2 => std::ptr::write_bytes(p, 0xaa, n),
        3 => {
            let w = p as *mut u64;
            let k = n / 8;
            let mut x = s.rng;
            for i in 0..k {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                w.add(i).write_unaligned(x);
            }
            s.rng = x;
            std::ptr::write_bytes(p.add(k * 8), x as u8, n - k * 8);
        }
        4 => {} // stale: whatever the previous owner (or the poison) left
        5 => {
            // top bit of every word
            std::ptr::write_bytes(p, 0, n);
            let mut i = 7;
            while i < n {
                *p.add(i) = 0x80;
                i += 8;
            }
        }
        _ => std::ptr::write_bytes(p, 0x01, n),
    }
}

fn rz_byte() -> u8 {
    st().rz
}
fn poison_byte() -> u8 {
    st().poison
}

fn heap_viol(what: &str, h: *mut Hdr) {
    let s = st();
    if s.viol {
        return;
    }
    s.viol = true;
    let (size, site, op) = unsafe { if h.is_null() { (0, 0, 0) } else { ((*h).size, (*h).site, (*h).op) } };
    shm::rec_viol("heap", what, size as u64, site, op);
}

pub fn corrupted() -> bool {
    st().viol
}

/// Which blocks get an inaccessible page behind them: all, a quarter or few of them.
fn guarded(seed: u64, id: u64) -> bool {
    let d = [1, 4, 4, 16][mix(seed ^ 0x55) as usize & 3];
    mix(seed ^ id.wrapping_mul(0x9e37_79b9)) % d == 0
}

/// Accessible pages with an inaccessible one behind them; 0 if there are none left.
unsafe fn guard_pages(s: &mut St, need: usize) -> usize {
    let total = (need + 4095) / 4096 * 4096;
    let b = s.gbump;
    if total + 4096 > GBASE + GSIZE - b || rt::mprotect(b, total, 3) != 0 {
        return 0;
    }
    s.gbump = b + total + 4096;
    b
}

unsafe fn do_alloc(size: usize, align: usize, site: u64) -> *mut u8 {
    let s = st();
    lock();
    s.total_allocs += 1;
    let id = s.next_id;
    s.next_id += 1;
    let h: *mut Hdr;
    let user: usize;
    let total: usize;
    let class: usize;
    let gb = if s.cfg.guard && guarded(s.cfg.seed, id) { guard_pages(s, HDR + 32 + size + align) } else { 0 };
    if gb != 0 {
        let b = gb;
        total = (HDR + 32 + size + align + 4095) / 4096 * 4096;
        h = b as *mut Hdr;
        user = (b + total - size) & !(align - 1);
        class = usize::MAX;
        // everything between the header and the block, and the slack behind it
        std::ptr::write_bytes((b + HDR) as *mut u8, rz_byte(), user - b - HDR);
        std::ptr::write_bytes((user + size) as *mut u8, rz_byte(), b + total - user - size);
    } else {
        let extra = if align > 16 { align } else { 0 };
        let (c, r) = class_of(HDR + 32 + 16 + size + REAR + extra);
        class = c;
        total = r;
        let hd = s.heads[c];
        if !hd.is_null() {
            h = hd;
            s.heads[c] = (*hd).next;
            if s.heads[c].is_null() {
                s.tails[c] = std::ptr::null_mut();
            }
        } else {
            let b = s.bump;
            if b + total > BASE + SIZE {
                unlock();
                return std::ptr::null_mut();
            }
            s.bump = b + total;
            h = b as *mut Hdr;
        }
        let b = h as usize;
        let mut u = b + HDR + 32;
        if align > 16 {
            u = (u + align - 1) & !(align - 1);
        } else if s.cfg.offset && align <= 8 && mix(s.cfg.seed ^ id) & 1 == 1 {
            u += 8;
        }
        user = u;
        std::ptr::write_bytes((b + HDR) as *mut u8, rz_byte(), user - b - HDR);
        std::ptr::write_bytes((user + size) as *mut u8, rz_byte(), b + total - user - size);
    }
    (*h).magic = MAGIC;
    (*h).user = user;
    (*h).size = size;
    (*h).align = align;
    (*h).total = total;
    (*h).class = class;
    (*h).id = id;
    (*h).site = site;
    (*h).op = rt::cur_op() as u64;
    (*h).prev = std::ptr::null_mut();
    (*h).next = s.live_head;
    if !s.live_head.is_null() {
        (*s.live_head).prev = h;
    }
    s.live_head = h;
    ((user - 16) as *mut usize).write_unaligned(h as usize ^ KEY);
    s.live_n += 1;
    s.live_b += size;
    s.op_net += size as isize;
    if s.live_b > s.peak_b {
        s.peak_b = s.live_b;
    }
    fill(user as *mut u8, size, s.cfg.fill);
    unlock();
    user as *mut u8
}

unsafe fn hdr_of(p: *mut u8) -> *mut Hdr {
    let v = ((p as usize - 16) as *const usize).read_unaligned() ^ KEY;
    if v < BASE || v >= GBASE + GSIZE || v >= p as usize || p as usize - v > 1 << 20 {
        return std::ptr::null_mut();
    }
    let h = v as *mut Hdr;
    if (*h).user != p as usize {
        return std::ptr::null_mut();
    }
    h
}

unsafe fn check_block(h: *mut Hdr) -> bool {
    let b = h as usize;
    let user = (*h).user;
    let rz = rz_byte();
    let mut p = b + HDR;
    while p < user {
        if !(p >= user - 16 && p < user - 8) && *(p as *const u8) != rz {
            return false;
        }
        p += 1;
    }
    let mut p = user + (*h).size;
    let end = b + (*h).total;
    while p < end {
        if *(p as *const u8) != rz {
            return false;
        }
        p += 1;
    }
    true
}

unsafe fn do_free(p: *mut u8, size: usize, align: usize) {
    let s = st();
    lock();
    let h = hdr_of(p);
    if h.is_null() {
        heap_viol("free of a block whose bookkeeping was overwritten (underrun) or that was never allocated", h);
        unlock();
        return;
    }
    if (*h).magic == FREED {
        heap_viol("double free", h);
        unlock();
        return;
    }
    if (*h).magic != MAGIC {
        heap_viol("free of a corrupted block", h);
        unlock();
        return;
    }
    if (*h).size != size || (*h).align != align {
        heap_viol("free with a layout different from the allocation's", h);
    }
    if !check_block(h) {
        heap_viol("write outside the bounds of a block", h);
    }
    // unlink
    if (*h).prev.is_null() {
        s.live_head = (*h).next;
    } else {
        (*(*h).prev).next = (*h).next;
    }
    if !(*h).next.is_null() {
        (*(*h).next).prev = (*h).prev;
    }
    s.live_n -= 1;
    s.live_b -= (*h).size;
    s.op_net -= (*h).size as isize;
    if (*h).class == usize::MAX {
        let b = h as usize;
        let t = (*h).total;
        rt::madvise_dontneed(b, t);
        rt::mprotect(b, t, 0);
        unlock();
        return;
    }
    (*h).magic = FREED;
    std::ptr::write_bytes(p, poison_byte(), (*h).size);
    (*h).next = std::ptr::null_mut();
    if s.q_tail.is_null() {
        s.q_head = h;
    } else {
        (*s.q_tail).next = h;
    }
    s.q_tail = h;
    s.q_bytes += (*h).total;
    while s.q_bytes > 512 << 10 && !s.q_head.is_null() {
        release_one();
    }
    unlock();
}

unsafe fn release_one() {
    let s = st();
    let h = s.q_head;
    s.q_head = (*h).next;
    if s.q_head.is_null() {
        s.q_tail = std::ptr::null_mut();
    }
    s.q_bytes -= (*h).total;
    verify_freed(h);
    let c = (*h).class;
    (*h).next = std::ptr::null_mut();
    if s.cfg.lifo {
        (*h).next = s.heads[c];
        s.heads[c] = h;
        if s.tails[c].is_null() {
            s.tails[c] = h;
        }
    } else {
        if s.tails[c].is_null() {
            s.heads[c] = h;
        } else {
            (*s.tails[c]).next = h;
        }
        s.tails[c] = h;
    }
}

unsafe fn verify_freed(h: *mut Hdr) {
    let pb = poison_byte();
    let b = std::slice::from_raw_parts((*h).user as *const u8, (*h).size);
    let (x, y, z) = b.align_to::<u64>();
    let w = u64::from_le_bytes([pb; 8]);
    if x.iter().chain(z).any(|v| *v != pb) || y.iter().any(|v| *v != w) {
        heap_viol("write to a block after it was freed", h);
    }
}

/// Verifies every live and every quarantined block.
pub fn check_all() -> bool {
    let s = st();
    lock();
    unsafe {
        let mut h = s.live_head;
        while !h.is_null() {
            if (*h).magic != MAGIC || !check_block(h) {
                heap_viol("write outside the bounds of a block", h);
                break;
            }
            h = (*h).next;
        }
        let mut h = s.q_head;
        while !h.is_null() {
            verify_freed(h);
            h = (*h).next;
        }
    }
    unlock();
    !s.viol
}

/// Lists the sites of blocks still live (for leak reports).
pub fn live_sites(max: usize) -> Vec<(usize, u64, u64)> {
    let was = set_armed(false);
    let mut v = Vec::new();
    let s = st();
    unsafe {
        let mut h = s.live_head;
        while !h.is_null() && v.len() < max {
            v.push(((*h).size, (*h).site, (*h).op));
            h = (*h).next;
        }
    }
    set_armed(was);
    v
}

fn mine(p: *mut u8) -> bool {
    let a = p as usize;
    a >= BASE && a < GBASE + GSIZE
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if armed() && st().inited {
            let site = rt::site();
            if decide_fail(l.size(), site) {
                return std::ptr::null_mut();
            }
            do_alloc(l.size(), l.align(), site)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mine(p) {
            do_free(p, l.size(), l.align())
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if armed() && st().inited {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if mine(p) {
            if armed() {
                let site = rt::site();
                if decide_fail(new, site) {
                    return std::ptr::null_mut();
                }
                realloc_mine(p, l, new, site)
            } else {
                realloc_mine(p, l, new, 0)
            }
        } else if armed() && st().inited {
            // a block that came from outside the simulation grows inside it
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                System.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        }
    }
}

unsafe fn realloc_mine(p: *mut u8, l: Layout, new: usize, site: u64) -> *mut u8 {
    let s = st();
    if s.cfg.inplace {
        lock();
        let h = hdr_of(p);
        if !h.is_null() && (*h).magic == MAGIC && (*h).class != usize::MAX && (*h).size == l.size() && (*h).align == l.align() && check_block(h) {
            let room = (h as usize + (*h).total) - p as usize;
            if new + REAR <= room {
                let old = (*h).size;
                (*h).size = new;
                s.live_b = s.live_b - old + new;
                s.op_net += new as isize - old as isize;
                if s.live_b > s.peak_b {
                    s.peak_b = s.live_b;
                }
                if new > old {
                    fill(p.add(old), new - old, s.cfg.fill);
                }
                std::ptr::write_bytes(p.add(new), rz_byte(), room - new);
                unlock();
                return p;
            }
        }
        unlock();
    }
    let q = do_alloc(new, l.align(), site);
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        do_free(p, l.size(), l.align());
    }
    q
}
