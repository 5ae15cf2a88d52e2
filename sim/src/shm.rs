//! Shared memory between a simulated execution (forked child) and the process that judges it.
//! Records survive the child's death, so aborts and crashes are judged from what came before.

use crate::rt;

const CAP: usize = 64 << 20;
static mut P: *mut u8 = std::ptr::null_mut();

pub fn init() {
    unsafe {
        let p = rt::mmap(0, CAP, 3, 0x01 | 0x20 | 0x4000); // SHARED|ANON|NORESERVE
        if p as isize <= 0 && p as isize > -4096 {
            rt::die("mmap of the record area failed");
        }
        P = p as *mut u8;
    }
}
pub fn reset() {
    unsafe { (P as *mut u64).write(0) }
}

fn put(tag: u8, parts: &[&[u8]]) {
    unsafe {
        if P.is_null() || !rt::IN_CHILD {
            return;
        }
        let len = (P as *mut u64).read() as usize;
        let n: usize = parts.iter().map(|p| p.len()).sum();
        if 16 + len + n + 5 > CAP {
            return;
        }
        let mut q = P.add(16 + len);
        *q = tag;
        q = q.add(1);
        (q as *mut u32).write_unaligned(n as u32);
        q = q.add(4);
        for p in parts {
            std::ptr::copy_nonoverlapping(p.as_ptr(), q, p.len());
            q = q.add(p.len());
        }
        (P as *mut u64).write((len + n + 5) as u64);
    }
}

pub fn rec_start(t: u8, op: u32) {
    put(1, &[&[t], &op.to_le_bytes()]);
}
/// phase: 0 plain, 1 under fault, 2 retry after a fault
pub fn rec_res(t: u8, op: u32, phase: u8, bytes: &[u8], steps: u64, stack: u64, fired: u32) {
    put(2, &[&[t], &op.to_le_bytes(), &[phase], &steps.to_le_bytes(), &stack.to_le_bytes(), &fired.to_le_bytes(), bytes]);
}
pub fn rec_fault(t: u8, op: u32, idx: u32, size: u64, kind: u8, site: u64) {
    let mut f = [0usize; 20];
    let n = rt::frames(&mut f);
    let mut b = [0u8; 20 * 4];
    for i in 0..n {
        b[i * 4..i * 4 + 4].copy_from_slice(&(f[i] as u32).to_le_bytes());
    }
    put(3, &[&[t], &op.to_le_bytes(), &idx.to_le_bytes(), &size.to_le_bytes(), &[kind], &site.to_le_bytes(), &b[..n * 4]]);
}
static mut SITES: [u64; 1 << 14] = [0; 1 << 14];
pub fn rec_alloc(t: u8, op: u32, idx: u32, size: u64, site: u64) {
    put(4, &[&[t], &op.to_le_bytes(), &idx.to_le_bytes(), &size.to_le_bytes(), &site.to_le_bytes()]);
    unsafe {
        let mut k = site as usize % SITES.len();
        for _ in 0..64 {
            if SITES[k] == site {
                return;
            }
            if SITES[k] == 0 {
                SITES[k] = site;
                break;
            }
            k = (k + 1) % SITES.len();
        }
    }
    let mut f = [0usize; 24];
    let n = rt::frames(&mut f);
    let mut b = [0u8; 24 * 4];
    for i in 0..n {
        b[i * 4..i * 4 + 4].copy_from_slice(&(f[i] as u32).to_le_bytes());
    }
    put(11, &[&site.to_le_bytes(), &b[..n * 4]]);
}
pub fn rec_viol(code: &str, text: &str, a: u64, b: u64, op: u64) {
    let mut f = [0usize; 20];
    let n = rt::frames(&mut f);
    let mut fb = [0u8; 20 * 4];
    for i in 0..n {
        fb[i * 4..i * 4 + 4].copy_from_slice(&(f[i] as u32).to_le_bytes());
    }
    let cl = code.len() as u8;
    let tl = text.len() as u16;
    put(5, &[&[rt::cur_thread()], &op.to_le_bytes(), &a.to_le_bytes(), &b.to_le_bytes(), &[cl], code.as_bytes(), &tl.to_le_bytes(), text.as_bytes(), &fb[..n * 4]]);
}
pub fn rec_panic(text: &str) {
    put(7, &[&[rt::cur_thread()], &rt::cur_op().to_le_bytes(), text.as_bytes()]);
}
pub fn rec_stat(key: &str, v: u64) {
    put(6, &[&v.to_le_bytes(), key.as_bytes()]);
}
pub fn rec_event(text: &str) {
    put(8, &[text.as_bytes()]);
}
pub fn rec_cov() {
    unsafe {
        let c = &*std::ptr::addr_of!(rt::COV);
        let n = rt::NGUARDS.min(rt::COVN - 1) + 1;
        let mut bits = vec![0u8; (n + 7) / 8];
        for i in 0..n {
            if c[i] != 0 {
                bits[i / 8] |= 1 << (i % 8);
            }
        }
        put(9, &[&bits]);
    }
}
pub fn rec_rare(v: &[u64]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    put(10, &[&b]);
}

/// A writable static: address, number of stores to it, steps of some accesses.
pub type Static = (u32, u32, Vec<u64>);
pub fn rec_statics(v: &[Static]) {
    for (a, n, at) in v {
        let b: Vec<u8> = at.iter().flat_map(|x| x.to_le_bytes()).collect();
        put(12, &[&a.to_le_bytes(), &n.to_le_bytes(), &b]);
    }
}

#[derive(Clone, Debug)]
pub struct Res {
    pub t: u8,
    pub op: u32,
    pub phase: u8,
    pub bytes: Vec<u8>,
    pub steps: u64,
    pub stack: u64,
    pub fired: u32,
}
#[derive(Clone, Debug)]
pub struct FaultRec {
    pub t: u8,
    pub op: u32,
    pub idx: u32,
    pub size: u64,
    pub kind: u8,
    pub site: u64,
    pub frames: Vec<u32>,
}
#[derive(Clone, Debug)]
pub struct AllocRec {
    pub t: u8,
    pub op: u32,
    pub idx: u32,
    pub size: u64,
    pub site: u64,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub t: u8,
    pub op: u64,
    pub a: u64,
    pub b: u64,
    pub code: String,
    pub text: String,
    pub frames: Vec<u32>,
}

#[derive(Default, Clone, Debug)]
pub struct Recs {
    pub started: Vec<(u8, u32)>,
    pub res: Vec<Res>,
    pub faults: Vec<FaultRec>,
    pub allocs: Vec<AllocRec>,
    pub viols: Vec<Viol>,
    pub panics: Vec<(u8, u32, String)>,
    pub stats: Vec<(String, u64)>,
    pub events: Vec<String>,
    pub cov: Vec<u8>,
    pub rare: Vec<u64>,
    pub statics: Vec<Static>,
    /// Stacks of the allocation sites met (traced runs).
    pub stacks: std::collections::HashMap<u64, Vec<u32>>,
}

fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

pub fn read() -> Recs {
    let mut r = Recs::default();
    let (p, len) = unsafe { (P.add(16), (P as *mut u64).read() as usize) };
    let d = unsafe { std::slice::from_raw_parts(p, len) };
    let mut o = 0;
    while o + 5 <= len {
        let tag = d[o];
        let n = u32a(d, o + 1) as usize;
        let b = &d[o + 5..o + 5 + n];
        o += 5 + n;
        match tag {
            1 => r.started.push((b[0], u32a(b, 1))),
            2 => r.res.push(Res {
                t: b[0],
                op: u32a(b, 1),
                phase: b[5],
                steps: u64a(b, 6),
                stack: u64a(b, 14),
                fired: u32a(b, 22),
                bytes: b[26..].to_vec(),
            }),
            3 => r.faults.push(FaultRec {
                t: b[0],
                op: u32a(b, 1),
                idx: u32a(b, 5),
                size: u64a(b, 9),
                kind: b[17],
                site: u64a(b, 18),
                frames: b[26..].chunks(4).map(|c| u32a(c, 0)).collect(),
            }),
            4 => r.allocs.push(AllocRec { t: b[0], op: u32a(b, 1), idx: u32a(b, 5), size: u64a(b, 9), site: u64a(b, 17) }),
            5 => {
                let cl = b[25] as usize;
                let tl = u16::from_le_bytes([b[26 + cl], b[27 + cl]]) as usize;
                r.viols.push(Viol {
                    t: b[0],
                    op: u64a(b, 1),
                    a: u64a(b, 9),
                    b: u64a(b, 17),
                    code: String::from_utf8_lossy(&b[26..26 + cl]).into(),
                    text: String::from_utf8_lossy(&b[28 + cl..28 + cl + tl]).into(),
                    frames: b[28 + cl + tl..].chunks(4).map(|c| u32a(c, 0)).collect(),
                });
            }
            6 => r.stats.push((String::from_utf8_lossy(&b[8..]).into(), u64a(b, 0))),
            7 => r.panics.push((b[0], u32a(b, 1), String::from_utf8_lossy(&b[5..]).into())),
            8 => r.events.push(String::from_utf8_lossy(b).into()),
            10 => r.rare = b.chunks(8).map(|c| u64a(c, 0)).collect(),
            12 => r.statics.push((u32a(b, 0), u32a(b, 4), b[8..].chunks(8).map(|c| u64a(c, 0)).collect())),
            11 => {
                r.stacks.insert(u64a(b, 0), b[8..].chunks(4).map(|c| u32a(c, 0)).collect());
            }
            9 => r.cov = b.to_vec(),
            _ => {}
        }
    }
    r
}
