//! The search: worker processes walk seeded scenarios, the coordinator merges what they covered,
//! minimises violations, writes replay files and the evidence.

use crate::explore::{scenario, Ex};
use crate::judge::{hash, Judge, Stats, V};
use crate::plan::*;
use crate::run::Mode;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Scenario seed `k` of a run.
pub fn seed_of(base: u64, prop: &str, k: u64) -> u64 {
    let mut r = Rng::new(base ^ hash(prop.as_bytes()));
    r.0 ^= k.wrapping_mul(0xd6e8feb86659fd93);
    r.next();
    r.next() >> 12
}

/// Scenarios per tier (fixed, so that a run is the same run everywhere).
pub fn count(prop: &str, tier: &str) -> u64 {
    let (q, t) = match prop {
        "A01" => (4000, 36000),
        "A02" => (2800, 25200),
        "A03" => (2400, 21600),
        "A04" => (1300, 11700),
        "A05" => (3000, 27000),
        "A06" => (9000, 60000),
        "A07" => (1500, 13500),
        "A08" => (12000, 80000),
        "A09" => (5500, 49500),
        "A10" => (9000, 81000),
        "A11" => (3600, 32000),
        "A12" => (12000, 108000),
        "A13" => (2800, 25200),
        _ => (0, 0),
    };
    if tier == "thorough" {
        t
    } else {
        q
    }
}

// ---- symbols ----
static SYMS: Mutex<Option<HashMap<u32, String>>> = Mutex::new(None);

pub fn symbols(frames: &[u32]) -> Vec<String> {
    let mut g = SYMS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let todo: Vec<u32> = frames.iter().copied().filter(|f| !m.contains_key(f)).collect();
    if !todo.is_empty() {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new("addr2line");
        c.args(["-f", "-C", "-i", "-a", "-e"]).arg(exe);
        for f in &todo {
            c.arg(format!("0x{:x}", f.saturating_sub(1)));
        }
        if let Ok(o) = c.output() {
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            let mut cur: Option<u32> = None;
            let mut acc: Vec<String> = vec![];
            let mut lines = text.lines();
            let flush = |m: &mut HashMap<u32, String>, c: Option<u32>, a: &mut Vec<String>| {
                if let Some(c) = c {
                    m.insert(c, a.join(" < "));
                }
                a.clear();
            };
            while let Some(l) = lines.next() {
                if let Some(h) = l.strip_prefix("0x") {
                    flush(m, cur, &mut acc);
                    cur = u32::from_str_radix(h.trim_start_matches('0'), 16).ok().map(|x| x + 1);
                } else {
                    let file = lines.next().unwrap_or("");
                    let short = file.rsplit_once("astro-float").map_or(file, |x| x.1);
                    acc.push(format!("{} ({})", l, short.split(" (disc").next().unwrap_or(short)));
                }
            }
            flush(m, cur, &mut acc);
        }
    }
    frames.iter().map(|f| m.get(f).cloned().unwrap_or_else(|| format!("{f:#x}"))).collect()
}

/// Frames below the simulator's own, shortened.
pub fn lib_frames(frames: &[u32]) -> Vec<String> {
    let clip = |s: &str| if s.len() > 200 { s.chars().take(200).collect::<String>() + ".." } else { s.to_string() };
    symbols(frames).iter().filter(|s| !s.starts_with("afsim::") && !s.contains("GlobalAlloc>::")).map(|s| clip(s)).collect()
}
/// The function of the library nearest to the event.
pub fn lib_fn(frames: &[u32]) -> String {
    for s in symbols(frames) {
        for part in s.split(" < ") {
            if part.contains("(-num/src/") || part.contains("(-macro/src/") || part.contains("(/src/") {
                return part.to_string();
            }
        }
    }
    String::new()
}

/// Triage aid: all violations of many scenarios, grouped.
pub fn survey(prop: &str, tier: &str, total: u64) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    load_known();
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..WORKERS)
        .map(|i| {
            Command::new(&exe)
                .args(["worker", prop, tier, &base.to_string(), &i.to_string(), &WORKERS.to_string(), &total.to_string(), "800"])
                .env("AFSIM_ALL", "1")
                .stdout(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    let rd: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default())).collect();
    let mut groups: BTreeMap<String, (u64, String, String)> = BTreeMap::new();
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut done) = (0, 0);
    let mut slow: Vec<(u64, u64)> = vec![];
    for r in rd {
        for l in r.join().unwrap_or_default().lines() {
            if let Some(t) = l.strip_prefix("V ") {
                let v: Value = serde_json::from_str(t).unwrap();
                let fr: Vec<u32> = v["frames"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).map(|x| x as u32).collect();
                let key = format!("{} | {} | {}", v["class"].as_str().unwrap_or(""), v["loc"].as_str().unwrap_or(""), lib_fn(&fr));
                let e = groups.entry(key).or_insert((0, v["text"].as_str().unwrap_or("").into(), v["plan"].to_string()));
                e.0 += 1;
                let pl = v["plan"].to_string();
                if pl.len() < e.2.len() {
                    e.2 = pl;
                    e.1 = v["text"].as_str().unwrap_or("").into();
                }
            } else if let Some(t) = l.strip_prefix("S ") {
                let j: Value = serde_json::from_str(t).unwrap();
                runs += j["runs"].as_u64().unwrap_or(0);
                done += j["done"].as_u64().unwrap_or(0);
                for (k, v) in j["c"].as_object().into_iter().flatten() {
                    *c.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
                for x in j["slowest"].as_array().into_iter().flatten() {
                    slow.push((x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0)));
                }
            }
        }
    }
    slow.sort();
    slow.reverse();
    let d = format!("{}/out/survey-{prop}", verif());
    let _ = std::fs::create_dir_all(&d);
    if std::env::var_os("AFSIM_SLOW").is_some() {
        println!("all {slow:?}");
    }
    println!("{done} scenarios, {runs} executions, slowest {:?}", &slow[..slow.len().min(5)]);
    println!("{c:?}");
    for (i, (k, (n, t, p))) in groups.iter().enumerate() {
        let _ = std::fs::write(format!("{d}/{i}.json"), p);
        println!("#{i} x{n} {k}\n      {}", t.chars().take(420).collect::<String>());
    }
    0
}

// ---- known findings ----
static KNOWN: Mutex<Vec<Value>> = Mutex::new(vec![]);

pub fn load_known() {
    let p = format!("{}/known-findings.json", verif());
    if let Ok(t) = std::fs::read_to_string(&p) {
        match serde_json::from_str::<Value>(&t) {
            Ok(v) => *KNOWN.lock().unwrap() = v["findings"].as_array().cloned().unwrap_or_default(),
            Err(e) => {
                eprintln!("afsim: {p}: {e}");
                std::process::exit(9);
            }
        }
    }
}

/// Key of the listed finding this violation is an instance of.
pub fn known(prop: &str, plan: &Plan, v: &V) -> Option<String> {
    let k = KNOWN.lock().unwrap();
    for f in k.iter() {
        let has = |key: &str, x: &str| match &f["match"][key] {
            Value::Null => true,
            Value::String(s) => x.contains(s.as_str()),
            Value::Array(a) => a.iter().any(|s| s.as_str().map_or(false, |s| s == x)),
            _ => false,
        };
        if f["property"].as_str() != Some(prop) {
            continue;
        }
        if !has("class", &v.class) || !has("op", &v.op) || !has("loc", &v.loc) || !has("text", &v.text) {
            continue;
        }
        if let Some(w) = f["match"]["warm"].as_bool() {
            if w != plan.warm {
                continue;
            }
        }
        if let Some(a) = f["match"]["expr"].as_array() {
            // identifies the expression that was evaluated
            let hit = plan.threads.iter().flatten().any(|o| o.f == v.op && (o.f == "expr" || o.f == "ctx_expr") && a.iter().any(|x| x.as_u64() == Some((o.c % crate::exprs::N) as u64)));
            if !hit {
                continue;
            }
        }
        if let Some(s) = f["match"]["frame"].as_str() {
            if !symbols(&v.frames).iter().any(|x| x.contains(s)) {
                continue;
            }
        }
        return f["id"].as_str().map(|s| s.to_string());
    }
    None
}

// ---- replay files ----
pub fn violation_json(plan: &Plan, v: &V) -> Value {
    json!({
        "property": plan.prop, "class": v.class, "operation": v.op, "what": v.text, "panic_at": v.loc,
        "stack": symbols(&v.frames), "frames": v.frames,
        "plan": serde_json::to_value(plan).unwrap(),
    })
}

pub fn new_ex(thorough: bool) -> Ex {
    Ex { j: Judge::default(), last: None, seen: HashSet::new(), calls: HashSet::new(), found: vec![], thorough, known, known_hits: BTreeMap::new() }
}

// ---- worker ----
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn worker(prop: &str, tier: &str, base: u64, i: u64, n: u64, total: u64, cap: u64) {
    let t0 = Instant::now();
    let mut ex = new_ex(tier == "thorough");
    let mut done = 0;
    let mut times: Vec<(u64, u64)> = vec![];
    let (mut checked, mut differ) = (0u64, 0u64);
    let mut k = i;
    while k < total {
        if t0.elapsed() > Duration::from_secs(cap) {
            break;
        }
        let s0 = Instant::now();
        let seed = seed_of(base, prop, k);
        if std::env::var("AFSIM_LOG").is_ok() {
            eprintln!("[{i}] scenario {k} seed {seed}");
        }
        scenario(&mut ex, prop, seed);
        if std::env::var("AFSIM_LOG").is_ok() {
            eprintln!("[{i}] scenario {k} took {} ms; {:?} ops {}", s0.elapsed().as_millis(), ex.last.as_ref().map(|p| p.family.clone()), ex.last.as_ref().map_or(String::new(), |p| p.threads[0].iter().map(|o| format!("{}/{} ", o.f, o.p)).collect()));
        }
        done += 1;
        times.push((s0.elapsed().as_millis() as u64, k));
        // the same execution twice, now and then: the records must be identical
        if k % 97 == 5 {
            if let Some(s) = ex.last.clone() {
                let m = Mode { faults: true, limit: 25_000_000, ..Default::default() };
                let (a, b) = (crate::run::run(&s, m), crate::run::run(&s, m));
                checked += 1;
                if fingerprint(&a) != fingerprint(&b) {
                    differ += 1;
                }
            }
        }
        if !ex.found.is_empty() && std::env::var("AFSIM_ALL").is_err() {
            break;
        }
        k += n;
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    for (p, v) in &ex.found {
        let _ = writeln!(out, "V {}", json!({"k": k, "plan": serde_json::to_value(p).unwrap(), "class": v.class, "op": v.op, "text": v.text, "frames": v.frames, "loc": v.loc}));
    }
    times.sort();
    times.reverse();
    times.truncate(3);
    let s = &ex.j.st;
    let j = json!({
        "runs": s.runs, "steps": s.steps, "c": s.c, "distinct": s.distinct.iter().collect::<Vec<_>>(), "sites": s.sites.iter().collect::<Vec<_>>(),
        "scheds": s.scheds.iter().collect::<Vec<_>>(), "cov": hex(&s.cov), "samples": s.samples, "known": ex.known_hits,
        "done": done, "slowest": times, "det_checked": checked, "det_differ": differ, "wall": t0.elapsed().as_secs_f64(),
    });
    let _ = writeln!(out, "S {j}");
}

pub fn fingerprint(r: &crate::run::RunRes) -> u64 {
    let mut r = r.clone();
    r.recs.stats.retain(|s| s.0 != "clock_reads_real");
    r.recs.stacks.clear();
    hash(format!("{r:?}").as_bytes())
}

// ---- minimisation ----
pub fn minimise(ex: &mut Ex, plan: &Plan, v: &V, secs: u64) -> (Plan, V) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut bv = v.clone();
    let mut tries = 0;
    let mut attempt = |ex: &mut Ex, p: Plan, best: &mut Plan, bv: &mut V| -> bool {
        if t0.elapsed() > Duration::from_secs(secs) || p == *best {
            return false;
        }
        tries += 1;
        match ex.j.judge(&p) {
            Some(w) if w.class == bv.class && known(&p.prop, &p, &w).is_none() => {
                *best = p;
                *bv = w;
                true
            }
            _ => false,
        }
    };
    let rounds = best.family.starts_with("rounds:");
    for _pass in 0..3 {
        let start = best.clone();
        // faults
        let mut i = 0;
        while best.faults.len() > 1 && i < best.faults.len() {
            let mut p = best.clone();
            p.faults.remove(i);
            if !attempt(ex, p, &mut best, &mut bv) {
                i += 1;
            }
        }
        if !best.faults.is_empty() {
            let mut p = best.clone();
            p.faults.clear();
            attempt(ex, p, &mut best, &mut bv);
        }
        // scheduler
        for f in [0, 1, 2] {
            let mut p = best.clone();
            match f {
                0 => p.sched.stalls.clear(),
                1 => p.sched.points.clear(),
                _ => p.sched.quantum = 1 << 40,
            }
            attempt(ex, p, &mut best, &mut bv);
        }
        let mut step = (best.sched.points.len() / 2).max(1);
        while !best.sched.points.is_empty() {
            let mut i = 0;
            while i < best.sched.points.len() {
                let mut p = best.clone();
                let e = (i + step).min(p.sched.points.len());
                p.sched.points.drain(i..e);
                if !attempt(ex, p, &mut best, &mut bv) {
                    i += step;
                }
            }
            if step == 1 {
                break;
            }
            step /= 2;
        }
        // threads
        let mut t = 0;
        while best.threads.len() > 2 && t < best.threads.len() {
            let mut p = best.clone();
            p.threads.remove(t);
            p.faults.retain(|f| f.t != t);
            for f in p.faults.iter_mut() {
                if f.t > t {
                    f.t -= 1;
                }
            }
            if !attempt(ex, p, &mut best, &mut bv) {
                t += 1;
            }
        }
        // operations, from the end
        if !rounds {
            for t in 0..best.threads.len() {
                let mut i = best.threads[t].len();
                while i > 0 {
                    i -= 1;
                    if best.threads[t].len() <= 1 || i >= best.threads[t].len() {
                        continue;
                    }
                    let mut p = best.clone();
                    p.threads[t].remove(i);
                    p.faults.retain(|f| f.t != t || f.op != i);
                    for f in p.faults.iter_mut() {
                        if f.t == t && f.op > i {
                            f.op -= 1;
                        }
                    }
                    attempt(ex, p, &mut best, &mut bv);
                }
            }
        }
        // fault kinds: the single request that matters
        for i in 0..best.faults.len() {
            let simple = matches!(best.faults[i].kind, FK::At { n: 1, .. });
            if simple {
                continue;
            }
            let r = ex.j.run(&best, Mode { faults: true, limit: 100_000_000, ..Default::default() });
            let idx: Vec<u32> = r.recs.faults.iter().filter(|f| f.t as usize == best.faults[i].t && f.op as usize == best.faults[i].op).map(|f| f.idx).collect();
            let mut cand: Vec<u32> = idx.iter().rev().take(6).copied().collect();
            cand.extend(idx.iter().take(4));
            for c in cand {
                let mut p = best.clone();
                p.faults[i].kind = FK::At { idx: c, n: 1 };
                if attempt(ex, p, &mut best, &mut bv) {
                    break;
                }
            }
        }
        // environment
        let mut p = best.clone();
        p.heap = Heap { fill: best.heap.fill, seed: best.heap.seed, guard: best.heap.guard, ..Default::default() };
        attempt(ex, p, &mut best, &mut bv);
        let mut p = best.clone();
        p.heap = Heap::default();
        attempt(ex, p, &mut best, &mut bv);
        // operands
        for i in 0..best.nums.len() {
            for k in 0..5 {
                let mut p = best.clone();
                let n = &mut p.nums[i];
                match k {
                    0 => *n = Num { w: 1, pat: 1, ..Default::default() },
                    1 => n.w = (n.w / 2).max(1),
                    2 => n.e = 0,
                    3 => n.pat = 1,
                    _ => {
                        n.neg = false;
                        n.inexact = false;
                        n.seed = 0;
                    }
                }
                attempt(ex, p, &mut best, &mut bv);
            }
        }
        if !rounds {
            for t in 0..best.threads.len() {
                for i in 0..best.threads[t].len() {
                    for k in 0..4 {
                        let mut p = best.clone();
                        let o = &mut p.threads[t][i];
                        match k {
                            0 => o.p = 64.min(o.p),
                            1 => o.p = (o.p / 128).max(1) * 64,
                            2 => {
                                if o.s.len() > 4 && o.s.is_ascii() && o.s != "sh" {
                                    let n = o.s.len() / 2;
                                    o.s.truncate(n);
                                }
                            }
                            _ => o.rm = 0,
                        }
                        attempt(ex, p, &mut best, &mut bv);
                    }
                }
            }
        }
        if best == start || t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
    }
    let _ = tries;
    (best, bv)
}

fn plan_from(v: &Value) -> Option<Plan> {
    serde_json::from_value(v.clone()).ok()
}

// ---- coordinator ----
pub fn check(prop: &str, tier: &str, total: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let total = total.unwrap_or_else(|| count(prop, tier));
    if total == 0 {
        eprintln!("afsim: unknown property {prop}");
        return 2;
    }
    load_known();
    let exe = std::env::current_exe().unwrap();
    let cap: u64 = if tier == "thorough" { 780 } else { 300 };
    let mut kids = vec![];
    for i in 0..WORKERS {
        let mut c = Command::new(&exe);
        c.args(["worker", prop, tier, &base.to_string(), &i.to_string(), &WORKERS.to_string(), &total.to_string(), &cap.to_string()]);
        c.stdout(Stdio::piped()).stderr(Stdio::inherit());
        match c.spawn() {
            Ok(k) => kids.push(k),
            Err(e) => {
                eprintln!("afsim: cannot start a worker: {e}");
                return 9;
            }
        }
    }
    let mut st = Stats::default();
    let mut viols: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let (mut done, mut det, mut differ) = (0u64, 0u64, 0u64);
    let mut slow: Vec<(u64, u64)> = vec![];
    let mut broken = false;
    let readers: Vec<_> = kids
        .iter_mut()
        .map(|k| {
            let o = k.stdout.take().unwrap();
            std::thread::spawn(move || BufReader::new(o).lines().map_while(Result::ok).collect::<Vec<String>>())
        })
        .collect();
    for (mut k, rd) in kids.into_iter().zip(readers) {
        let lines = rd.join().unwrap_or_default();
        let code = k.wait().map(|s| s.success()).unwrap_or(false);
        let mut got = false;
        for l in &lines {
            if let Some(t) = l.strip_prefix("V ") {
                if let Ok(v) = serde_json::from_str::<Value>(t) {
                    viols.push(v);
                }
            } else if let Some(t) = l.strip_prefix("S ") {
                let j: Value = match serde_json::from_str(t) {
                    Ok(j) => j,
                    Err(_) => continue,
                };
                got = true;
                st.runs += j["runs"].as_u64().unwrap_or(0);
                st.steps += j["steps"].as_u64().unwrap_or(0);
                for (k, v) in j["c"].as_object().into_iter().flatten() {
                    let v = v.as_u64().unwrap_or(0);
                    let e = st.c.entry(k.clone()).or_insert(0);
                    *e = if k.starts_with("max_") { (*e).max(v) } else { *e + v };
                }
                let set = |k: &str| j[k].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect::<Vec<_>>();
                st.distinct.extend(set("distinct"));
                st.sites.extend(set("sites"));
                st.scheds.extend(set("scheds"));
                let cov = unhex(j["cov"].as_str().unwrap_or(""));
                if st.cov.len() < cov.len() {
                    st.cov.resize(cov.len(), 0);
                }
                for (a, b) in st.cov.iter_mut().zip(&cov) {
                    *a |= *b;
                }
                for s in j["samples"].as_array().into_iter().flatten() {
                    if st.samples.len() < 3 {
                        st.samples.push(s.as_str().unwrap_or("").to_string());
                    }
                }
                for (k, v) in j["known"].as_object().into_iter().flatten() {
                    known_hits.entry(k.clone()).or_insert_with(|| v.as_str().unwrap_or("").to_string());
                }
                done += j["done"].as_u64().unwrap_or(0);
                det += j["det_checked"].as_u64().unwrap_or(0);
                differ += j["det_differ"].as_u64().unwrap_or(0);
                for x in j["slowest"].as_array().into_iter().flatten() {
                    slow.push((x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0)));
                }
            }
        }
        if !code || !got {
            broken = true;
        }
    }
    let search = t0.elapsed().as_secs_f64();
    // confirm, minimise, report
    viols.sort_by_key(|v| v["k"].as_u64().unwrap_or(0));
    let mut ex = new_ex(false);
    let mut reported: Vec<(String, String)> = vec![];
    let mut lines = vec![];
    let mut unconfirmed = 0;
    let dir = format!("{}/out", verif());
    let _ = std::fs::create_dir_all(&dir);
    for w in &viols {
        let plan = match plan_from(&w["plan"]) {
            Some(p) => p,
            None => continue,
        };
        let key = (w["class"].as_str().unwrap_or("").to_string(), w["op"].as_str().unwrap_or("").to_string());
        if reported.contains(&key) || reported.len() >= 4 {
            continue;
        }
        let v = match ex.j.judge(&plan) {
            Some(v) => v,
            None => {
                unconfirmed += 1;
                eprintln!("afsim: an alarm did not repeat and is not reported: {}", w["text"]);
                continue;
            }
        };
        reported.push(key);
        let secs = if reported.len() == 1 { 60 } else { 20 };
        let (p, v) = minimise(&mut ex, &plan, &v, secs);
        let path = format!("{dir}/{prop}-{}-{:012x}.json", v.class, hash(serde_json::to_string(&p).unwrap().as_bytes()) & 0xffff_ffff_ffff);
        let mut j = violation_json(&p, &v);
        j["found_with"] = json!({"VERIF_SEED": base, "scenario": w["k"], "tier": tier});
        j["original_plan"] = w["plan"].clone();
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("{}", v.text);
        for s in lib_frames(&v.frames).iter().take(8) {
            println!("    {s}");
        }
        lines.push(format!("VIOLATION property={prop} replay={path}"));
    }
    let wall = t0.elapsed().as_secs_f64();
    {
        let k = KNOWN.lock().unwrap();
        for (id, _) in &known_hits {
            let what = k.iter().find(|f| f["id"].as_str() == Some(id) && f["property"].as_str() == Some(prop)).and_then(|f| f["what"].as_str()).unwrap_or("");
            println!("KNOWN-FINDING: property={prop} {id}: {what}");
        }
        // listed but not met in this run: still a finding of this property
        for f in k.iter().filter(|f| f["property"].as_str() == Some(prop)) {
            let id = f["id"].as_str().unwrap_or("");
            if !known_hits.contains_key(id) {
                println!("KNOWN-FINDING: property={prop} {id}: {} (not met in this run)", f["what"].as_str().unwrap_or(""));
            }
        }
    }
    slow.sort();
    slow.reverse();
    evidence(prop, tier, base, total, done, &st, search, wall, det, differ, lines.len(), unconfirmed, &known_hits);
    println!(
        "{prop} {tier}: {done}/{total} scenarios, {} executions, {} judged, {} rejected, {} distinct, {:.0} s; slowest scenarios (ms, k) {:?}",
        st.runs,
        st.c.get("judged").unwrap_or(&0),
        st.c.get("rejected").unwrap_or(&0),
        st.distinct.len(),
        wall,
        &slow[..slow.len().min(4)]
    );
    for l in &lines {
        println!("{l}");
    }
    if !lines.is_empty() {
        return 1;
    }
    if broken {
        eprintln!("afsim: a worker ended abnormally");
        return 3;
    }
    0
}

/// With AFSIM_COVER=FILE: lists the image offsets of the edges no execution reached.
fn cover(st: &Stats) {
    if let Ok(f) = std::env::var("AFSIM_COVER") {
        let n = unsafe { crate::rt::NGUARDS };
        let mut s = String::new();
        for i in 1..=n {
            let hit = st.cov.get(i / 8).map_or(false, |b| b >> (i % 8) & 1 == 1);
            s.push_str(&format!("{} {:#x}\n", hit as u8, crate::rt::edge_pc(i)));
        }
        let _ = std::fs::write(f, s);
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, base: u64, total: u64, done: u64, st: &Stats, search: f64, wall: f64, det: u64, differ: u64, viols: usize, unconfirmed: u64, known: &BTreeMap<String, String>) {
    let faults: BTreeMap<&String, &u64> = st.c.iter().filter(|x| x.0.starts_with("fault.") || x.0.starts_with("sink.") || x.0.starts_with("stream.") || x.0.starts_with("entropy_mode.") || x.0.starts_with("token.")).collect();
    let counts: BTreeMap<&String, &u64> = st.c.iter().filter(|x| !faults.contains_key(x.0)).collect();
    cover(st);
    let edges: u32 = st.cov.iter().map(|b| b.count_ones()).sum();
    let h = 3600.0 / search.max(0.001);
    let samples: Vec<Value> = st.samples.iter().filter_map(|s| serde_json::from_str(s).ok()).collect();
    let level = level(prop);
    let j = json!({
        "property": prop, "tier": tier, "seed": base, "level": level,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.distinct.len(),
            "rule": "A case is one simulated execution of a seeded plan (program, operands, heap behaviour, faults, schedule, entropy) in its own forked process. Distinct: the hash over the program, every operation's exact result and phase, the failing allocation sites, the thread schedule and the heap pattern differs. Non-trivial: at least one operation of the judged execution ran more than 20 control-flow edges of the library.",
            "samples": samples,
            "scenarios": done, "scenarios_planned": total,
            "executions_per_hour": (st.runs as f64 * h) as u64,
            "seeds_per_hour": (done as f64 * h) as u64,
            "simulated_time_steps": st.steps,
            "simulated_time_unit": "one step = one control-flow edge of the library executed (the simulator's clock)",
            "faults_injected": faults,
            "counts": counts,
            "distinct_failing_allocation_sites": st.sites.len(),
            "distinct_thread_schedules": st.scheds.len(),
            "library_edges_reached": edges,
            "library_edges_instrumented": unsafe { crate::rt::NGUARDS },
            "determinism_replays": det, "determinism_mismatches": differ,
            "alarms_not_repeatable": unconfirmed,
            "known_findings_met": known.keys().collect::<Vec<_>>(),
            "real_code": "astro-float, astro-float-num, astro-float-macro from /repo, their dependencies lazy_static, serde and itertools, Rust's std",
            "simulated": "heap (global allocator), thread scheduling and futex waiting, clock reads and sleeping, entropy (the rand crate's generator), formatting sinks, serde streams"
        },
        "assumptions": [
            "Threads are interleaved at control-flow edges of the library and at blocking calls; one thread runs at a time, so weak-memory effects are not explored.",
            "Operands stay within the sizes and exponents the generators use; a plan whose fault-free reference run panics or exceeds its step budget is not judged.",
            "64-bit x86 build with std, debug assertions and overflow checks enabled."
        ],
        "wall_s": wall, "violations": viols,
    });
    let d = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(format!("{d}/{prop}.json"), serde_json::to_string_pretty(&j).unwrap());
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        "A01" => "fault_enumeration",
        _ => "exploration",
    }
}

pub fn replay(path: &str) -> i32 {
    load_known();
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("afsim: {path}: {e}");
            return 2;
        }
    };
    let j: Value = match serde_json::from_str(&t) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("afsim: {path}: {e}");
            return 2;
        }
    };
    let plan = match plan_from(if j["plan"].is_object() { &j["plan"] } else { &j }) {
        Some(p) => p,
        None => {
            eprintln!("afsim: {path} holds no plan");
            return 2;
        }
    };
    let mut jd = Judge::default();
    jd.verbose = std::env::var("AFSIM_QUIET").is_err();
    let v = jd.judge(&plan);
    cover(&jd.st);
    match v {
        Some(v) => {
            println!("{}", v.text);
            for s in lib_frames(&v.frames) {
                println!("    {s}");
            }
            println!("class {} operation {} known {:?}", v.class, v.op, known(&plan.prop, &plan, &v));
            if j["class"].is_string() && j["class"].as_str() != Some(&v.class) {
                println!("differs from the recorded class {}", j["class"]);
            }
            println!("VIOLATION property={} replay={}", plan.prop, path);
            1
        }
        None => {
            println!("no violation{}", if jd.rejected { " (reference run does not qualify)" } else { "" });
            0
        }
    }
}

/// Same seeds twice, in different order: every execution must give the same records.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut all = 0;
    for prop in ["A01", "A02", "A05", "A06", "A09"] {
        let mut ex = new_ex(false);
        let mut plans = vec![];
        for k in 0..n {
            scenario(&mut ex, prop, seed_of(1, prop, k));
            if let Some(p) = ex.last.clone() {
                plans.push(p);
            }
        }
        let m = Mode { faults: true, limit: 25_000_000, ..Default::default() };
        let a: Vec<u64> = plans.iter().map(|p| fingerprint(&crate::run::run(p, m))).collect();
        let b: Vec<u64> = plans.iter().rev().map(|p| fingerprint(&crate::run::run(p, m))).collect();
        for (i, (x, y)) in a.iter().zip(b.iter().rev()).enumerate() {
            all += 1;
            if x != y {
                bad += 1;
                println!("{prop} plan {i} differs: {}", serde_json::to_string(&plans[i]).unwrap());
            }
        }
    }
    println!("{all} executions repeated, {bad} differ");
    (bad > 0) as i32
}
