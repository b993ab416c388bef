//! Framework: deterministic cases, parallel execution, panic attribution,
//! observation counters, known findings, evidence and replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        if lo == 0 && hi == u64::MAX {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.next() >> 56) as u8
    }
}

pub fn hash64(words: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for w in words {
        h ^= *w;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 32;
    }
    h
}

pub fn hash_events(ev: &[(u64, bool)]) -> u64 {
    let mut h = 0x1234_5678u64;
    for (d, e) in ev {
        h = hash64(&[h, d.wrapping_mul(2).wrapping_add(*e as u64)]);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

// ---------------------------------------------------------------- types

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub enumerated: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

const DISTINCT_CAP: usize = 1_500_000;

impl Obs {
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.enumerated += o.enumerated;
        for d in o.distinct {
            if self.distinct.len() < 4 * DISTINCT_CAP {
                self.distinct.insert(d);
            }
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub obs: &'a mut Obs,
    /// Case description, for witnesses
    pub note: String,
}

impl Case<'_> {
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.obs.counters.entry(name).or_default() += n;
    }
    /// A distinct, non-trivial case identified by its hash
    pub fn distinct(&mut self, h: u64) {
        if self.obs.distinct.len() < DISTINCT_CAP {
            self.obs.distinct.insert(h);
        }
    }
    /// Cases that are distinct by construction (enumeration)
    pub fn enumerated(&mut self, n: u64) {
        self.obs.enumerated += n;
    }
    pub fn evals(&mut self, n: u64) {
        self.obs.evals += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let s = f();
            self.obs.samples.push(s);
        }
    }
}

pub struct Fail {
    /// Exact signature, compared with known findings
    pub sig: Option<String>,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::fw::Fail { sig: None, msg: format!($($a)*) }) };
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Res,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero, or the run is inconclusive
    pub required: &'static [&'static str],
    pub workloads: Vec<Workload>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Is the panic the harness' own fault?
fn is_harness_panic(loc: &str) -> bool {
    // Files of this crate are compiled with relative paths; the library under
    // test and its dependencies have absolute ones, as has the std library.
    loc.starts_with("src/") || loc.is_empty()
}

pub enum RunErr {
    Violation(Fail),
    Harness(String),
}

/// Run one case, attributing panics.
pub fn run_case(w: &Workload, c: &mut Case) -> Result<(), RunErr> {
    crate::spec::new_case();
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(c)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(mut f)) => {
            if !c.note.is_empty() {
                f.msg = format!("{} {}", f.msg, c.note);
            }
            Err(RunErr::Violation(f))
        }
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness_panic(&loc) {
                Err(RunErr::Harness(format!("harness panic: {msg} at {loc}")))
            } else {
                Err(RunErr::Violation(Fail {
                    sig: None,
                    msg: format!("the library panicked: {msg} at {loc} {}", c.note),
                }))
            }
        }
    }
}

// ---------------------------------------------------------------- hang watchdog

/// What a worker is doing: thread id, case number (+1), sequence number
struct Slot {
    tid: AtomicU64,
    case: AtomicU64,
    seq: AtomicU64,
}

extern "C" {
    fn gettid() -> i32;
}

/// CPU seconds used by a thread of this process
fn cpu_s(tid: u64) -> Option<f64> {
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &st[st.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

/// Ends the process with a violation if one case burns CPU for longer than any case does.
/// CPU time of the thread is measured, so a loaded machine does not matter.
fn watchdog(slots: &[Slot], done: &AtomicBool, limit: f64, p: &Property, w: &Workload, o: &Opts) {
    let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
    let mut n = 0u64;
    while !done.load(Ordering::Relaxed) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        n += 1;
        if n % 50 != 0 {
            continue;
        }
        for (i, s) in slots.iter().enumerate() {
            let (tid, seq) = (s.tid.load(Ordering::Relaxed), s.seq.load(Ordering::Relaxed));
            if tid == 0 {
                continue;
            }
            let Some(cpu) = cpu_s(tid) else { continue };
            if seen[i].0 != seq {
                seen[i] = (seq, cpu);
            } else if cpu - seen[i].1 > limit && !done.load(Ordering::Relaxed) {
                let idx = s.case.load(Ordering::Relaxed);
                let msg = format!("case {idx} of {} has not returned after {:.0} s of CPU time: endless loop", w.name, cpu - seen[i].1);
                let path = write_replay(p.id, w.name, idx, o, &msg);
                let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
                let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
                let _ = std::fs::write(
                    format!("{}/evidence/{}.json", o.verif, p.id),
                    format!(
                        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": 0, \"violations\": 1}}\n",
                        json_str(p.id), json_str(tier), o.seed, idx + 1, idx + 1, json_str(p.rule), json_str(&msg)
                    ),
                );
                println!("{msg}");
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1);
            }
        }
    }
}

fn write_replay(id: &str, wl: &str, idx: u64, o: &Opts, msg: &str) -> String {
    let dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.replay");
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let body = format!(
        "property={id}\nworkload={wl}\ncase={idx}\nseed={}\ntier={tier}\nrerun: VERIF_SEED={} VERIF_TIER={tier} bash /verif/bin/check.sh {id} --workload {wl} --case {idx}\n\n{msg}\n",
        o.seed, o.seed
    );
    let _ = std::fs::write(&path, body);
    path
}

// ---------------------------------------------------------------- runner

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub threads: usize,
    pub only_workload: Option<String>,
    pub only_case: Option<u64>,
    pub scale_pct: u64,
    /// upper bound of cases per workload
    pub max_cases: u64,
}

pub fn case_rng(seed: u64, prop: &str, wl: &str, idx: u64) -> Rng {
    Rng::new(hash64(&[seed, hash_str(prop), hash_str(wl), idx]))
}

fn known_findings(verif: &str, id: &str) -> Vec<String> {
    let p = format!("{verif}/known-findings.txt");
    let txt = std::fs::read_to_string(p).unwrap_or_default();
    let key = format!("known: property={id} sig=");
    txt.lines()
        .filter_map(|l| l.strip_prefix(&key).map(|s| s.split(" -- ").next().unwrap().trim().to_string()))
        .collect()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Extra evidence that a wrapper (e.g. sanitizer run) wants merged
pub fn run_property(p: &Property, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(&o.verif, p.id);
    let total = Mutex::new(Obs::default());
    let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let viol: Mutex<Option<(String, u64, Fail)>> = Mutex::new(None);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let mut per_workload: Vec<(String, u64, f64)> = vec![];

    for w in &p.workloads {
        if let Some(n) = &o.only_workload {
            if n != w.name {
                continue;
            }
        }
        let n = match o.tier {
            Tier::Quick => w.quick,
            Tier::Thorough => w.thorough,
        };
        let n = if n > 64 { (n * o.scale_pct / 100).max(64) } else { n }.min(o.max_cases);
        let (first, last) = match o.only_case {
            Some(i) => (i, i + 1),
            None => (0, n),
        };
        let tw = Instant::now();
        let next = AtomicU64::new(first);
        let chunk = ((last - first) / (o.threads as u64 * 16)).clamp(1, 4096);
        let nthreads = o.threads.min((last - first) as usize).max(1);
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot { tid: AtomicU64::new(0), case: AtomicU64::new(0), seq: AtomicU64::new(0) })
            .collect();
        let left = AtomicU64::new(nthreads as u64);
        let done = AtomicBool::new(false);
        let limit = if o.tier == Tier::Quick { 150.0 } else { 400.0 };
        std::thread::scope(|s| {
            if !cfg!(miri) {
                s.spawn(|| watchdog(&slots, &done, limit, p, w, o));
            }
            for slot in &slots {
                let (left, done, next, stop, viol, herr, hits, known, total) =
                    (&left, &done, &next, &stop, &viol, &herr, &hits, &known, &total);
                s.spawn(move || {
                    let mut obs = Obs::default();
                    #[cfg(not(miri))]
                    slot.tid.store(unsafe { gettid() } as u64, Ordering::Relaxed);
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= last || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for idx in a..(a + chunk).min(last) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let mut c = Case {
                                idx,
                                rng: case_rng(o.seed, p.id, w.name, idx),
                                tier: o.tier,
                                obs: &mut obs,
                                note: String::new(),
                            };
                            c.evals(1);
                            slot.case.store(idx, Ordering::Relaxed);
                            slot.seq.fetch_add(1, Ordering::Relaxed);
                            match run_case(w, &mut c) {
                                Ok(()) => {}
                                Err(RunErr::Violation(f)) => {
                                    if let Some(sig) = &f.sig {
                                        if known.iter().any(|k| k == sig) {
                                            *hits.lock().unwrap().entry(sig.clone()).or_default() += 1;
                                            continue;
                                        }
                                    }
                                    let mut v = viol.lock().unwrap();
                                    if v.is_none() {
                                        *v = Some((w.name.to_string(), idx, f));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                                Err(RunErr::Harness(m)) => {
                                    *herr.lock().unwrap() =
                                        Some(format!("{m} (workload {} case {idx})", w.name));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    slot.tid.store(0, Ordering::Relaxed);
                    if left.fetch_sub(1, Ordering::Relaxed) == 1 {
                        done.store(true, Ordering::Relaxed);
                    }
                    total.lock().unwrap().merge(obs);
                });
            }
        });
        per_workload.push((w.name.to_string(), last - first, tw.elapsed().as_secs_f64()));
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }

    let obs = total.into_inner().unwrap();
    let hits = hits.into_inner().unwrap();
    let viol = viol.into_inner().unwrap();
    let herr = herr.into_inner().unwrap();

    for sig in hits.keys() {
        println!("KNOWN-FINDING: property={} {}", p.id, sig);
    }

    let mut code = 0;
    if let Some((wl, idx, f)) = &viol {
        let path = write_replay(p.id, wl, *idx, o, &f.msg);
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    if code == 0 {
        if let Some(m) = &herr {
            println!("INCONCLUSIVE property={} {}", p.id, m);
            code = 2;
        }
    }
    if code == 0 && o.only_case.is_none() && o.only_workload.is_none() {
        for r in p.required {
            if obs.counters.get(r).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE property={} observed no '{}'", p.id, r);
                code = 2;
            }
        }
    }

    // evidence
    let mut e = String::new();
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = write!(
        e,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(p.id), json_str(tier), o.seed
    );
    let _ = write!(
        e,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        obs.evals,
        obs.enumerated + obs.distinct.len() as u64,
        json_str(p.rule)
    );
    let samples: Vec<String> = obs.samples.iter().map(|s| json_str(s)).collect();
    let _ = write!(e, "  \"samples\": [{}],\n", samples.join(",\n   "));
    let cs: Vec<String> = obs.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = write!(e, "  \"observed\": {{{}}},\n", cs.join(", "));
    let ws: Vec<String> = per_workload
        .iter()
        .map(|(n, c, t)| format!("{{\"name\": {}, \"cases\": {}, \"wall_s\": {:.2}}}", json_str(n), c, t))
        .collect();
    let _ = write!(e, "  \"workloads\": [{}],\n", ws.join(", "));
    let ks: Vec<String> = hits.iter().map(|(k, v)| format!("{{\"finding\": {}, \"hits\": {}}}", json_str(k), v)).collect();
    let _ = write!(e, "  \"known_findings_hit\": [{}]\n }},\n", ks.join(", "));
    let asm: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let _ = write!(
        e,
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        asm.join(", "),
        t0.elapsed().as_secs_f64(),
        if viol.is_some() { 1 } else { 0 }
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    if let Err(er) = std::fs::write(format!("{}/evidence/{}.json", o.verif, p.id), e) {
        println!("INCONCLUSIVE property={} cannot write evidence: {er}", p.id);
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{} tier={} seed={} cases={} distinct={} violations={} wall={:.1}s",
        p.id, tier, o.seed, obs.evals, obs.enumerated + obs.distinct.len() as u64,
        if viol.is_some() { 1 } else { 0 }, t0.elapsed().as_secs_f64()
    );
    for (k, v) in &obs.counters {
        println!("  observed {k}: {v}");
    }
    code
}
