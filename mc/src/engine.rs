//! The explorer.  A check is a list of *suites*; a suite is a finite space of cases
//! `0..n`, each of which drives the real code of /repo through one history or input
//! configuration and compares every step with a reference model.  The explorer visits
//! every case (no sampling), in parallel, and reports the smallest failing index, which
//! alone is enough to replay it (`--replay suite:index`).
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;

/// log2 of the number of bits of the fingerprint table (Spin-style bitstate hashing):
/// `states` is the number of distinct fingerprints, hence a lower bound.
const BITSTATE_LOG2: u32 = 29;

pub struct Shared {
    bits: Vec<AtomicU64>,
}
impl Shared {
    fn new() -> Self {
        let n = 1usize << (BITSTATE_LOG2 - 6);
        let mut bits = Vec::with_capacity(n);
        bits.resize_with(n, || AtomicU64::new(0));
        Shared { bits }
    }
    #[inline]
    fn insert(&self, h: u64) -> bool {
        let b = h >> (64 - BITSTATE_LOG2);
        let w = &self.bits[(b >> 6) as usize];
        let m = 1u64 << (b & 63);
        if w.load(Relaxed) & m != 0 {
            return false;
        }
        w.fetch_or(m, Relaxed) & m == 0
    }
}

#[derive(Clone, Copy)]
pub struct Fp(pub u64);
impl Fp {
    #[inline]
    pub fn new(seed: u64) -> Fp {
        Fp(0x9E37_79B9_7F4A_7C15).u(seed)
    }
    #[inline]
    pub fn u(mut self, v: u64) -> Fp {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.0 ^= self.0 >> 32;
        self
    }
    #[inline]
    pub fn f(self, v: f64) -> Fp {
        self.u(v.to_bits())
    }
}

pub struct Ctx<'a> {
    shared: &'a Shared,
    seed: u64,
    pub tracing: bool,
    trace: Vec<String>,
    states: u64,
    transitions: u64,
    skipped: u64,
    tally: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, (u64, String)>,
}
impl<'a> Ctx<'a> {
    fn new(shared: &'a Shared, seed: u64) -> Self {
        Ctx { shared, seed, tracing: false, trace: vec![], states: 0, transitions: 0, skipped: 0,
              tally: BTreeMap::new(), known: BTreeMap::new() }
    }
    /// one call of the real code whose result is compared with the reference
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// records the fingerprint of a reached (input, result) state
    #[inline]
    pub fn state(&mut self, f: Fp) {
        let h = (f.0 ^ self.seed).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        let h = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        if self.shared.insert(h ^ (h >> 31)) {
            self.states += 1;
        }
    }
    /// `n` states that are distinct by construction (e.g. distinct bit patterns)
    #[inline]
    pub fn distinct(&mut self, n: u64) {
        self.states += n;
    }
    /// a comparison that is undecidable at working precision (counted, reported)
    #[inline]
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    #[inline]
    pub fn tally(&mut self, name: &'static str) {
        *self.tally.entry(name).or_insert(0) += 1;
    }
    #[inline]
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// a violation of the class `key`, tolerated only if the known-findings file lists it
    pub fn known_finding<F: FnOnce() -> String>(&mut self, key: &'static str, f: F) {
        let e = self.known.entry(key).or_insert((0, String::new()));
        e.0 += 1;
        if e.1.is_empty() {
            e.1 = f();
        }
    }
}

#[derive(Clone)]
struct SuiteReport {
    name: String,
    rule: String,
    cases: u64,
    states: u64,
    transitions: u64,
    skipped: u64,
    wall: f64,
    sample: Vec<String>,
    tally: BTreeMap<&'static str, u64>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    id: &'static str,
    pub tier: Tier,
    seed: u64,
    start: Instant,
    replay: Option<(String, u64)>,
    replayed: bool,
    reports: Vec<SuiteReport>,
    known: BTreeMap<&'static str, (u64, String)>,
    assumptions: Vec<String>,
    nthreads: usize,
    shared: Shared,
}

pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Check {
    pub fn new(id: &'static str) -> Check {
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut replay = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--replay" => {
                    let a = &args[i + 1];
                    let k = a.rfind(':').expect("suite:index");
                    replay = Some((a[..k].to_string(), a[k + 1..].parse().unwrap()));
                    i += 1;
                }
                _ => {}
            }
            i += 1;
        }
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        // panics of the code under test are caught and judged; keep them quiet
        if std::env::var("MC_PANIC").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Check { id, tier, seed, start: Instant::now(), replay, replayed: false, reports: vec![],
                known: BTreeMap::new(), assumptions: vec![], nthreads, shared: Shared::new() }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// picks a bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    fn violation(&self, suite: &str, index: u64, msg: &str, trace: &[String]) -> ! {
        let dir = format!("{}/out/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.txt", dir, self.id, suite, index);
        let tier = if self.quick() { "quick" } else { "thorough" };
        let mut s = format!(
            "property: {}\nsuite: {}\ncase index: {}\nreplay: bash {}/check.sh {} {} --replay {}:{}\nwhat: {}\n",
            self.id, suite, index, root(), self.id, tier, suite, index, msg);
        for t in trace {
            s.push_str("  ");
            s.push_str(t);
            s.push('\n');
        }
        let _ = std::fs::write(&path, &s);
        println!("{}", s);
        println!("VIOLATION property={} replay={}", self.id, path);
        self.write_evidence(1);
        std::process::exit(1);
    }

    /// Runs code under test that prepares a suite; a panic there is a violation.
    pub fn prepare<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> T {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(e) => {
                let m = format!("the code under test panicked while preparing {}: {}", name, panic_text(e));
                self.violation(name, 0, &m, &[])
            }
        }
    }

    /// Explores all cases `0..n`.
    pub fn suite<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Ctx) -> Res + Sync,
    {
        let seed = name.bytes().fold(Fp::new(7), |h, b| h.u(b as u64)).0;
        let run_traced = |shared: &Shared, i: u64| -> (Res, Vec<String>) {
            let mut c = Ctx::new(shared, seed);
            c.tracing = true;
            let r = match catch_unwind(AssertUnwindSafe(|| f(i, &mut c))) {
                Ok(r) => r,
                Err(e) => Err(format!("the code under test panicked: {}", panic_text(e))),
            };
            (r, c.trace)
        };
        if let Some((sn, idx)) = self.replay.clone() {
            if sn == name {
                self.replayed = true;
                let (r, t) = run_traced(&self.shared, idx);
                let (r2, t2) = run_traced(&self.shared, idx);
                assert!(r == r2 && t == t2, "replay is not deterministic");
                match r {
                    Ok(()) => {
                        println!("replay {}:{}: property holds", sn, idx);
                        for l in t {
                            println!("  {}", l);
                        }
                        std::process::exit(0)
                    }
                    Err(m) => self.violation(name, idx, &m, &t),
                }
            }
            return;
        }
        let t0 = Instant::now();
        let best = AtomicU64::new(u64::MAX);
        let next = AtomicU64::new(0);
        let done = AtomicBool::new(false);
        let chunk = (n / (self.nthreads as u64 * 64)).clamp(1, 4096);
        let beats: Vec<AtomicU64> = (0..self.nthreads).map(|_| AtomicU64::new(0)).collect();
        let cur: Vec<AtomicU64> = (0..self.nthreads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let acc = Mutex::new((0u64, 0u64, 0u64, BTreeMap::<&'static str, u64>::new(),
                              BTreeMap::<&'static str, (u64, String)>::new()));
        let shared = &self.shared;
        let nt = self.nthreads;
        let mut hung: Option<u64> = None;
        std::thread::scope(|s| {
            let mut handles = vec![];
            for t in 0..nt {
                let (best, next, f, acc, beats, cur) = (&best, &next, &f, &acc, &beats, &cur);
                handles.push(s.spawn(move || {
                    let mut c = Ctx::new(shared, seed);
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || a > best.load(Relaxed) {
                            break;
                        }
                        beats[t].fetch_add(1, Relaxed);
                        cur[t].store(a, Relaxed);
                        let b = (a + chunk).min(n);
                        let fail = catch_unwind(AssertUnwindSafe(|| {
                            for i in a..b {
                                cur[t].store(i, Relaxed);
                                if f(i, &mut c).is_err() {
                                    return Some(i);
                                }
                            }
                            None
                        }))
                        .unwrap_or_else(|_| Some(cur[t].load(Relaxed)));
                        if let Some(i) = fail {
                            best.fetch_min(i, Relaxed);
                            break;
                        }
                    }
                    cur[t].store(u64::MAX, Relaxed);
                    let mut g = acc.lock().unwrap();
                    g.0 += c.states;
                    g.1 += c.transitions;
                    g.2 += c.skipped;
                    for (k, v) in c.tally {
                        *g.3.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in c.known {
                        let e = g.4.entry(k).or_insert((0, String::new()));
                        e.0 += v.0;
                        if e.1.is_empty() {
                            e.1 = v.1;
                        }
                    }
                }));
            }
            // watchdog: a single case of scarlet takes microseconds; one that does not
            // return for 150 s never will
            let (beats, cur, done, id) = (&beats, &cur, &done, self.id);
            let wd = s.spawn(move || {
                let mut last: Vec<(u64, u64, Instant)> =
                    (0..nt).map(|_| (0, 0, Instant::now())).collect();
                loop {
                    std::thread::park_timeout(std::time::Duration::from_millis(500));
                    if done.load(Relaxed) {
                        return None;
                    }
                    for t in 0..nt {
                        let (b, c) = (beats[t].load(Relaxed), cur[t].load(Relaxed));
                        if c == u64::MAX || (b, c) != (last[t].0, last[t].1) {
                            last[t] = (b, c, Instant::now());
                        } else if last[t].2.elapsed().as_secs() > 150 {
                            let dir = format!("{}/out/replays", root());
                            let _ = std::fs::create_dir_all(&dir);
                            let path = format!("{}/{}-hang-{}.txt", dir, id, c);
                            let _ = std::fs::write(&path, format!("case {} does not terminate\n", c));
                            println!("case {} does not terminate", c);
                            println!("VIOLATION property={} replay={}", id, path);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in handles {
                h.join().expect("worker");
            }
            done.store(true, Relaxed);
            wd.thread().unpark();
            hung = wd.join().unwrap();
        });
        let _ = hung;
        let b = best.load(Relaxed);
        if b != u64::MAX {
            let (r, t) = run_traced(&self.shared, b);
            let (r2, _) = run_traced(&self.shared, b);
            match (r, r2) {
                (Err(m), Err(m2)) if m == m2 => self.violation(name, b, &m, &t),
                _ => {
                    eprintln!("case {}:{} failed once but not when replayed", name, b);
                    std::process::exit(3);
                }
            }
        }
        let (states, transitions, skipped, tally, known) = acc.into_inner().unwrap();
        for (k, v) in known {
            let e = self.known.entry(k).or_insert((0, String::new()));
            e.0 += v.0;
            if e.1.is_empty() {
                e.1 = v.1;
            }
        }
        let mut sample = vec![];
        if n > 0 {
            for i in [n / 3, n - 1] {
                let (_, t) = run_traced(&self.shared, i);
                sample.push(format!("{}:{} {}", name, i, t.into_iter().take(6).collect::<Vec<_>>().join(" | ")));
            }
        }
        let r = SuiteReport { name: name.into(), rule: rule.into(), cases: n, states, transitions,
                              skipped, wall: t0.elapsed().as_secs_f64(), sample, tally };
        println!("{} {:<28} cases={} states={} transitions={} undecided={} {:.2}s {:?}",
                 self.id, r.name, r.cases, r.states, r.transitions, r.skipped, r.wall, r.tally);
        self.reports.push(r);
    }

    fn write_evidence(&self, violations: u64) {
        let sum = |g: &dyn Fn(&SuiteReport) -> u64| self.reports.iter().map(g).sum::<u64>();
        let mut suites = vec![];
        for r in &self.reports {
            let tally: Vec<String> = r.tally.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            suites.push(format!(
                "{{\"suite\":{},\"rule\":{},\"cases\":{},\"distinct_states\":{},\"transitions\":{},\"undecided_at_working_precision\":{},\"outcomes\":{{{}}},\"wall_s\":{:.3}}}",
                jstr(&r.name), jstr(&r.rule), r.cases, r.states, r.transitions, r.skipped, tally.join(","), r.wall));
        }
        let samples: Vec<String> = self.reports.iter().flat_map(|r| r.sample.iter().map(|s| jstr(s))).collect();
        let known: Vec<String> = self.known.iter()
            .map(|(k, v)| format!("{{\"finding\":{},\"cases\":{},\"example\":{}}}", jstr(k), v.0, jstr(&v.1))).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|a| jstr(a)).collect();
        let s = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"undecided_at_working_precision\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"suites\": [\n   {}\n  ],\n  \"known_findings\": [{}],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(self.id), jstr(if self.quick() { "quick" } else { "thorough" }), self.seed,
            sum(&|r| r.states), sum(&|r| r.transitions), sum(&|r| r.cases), sum(&|r| r.skipped),
            violations == 0,
            jstr("states: distinct (input, observed result) fingerprints in a 2^29-bit bitstate table (a lower bound); transitions: calls of the real code compared with the reference model; traces: complete cases (inputs or operation histories), every one executed on the real code"),
            suites.join(",\n   "), known.join(","), samples.join(",\n   "),
            assumptions.join(","), self.start.elapsed().as_secs_f64(), violations);
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, self.id);
        if self.replay.is_none() {
            if let Err(e) = std::fs::write(&path, s) {
                eprintln!("cannot write {}: {}", path, e);
                std::process::exit(3);
            }
        }
    }

    pub fn finish(self) -> ! {
        if let Some((s, i)) = &self.replay {
            if !self.replayed {
                eprintln!("no suite {} ({})", s, i);
                std::process::exit(3);
            }
        }
        let file = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
        let listed: Vec<&str> = file.lines().filter(|l| l.starts_with("finding:")).collect();
        for (k, v) in &self.known {
            let tag = format!("property={} key={} ", self.id, k);
            if listed.iter().any(|l| l.contains(&tag)) {
                println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", self.id, k, v.0, v.1);
            } else {
                self.violation(k, 0, &format!("unlisted finding {}: {}", k, v.1), &[]);
            }
        }
        self.write_evidence(0);
        println!("{} ok: {} cases, {:.1}s", self.id, self.reports.iter().map(|r| r.cases).sum::<u64>(),
                 self.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}

/// mixed-radix decoder of a case index
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    #[inline]
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}
