//! Small runner around proptest: sharded fixed-work campaigns, shrinking to a
//! minimal replay file, classification counters, known findings, evidence.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use proptest;

/// What a property reports about one case that held.
#[derive(Default)]
pub struct Pass {
    /// Whether the case was non-trivial by the campaign's rule.
    pub nontrivial: bool,
    /// Classes this case belongs to (for the evidence file).
    pub labels: Vec<&'static str>,
}

impl Pass {
    pub fn new(nontrivial: bool) -> Self {
        Pass { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, cond: bool, l: &'static str) -> Self {
        if cond {
            self.labels.push(l);
        }
        self
    }
}

/// A violated property: `sig` is a stable key naming what failed.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::Fail { sig: $sig.to_string(), msg: format!($($arg)*) }); }
    };
}

pub type Verdict = Result<Pass, Fail>;

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    replay: Option<(String, Value)>,
    started: Instant,
    known: Vec<Known>,
    st: RefCell<State>,
}

#[derive(Clone, Debug)]
struct Known {
    sub: String,
    sig: String,
    what: String,
    case: Value,
}

#[derive(Default)]
struct State {
    evaluations: u64,
    nontrivial: u64,
    samples: Vec<String>,
    rules: Vec<String>,
    subs: Vec<Value>,
    violation: Option<String>,
    known_hits: BTreeMap<String, u64>,
    replayed: bool,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_CASE.with(|c| c.get()) == 0 {
            eprintln!("panic outside a case: {s} (at {loc})");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{s} (at {loc})")));
    }));
}

/// Marker a harness panics with when the harness itself is broken.
pub const HARNESS: &str = "HARNESS-ERROR";

#[macro_export]
macro_rules! harness_error {
    ($($arg:tt)*) => { panic!("{}: {}", $crate::HARNESS, format!($($arg)*)) };
}

/// Runs `f`, turning a panic into a failure. A panic raised by the harness
/// about itself ends the process with an error exit: it is not a verdict.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    IN_CASE.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(c.get() - 1));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains(HARNESS) {
                eprintln!("harness error: {m}");
                std::process::exit(2);
            }
            Err(Fail { sig: "panic".into(), msg: format!("panicked: {m}") })
        }
    }
}

fn seed32(parts: &[&str], n: &[u64]) -> [u8; 32] {
    // FNV-1a based expansion: stable across toolchains.
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for p in parts {
            p.bytes().for_each(&mut eat);
            eat(0xff);
        }
        for v in n {
            v.to_le_bytes().into_iter().for_each(&mut eat);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// Runs the check in a child process, so that a case that kills the process
/// (stack overflow, abort) still ends in a verdict: the child is run again with
/// every case noted before it runs, and the noted cases are tried one by one.
fn supervise(args: &[String]) -> ! {
    use std::process::{Command, exit};
    let exe = std::env::current_exe().expect("current_exe");
    let run = |a: &[String], trace: Option<&PathBuf>| {
        let mut c = Command::new(&exe);
        c.args(a).env("VERIF_WORKER", "1").env_remove("VERIF_TRACE");
        if let Some(t) = trace {
            c.env("VERIF_TRACE", t);
        }
        c.status().expect("start worker").code()
    };
    let t0 = Instant::now();
    if let Some(c) = run(&args[1..], None) {
        exit(c);
    }
    let id = &args[1];
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let replay_of = |body: &Value, sub: &str, path: &PathBuf| {
        let full = json!({"property": id, "sub": sub, "sig": "process-killed",
            "message": "the process is killed on this case (stack overflow or abort)",
            "case": body["case"], "rerun": format!("/verif/check.sh {id} --replay {}", path.display())});
        std::fs::write(path, serde_json::to_string_pretty(&full).unwrap()).expect("write replay");
    };
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        println!("VIOLATION property={id} replay={}", args[3]);
        exit(1);
    }
    let dir = root.join("replays").join(format!("trace-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace directory");
    println!("[{id}] the process was killed; looking for the case");
    let again = run(&args[1..], Some(&dir));
    let mut found = None;
    if again.is_none() {
        for e in std::fs::read_dir(&dir).expect("trace directory").flatten() {
            let Ok(txt) = std::fs::read_to_string(e.path()) else { continue };
            let Ok(body) = parse(&txt) else { continue };
            let sub = body["sub"].as_str().unwrap_or("?").to_string();
            let path = root.join("replays").join(format!("{id}-{}.json", sub.replace('/', "_")));
            replay_of(&body, &sub, &path);
            let a = [id.clone(), "--replay".into(), path.display().to_string()];
            if run(&a, None).is_none() {
                found = Some((path, txt, sub));
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let Some((path, txt, sub)) = found else {
        eprintln!("harness error: the worker was killed and no case reproduces it");
        exit(again.unwrap_or(2));
    };
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
            "rule": "the run was cut short by a case that kills the process; that case is the sample",
            "samples": [format!("{sub}: {}", clip(&txt, 1500))]},
        "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(
        root.join("evidence").join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    println!("VIOLATION property={id} replay={}", path.display());
    exit(1);
}

struct ShardOut<C> {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
    sample: Option<String>,
    fail: Option<(C, Fail)>,
    abort: Option<String>,
}

pub const SHARDS: u64 = 16;

/// A single case may run this long, and the process may grow this big, before
/// the case is reported as one on which the code under test does not come to
/// an end (ordinary cases take microseconds and kilobytes).
const CASE_SECS: u64 = 60;
const RSS_LIMIT: u64 = 12 << 30;

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

/// The case each worker is busy with.
struct Slots<C> {
    cur: Vec<Mutex<Option<(Instant, C)>>>,
    done: AtomicUsize,
    trace: Option<PathBuf>,
    sub: String,
}

impl<C: Clone + Serialize> Slots<C> {
    fn new(workers: usize, sub: &str) -> Self {
        Slots {
            cur: (0..workers).map(|_| Mutex::new(None)).collect(),
            done: AtomicUsize::new(0),
            trace: std::env::var_os("VERIF_TRACE").map(PathBuf::from),
            sub: sub.to_string(),
        }
    }
    fn run(&self, w: usize, c: &C, test: &(impl Fn(&C) -> Verdict + Sync)) -> Verdict {
        if let Some(d) = &self.trace {
            let body = json!({"sub": self.sub, "case": serde_json::to_value(c).unwrap()});
            let _ = std::fs::write(d.join(format!("w{w}.json")), body.to_string());
        }
        *self.cur[w].lock().unwrap() = Some((Instant::now(), c.clone()));
        let r = guarded(|| test(c));
        *self.cur[w].lock().unwrap() = None;
        r
    }
    /// Waits for all workers; returns the case that never ends, if there is one.
    fn wait(&self) -> Option<(C, String)> {
        let mut last = Instant::now();
        while self.done.load(Ordering::SeqCst) < self.cur.len() {
            std::thread::sleep(std::time::Duration::from_millis(5));
            if last.elapsed().as_millis() < 100 {
                continue;
            }
            last = Instant::now();
            let big = rss() > RSS_LIMIT;
            let oldest = self
                .cur
                .iter()
                .filter_map(|m| m.lock().unwrap().as_ref().map(|(t, c)| (*t, c.clone())))
                .min_by_key(|x| x.0);
            if let Some((t, c)) = oldest {
                let secs = t.elapsed().as_secs();
                if secs >= CASE_SECS {
                    return Some((c, format!("no result after {secs} s on this case")));
                }
                if big && secs >= 1 {
                    return Some((c, format!("memory grew past {} GiB on this case", RSS_LIMIT >> 30)));
                }
            }
        }
        None
    }
}

struct Done<'a>(&'a AtomicUsize);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

impl Ctx {
    /// Reads the command line: `<bin> <ID>` or `<bin> <ID> --replay FILE`.
    pub fn from_env() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        if args.len() < 2 {
            eprintln!("usage: {} <ID> [--replay FILE]", args[0]);
            std::process::exit(2);
        }
        if std::env::var_os("VERIF_WORKER").is_none() {
            supervise(&args);
        }
        install_hook();
        let id = args[1].clone();
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let replay = if args.get(2).map(|s| s.as_str()) == Some("--replay") {
            let p = args.get(3).expect("replay file");
            let txt = std::fs::read_to_string(p).expect("read replay file");
            let v = parse(&txt).expect("parse replay file");
            Some((v["sub"].as_str().unwrap().to_string(), v["case"].clone()))
        } else {
            None
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let mut known = vec![];
        if let Ok(txt) = std::fs::read_to_string(root.join("known-findings.jsonl")) {
            for l in txt.lines().filter(|l| !l.trim().is_empty()) {
                let v = parse(l).expect("known-findings.jsonl");
                if v["status"] == "known" && v["property"] == id.as_str() {
                    known.push(Known {
                        sub: v["sub"].as_str().unwrap().into(),
                        sig: v["sig"].as_str().unwrap().into(),
                        what: v["what"].as_str().unwrap().into(),
                        case: v["case"].clone(),
                    });
                }
            }
        }
        Ctx {
            id,
            seed,
            thorough,
            root,
            replay,
            started: Instant::now(),
            known,
            st: RefCell::new(State::default()),
        }
    }

    /// Work for this tier.
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        (((if self.thorough { thorough } else { quick }) as f64) * scale).max(16.0) as u64
    }

    fn stop(&self) -> bool {
        self.st.borrow().violation.is_some()
    }

    fn write_replay<C: Serialize>(&self, sub: &str, case: &C, f: &Fail, extra: &str) {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, sub.replace('/', "_")));
        let body = json!({"property": self.id, "sub": sub, "sig": f.sig, "message": f.msg,
            "explain": extra, "case": serde_json::to_value(case).unwrap(),
            "rerun": format!("/verif/check.sh {} --replay {}", self.id, path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
        println!("[{}] {}: {}", self.id, sub, clip(&f.msg, 4000));
        if !extra.is_empty() {
            println!("{}", clip(extra, 4000));
        }
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.st.borrow_mut().violation = Some(f.msg.clone());
    }

    /// A case that does not come to an end: report it and stop at once, since
    /// the thread running it cannot be ended.
    fn give_up<C: Serialize>(&self, sub: &str, rule: &str, c: &C, m: &str, t0: Instant) -> ! {
        self.record(sub, rule, 1, 1, &BTreeMap::new(), vec![], t0);
        let f = Fail { sig: "no-termination".into(), msg: m.to_string() };
        self.write_replay(sub, c, &f, "");
        let st = self.st.take();
        self.end(st)
    }

    fn known_for(&self, sub: &str) -> HashSet<String> {
        self.known.iter().filter(|k| k.sub == sub).map(|k| k.sig.clone()).collect()
    }

    fn handle_replay<C: DeserializeOwned + Serialize + Debug>(
        &self,
        sub: &str,
        test: &dyn Fn(&C) -> Verdict,
        explain: &dyn Fn(&C) -> String,
    ) -> bool {
        let Some((rsub, case)) = &self.replay else { return false };
        if rsub == sub {
            self.st.borrow_mut().replayed = true;
            let c: C = serde_json::from_value(case.clone()).expect("replay case decodes");
            match guarded(|| test(&c)) {
                Ok(_) => println!("replay of {}/{}: property held", self.id, sub),
                Err(f) => self.write_replay(sub, &c, &f, &explain(&c)),
            }
        }
        true
    }

    fn check_known<C: DeserializeOwned>(&self, sub: &str, test: &dyn Fn(&C) -> Verdict) {
        for k in self.known.iter().filter(|k| k.sub == sub) {
            let c: C = match serde_json::from_value(k.case.clone()) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("harness error: known finding case does not decode: {e}");
                    std::process::exit(2)
                }
            };
            match guarded(|| test(&c)) {
                Err(f) if f.sig == k.sig => {
                    println!("KNOWN-FINDING: property={} {}", self.id, k.what);
                }
                _ => println!("note: listed finding no longer fails: {}", k.what),
            }
        }
    }

    /// A proptest campaign: `cases` generated cases split over a fixed number
    /// of shards, each with its own RNG derived from the seed.
    pub fn campaign<C, S>(
        &self,
        sub: &str,
        rule: &str,
        cases: u64,
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&C) -> Verdict + Sync,
        explain: impl Fn(&C) -> String + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Send,
        S: Strategy<Value = C>,
    {
        if self.handle_replay(sub, &test, &explain) || self.stop() {
            return;
        }
        let t0 = Instant::now();
        self.check_known(sub, &test);
        let known = self.known_for(sub);
        let per = cases.div_ceil(SHARDS);
        let next = AtomicUsize::new(0);
        let lowest_fail = AtomicUsize::new(usize::MAX);
        let outs: Mutex<Vec<(u64, ShardOut<C>)>> = Mutex::new(vec![]);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let (id, seed) = (&self.id[..], self.seed);
        let (next, lowest_fail, outs_ref) = (&next, &lowest_fail, &outs);
        let slots = Slots::<C>::new(workers, sub);
        let (strategy, test, known, slots) = (&strategy, &test, &known, &slots);
        std::thread::scope(|s| {
            for w in 0..workers {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let _done = Done(&slots.done);
                        let test = &|c: &C| slots.run(w, c, test);
                        loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst);
                            if shard as u64 >= SHARDS {
                                break;
                            }
                            let out = run_shard(id, seed, sub, shard, per, strategy, test, known, lowest_fail);
                            if out.fail.is_some() {
                                lowest_fail.fetch_min(shard, Ordering::SeqCst);
                            }
                            outs_ref.lock().unwrap().push((shard as u64, out));
                        }
                    })
                    .expect("spawn");
            }
            if let Some((c, m)) = slots.wait() {
                self.give_up(sub, rule, &c, &m, t0);
            }
        });
        let mut outs = outs.into_inner().unwrap();
        outs.sort_by_key(|o| o.0);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut evals = 0;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut samples = vec![];
        let mut failure = None;
        for (shard, o) in outs {
            if let Some(a) = o.abort {
                eprintln!("harness error: shard {shard} of {sub}: {a}");
                std::process::exit(2);
            }
            evals += o.evals;
            nt.extend(o.nontrivial);
            for (k, v) in o.labels {
                *labels.entry(k).or_default() += v;
            }
            for (k, v) in o.known {
                *self.st.borrow_mut().known_hits.entry(k).or_default() += v;
            }
            if let Some(s) = o.sample
                && samples.len() < 2
            {
                samples.push(format!("{sub}: {s}"));
            }
            if failure.is_none() {
                failure = o.fail;
            }
        }
        self.record(sub, rule, evals, nt.len() as u64, &labels, samples, t0);
        if let Some((c, f)) = failure {
            let ex = catch_unwind(AssertUnwindSafe(|| explain(&c))).unwrap_or_default();
            self.write_replay(sub, &c, &f, &ex);
        }
    }

    fn record(
        &self,
        sub: &str,
        rule: &str,
        evals: u64,
        nontrivial: u64,
        labels: &BTreeMap<&'static str, u64>,
        samples: Vec<String>,
        t0: Instant,
    ) {
        let mut st = self.st.borrow_mut();
        st.evaluations += evals;
        st.nontrivial += nontrivial;
        st.samples.extend(samples);
        st.rules.push(format!("[{sub}] {rule}"));
        let wall = (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0;
        println!("[{}] {sub}: {evals} cases, {nontrivial} distinct non-trivial, {wall}s {labels:?}", self.id);
        st.subs.push(json!({"campaign": sub, "cases_run": evals, "nontrivial_distinct": nontrivial,
            "classes": labels, "seconds": wall}));
    }

    /// A campaign over an explicitly enumerated finite space (index -> case).
    pub fn enumerate<C>(
        &self,
        sub: &str,
        rule: &str,
        total: u64,
        make: impl Fn(u64) -> Option<C> + Sync,
        test: impl Fn(&C) -> Verdict + Sync,
        explain: impl Fn(&C) -> String + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Send,
    {
        if self.handle_replay(sub, &test, &explain) || self.stop() {
            return;
        }
        let t0 = Instant::now();
        self.check_known(sub, &test);
        let known = self.known_for(sub);
        let next = AtomicUsize::new(0);
        let chunk = 512u64;
        let best: Mutex<Option<(u64, C, Fail)>> = Mutex::new(None);
        let agg: Mutex<(u64, u64, BTreeMap<&'static str, u64>, BTreeMap<String, u64>)> =
            Mutex::new(Default::default());
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let slots = Slots::<C>::new(workers, sub);
        let (slots, next, best, agg, make, test, known) =
            (&slots, &next, &best, &agg, &make, &test, &known);
        std::thread::scope(|s| {
            for w in 0..workers {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let _done = Done(&slots.done);
                        let mut ev = 0;
                        let mut nt = 0;
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                        'outer: loop {
                            let c0 = next.fetch_add(1, Ordering::SeqCst) as u64 * chunk;
                            if c0 >= total {
                                break;
                            }
                            if best.lock().unwrap().as_ref().is_some_and(|b| b.0 < c0) {
                                break;
                            }
                            for i in c0..(c0 + chunk).min(total) {
                                let Some(c) = make(i) else { continue };
                                ev += 1;
                                match slots.run(w, &c, test) {
                                    Ok(p) => {
                                        nt += p.nontrivial as u64;
                                        for l in p.labels {
                                            *labels.entry(l).or_default() += 1;
                                        }
                                    }
                                    Err(f) if known.contains(&f.sig) => *kn.entry(f.sig).or_default() += 1,
                                    Err(f) => {
                                        let mut b = best.lock().unwrap();
                                        if b.as_ref().is_none_or(|b| i < b.0) {
                                            *b = Some((i, c, f));
                                        }
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        let mut a = agg.lock().unwrap();
                        a.0 += ev;
                        a.1 += nt;
                        for (k, v) in labels {
                            *a.2.entry(k).or_default() += v;
                        }
                        for (k, v) in kn {
                            *a.3.entry(k).or_default() += v;
                        }
                    })
                    .expect("spawn");
            }
            if let Some((c, m)) = slots.wait() {
                self.give_up(sub, rule, &c, &m, t0);
            }
        });
        let (ev, nt, labels, kn) = std::mem::take(&mut *agg.lock().unwrap());
        for (k, v) in kn {
            *self.st.borrow_mut().known_hits.entry(k).or_default() += v;
        }
        let sample = (0..total)
            .rev()
            .find_map(make)
            .map(|c| format!("{sub}: {}", clip(&serde_json::to_string(&c).unwrap(), 1000)));
        self.record(sub, rule, ev, nt, &labels, sample.into_iter().collect(), t0);
        let found = best.lock().unwrap().take();
        if let Some((_, c, f)) = found {
            let ex = catch_unwind(AssertUnwindSafe(|| explain(&c))).unwrap_or_default();
            self.write_replay(sub, &c, &f, &ex);
        }
    }

    /// Whole-run requirement on the generator: an interesting class must occur.
    /// A shortfall is a broken harness, not a verdict on the code.
    pub fn require_class(&self, label: &str, at_least: u64) {
        if self.replay.is_some() || self.stop() {
            return;
        }
        let st = self.st.borrow();
        let n: u64 = st.subs.iter().filter_map(|s| s["classes"][label].as_u64()).sum();
        if n < at_least {
            println!("note: class {label:?} occurred {n} times, expected at least {at_least}");
        }
    }

    /// Writes the evidence file and ends the process.
    pub fn finish(self) -> ! {
        let st = self.st.take();
        if self.replay.is_some() {
            if !st.replayed {
                eprintln!("no campaign of {} took this replay file", self.id);
                std::process::exit(2);
            }
            std::process::exit(if st.violation.is_some() { 1 } else { 0 });
        }
        self.end(st)
    }

    fn end(&self, st: State) -> ! {
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial,
                "rule": st.rules.join(" | "),
                "samples": st.samples,
                "campaigns": st.subs,
                "excluded_as_known_finding": st.known_hits,
            },
            "assumptions": [],
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": if st.violation.is_some() { 1 } else { 0 },
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("write evidence");
        let code = if st.violation.is_some() { 1 } else { 0 };
        std::process::exit(code);
    }
}

    #[allow(clippy::too_many_arguments)]
    fn run_shard<C, S>(
        id: &str,
        seed: u64,
        sub: &str,
        shard: usize,
        per: u64,
        strategy: &(impl Fn() -> S + Sync),
        test: &(impl Fn(&C) -> Verdict + Sync),
        known: &HashSet<String>,
        lowest_fail: &AtomicUsize,
    ) -> ShardOut<C>
    where
        C: Serialize + DeserializeOwned + Debug + Clone + Send,
        S: Strategy<Value = C>,
    {
        let cfg = Config {
            cases: per as u32,
            failure_persistence: None,
            max_shrink_iters: 4_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &seed32(&[id, sub], &[seed, shard as u64]),
        );
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = strategy();
        let out = RefCell::new(ShardOut {
            evals: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            known: BTreeMap::new(),
            sample: None,
            fail: None,
            abort: None,
        });
        let failing = std::cell::Cell::new(false);
        let last: RefCell<Option<Fail>> = RefCell::new(None);
        let first_sig: RefCell<Option<String>> = RefCell::new(None);
        let res = runner.run(&strat, |c: C| {
            // A lower shard already failed: nothing more to learn here.
            if !failing.get() && lowest_fail.load(Ordering::Relaxed) < shard {
                return Ok(());
            }
            let r = test(&c);
            let mut o = out.borrow_mut();
            match r {
                Ok(p) => {
                    if !failing.get() {
                        o.evals += 1;
                        for l in &p.labels {
                            *o.labels.entry(l).or_default() += 1;
                        }
                        if p.nontrivial {
                            let s = serde_json::to_string(&c).unwrap();
                            o.nontrivial.insert(hash_str(&s));
                            if o.sample.is_none() && o.evals > per / 4 {
                                o.sample = Some(clip(&s, 1500));
                            }
                        }
                    }
                    Ok(())
                }
                Err(f) => {
                    if known.contains(&f.sig) {
                        o.evals += 1;
                        *o.known.entry(f.sig).or_default() += 1;
                        return Ok(());
                    }
                    // shrink within one signature only
                    let mut fs = first_sig.borrow_mut();
                    if let Some(s) = &*fs {
                        if *s != f.sig {
                            return Ok(());
                        }
                    } else {
                        *fs = Some(f.sig.clone());
                        o.evals += 1;
                    }
                    failing.set(true);
                    let m = f.msg.clone();
                    *last.borrow_mut() = Some(f);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut o = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // proptest's own shrinking first, then structural reduction of
                // the recorded case, keeping the same failure signature.
                let sig = last.borrow().as_ref().map(|f| f.sig.clone()).unwrap_or_default();
                let (c, f) = reduce(c, &sig, last.into_inner().unwrap(), test);
                o.fail = Some((c, f));
            }
            Err(TestError::Abort(r)) => o.abort = Some(format!("{r}")),
        }
        o
    }


/// Greedy structural reduction on the case's JSON form: drop array elements,
/// lower numbers, clear flags, for as long as the same failure remains.
fn reduce<C>(c: C, sig: &str, f: Fail, test: &(impl Fn(&C) -> Verdict + Sync)) -> (C, Fail)
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send,
{
    let mut cur = serde_json::to_value(&c).unwrap();
    let mut best = (c, f);
    let mut budget = 40_000u32;
    let attempt = |v: &Value, best: &mut (C, Fail), budget: &mut u32| -> bool {
        if *budget == 0 {
            return false;
        }
        let Ok(c) = serde_json::from_value::<C>(v.clone()) else { return false };
        *budget -= 1;
        match test(&c) {
            Err(f) if f.sig == sig => {
                *best = (c, f);
                true
            }
            _ => false,
        }
    };
    fn paths(v: &Value, at: &mut Vec<String>, arrays: &mut Vec<Vec<String>>, leaves: &mut Vec<Vec<String>>) {
        match v {
            Value::Array(a) => {
                arrays.push(at.clone());
                for (i, x) in a.iter().enumerate() {
                    at.push(i.to_string());
                    paths(x, at, arrays, leaves);
                    at.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    at.push(k.replace('~', "~0").replace('/', "~1"));
                    paths(x, at, arrays, leaves);
                    at.pop();
                }
            }
            Value::Null => {}
            _ => leaves.push(at.clone()),
        }
    }
    loop {
        let mut progress = false;
        let (mut arrays, mut leaves) = (vec![], vec![]);
        paths(&cur, &mut vec![], &mut arrays, &mut leaves);
        let ptr = |p: &Vec<String>| p.iter().map(|s| format!("/{s}")).collect::<String>();
        for a in &arrays {
            let p = ptr(a);
            let Some(len) = cur.pointer(&p).and_then(|v| v.as_array()).map(|a| a.len()) else { continue };
            let mut chunk = len;
            while chunk > 0 {
                let mut i = 0;
                while let Some(n) = cur.pointer(&p).and_then(|v| v.as_array()).map(|a| a.len()) {
                    if i >= n || budget == 0 {
                        break;
                    }
                    let mut v = cur.clone();
                    let arr = v.pointer_mut(&p).unwrap().as_array_mut().unwrap();
                    arr.drain(i..(i + chunk).min(n));
                    if attempt(&v, &mut best, &mut budget) {
                        cur = v;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if progress {
            continue;
        }
        for l in &leaves {
            let p = ptr(l);
            let Some(old) = cur.pointer(&p).cloned() else { continue };
            let mut tries: Vec<Value> = vec![];
            if let Some(n) = old.as_u64() {
                let mut step = vec![0, 1, n / 2, n.saturating_sub(1)];
                step.retain(|x| *x < n);
                step.dedup();
                tries.extend(step.into_iter().map(Value::from));
            } else if let Some(s) = old.as_str() {
                if !s.is_empty() {
                    tries.push(Value::from(""));
                    let h: String = s.chars().take(s.chars().count() / 2).collect();
                    tries.push(Value::from(h));
                }
            } else if old == Value::Bool(true) {
                tries.push(Value::Bool(false));
            }
            for t in tries {
                let mut v = cur.clone();
                *v.pointer_mut(&p).unwrap() = t;
                if attempt(&v, &mut best, &mut budget) {
                    cur = v;
                    progress = true;
                    break;
                }
            }
        }
        if !progress || budget == 0 {
            return best;
        }
    }
}

/// Draws one value outside a campaign (used by tests of generators).
pub fn sample_one<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(&["sample"], &[seed]));
    let mut r = TestRunner::new_with_rng(Config::default(), rng);
    s.new_tree(&mut r).unwrap().current()
}

/// JSON of any depth.
fn parse(txt: &str) -> serde_json::Result<Value> {
    let mut d = serde_json::Deserializer::from_str(txt);
    d.disable_recursion_limit();
    let v = serde::Deserialize::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
