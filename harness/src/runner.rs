//! Drives generated cases through a property's oracle: seeded proptest
//! runners on several threads, shrinking, replay files, evidence.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Per-case context: classification, samples, known findings
#[derive(Default)]
pub struct Cx {
    pub known_sigs: BTreeSet<String>,
    labels: BTreeMap<String, u64>,
    case_labels: BTreeSet<&'static str>,
    nontrivial: bool,
    sample: Option<Value>,
    known: BTreeMap<String, (u64, String)>,
    /// scratch directory of this run (only some parts use it)
    pub scratch: std::path::PathBuf,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.case_labels.insert(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.case_labels.insert(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// A listed finding is counted and passed over, anything else fails
    pub fn finding(&mut self, sig: &str, detail: impl FnOnce() -> String) -> R {
        if self.known_sigs.contains(sig) {
            let e = self.known.entry(sig.to_owned()).or_insert((0, String::new()));
            e.0 += 1;
            if e.1.is_empty() {
                e.1 = detail();
            }
            Ok(())
        } else {
            Err(format!("[{sig}] {}", detail()))
        }
    }
}

pub struct Part<G> {
    pub name: &'static str,
    pub strat: fn() -> BoxedStrategy<G>,
    /// total number of generated cases for the quick and thorough tiers
    pub quick: u32,
    pub thorough: u32,
    pub test: fn(&G, &mut Cx) -> R,
}

pub struct Opts {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub known_sigs: BTreeSet<String>,
    pub scratch: std::path::PathBuf,
    pub scale: f64,
    /// every case is written here before it runs, see `supervise`
    pub trail: Option<std::path::PathBuf>,
}

/// A single case that runs for longer than this is looked at on its own, see
/// `supervise`. Cases take microseconds, with a real cargo some seconds.
const CASE_LIMIT: Duration = Duration::from_secs(80);
/// How the worker says that it met such a case
pub const STUCK: i32 = 77;

#[derive(Default)]
pub struct PartOut {
    pub name: String,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub failure: Option<(Value, String)>,
}

pub trait DynPart: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, o: &Opts) -> PartOut;
    fn replay(&self, gene: &Value, cx: &mut Cx) -> R;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_owned());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if loc.starts_with("src/") || std::env::var_os("KV_PANICS").is_some() {
            eprintln!("PANIC at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Runs `f`, turning a panic into an error naming it
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut m = LAST_PANIC.with(|p| p.borrow().clone());
            m.truncate(m.char_indices().nth(700).map_or(m.len(), |(i, _)| i));
            Err(m)
        }
    }
}

fn seed_bytes(seed: u64, property: &str, part: &str, thread: usize) -> [u8; 32] {
    // FNV-1a over the identifying string, expanded
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for b in format!("{seed}/{property}/{part}/{thread}/{i}").bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn hash_of(v: &impl Serialize) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_string(v).unwrap_or_default().hash(&mut h);
    h.finish()
}

pub fn run_case<G>(test: fn(&G, &mut Cx) -> R, g: &G, cx: &mut Cx) -> R {
    match guard(|| test(g, cx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

impl<G> DynPart for Part<G>
where
    G: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, gene: &Value, cx: &mut Cx) -> R {
        let g: G = serde_json::from_value(gene.clone()).map_err(|e| format!("bad replay: {e}"))?;
        run_case(self.test, &g, cx)
    }

    fn run(&self, o: &Opts) -> PartOut {
        let total = ((if o.thorough { self.thorough } else { self.quick }) as f64 * o.scale) as u32;
        let stop = AtomicBool::new(false);
        let slots: Vec<Slot<G>> = (0..o.threads).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let mut outs: Vec<PartOut> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..o.threads)
                .map(|t| {
                    let (stop, slot) = (&stop, &slots[t]);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || self.worker(o, t, total / o.threads as u32 + 1, stop, slot))
                        .unwrap()
                })
                .collect();
            let (done, slots) = (&done, &slots);
            let watcher = s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_secs(1));
                    for slot in slots {
                        let slot = slot.lock().unwrap();
                        if let Some((since, g)) = slot.as_ref() {
                            if since.elapsed() > CASE_LIMIT {
                                let doc = json!({"part": self.name, "n": 0, "gene": g});
                                std::fs::write(o.scratch.join("stuck.json"), doc.to_string()).expect("scratch");
                                std::process::exit(STUCK);
                            }
                        }
                    }
                }
            });
            let outs = handles.into_iter().map(|h| h.join().expect("harness worker died")).collect();
            done.store(true, Ordering::Relaxed);
            watcher.thread().unpark();
            outs
        });
        let mut out = outs.remove(0);
        for mut w in outs {
            out.evaluations += w.evaluations;
            out.nontrivial.extend(w.nontrivial.drain());
            for (k, v) in w.labels {
                *out.labels.entry(k).or_default() += v;
            }
            for (k, v) in w.known {
                let e = out.known.entry(k).or_insert((0, v.1));
                e.0 += v.0;
            }
            if out.failure.is_none() {
                out.failure = w.failure;
            }
            if out.samples.len() < 3 {
                out.samples.append(&mut w.samples);
            }
        }
        out.samples.truncate(3);
        out
    }
}

/// The case a thread is running, and since when
type Slot<G> = Mutex<Option<(Instant, G)>>;

pub const STACK: usize = 64 << 20;

impl<G> Part<G>
where
    G: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn worker(&self, o: &Opts, thread: usize, cases: u32, stop: &AtomicBool, slot: &Slot<G>) -> PartOut {
        let trail = o.trail.as_ref().map(|d| d.join(format!("{}-{thread}.json", self.name)));
        let mut begun = 0u64;
        let mut begin = |g: &G| {
            begun += 1;
            if let Some(f) = &trail {
                let doc = json!({"part": self.name, "n": begun, "gene": g});
                std::fs::write(f, doc.to_string()).expect("scratch");
            }
            *slot.lock().unwrap() = Some((Instant::now(), g.clone()));
        };
        let begin = RefCell::new(&mut begin);
        let out = self.worker_cases(o, thread, cases, stop, &|g| (begin.borrow_mut())(g), &|| *slot.lock().unwrap() = None);
        if let Some(f) = &trail {
            let _ = std::fs::remove_file(f);
        }
        out
    }

    fn worker_cases(&self, o: &Opts, thread: usize, cases: u32, stop: &AtomicBool, begin: &dyn Fn(&G), end: &dyn Fn()) -> PartOut {
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 30_000,
            max_shrink_time: 60_000,
            max_global_rejects: 1,
            result_cache: proptest::test_runner::noop_result_cache,
            ..Config::default()
        };
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &seed_bytes(o.seed, &o.property, self.name, thread),
        );
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let out = RefCell::new(PartOut {
            name: self.name.to_owned(),
            ..Default::default()
        });
        let failing = std::cell::Cell::new(false);
        let strat = (self.strat)();
        let res = runner.run(&strat, |g: G| {
            if !failing.get() && stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            let mut cx = Cx {
                known_sigs: o.known_sigs.clone(),
                scratch: o.scratch.clone(),
                ..Default::default()
            };
            begin(&g);
            let r = run_case(self.test, &g, &mut cx);
            end();
            if !failing.get() {
                let mut out = out.borrow_mut();
                out.evaluations += 1;
                for l in &cx.case_labels {
                    *out.labels.entry((*l).to_owned()).or_default() += 1;
                }
                for (k, v) in cx.labels {
                    *out.labels.entry(k).or_default() += v;
                }
                for (k, v) in cx.known {
                    let e = out.known.entry(k).or_insert((0, v.1));
                    e.0 += v.0;
                }
                if cx.nontrivial {
                    out.nontrivial.insert(hash_of(&g));
                    if out.samples.len() < 3 && thread < 3 {
                        let s = cx.sample.unwrap_or_else(|| json!(g));
                        out.samples.push(s);
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failing.set(true);
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut out = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, g)) => {
                // re-run for the message of the minimal case
                let mut cx = Cx {
                    known_sigs: o.known_sigs.clone(),
                    scratch: o.scratch.clone(),
                    ..Default::default()
                };
                let msg = match run_case(self.test, &g, &mut cx) {
                    Err(m) => m,
                    Ok(()) => "did not fail again on the minimal case (nondeterminism)".to_owned(),
                };
                out.failure = Some((json!(g), msg));
            }
            Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
        }
        out
    }
}

pub struct Known {
    /// property -> sig -> description
    pub findings: BTreeMap<String, BTreeMap<String, String>>,
}

impl Known {
    pub fn load(path: &str) -> Self {
        let mut findings: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() {
                let Some(rest) = l.strip_prefix("finding: property=") else { continue };
                let Some((prop, rest)) = rest.split_once(' ') else { continue };
                let Some(rest) = rest.strip_prefix("sig=") else { continue };
                let (sig, desc) = rest.split_once(' ').unwrap_or((rest, ""));
                findings
                    .entry(prop.to_owned())
                    .or_default()
                    .insert(sig.to_owned(), desc.to_owned());
            }
        }
        Self { findings }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
}

/// Exit code: 0 held, 1 violated
pub fn run_check(c: &Check, mut o: Opts, verif: &str) -> i32 {
    let start = Instant::now();
    let known = Known::load(&format!("{verif}/KNOWN_FINDINGS.txt"));
    let listed = known.findings.get(c.id).cloned().unwrap_or_default();
    o.known_sigs = listed.keys().cloned().collect();
    let only = std::env::var("KV_PART").ok();

    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut parts = Vec::new();
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut violations = Vec::new();

    for p in &c.parts {
        if only.as_deref().is_some_and(|n| n != p.name()) {
            continue;
        }
        let t = Instant::now();
        let out = p.run(&o);
        evaluations += out.evaluations;
        distinct += out.nontrivial.len() as u64;
        for s in out.samples.iter().take(2) {
            samples.push(json!({"part": out.name, "case": s}));
        }
        eprintln!(
            "[{}] {}: {} cases, {} distinct non-trivial, {:.1}s {}",
            c.id,
            out.name,
            out.evaluations,
            out.nontrivial.len(),
            t.elapsed().as_secs_f64(),
            if std::env::var_os("KV_LABELS").is_some() { format!("{:#?}", out.labels) } else { String::new() },
        );
        parts.push(json!({
            "part": out.name,
            "evaluations": out.evaluations,
            "distinct_nontrivial": out.nontrivial.len(),
            "classes": out.labels,
            "known_findings_hit": out.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "wall_s": t.elapsed().as_secs_f64(),
        }));
        for (k, v) in out.known {
            let e = known_hits.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        if let Some((gene, msg)) = out.failure {
            let path = write_replay(verif, c.id, &out.name, o.seed, &msg, &gene);
            let mut short = msg.clone();
            short.truncate(short.char_indices().nth(3000).map_or(short.len(), |(i, _)| i));
            eprintln!("[{}] {} failed on the shrunk case:\n{short}\n", c.id, out.name);
            violations.push(path);
            // the verdict is settled: spend no time on the other parts
            break;
        }
    }

    for (sig, desc) in &listed {
        if let Some((n, _)) = known_hits.get(sig) {
            println!("KNOWN-FINDING: property={} {sig}: {desc} (met in {n} cases)", c.id);
        }
    }

    write_evidence(c, &o, verif, start, evaluations, distinct, samples, parts, violations.len());

    for v in &violations {
        println!("VIOLATION property={} replay={v}", c.id);
    }
    if violations.is_empty() { 0 } else { 1 }
}

fn write_replay(verif: &str, id: &str, part: &str, seed: u64, msg: &str, gene: &Value) -> String {
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{part}.json");
    let doc = json!({"property": id, "part": part, "seed": seed, "message": msg, "gene": gene});
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    c: &Check,
    o: &Opts,
    verif: &str,
    start: Instant,
    evaluations: u64,
    distinct: u64,
    samples: Vec<Value>,
    parts: Vec<Value>,
    violations: usize,
) {
    let ev = json!({
        "property": c.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": c.rule,
            "samples": samples,
            "parts": parts,
        },
        "assumptions": c.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(
        format!("{verif}/evidence/{}.json", c.id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("cannot write the evidence file");
}

/// How a single case ends in a process of its own
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ends {
    Normally,
    ByItsSignal(i32),
    Never,
}

/// This program with a bound on its memory, so that something that takes ever
/// more ends by itself (an allocation that fails aborts) before the sandbox
/// runs out of it
fn limited(gib: u64) -> std::process::Command {
    let mut cmd = std::process::Command::new("/bin/sh");
    cmd.arg("-c").arg(format!("ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"", gib << 20));
    cmd.arg(std::env::current_exe().expect("own path"));
    cmd
}

fn replay_aside(file: &std::path::Path, scratch: &std::path::Path, limit: Duration) -> Ends {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut child = limited(8)
        .arg("replay")
        .arg(file)
        .env("TMPDIR", scratch)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .process_group(0)
        .spawn()
        .expect("cannot start a replay");
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.signal() {
                // nothing in a replay sends itself any other signal
                Some(s @ (4 | 6 | 7 | 8 | 11)) => Ends::ByItsSignal(s),
                _ => Ends::Normally,
            };
        }
        if start.elapsed() > limit {
            let _ = std::process::Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).status();
            let _ = child.kill();
            let _ = child.wait();
            return Ends::Never;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

/// Every value with one part of it taken out or made smaller
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Array(a) => {
            for size in [a.len() / 2, a.len() / 4, 1] {
                if size == 0 || (size == 1 && a.len() > 1 && a.len() / 4 == 1) {
                    continue;
                }
                for at in (0..a.len()).step_by(size) {
                    let mut b = a.clone();
                    b.drain(at..(at + size).min(a.len()));
                    out.push(Value::Array(b));
                }
            }
            for (i, e) in a.iter().enumerate() {
                for e in smaller(e) {
                    let mut b = a.clone();
                    b[i] = e;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            for (k, e) in m {
                for e in smaller(e) {
                    let mut m = m.clone();
                    m.insert(k.clone(), e);
                    out.push(Value::Object(m));
                }
            }
        }
        Value::Number(n) if n.as_u64().is_some_and(|n| n > 0) => out.push(json!(0)),
        Value::Bool(true) => out.push(json!(false)),
        Value::String(s) if !s.is_empty() => out.push(json!("")),
        _ => {}
    }
    out
}

/// Runs the check in a process of its own: krates may not only give a wrong
/// answer or panic, but overflow the stack, abort, or never end. What the
/// worker was running then is run again, alone, and if it ends like that
/// again it is the violation.
pub fn supervise(c: &Check, o: &Opts, verif: &str, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let trail = o.scratch.join("trail");
    std::fs::create_dir_all(&trail).expect("scratch");
    let run = |careful: bool| {
        let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
        let dir = o.scratch.join(if careful { "again" } else { "run" });
        std::fs::create_dir(&dir).expect("scratch");
        cmd.args(&args[1..]).env("KV_WORKER", &dir);
        if careful {
            cmd.env("KV_TRAIL", &trail);
        }
        cmd.status().expect("cannot start the worker")
    };
    let mut st = run(false);
    if let (Some(sig), None) = (st.signal(), st.code()) {
        eprintln!("[{}] the worker was ended by signal {sig}, going over it again", c.id);
        st = run(true);
    }
    let mut suspects = Vec::new();
    let mut evaluations = 0;
    match (st.code(), st.signal()) {
        (Some(STUCK), _) => suspects.extend(["run", "again"].map(|d| o.scratch.join(d).join("stuck.json"))),
        (Some(code), _) => return code,
        (None, sig) => {
            eprintln!("[{}] the worker was ended by signal {sig:?}", c.id);
            for e in std::fs::read_dir(&trail).expect("scratch") {
                suspects.push(e.expect("scratch").path());
            }
            suspects.sort();
        }
    }
    let (file, limit) = (o.scratch.join("case.json"), CASE_LIMIT * 3 / 4);
    let aside = |part: &str, gene: &Value, limit| {
        let doc = json!({"property": c.id, "part": part, "gene": gene});
        std::fs::write(&file, doc.to_string()).expect("scratch");
        replay_aside(&file, &o.scratch, limit)
    };
    let cases: Vec<Value> = suspects
        .iter()
        .filter_map(|f| serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok())
        .collect();
    for s in &cases {
        evaluations += s["n"].as_u64().unwrap_or(0);
    }
    for s in &cases {
        let part = s["part"].as_str().expect("trail");
        let mut gene = s["gene"].clone();
        let how = aside(part, &gene, limit);
        if how == Ends::Normally {
            continue;
        }
        let each = if how == Ends::Never { Duration::from_secs(10) } else { limit };
        let shrinking = Instant::now();
        'shrink: loop {
            for cand in smaller(&gene) {
                if shrinking.elapsed() > Duration::from_secs(40) {
                    break 'shrink;
                }
                if aside(part, &cand, each) == how {
                    gene = cand;
                    continue 'shrink;
                }
            }
            break;
        }
        if how == Ends::Never && aside(part, &gene, limit) != how {
            gene = s["gene"].clone();
        }
        let msg = match how {
            Ends::Never => format!("still running after {} s", limit.as_secs()),
            _ => format!("{how:?}: the process running this case was ended by a signal of its own making (stack overflow, out of memory, abort)"),
        };
        eprintln!("[{}] {part} failed: {msg}", c.id);
        let path = write_replay(verif, c.id, part, o.seed, &msg, &gene);
        let parts = vec![json!({"part": part, "evaluations": evaluations, "note": "ended by this case"})];
        write_evidence(c, o, verif, start, evaluations.max(1), 1, vec![json!({"part": part, "case": gene})], parts, 1);
        println!("VIOLATION property={} replay={path}", c.id);
        return 1;
    }
    eprintln!("[{}] no case ends like that when run again: no verdict", c.id);
    3
}

pub fn part<G>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: fn() -> BoxedStrategy<G>,
    test: fn(&G, &mut Cx) -> R,
) -> Box<dyn DynPart>
where
    G: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    Box::new(Part {
        name,
        strat,
        quick,
        thorough,
        test,
    })
}
