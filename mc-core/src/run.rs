//! Supervisor, case bookkeeping, evidence.
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub tier: Tier,
    pub workers: usize,
    pub suite_idx: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub bound: String,
    pub capped: bool,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 3 {
            self.samples.push(s)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: Vec<u32>,
    pub msg: String,
}

pub trait Suite: Sync + Send {
    fn name(&self) -> String;
    fn explore(&self, cx: &Cx) -> Result<Stats, Violation>;
    fn replay(&self, case: &[u32]) -> Result<(), String>;
    fn show(&self, case: &[u32]) -> String;
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: fn(Tier) -> Vec<Box<dyn Suite>>,
}

// ---------------------------------------------------------------------------------------------
// Slots: what every worker is doing, visible to the supervisor.

const NSLOT: usize = 64;
const WORDS: usize = 1024;
const HEAD: usize = 4; // seq, active+suite, len, spare
const MSG: usize = 4096;
const SLOT_BYTES: usize = NSLOT * WORDS * 4 + MSG;

struct Slots(*mut u32);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
static mut SLOTS: Slots = Slots(std::ptr::null_mut());

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static SUITE: Cell<usize> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn slots() -> *mut u32 {
    unsafe { (*&raw const SLOTS).0 }
}

pub fn set_slot(i: usize) {
    SLOT.with(|s| s.set(i));
}
pub fn get_slot() -> usize {
    SLOT.with(|s| s.get())
}

fn word(slot: usize, i: usize) -> &'static AtomicU32 {
    unsafe { &*(slots().add(slot * WORDS + i) as *const AtomicU32) }
}

pub fn begin_case(suite: usize, case: &[u32]) {
    let s = get_slot();
    if s == usize::MAX || slots().is_null() {
        return;
    }
    let n = case.len().min(WORDS - HEAD);
    word(s, 1).store(0, Ordering::Relaxed);
    for (i, w) in case[..n].iter().enumerate() {
        word(s, HEAD + i).store(*w, Ordering::Relaxed);
    }
    word(s, 2).store(n as u32, Ordering::Relaxed);
    word(s, 0).fetch_add(1, Ordering::Relaxed);
    word(s, 1).store(suite as u32 + 1, Ordering::Release);
}

/// `begin_case` of the suite this worker is on.
pub fn begin_here(case: &[u32]) {
    begin_case(SUITE.with(|s| s.get()), case);
}
pub fn set_suite(i: usize) {
    SUITE.with(|s| s.set(i));
}

pub fn end_case() {
    let s = get_slot();
    if s == usize::MAX || slots().is_null() {
        return;
    }
    word(s, 1).store(0, Ordering::Release);
    word(s, 0).fetch_add(1, Ordering::Relaxed);
}

/// A long case is still getting on.
pub fn alive() {
    let s = get_slot();
    if s != usize::MAX && !slots().is_null() {
        word(s, 0).fetch_add(1, Ordering::Relaxed);
    }
}

/// What the last panic said.
pub fn panic_text() -> String {
    let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    format!("panicked: {msg} ({loc})")
}

pub fn note_fatal(msg: &str) {
    if slots().is_null() {
        return;
    }
    unsafe {
        let p = (slots() as *mut u8).add(NSLOT * WORDS * 4);
        let b = msg.as_bytes();
        let n = b.len().min(MSG - 1);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
        *p.add(n) = 0;
    }
}

fn fatal_note() -> String {
    unsafe {
        let p = (slots() as *const u8).add(NSLOT * WORDS * 4);
        let mut v = Vec::new();
        for i in 0..MSG {
            let c = *p.add(i);
            if c == 0 {
                break;
            }
            v.push(c);
        }
        String::from_utf8_lossy(&v).into_owned()
    }
}

fn map_slots(path: &Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(SLOT_BYTES as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOT_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { SLOTS = Slots(p as *mut u32) };
}

// ---------------------------------------------------------------------------------------------
// Panics

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| crate::step::outside(|| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(other payload)".into()
        };
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    })));
}

pub enum Caught {
    Injected,
    Panic(String),
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE ERROR: {msg}");
    let _ = std::io::stderr().flush();
    unsafe { libc::_exit(2) }
}

/// Run `f` and report a panic. Explicit harness failures go through `engine_error`; any other panic
/// comes from the code under test (some of it is attributed to the caller, as in `Index::index`).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<crate::universe::Injected>() {
                return Err(Caught::Injected);
            }
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Caught::Panic(format!("panicked: {msg} ({loc})")))
        }
    }
}

/// Does `f` panic?
pub fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// `guard` for code in which no panic is expected.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match guard(f) {
        Ok(r) => r,
        Err(Caught::Panic(m)) => Err(m),
        Err(Caught::Injected) => Err("an injected panic surfaced outside fault injection".into()),
    }
}

// ---------------------------------------------------------------------------------------------
// Main

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// Something was left out because of `expired` or a cap on states; taken by the suite that reports it.
pub static CUT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// A quick check always gives an answer: what a changed tree makes too expensive is cut short, and
/// the evidence says so. (Never on the unchanged tree, which takes a tenth of this.)
pub fn expired() -> bool {
    static LIMIT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let limit = *LIMIT.get_or_init(|| match std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()) {
        Some(l) => l,
        None if tier() == Tier::Thorough => u64::MAX,
        None => 420,
    });
    let over = START.get_or_init(Instant::now).elapsed().as_secs() > limit;
    if over {
        CUT.store(true, Ordering::Relaxed);
    }
    over
}

/// How many shapes are enumerated before they are judged.
pub fn shape_cap() -> usize {
    if tier() == Tier::Thorough { 3_000_000 } else { 60_000 }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: "finding: property=<id> case=<suite>:<w,w,...> <what fails>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let (p, c, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={prop}") {
                    v.push((c.trim_start_matches("case=").to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

pub fn main(check: Check) -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mode = args.first().map(|s| s.as_str()).unwrap_or("");
    match mode {
        "--child" => child(check, Path::new(&args[1])),
        "--case" => {
            // --case SLOTFILE SUITE w,w,w
            map_slots(Path::new(&args[1]));
            install_panic_hook();
            let words: Vec<u32> = args[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let suites = (check.suites)(tier());
            let ns = names(&suites);
            for (n, s) in ns.iter().zip(suites) {
                if *n == args[2] {
                    return on_big_stack(move || match s.replay(&words) {
                        Ok(()) => {
                            println!("case holds: {} {}", s.name(), s.show(&words));
                            ExitCode::SUCCESS
                        }
                        Err(m) => {
                            println!("case fails: {} {}\n  {m}", s.name(), s.show(&words));
                            note_fatal(&m);
                            ExitCode::from(1)
                        }
                    });
                }
            }
            eprintln!("no suite named {}", args[2]);
            ExitCode::from(2)
        }
        "--replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            let suite = v["suite"].as_str().unwrap().to_string();
            let words: Vec<u32> = v["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            if v["tier"] == "thorough" {
                unsafe { std::env::set_var("VERIF_TIER", "thorough") };
            }
            let sf = slot_file();
            map_slots(&sf);
            let r = run_case_in_child(&sf, &suite, &words);
            let _ = std::fs::remove_file(&sf);
            match r {
                None => {
                    println!("the case holds on this tree");
                    ExitCode::SUCCESS
                }
                Some(m) => {
                    println!("reproduced: {m}");
                    println!("VIOLATION property={} replay={}", check.property, args[1]);
                    ExitCode::from(1)
                }
            }
        }
        _ => supervise(check),
    }
}

/// Replays run on a thread with a stack of the same size as the workers'.
fn on_big_stack(f: impl FnOnce() -> ExitCode + Send) -> ExitCode {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

pub const STACK: usize = 16 << 20;

fn slot_file() -> PathBuf {
    let d = std::env::current_exe().unwrap().parent().unwrap().join("slots");
    std::fs::create_dir_all(&d).unwrap();
    d.join(format!("s{}", std::process::id()))
}

fn limit_memory(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

const CASE_TIMEOUT: u64 = 60;

/// Some(message) if the case fails (wrongly answered, crashed or hung).
fn run_case_in_child(sf: &Path, suite: &str, words: &[u32]) -> Option<String> {
    note_fatal("");
    let ws: Vec<String> = words.iter().map(|w| w.to_string()).collect();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("--case").arg(sf).arg(suite).arg(ws.join(","));
    limit_memory(&mut c);
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match (st.code(), st.signal()) {
                (Some(0), _) => None,
                (Some(1), _) | (Some(77), _) => Some(fatal_note()),
                (Some(2), _) => engine_error("the harness failed while replaying a case"),
                (c, s) => Some(format!("the process crashed (exit {c:?}, signal {s:?})")),
            };
        }
        if t0.elapsed() > Duration::from_secs(CASE_TIMEOUT + 10) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some("the operation did not return".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn report(check: &Check, suite: &str, case: &[u32], msg: &str, shown: &str) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", check.property));
    let t = if tier() == Tier::Thorough { "thorough" } else { "quick" };
    let v = json!({"property": check.property, "tier": t, "suite": suite, "case": case, "message": msg, "shown": shown});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    println!("suite: {suite}");
    println!("case: {shown}");
    println!("what: {msg}");
    println!("VIOLATION property={} replay={}", check.property, path.display());
    let _ = std::io::stdout().flush();
}

fn write_evidence(check: &Check, coverage: Value, wall: f64, violations: u64) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let t = if tier() == Tier::Thorough { "thorough" } else { "quick" };
    let v = json!({
        "property": check.property, "tier": t, "seed": seed(), "level": check.level,
        "coverage": coverage, "assumptions": check.assumptions, "wall_s": wall, "violations": violations,
    });
    std::fs::write(dir.join(format!("{}.json", check.property)), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// The names of the suites, made distinct.
fn names(suites: &[Box<dyn Suite>]) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for s in suites {
        let base = s.name();
        let mut n = base.clone();
        let mut k = 2;
        while v.contains(&n) {
            n = format!("{base} ({k})");
            k += 1;
        }
        v.push(n);
    }
    v
}

fn supervise(check: Check) -> ExitCode {
    let t0 = Instant::now();
    let sf = slot_file();
    let (code, signal, hung) = explore_in_child(&sf);
    if hung.is_none() && matches!(code, Some(0) | Some(1) | Some(2)) {
        let _ = std::fs::remove_file(&sf);
        return ExitCode::from(code.unwrap() as u8);
    }
    if let Some(e) = blame(&check, &sf, code, signal, hung, t0, false) {
        return e;
    }
    // No case does it alone: is it the exploration as a whole? Then it does so again.
    let (code, signal, hung) = explore_in_child(&sf);
    let again = hung.is_none() && matches!(code, Some(0) | Some(1) | Some(2));
    if again {
        let _ = std::fs::remove_file(&sf);
        return ExitCode::from(code.unwrap() as u8);
    }
    let crash = hung.is_some() || matches!(signal, Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE));
    if let Some(e) = blame(&check, &sf, code, signal, hung, t0, crash) {
        return e;
    }
    let _ = std::fs::remove_file(&sf);
    eprintln!("ENGINE ERROR: the exploration died and no case reproduces it");
    ExitCode::from(2)
}

/// Run the exploration in a child process: its exit code, signal, and the slot of the case that hangs.
fn explore_in_child(sf: &Path) -> (Option<i32>, Option<i32>, Option<usize>) {
    let _ = std::fs::remove_file(sf);
    map_slots(sf);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("--child").arg(sf);
    limit_memory(&mut c);
    let mut ch = c.spawn().expect("spawn");
    let mut last: Vec<(u32, Instant)> = (0..NSLOT).map(|i| (word(i, 0).load(Ordering::Relaxed), Instant::now())).collect();
    let mut hung: Option<usize> = None;
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        for (i, l) in last.iter_mut().enumerate() {
            let q = word(i, 0).load(Ordering::Relaxed);
            if q != l.0 || word(i, 1).load(Ordering::Relaxed) == 0 {
                *l = (q, Instant::now());
            } else if l.1.elapsed() > Duration::from_secs(CASE_TIMEOUT) {
                hung = Some(i);
            }
        }
        if hung.is_some() {
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    (st.code(), st.signal(), hung)
}

/// The exploration died. Find the case that did it; if `anyway`, one that was under way.
fn blame(check: &Check, sf: &Path, code: Option<i32>, signal: Option<i32>, hung: Option<usize>, t0: Instant, anyway: bool) -> Option<ExitCode> {
    let note = fatal_note();
    eprintln!("exploration ended abnormally ({code:?}, signal {signal:?}) {note}");
    let suites = (check.suites)(tier());
    let ns = names(&suites);
    let mut cases: Vec<(usize, Vec<u32>)> = Vec::new();
    let order: Vec<usize> = match hung {
        Some(h) => vec![h],
        None => (0..NSLOT).collect(),
    };
    for i in order {
        let a = word(i, 1).load(Ordering::Acquire);
        if a > 0 {
            let n = (word(i, 2).load(Ordering::Relaxed) as usize).min(WORDS - HEAD);
            cases.push((a as usize - 1, (0..n).map(|k| word(i, HEAD + k).load(Ordering::Relaxed)).collect()));
        }
    }
    cases.sort_by_key(|c| (c.0, c.1.len()));
    let last = cases.len();
    for (i, (si, words)) in cases.into_iter().enumerate() {
        let s = &suites[si];
        let name = &ns[si];
        let alone = run_case_in_child(sf, name, &words);
        let m = match alone {
            None if anyway && i + 1 == last => Some(format!("the exploration crashes each time (signal {signal:?}) with this case under way, though the case does not crash by itself {note}")),
            m => m,
        };
        if let Some(m) = m {
            write_evidence(check, json!({"explanation": "the exploration ended in the violation", "evaluations": 1,
                "samples": [s.show(&words)], "states": 1, "transitions": words.len(), "traces_validated_against_impl": 1,
                "distinct_nontrivial": 1, "rule": check.rule}), t0.elapsed().as_secs_f64(), 1);
            report(check, name, &words, &m, &s.show(&words));
            let _ = std::fs::remove_file(sf);
            return Some(ExitCode::from(1));
        }
    }
    None
}

fn child(check: Check, sf: &Path) -> ExitCode {
    map_slots(sf);
    install_panic_hook();
    let t0 = Instant::now();
    expired();
    let tier = tier();
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = std::env::var("MC_ONLY").ok();
    let suites = (check.suites)(tier);
    let ns = names(&suites);
    let mut total: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut per: Vec<Value> = Vec::new();
    let mut exhaustive = true;
    let mut violations = 0;
    let known = known_findings(check.property);
    let finish = |total: &BTreeMap<&'static str, u64>, samples: &Vec<Value>, per: &Vec<Value>, exhaustive: bool, violations: u64| {
        let mut cov = serde_json::Map::new();
        for (k, v) in total {
            cov.insert(k.to_string(), json!(v));
        }
        cov.insert("rule".into(), json!(check.rule));
        cov.insert("samples".into(), json!(samples));
        cov.insert("suites".into(), json!(per));
        cov.insert("exhaustive".into(), json!(exhaustive));
        write_evidence(&check, Value::Object(cov), t0.elapsed().as_secs_f64(), violations);
    };
    for (i, s) in suites.iter().enumerate() {
        let name = &ns[i];
        if let Some(o) = &only {
            if !name.contains(o.as_str()) {
                continue;
            }
        }
        let ts = Instant::now();
        match s.explore(&Cx { tier, workers, suite_idx: i }) {
            Ok(st) => {
                let secs = ts.elapsed().as_secs_f64();
                println!("{:<44} {} [{}] {:.1}s", name, st.counts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "), st.bound, secs);
                let _ = std::io::stdout().flush();
                for (k, v) in &st.counts {
                    *total.entry(k).or_insert(0) += v;
                }
                for x in &st.samples {
                    if samples.len() < 12 || (x.len() > 40 && samples.len() < 24) {
                        samples.push(json!(format!("{}: {}", name, x)));
                    }
                }
                exhaustive &= !st.capped;
                per.push(json!({"suite": name, "bound": st.bound, "counts": st.counts, "capped": st.capped, "wall_s": secs}));
            }
            Err(v) => {
                let words = v.case.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(",");
                let id = format!("{}:{}", name.replace(' ', "_"), words);
                if let Some((_, what)) = known.iter().find(|(c, _)| *c == id) {
                    println!("KNOWN-FINDING: property={} {}", check.property, what);
                    continue;
                }
                violations += 1;
                samples.push(json!(s.show(&v.case)));
                total.entry("states").or_insert(1);
                total.entry("transitions").or_insert(v.case.len() as u64);
                total.entry("traces_validated_against_impl").or_insert(0);
                total.entry("evaluations").or_insert(1);
                total.entry("distinct_nontrivial").or_insert(1);
                finish(&total, &samples, &per, false, violations);
                report(&check, &name, &v.case, &v.msg, &s.show(&v.case));
                return ExitCode::from(1);
            }
        }
    }
    finish(&total, &samples, &per, exhaustive, violations);
    println!("{}: held on everything explored ({:.1}s)", check.property, t0.elapsed().as_secs_f64());
    // Skip thread-local destructors of the workers' leftovers.
    ExitCode::SUCCESS
}

/// Run `n` workers, each with its own slot and stack.
pub fn workers<R: Send>(n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    workers_from(0, n, f)
}

/// Run the workers from `first` on.
pub fn workers_from<R: Send>(first: usize, n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (first..first + n)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        set_slot(i);
                        f(i)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => engine_error(&format!("a worker panicked: {:?}", PANIC.with(|p| p.borrow().clone()))),
            })
            .collect()
    })
}
