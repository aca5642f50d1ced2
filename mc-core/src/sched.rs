//! Stateless exploration of thread schedules with a preemption bound, on real threads of which
//! exactly one runs at a time.
use crate::run::*;
use crate::universe::{self, TLS, Universe};
use std::cell::UnsafeCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::thread::Thread;

const DONE: usize = usize::MAX;
const NOBODY: usize = usize::MAX - 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Point {
    pub enabled: u8,
    pub choice: u8,
    pub preemptive: bool,
}

struct State {
    n: usize,
    finished: Vec<bool>,
    prefix: Vec<u8>,
    points: Vec<Point>,
    threads: Vec<Option<Thread>>,
}

pub struct Sched {
    turn: AtomicUsize,
    st: UnsafeCell<State>,
}
unsafe impl Sync for Sched {}
unsafe impl Send for Sched {}

impl Sched {
    fn new() -> Sched {
        Sched {
            turn: AtomicUsize::new(NOBODY),
            st: UnsafeCell::new(State { n: 0, finished: vec![], prefix: vec![], points: vec![], threads: vec![] }),
        }
    }

    fn wait(&self, me: usize) {
        let mut spins = 0;
        while self.turn.load(Ordering::Acquire) != me {
            spins += 1;
            if spins < 20 {
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
    }

    /// Choose among `cands`; the first is the running thread if `preemptive`.
    fn choose(st: &mut State, cands: &[usize], preemptive: bool) -> usize {
        if cands.len() == 1 {
            return cands[0];
        }
        let i = st.points.len();
        let c = st.prefix.get(i).copied().unwrap_or(0);
        if c as usize >= cands.len() {
            engine_error("schedule replay diverged");
        }
        if i > 100_000 {
            note_fatal("the threads did not finish within the schedule horizon");
            unsafe { libc::_exit(77) }
        }
        st.points.push(Point { enabled: cands.len() as u8, choice: c, preemptive });
        cands[c as usize]
    }

    fn hand_to(&self, st: &State, t: usize) {
        let th = st.threads[t].as_ref().unwrap().clone();
        self.turn.store(t, Ordering::Release);
        th.unpark();
    }

    /// A scheduling point of the running thread.
    pub fn point(&self) {
        if std::thread::panicking() {
            return;
        }
        let me = TLS.with(|t| t.tid.get());
        let st = unsafe { &mut *self.st.get() };
        let mut cands = [0usize; 8];
        cands[0] = me;
        let mut k = 1;
        for t in 0..st.n {
            if t != me && !st.finished[t] {
                cands[k] = t;
                k += 1;
            }
        }
        let next = Sched::choose(st, &cands[..k], true);
        if next != me {
            self.hand_to(st, next);
            self.wait(me);
        }
    }

    fn finish(&self, explorer: &Thread) {
        let me = TLS.with(|t| t.tid.get());
        let st = unsafe { &mut *self.st.get() };
        st.finished[me] = true;
        let cands: Vec<usize> = (0..st.n).filter(|t| !st.finished[*t]).collect();
        if cands.is_empty() {
            self.turn.store(DONE, Ordering::Release);
            explorer.unpark();
        } else {
            let next = Sched::choose(st, &cands, false);
            self.hand_to(st, next);
        }
    }
}

pub type Body = Box<dyn FnOnce() -> Result<(), String> + Send>;
pub type Judge = Box<dyn FnOnce() -> Result<u64, String>>;

pub struct Scenario {
    pub bodies: Vec<Body>,
    /// Runs after all threads are done; returns a fingerprint of the outcome.
    pub judge: Judge,
}

pub type MakeScenario = Box<dyn Fn(&[u32]) -> Scenario + Sync + Send>;
pub type Describe = Box<dyn Fn(&[u32]) -> String + Sync + Send>;

struct Job {
    body: Body,
    uni: usize,
    sched: Arc<Sched>,
    tid: usize,
    explorer: Thread,
    out: Arc<Mutex<Vec<Option<Result<(), String>>>>>,
}

struct Pool {
    tx: Vec<mpsc::Sender<Job>>,
    th: Vec<Thread>,
}

impl Pool {
    fn new(n: usize) -> Pool {
        let mut tx = Vec::new();
        let mut th = Vec::new();
        for _ in 0..n {
            let (t, r) = mpsc::channel::<Job>();
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    while let Ok(job) = r.recv() {
                        universe::set_cur(job.uni as *mut _);
                        TLS.with(|t| t.tid.set(job.tid));
                        job.sched.wait(job.tid);
                        let r = guarded(job.body);
                        job.out.lock().unwrap()[job.tid] = Some(r);
                        universe::set_cur(std::ptr::null_mut());
                        job.sched.finish(&job.explorer);
                    }
                })
                .unwrap();
            th.push(h.thread().clone());
            tx.push(t);
        }
        Pool { tx, th }
    }
}

struct Outcome {
    points: Vec<Point>,
    result: Result<u64, String>,
}

fn execute(u: &Universe, pool: &Pool, make: &MakeScenario, desc: &[u32], prefix: &[u8], fine: bool) -> Outcome {
    u.begin();
    let sc = match guarded(|| Ok(make(desc))) {
        Ok(s) => s,
        Err(e) => return Outcome { points: vec![], result: Err(e) },
    };
    let n = sc.bodies.len();
    let sched = Arc::new(Sched::new());
    let out = Arc::new(Mutex::new((0..n).map(|_| None).collect::<Vec<_>>()));
    unsafe {
        let st = &mut *sched.st.get();
        st.n = n;
        st.finished = vec![false; n];
        st.prefix = prefix.to_vec();
        st.threads = pool.th[..n].iter().map(|t| Some(t.clone())).collect();
        let i = &mut *u.raw();
        i.in_setup = false;
        i.setup_toks = i.toks.len() as u32;
        i.sched = &*sched;
        i.fine = fine;
    }
    for (tid, body) in sc.bodies.into_iter().enumerate() {
        pool.tx[tid]
            .send(Job { body, uni: u.raw() as usize, sched: sched.clone(), tid, explorer: std::thread::current(), out: out.clone() })
            .unwrap();
    }
    unsafe {
        let st = &mut *sched.st.get();
        let all: Vec<usize> = (0..n).collect();
        let first = Sched::choose(st, &all, false);
        sched.hand_to(st, first);
    }
    while sched.turn.load(Ordering::Acquire) != DONE {
        std::thread::park();
    }
    unsafe {
        (*u.raw()).sched = std::ptr::null();
    }
    let points = unsafe { std::mem::take(&mut (*sched.st.get()).points) };
    if prefix.len() > points.len() {
        engine_error("schedule replay diverged: prefix longer than the execution");
    }
    let mut result = Ok(0);
    for (t, r) in out.lock().unwrap().iter_mut().enumerate() {
        if let Some(Err(e)) = r.take() {
            result = Err(format!("thread {t}: {e}"));
            break;
        }
    }
    if result.is_ok() {
        result = guarded(sc.judge);
    }
    Outcome { points, result }
}

/// Scenarios are described by numbers; `scenarios` lists them, and `make` sets one up.
pub struct Threads {
    pub name: String,
    pub bound: String,
    pub preemptions: u32,
    pub fine: bool,
    pub scenarios: Box<dyn Fn() -> Vec<Vec<u32>> + Sync + Send>,
    pub make: MakeScenario,
    pub describe: Describe,
}

#[derive(Default)]
struct Explored {
    execs: u64,
    nodes: u64,
    steps: u64,
    max_points: u64,
    outcomes: HashSet<u64>,
    sample: Vec<u8>,
}

fn case_of(desc: &[u32], choices: &[u8]) -> Vec<u32> {
    let mut c = vec![desc.len() as u32];
    c.extend(desc);
    c.extend(choices.iter().map(|c| *c as u32));
    c
}

impl Threads {
    fn explore_one(&self, u: &Universe, pool: &Pool, desc: &[u32], suite: usize, stop: &dyn Fn() -> bool) -> Result<Explored, Violation> {
        let mut buckets: Vec<Vec<Vec<u8>>> = vec![Vec::new(); self.preemptions as usize + 1];
        buckets[0].push(vec![]);
        let mut x = Explored::default();
        for b in 0..buckets.len() {
            while let Some(prefix) = buckets[b].pop() {
                if stop() || x.execs % 64 == 0 && expired() {
                    return Ok(x);
                }
                begin_case(suite, &case_of(desc, &prefix));
                let o = execute(u, pool, &self.make, desc, &prefix, self.fine);
                x.execs += 1;
                x.nodes += (o.points.len() + 1 - prefix.len()) as u64;
                x.steps += o.points.len() as u64 + 1;
                let choices: Vec<u8> = o.points.iter().map(|p| p.choice).collect();
                match &o.result {
                    Err(e) => {
                        let mut case = case_of(desc, &choices);
                        while case.last() == Some(&0) && case.len() > 1 + desc.len() {
                            case.pop();
                        }
                        end_case();
                        return Err(Violation { case, msg: e.clone() });
                    }
                    Ok(f) => {
                        x.outcomes.insert(*f);
                    }
                }
                if x.execs % 512 == 1 {
                    // The harness must own all nondeterminism.
                    let p = execute(u, pool, &self.make, desc, &choices, self.fine);
                    if let Err(e) = &p.result {
                        end_case();
                        return Err(Violation { case: case_of(desc, &choices), msg: e.clone() });
                    }
                    if p.points != o.points || p.result != o.result {
                        // Then not every schedule is covered.
                        eprintln!("uncontrolled nondeterminism in {}", (self.describe)(desc));
                        CUT.store(true, Ordering::Relaxed);
                    }
                }
                end_case();
                x.max_points = x.max_points.max(o.points.len() as u64);
                x.sample = choices.clone();
                let mut cost = 0u32;
                for i in 0..o.points.len() {
                    let p = o.points[i];
                    if i >= prefix.len() {
                        let c = cost + p.preemptive as u32;
                        if c <= self.preemptions {
                            for alt in (1..p.enabled).rev() {
                                let mut q = choices[..i].to_vec();
                                q.push(alt);
                                buckets[c as usize].push(q);
                            }
                        }
                    }
                    if p.choice != 0 && p.preemptive {
                        cost += 1;
                    }
                }
            }
        }
        Ok(x)
    }
}

impl Suite for Threads {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn show(&self, case: &[u32]) -> String {
        if case.is_empty() {
            return String::new();
        }
        let n = case[0] as usize;
        format!("{}; schedule choices {:?}", (self.describe)(&case[1..1 + n]), &case[1 + n..])
    }
    fn replay(&self, case: &[u32]) -> Result<(), String> {
        let u = Universe::new();
        let pool = Pool::new(4);
        let n = case[0] as usize;
        let prefix: Vec<u8> = case[1 + n..].iter().map(|c| *c as u8).collect();
        execute(&u, &pool, &self.make, &case[1..1 + n], &prefix, self.fine).result.map(|_| ())
    }
    fn explore(&self, cx: &Cx) -> Result<Stats, Violation> {
        let all = (self.scenarios)();
        if std::env::var("MC_DEBUG").is_ok() {
            eprintln!("{}: {} scenarios", self.name, all.len());
        }
        let next = AtomicUsize::new(0);
        let best = AtomicUsize::new(usize::MAX);
        let found: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
        let outs = workers(cx.workers, |_| {
            let u = Universe::new();
            let pool = Pool::new(4);
            let mut sum = Explored::default();
            let mut outcomes = 0u64;
            let mut multi = 0u64;
            let mut samples = Vec::new();
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i % 1000 == 0 && std::env::var("MC_DEBUG").is_ok() {
                    eprintln!("{i} {} {}", sum.execs, sum.max_points);
                }
                if i >= all.len() || i > best.load(Ordering::Relaxed) || expired() {
                    break;
                }
                match self.explore_one(&u, &pool, &all[i], cx.suite_idx, &|| best.load(Ordering::Relaxed) < i) {
                    Ok(x) => {
                        sum.execs += x.execs;
                        sum.nodes += x.nodes;
                        sum.steps += x.steps;
                        outcomes += x.outcomes.len() as u64;
                        multi += (x.outcomes.len() > 1) as u64;
                        sum.max_points = sum.max_points.max(x.max_points);
                        if i == 0 || i + 1 == all.len() {
                            samples.push((i, x.sample));
                        }
                    }
                    Err(v) => {
                        best.fetch_min(i, Ordering::Relaxed);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|(j, _)| i < *j) {
                            *f = Some((i, v));
                        }
                    }
                }
            }
            universe::set_cur(std::ptr::null_mut());
            (sum, outcomes, multi, samples)
        });
        if let Some((_, v)) = found.into_inner().unwrap() {
            return Err(v);
        }
        let mut st = Stats { bound: self.bound.clone(), capped: CUT.swap(false, Ordering::Relaxed), ..Default::default() };
        let mut samples = Vec::new();
        let mut maxp = 0;
        for (x, o, m, s) in outs {
            st.add("evaluations", x.execs);
            st.add("states", x.nodes);
            st.add("transitions", x.steps);
            st.add("distinct_nontrivial", o);
            st.add("scenarios_with_several_outcomes", m);
            maxp = maxp.max(x.max_points);
            samples.extend(s);
        }
        st.add("scenarios", all.len() as u64);
        st.bound = format!("{}; every schedule with at most {} preemptions; up to {maxp} scheduling points per execution", st.bound, self.preemptions);
        samples.sort();
        for (i, s) in samples {
            st.sample(self.show(&case_of(&all[i], &s)));
        }
        Ok(st)
    }
}
