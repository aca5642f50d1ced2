//! Exhaustive enumeration of independent cases.
use crate::run::*;
use crate::universe::Universe;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};

/// What a case was worth: a fingerprint of the behaviour seen, and whether it was non-trivial.
pub struct Seen {
    pub nontrivial: bool,
    pub key: u64,
    pub extra: Vec<(&'static str, u64)>,
}

impl Seen {
    pub fn new(nontrivial: bool, key: u64) -> Seen {
        Seen { nontrivial, key, extra: Vec::new() }
    }
}

pub type Gen = Box<dyn Fn(&mut dyn FnMut(&[u32]) -> bool) + Sync + Send>;
pub type Run = Box<dyn Fn(&[u32]) -> Result<Seen, String> + Sync + Send>;
pub type Show = Box<dyn Fn(&[u32]) -> String + Sync + Send>;

pub struct Cases {
    pub name: String,
    pub bound: String,
    /// Enumerates the cases in order, calling the visitor until it returns false.
    pub generate: Gen,
    /// Runs one case in a fresh universe.
    pub run: Run,
    pub show: Show,
}

impl Suite for Cases {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn show(&self, case: &[u32]) -> String {
        (self.show)(case)
    }
    fn replay(&self, case: &[u32]) -> Result<(), String> {
        let u = Universe::new();
        u.begin();
        guarded(|| (self.run)(case)).map(|_| ())
    }
    fn explore(&self, cx: &Cx) -> Result<Stats, Violation> {
        let best = AtomicU64::new(u64::MAX);
        let res = workers(cx.workers, |w| self.part(cx, w, &best));
        self.total(res)
    }
}

/// What one worker found.
#[derive(Default)]
struct Part {
    evals: u64,
    keys: HashSet<u64>,
    extra: std::collections::BTreeMap<&'static str, u64>,
    samples: Vec<(u64, Vec<u32>)>,
    found: Option<(u64, Violation)>,
    cut: bool,
}

impl Cases {
    /// The part of worker `w`: every `cx.workers`th case, up to the first violation of any worker.
    fn part(&self, cx: &Cx, w: usize, best: &AtomicU64) -> Part {
        let n = cx.workers as u64;
        let u = Universe::new();
        set_suite(cx.suite_idx);
        let mut idx = 0u64;
        let mut p = Part::default();
        (self.generate)(&mut |case| {
            let i = idx;
            idx += 1;
            if i > best.load(Ordering::Relaxed) {
                return false;
            }
            if i % n != w as u64 {
                return true;
            }
            if p.evals % 16 == 0 && expired() {
                return false;
            }
            u.begin();
            begin_case(cx.suite_idx, case);
            let r = guarded(|| (self.run)(case));
            end_case();
            match r {
                Ok(s) => {
                    p.evals += 1;
                    if s.nontrivial {
                        p.keys.insert(s.key);
                        if p.evals == 7 || p.evals == 1000 {
                            p.samples.push((i, case.to_vec()));
                        }
                    }
                    for (k, v) in s.extra {
                        *p.extra.entry(k).or_insert(0) += v;
                    }
                    true
                }
                Err(msg) => {
                    best.fetch_min(i, Ordering::Relaxed);
                    p.found = Some((i, Violation { case: case.to_vec(), msg }));
                    false
                }
            }
        });
        crate::universe::set_cur(std::ptr::null_mut());
        p
    }

    fn total(&self, res: Vec<Part>) -> Result<Stats, Violation> {
        let mut st = Stats { bound: self.bound.clone(), capped: CUT.swap(false, Ordering::Relaxed), ..Default::default() };
        let mut keys: HashSet<u64> = HashSet::new();
        let mut samples = Vec::new();
        let mut found: Option<(u64, Violation)> = None;
        for p in res {
            st.add("evaluations", p.evals);
            keys.extend(p.keys);
            for (n, v) in p.extra {
                st.add(n, v);
            }
            samples.extend(p.samples);
            st.capped |= p.cut;
            if let Some(f) = p.found {
                if found.as_ref().is_none_or(|g| f.0 < g.0) {
                    found = Some(f);
                }
            }
        }
        if let Some((_, v)) = found {
            return Err(v);
        }
        st.add("distinct_nontrivial", keys.len() as u64);
        samples.sort();
        if let Some((_, c)) = samples.first() {
            st.sample((self.show)(c));
        }
        if let Some((_, c)) = samples.last() {
            st.sample((self.show)(c));
        }
        Ok(st)
    }
}

/// Cases whose workers are processes: for what threads of one process would get in each other's way at.
pub struct Forked(pub Cases);

impl Suite for Forked {
    fn name(&self) -> String {
        self.0.name()
    }
    fn show(&self, case: &[u32]) -> String {
        self.0.show(case)
    }
    fn replay(&self, case: &[u32]) -> Result<(), String> {
        self.0.replay(case)
    }
    fn explore(&self, cx: &Cx) -> Result<Stats, Violation> {
        use serde_json::{Value, json};
        use std::io::{Read, Write};
        use std::os::fd::FromRawFd;
        let mut kids = Vec::new();
        for w in 0..cx.workers {
            let mut fd = [0; 2];
            // No other thread of ours exists here.
            let pid = unsafe {
                assert!(libc::pipe(fd.as_mut_ptr()) == 0);
                libc::fork()
            };
            assert!(pid >= 0);
            let (r, mut wr) = unsafe { (std::fs::File::from_raw_fd(fd[0]), std::fs::File::from_raw_fd(fd[1])) };
            if pid > 0 {
                drop(wr);
                kids.push((pid, r));
                continue;
            }
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            drop(r);
            let best = AtomicU64::new(u64::MAX);
            let p = workers_from(w, 1, |w| self.0.part(cx, w, &best)).pop().unwrap();
            let found = p.found.map(|(i, v)| json!([i, v.case, v.msg]));
            let out = json!({"evals": p.evals, "keys": p.keys, "extra": p.extra, "samples": p.samples, "found": found, "cut": CUT.load(Ordering::Relaxed)});
            let ok = wr.write_all(out.to_string().as_bytes()).is_ok();
            unsafe { libc::_exit(if ok { 0 } else { 3 }) };
        }
        let mut res = Vec::new();
        let all: Vec<(i32, std::thread::JoinHandle<String>)> = kids
            .into_iter()
            .map(|(pid, mut r)| {
                let h = std::thread::spawn(move || {
                    let mut s = String::new();
                    let _ = r.read_to_string(&mut s);
                    s
                });
                (pid, h)
            })
            .collect();
        for (pid, h) in all {
            let s = h.join().unwrap();
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if libc::WIFSIGNALED(st) {
                // die of the same, for the supervisor
                unsafe {
                    libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                    libc::raise(libc::WTERMSIG(st));
                }
            }
            let v: Value = match serde_json::from_str(&s) {
                Ok(v) if st == 0 => v,
                _ => engine_error("a worker process gave no answer"),
            };
            let nums = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>();
            let words = |v: &Value| nums(v).into_iter().map(|x| x as u32).collect::<Vec<u32>>();
            res.push(Part {
                evals: v["evals"].as_u64().unwrap(),
                keys: nums(&v["keys"]).into_iter().collect(),
                extra: v["extra"].as_object().unwrap().iter().map(|(k, x)| (&*k.clone().leak(), x.as_u64().unwrap())).collect(),
                samples: v["samples"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), words(&x[1]))).collect(),
                found: v["found"].as_array().map(|f| (f[0].as_u64().unwrap(), Violation { case: words(&f[1]), msg: f[2].as_str().unwrap().to_string() })),
                cut: v["cut"].as_bool().unwrap(),
            });
        }
        self.0.total(res)
    }
}

/// A fingerprint helper.
pub fn mix(h: u64, x: u64) -> u64 {
    let a = (h.rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ x.wrapping_add(0x2545_F491_4F6C_DD1D)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (a ^ (a >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(21)
}
