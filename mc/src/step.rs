//! Two programs on the shipping pointer kind of the Sync variants, switched at every instruction.
use mc_core::cases::{Cases, Seen, mix};
use mc_core::run::Tier;
use mc_core::step::{Engine, arena};
use rpds::*;
use std::cell::RefCell;
use std::hash::{BuildHasher, Hash, Hasher};

type K = archery::ArcTK;

/// An element with storage of its own.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct El(Box<u32>);
fn el(v: u32) -> El {
    El(Box::new(v))
}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(*self.0);
    }
}

/// Elements 0 and 4 collide fully, 1 shares their first level.
#[derive(Clone)]
pub struct Few;
pub struct FewHasher(u64);
impl Hasher for FewHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u32(&mut self, v: u32) {
        self.0 = match v {
            0 | 4 => 0,
            1 => 4,
            v => v as u64 - 1,
        };
    }
}
impl BuildHasher for Few {
    type Hasher = FewHasher;
    fn build_hasher(&self) -> FewHasher {
        FewHasher(0)
    }
}

pub enum Act<S> {
    /// Uses up a version.
    Own(&'static str, fn(S) -> (Option<S>, u64)),
    /// Reads a version that the other program may have a reference to as well.
    Look(&'static str, fn(&S) -> (Option<S>, u64)),
}

impl<S> Clone for Act<S> {
    fn clone(&self) -> Act<S> {
        *self
    }
}
impl<S> Copy for Act<S> {}

pub struct StepF<S: 'static> {
    pub name: &'static str,
    pub base: fn(u32) -> S,
    pub bases: Vec<u32>,
    /// Another version that shares with its argument.
    pub derive: fn(&S) -> S,
    pub acts: Vec<Act<S>>,
    pub dump: fn(&S) -> Vec<u32>,
}

type L = List<El, K>;
type St = Stack<El, K>;
type Q = Queue<El, K>;
type V = Vector<El, K>;
type Hm = HashTrieMap<El, El, K, Few>;
type Hs = HashTrieSet<El, K, Few>;
type Rm = RedBlackTreeMap<El, El, K>;
type Rs = RedBlackTreeSet<El, K>;

fn sum<'a>(i: impl Iterator<Item = &'a El>) -> u64 {
    i.fold(7, |h, e| mix(h, *e.0 as u64))
}
fn opt(e: Option<&El>) -> u64 {
    e.map_or(99, |e| *e.0 as u64)
}
fn vals<'a>(i: impl Iterator<Item = &'a El>) -> Vec<u32> {
    i.map(|e| *e.0).collect()
}
fn at(o: Option<&El>) -> u32 {
    o.map_or(u32::MAX, |e| *e.0)
}

use Act::*;

pub fn list_f() -> StepF<L> {
    StepF {
        name: "List",
        base: |n| {
            let mut l = List::new_with_ptr_kind();
            // n / 1000 further elements come and go
            for i in 0..n % 1000 + n / 1000 {
                l.push_front_mut(el(i));
            }
            for _ in 0..n / 1000 {
                l.drop_first_mut();
            }
            l
        },
        bases: vec![1, 2, 3, 1001, 1000],
        derive: |l| l.push_front(el(70)),
        acts: vec![
            Own("drop", |_| (None, 0)),
            Own("push_front_mut", |mut l| { l.push_front_mut(el(50)); (Some(l), 0) }),
            Own("drop_first_mut", |mut l| { let r = l.drop_first_mut(); (Some(l), r as u64) }),
            Own("reverse_mut", |mut l| { l.reverse_mut(); (Some(l), 0) }),
            Own("drop_first_mut; drop", |mut l| { l.drop_first_mut(); (None, 0) }),
            Look("drop_first", |l| (l.drop_first(), 0)),
            Look("reverse", |l| (Some(l.reverse()), 0)),
            Look("iter, first, last, len", |l| (None, mix(mix(sum(l.iter()), opt(l.first())), mix(opt(l.last()), l.len() as u64)))),
            Look("clone == self", |l| { let c = l.clone(); let r = c == *l; (Some(c), r as u64) }),
            Look("clone; drop_first_mut", |l| { let mut c = l.clone(); c.drop_first_mut(); (Some(c), 0) }),
        ],
        dump: |l| [vals(l.iter()), vec![l.len() as u32, at(l.first()), at(l.last())]].concat(),
    }
}

pub fn stack_f() -> StepF<St> {
    StepF {
        name: "Stack",
        base: |n| {
            let mut l = Stack::new_with_ptr_kind();
            for i in 0..n {
                l.push_mut(el(i));
            }
            l
        },
        bases: vec![1, 2],
        derive: |l| l.push(el(70)),
        acts: vec![
            Own("push_mut", |mut l| { l.push_mut(el(50)); (Some(l), 0) }),
            Own("pop_mut", |mut l| { let r = l.pop_mut(); (Some(l), r as u64) }),
            Look("pop", |l| (l.pop(), 0)),
            Look("iter, peek, size", |l| (None, mix(mix(sum(l.iter()), opt(l.peek())), l.size() as u64))),
        ],
        dump: |l| [vals(l.iter()), vec![l.size() as u32, at(l.peek())]].concat(),
    }
}

pub fn queue_f() -> StepF<Q> {
    StepF {
        name: "Queue",
        // n % 4 elements enqueued after the first dequeue, n / 4 left of those before it
        base: |n| {
            let mut l = Queue::new_with_ptr_kind();
            if n / 4 > 0 {
                for i in 0..=n / 4 {
                    l.enqueue_mut(el(i));
                }
                l.dequeue_mut();
            }
            for i in 0..n % 4 {
                l.enqueue_mut(el(10 + i));
            }
            l
        },
        bases: vec![1, 2, 4, 5, 8],
        derive: |l| l.enqueue(el(70)),
        acts: vec![
            Own("drop", |_| (None, 0)),
            Own("enqueue_mut", |mut l| { l.enqueue_mut(el(50)); (Some(l), 0) }),
            Own("dequeue_mut", |mut l| { let r = l.dequeue_mut(); (Some(l), r as u64) }),
            Look("dequeue", |l| (l.dequeue(), 0)),
            Look("iter, peek, len", |l| (None, mix(mix(sum(l.iter()), opt(l.peek())), l.len() as u64))),
            Look("clone; dequeue_mut", |l| { let mut c = l.clone(); c.dequeue_mut(); (Some(c), 0) }),
            Look("clone == self", |l| { let c = l.clone(); let r = c == *l; (Some(c), r as u64) }),
        ],
        dump: |l| [vals(l.iter()), vec![l.len() as u32, at(l.peek())]].concat(),
    }
}

macro_rules! vec_f {
    ($name:ident, $bits:expr, $bases:expr) => {
        pub fn $name() -> StepF<V> {
            StepF {
                name: concat!("Vector(bits ", $bits, ")"),
                base: |n| {
                    // n / 1000 further elements come and go
                    let mut l = Vector::new_with_bits($bits);
                    for i in 0..n % 1000 + n / 1000 {
                        l.push_back_mut(el(i));
                    }
                    for _ in 0..n / 1000 {
                        l.drop_last_mut();
                    }
                    l
                },
                bases: $bases,
                derive: |l| l.push_back(el(70)),
                acts: vec![
                    Own("drop", |_| (None, 0)),
                    Own("push_back_mut", |mut l| { l.push_back_mut(el(50)); (Some(l), 0) }),
                    Own("drop_last_mut", |mut l| { let r = l.drop_last_mut(); (Some(l), r as u64) }),
                    Own("set_mut(0)", |mut l| { let r = l.set_mut(0, el(51)); (Some(l), r as u64) }),
                    Own("*get_mut(last)", |mut l| { let n = l.len(); if n > 0 { *l.get_mut(n - 1).unwrap() = el(52); } (Some(l), 0) }),
                    Look("drop_last", |l| (l.drop_last(), 0)),
                    Look("set(0)", |l| (l.set(0, el(53)), 0)),
                    Look("iter, first, last", |l| (None, mix(sum(l.iter()), mix(opt(l.first()), opt(l.last()))))),
                    Look("get(0), get(last), get(len)", |l| (None, mix(opt(l.get(0)), mix(opt(l.get(l.len().max(1) - 1)), opt(l.get(l.len())))))),
                    Look("get(last), get(0)", |l| (None, mix(opt(l.get(l.len().max(1) - 1)), opt(l.get(0))))),
                    Look("clone; set_mut(last)", |l| { let mut c = l.clone(); c.set_mut(l.len().max(1) - 1, el(54)); (Some(c), 0) }),
                ],
                dump: |l| [vals(l.iter()), vec![l.len() as u32], (0..=l.len()).map(|i| at(l.get(i))).collect()].concat(),
            }
        }
    };
}
vec_f!(vector1_f, 1, vec![1, 3, 5, 1002, 1004]);
vec_f!(vector2_f, 2, vec![4, 5, 1004]);

pub fn htm_f() -> StepF<Hm> {
    StepF {
        name: "HashTrieMap",
        base: |n| {
            let mut l = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Few, 4);
            for i in 0..5 {
                if (n | n >> 5) >> i & 1 == 1 {
                    l.insert_mut(el(i), el(20 + i));
                }
            }
            // the upper half is there for a while only
            for i in 0..5 {
                if n >> 5 >> i & 1 == 1 {
                    l.remove_mut(&el(i));
                }
            }
            l
        },
        bases: vec![0b1, 0b11, 0b10001, 0b1101, 0b10001_00000, 0b00001_10000],
        derive: |l| l.insert(el(9), el(70)),
        acts: vec![
            Own("drop", |_| (None, 0)),
            Own("insert_mut(0)", |mut l| { l.insert_mut(el(0), el(50)); (Some(l), 0) }),
            Own("insert_mut(4)", |mut l| { l.insert_mut(el(4), el(51)); (Some(l), 0) }),
            Own("remove_mut(0)", |mut l| { let r = l.remove_mut(&el(0)); (Some(l), r as u64) }),
            Own("*get_mut(0)", |mut l| { if let Some(v) = l.get_mut(&el(0)) { *v = el(52); } (Some(l), 0) }),
            Look("insert(1)", |l| (Some(l.insert(el(1), el(53))), 0)),
            Look("remove(0)", |l| (Some(l.remove(&el(0))), 0)),
            Look("get(0), get(4), get(1)", |l| (None, mix(opt(l.get(&el(0))), mix(opt(l.get(&el(4))), opt(l.get(&el(1))))))),
            Look("iter", |l| (None, mix(sum(l.keys()), sum(l.values())))),
            Look("clone == self", |l| { let c = l.clone(); let r = c == *l; (Some(c), r as u64) }),
        ],
        dump: |l| {
            let mut v: Vec<(u32, u32)> = l.iter().map(|(k, v)| (*k.0, *v.0)).collect();
            v.sort();
            let mut d: Vec<u32> = v.into_iter().flat_map(|(a, b)| [a, b]).collect();
            d.push(l.size() as u32);
            d.extend((0..10).map(|i| at(l.get(&el(i)))));
            d
        },
    }
}

pub fn hts_f() -> StepF<Hs> {
    StepF {
        name: "HashTrieSet",
        base: |n| {
            let mut l = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(Few, 4);
            for i in 0..5 {
                if n >> i & 1 == 1 {
                    l.insert_mut(el(i));
                }
            }
            l
        },
        bases: vec![0b1, 0b10001],
        derive: |l| l.insert(el(9)),
        acts: vec![
            Own("insert_mut(0)", |mut l| { l.insert_mut(el(0)); (Some(l), 0) }),
            Own("remove_mut(0)", |mut l| { let r = l.remove_mut(&el(0)); (Some(l), r as u64) }),
            Look("remove(0)", |l| (Some(l.remove(&el(0))), 0)),
            Look("contains(0), contains(4), is_subset", |l| (None, l.contains(&el(0)) as u64 + 2 * l.contains(&el(4)) as u64 + 4 * l.is_subset(&l.clone()) as u64)),
        ],
        dump: |l| {
            let mut v: Vec<u32> = vals(l.iter());
            v.sort();
            v.push(l.size() as u32);
            v.extend((0..10).map(|i| l.contains(&el(i)) as u32));
            v
        },
    }
}

pub fn rbm_f() -> StepF<Rm> {
    StepF {
        name: "RedBlackTreeMap",
        base: |n| {
            let mut l = RedBlackTreeMap::new_with_ptr_kind();
            // n / 1000 further elements come and go
            for i in 0..n % 1000 + n / 1000 {
                l.insert_mut(el(i), el(20 + i));
            }
            for i in 0..n / 1000 {
                l.remove_mut(&el(n % 1000 + i));
            }
            l
        },
        bases: vec![1, 2, 4, 1003],
        derive: |l| l.insert(el(9), el(70)),
        acts: vec![
            Own("drop", |_| (None, 0)),
            Own("insert_mut(0)", |mut l| { l.insert_mut(el(0), el(50)); (Some(l), 0) }),
            Own("insert_mut(5)", |mut l| { l.insert_mut(el(5), el(51)); (Some(l), 0) }),
            Own("remove_mut(0)", |mut l| { let r = l.remove_mut(&el(0)); (Some(l), r as u64) }),
            Own("*get_mut(0)", |mut l| { if let Some(v) = l.get_mut(&el(0)) { *v = el(52); } (Some(l), 0) }),
            Look("insert(5)", |l| (Some(l.insert(el(5), el(53))), 0)),
            Look("remove(1)", |l| (Some(l.remove(&el(1))), 0)),
            Look("get(0), get(2), first, last", |l| (None, mix(mix(opt(l.get(&el(0))), opt(l.get(&el(2)))), mix(opt(l.first().map(|e| e.0)), opt(l.last().map(|e| e.1)))))),
            Look("iter, range(1..)", |l| (None, mix(mix(sum(l.keys()), sum(l.values())), sum(l.range(el(1)..).map(|e| e.1))))),
            Look("clone == self", |l| { let c = l.clone(); let r = c == *l; (Some(c), r as u64) }),
        ],
        dump: |l| {
            let mut d: Vec<u32> = l.iter().flat_map(|(a, b)| [*a.0, *b.0]).collect();
            d.extend([l.size() as u32, at(l.first().map(|e| e.0)), at(l.last().map(|e| e.0))]);
            d.extend((0..10).map(|i| at(l.get(&el(i)))));
            d
        },
    }
}

pub fn rbs_f() -> StepF<Rs> {
    StepF {
        name: "RedBlackTreeSet",
        base: |n| {
            let mut l = RedBlackTreeSet::new_with_ptr_kind();
            for i in 0..n {
                l.insert_mut(el(i));
            }
            l
        },
        bases: vec![1, 3],
        derive: |l| l.insert(el(9)),
        acts: vec![
            Own("insert_mut(5)", |mut l| { l.insert_mut(el(5)); (Some(l), 0) }),
            Own("remove_mut(0)", |mut l| { let r = l.remove_mut(&el(0)); (Some(l), r as u64) }),
            Look("remove(1)", |l| (Some(l.remove(&el(1))), 0)),
            Look("contains(0), first, last, is_subset", |l| (None, mix(l.contains(&el(0)) as u64 + 4 * l.is_subset(&l.clone()) as u64, mix(opt(l.first()), opt(l.last()))))),
        ],
        dump: |l| {
            let mut v: Vec<u32> = vals(l.iter());
            v.extend([l.size() as u32, at(l.first()), at(l.last())]);
            v.extend((0..10).map(|i| l.contains(&el(i)) as u32));
            v
        },
    }
}

/// How the versions that the programs get relate.
const MODES: [&str; 4] = ["clones of a version that stays", "the only two clones of a version", "a version that stays and one derived from it", "a version and one derived from it"];

struct World<S> {
    keep: Option<S>,
    ins: [Option<S>; 2],
    outs: [(Option<S>, u64); 2],
}

fn setup<S: Clone>(f: &StepF<S>, base: u32, mode: u32) -> World<S> {
    let b = (f.base)(base);
    match mode {
        0 => World { ins: [Some(b.clone()), Some(b.clone())], keep: Some(b), outs: [(None, 0), (None, 0)] },
        1 => World { ins: [Some(b.clone()), Some(b)], keep: None, outs: [(None, 0), (None, 0)] },
        2 => World { ins: [Some(b.clone()), Some((f.derive)(&b))], keep: Some(b), outs: [(None, 0), (None, 0)] },
        _ => {
            let d = (f.derive)(&b);
            World { ins: [Some(b), Some(d)], keep: None, outs: [(None, 0), (None, 0)] }
        }
    }
}

/// Program `i`, on what is in the world. Two readers of the same version have a reference to it each.
unsafe fn program<S>(w: *mut World<S>, i: usize, act: Act<S>, shared: bool) {
    unsafe {
        let r = match act {
            Own(_, f) => f((*w).ins[i].take().unwrap()),
            Look(_, f) if shared => f((*w).keep.as_ref().unwrap()),
            Look(_, f) => {
                let s = (*w).ins[i].take().unwrap();
                f(&s)
            }
        };
        (*w).outs[i] = r;
    }
}

fn text<S>(a: &Act<S>) -> &'static str {
    match a {
        Own(n, _) | Look(n, _) => n,
    }
}

thread_local! {
    static ENGINE: RefCell<Option<(Engine, bool)>> = const { RefCell::new(None) };
}

/// One scenario under every schedule: its schedules, points and steps.
fn scenario<S: Clone>(f: &StepF<S>, base: u32, mode: u32, acts: [Act<S>; 2], bound: u32) -> Result<(u64, u64, u64), String> {
    ENGINE.with(|e| {
        let mut e = e.borrow_mut();
        let (e, works) = e.get_or_insert_with(|| {
            let mut e = Engine::new();
            let w = e.works();
            (e, w)
        });
        if !*works {
            mc_core::run::CUT.store(true, std::sync::atomic::Ordering::Relaxed);
            return Ok((0, 0, 0));
        }
        // Alone: each on versions of its own.
        let mut want = Vec::new();
        for i in 0..2 {
            let mut w = setup(f, base, mode);
            let shared = mode == 0 && matches!(acts[i], Look(..));
            let only = w.ins[i].take();
            w.ins = [None, None];
            w.ins[i] = only;
            unsafe { program(&mut w, i, acts[i], shared) };
            want.push((w.outs[i].0.as_ref().map(f.dump), w.outs[i].1));
        }
        let kept = setup(f, base, mode).keep.as_ref().map(f.dump);
        e.reset();
        (e.steps, e.points, e.runs, e.blocked) = (0, 0, 0, 0);
        let w: *mut World<S> = arena(|| Box::into_raw(Box::new(setup(f, base, mode))));
        let shared = [0, 1].map(|i| mode == 0 && matches!(acts[i], Look(..)));
        unsafe {
            // readers of the version that stays hold nothing of their own
            for i in 0..2 {
                if shared[i] {
                    (*w).ins[i] = None;
                }
            }
        }
        let mut p0 = || unsafe { program(w, 0, acts[0], shared[0]) };
        let mut p1 = || unsafe { program(w, 1, acts[1], shared[1]) };
        e.explore(&mut p0, &mut p1, bound, &mut || {
            let w = unsafe { Box::from_raw(w) };
            for i in 0..2 {
                let got = w.outs[i].0.as_ref().map(f.dump);
                if got != want[i].0 || w.outs[i].1 != want[i].1 {
                    return Err(format!("{} got {:?} {:x}, alone {:?} {:x}", text(&acts[i]), got, w.outs[i].1, want[i].0, want[i].1));
                }
            }
            let k = w.keep.as_ref().map(f.dump);
            if k != kept {
                return Err(format!("the version that stays became {k:?} from {kept:?}"));
            }
            Ok(())
        })?;
        Ok((e.runs, e.points, e.steps))
    })
}

/// Every pair of programs, base and way of sharing, under every schedule within the bound.
pub fn step_suite<S: Clone + Send + Sync + 'static>(f: StepF<S>, modes: &'static [u32], bound: u32, only: fn(&str) -> bool) -> Cases {
    let acts: Vec<Act<S>> = f.acts.iter().copied().filter(|a| only(text(a))).collect();
    let f: &'static StepF<S> = Box::leak(Box::new(f));
    let acts: &'static [Act<S>] = acts.leak();
    let show = move |c: &[u32]| format!("{}, base {}, {}: {{{}}} with {{{}}}, every schedule", f.name, c[0], MODES[c[1] as usize], text(&acts[c[2] as usize]), text(&acts[c[3] as usize]));
    Cases {
        name: format!("instructions: {}, {} preemption{}", f.name, bound, if bound > 1 { "s" } else { "" }),
        bound: format!("{} bases, {} ways of sharing, every pair of {} programs; a switch at every instruction, up to {bound}", f.bases.len(), modes.len(), acts.len()),
        generate: Box::new(move |visit| {
            let n = acts.len() as u32;
            for base in &f.bases {
                for mode in modes {
                    for i in 0..n {
                        // where the two are in the same situation, the pair is enough
                        for j in if *mode < 2 { i } else { 0 }..n {
                            if !visit(&[*base, *mode, i, j]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (runs, points, steps) = scenario(f, c[0], c[1], [acts[c[2] as usize], acts[c[3] as usize]], bound)?;
            let mut s = Seen::new(runs > 0, mix(mix(c[0] as u64, c[1] as u64), mix(c[2] as u64, c[3] as u64)));
            s.extra = vec![("evaluations", runs.saturating_sub(1)), ("states", points), ("transitions", steps)];
            Ok(s)
        }),
        show: Box::new(show),
    }
}

pub fn step_suites(t: Tier) -> Vec<Cases> {
    let q = t == Tier::Quick;
    let modes: &[u32] = if q { &[0, 1] } else { &[0, 1, 2, 3] };
    let all = |_: &str| true;
    let owners: fn(&str) -> bool = |a| !a.contains("==") && !a.contains("clone") && !a.contains("insert_mut(5)");
    // programs that share parts and let go of them
    let few: fn(&str) -> bool = |a| ["drop", "push_back_mut", "set_mut(0)", "get(0), get(last), get(len)", "drop_last_mut", "insert_mut(0)", "remove_mut(0)", "get(0), get(2), first, last"].contains(&a);
    let some = |n: &[u32], f: &[u32]| if q { n.to_vec() } else { f.to_vec() };
    let mut v = vec![
        step_suite(list_f(), &[0, 1, 2, 3], 1, all),
        step_suite(stack_f(), modes, 1, all),
        step_suite(queue_f(), modes, 1, all),
        step_suite(vector1_f(), modes, 1, all),
        step_suite(vector2_f(), modes, 1, all),
        step_suite(StepF { bases: some(&[0b11, 0b10001, 0b10001_00000], &htm_f().bases), ..htm_f() }, modes, 1, all),
        step_suite(hts_f(), modes, 1, all),
        step_suite(rbm_f(), modes, 1, all),
        step_suite(rbs_f(), modes, 1, all),
    ];
    v.extend([
        step_suite(StepF { bases: some(&[1], &[1, 2, 3]), ..list_f() }, if q { &[1] } else { &[0, 1, 3] }, 2, if q { |a| a.starts_with("drop") || a == "reverse_mut" } else { owners }),
        step_suite(StepF { bases: some(&[4], &[1, 4, 5]), ..queue_f() }, if q { &[1] } else { &[0, 1] }, 2, owners),
        step_suite(StepF { bases: some(&[1], &[1, 3, 1004]), ..vector1_f() }, if q { &[1] } else { &[0, 1] }, 2, if q { few } else { owners }),
        step_suite(StepF { bases: some(&[1], &[1, 2]), ..rbm_f() }, if q { &[1] } else { &[0, 1] }, 2, if q { few } else { owners }),
    ]);
    if !q {
        v.push(step_suite(StepF { bases: vec![0b1, 0b10001], ..htm_f() }, &[1], 2, owners));
        v.push(step_suite(StepF { bases: vec![1], ..list_f() }, &[1], 3, |a| a == "drop" || a.contains("drop_first_mut")));
    }
    v
}
