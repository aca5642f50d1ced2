//! Parallel iteration: every way of dividing the work, and every point at which a consumer has enough.
use mc_core::cases::{Cases, Seen, mix};
use mc_core::run::{Check, Suite, Tier};
use mc_core::tok::TableHash;
use rayon::iter::plumbing::{Consumer, Folder, Reducer, UnindexedConsumer};
use rayon::oracle;
use rayon::prelude::*;
use rpds::HashTrieMapSync;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type R<T = ()> = Result<T, String>;
type Map = HashTrieMapSync<u32, Val, TableHash>;

#[derive(Debug, PartialEq, Eq)]
struct Val(u32);

fn pick<T>(t: Tier, q: T, th: T) -> T {
    if t == Tier::Quick { q } else { th }
}

// ------------------------------------------------------------------------------ Decisions

/// One execution's decisions: the given prefix, then always 0.
#[derive(Default)]
struct Choices {
    prefix: Vec<u8>,
    log: RefCell<Vec<(u8, u8)>>,
}

impl Choices {
    fn choose(&self, arity: u8) -> u8 {
        let mut l = self.log.borrow_mut();
        let c = self.prefix.get(l.len()).copied().unwrap_or(0);
        assert!(c < arity, "the execution is not a function of its decisions");
        l.push((c, arity));
        c
    }
    /// The prefix of the next execution in depth-first order.
    fn next(&self) -> Option<Vec<u8>> {
        let mut l = self.log.borrow().clone();
        while let Some((c, n)) = l.pop() {
            if c + 1 < n {
                let mut p: Vec<u8> = l.iter().map(|x| x.0).collect();
                p.push(c + 1);
                return Some(p);
            }
        }
        None
    }
    fn text(&self) -> String {
        self.log.borrow().iter().map(|x| char::from(b'0' + x.0)).collect()
    }
}

/// How the work was divided: where it was split, where it could not be, and which half ran first.
#[derive(Clone, Default, Debug)]
struct Division {
    /// path -> (split, right half first)
    at: BTreeMap<u64, (bool, bool)>,
    cannot: BTreeSet<u64>,
}

/// Answers the splitter, from a division or by choosing.
struct Splitter {
    choices: Rc<Choices>,
    orders: bool,
    div: RefCell<Division>,
    fixed: bool,
}

impl oracle::Oracle for Splitter {
    fn split(&self, path: u64) -> bool {
        if self.fixed {
            return self.div.borrow().at.get(&path).is_some_and(|x| x.0);
        }
        // Choosing 0 splits as often as possible.
        let s = self.choices.choose(2) == 0;
        self.div.borrow_mut().at.insert(path, (s, false));
        s
    }
    fn unsplittable(&self, path: u64) {
        self.div.borrow_mut().cannot.insert(path);
    }
    fn right_first(&self, path: u64) -> bool {
        if self.fixed {
            return self.div.borrow().at[&path].1;
        }
        let r = self.orders && self.choices.choose(2) == 1;
        self.div.borrow_mut().at.insert(path, (true, r));
        r
    }
}

/// Removes the oracle when the execution ends, however it ends.
struct Installed;

impl Drop for Installed {
    fn drop(&mut self) {
        oracle::install(None);
    }
}

fn with_oracle<T>(s: &Rc<Splitter>, f: impl FnOnce() -> T) -> T {
    oracle::install(Some(s.clone()));
    let _i = Installed;
    f()
}

/// Runs `f` under every division of the work. Divisions differing only in an attempt to split what
/// cannot be split are one.
fn every_division<T>(orders: bool, mut f: impl FnMut() -> R<T>, mut judge: impl FnMut(T, &Division, &Choices) -> R) -> R<u64> {
    let mut prefix = Some(vec![]);
    let mut n = 0;
    while let Some(p) = prefix {
        let choices = Rc::new(Choices { prefix: p, ..Default::default() });
        let s = Rc::new(Splitter { choices: choices.clone(), orders, div: Default::default(), fixed: false });
        let at = |e: String| format!("{e} (decisions {})", choices.text());
        let r = with_oracle(&s, &mut f).map_err(at)?;
        judge(r, &s.div.borrow(), &choices).map_err(at)?;
        n += 1;
        prefix = choices.next();
    }
    Ok(n)
}

// ------------------------------------------------------------------------------ A consumer that judges

/// What the consumer saw and answered.
#[derive(Default)]
struct Log {
    /// (place in the recursion, address of key, address of value, key, value) in the order delivered
    got: Vec<(u64, usize, usize, u32, u32)>,
    /// Places where some call of full() said yes.
    said_full: BTreeSet<u64>,
    /// Folders started and completed.
    started: Vec<u64>,
    completed: Vec<u64>,
    /// Calls of full() so far.
    asked: u64,
    reductions: u64,
    changes: u32,
}

/// How full() is answered.
enum Full {
    Never,
    /// Yes from this call on, everywhere.
    From(u64),
    /// However chosen, changing at most so many times.
    Choose(Rc<Choices>, u32),
}

struct Shared {
    log: Mutex<Log>,
    full: Full,
}

// The consumer has to be Send, but with an oracle everything runs on one thread.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    fn full(&self, path: u64) -> bool {
        let mut l = self.log.lock().unwrap();
        l.asked += 1;
        let yes = match &self.full {
            Full::Never => false,
            Full::From(k) => l.asked > *k,
            Full::Choose(c, limit) => {
                if l.changes < *limit && c.choose(2) == 1 {
                    l.changes += 1;
                }
                l.changes % 2 == 1
            }
        };
        if yes {
            l.said_full.insert(path);
        }
        yes
    }
}

struct Judge {
    sh: Arc<Shared>,
    path: Cell<u64>,
}

impl<'a> Consumer<(&'a u32, &'a Val)> for Judge {
    type Folder = JFolder;
    type Reducer = JReducer;
    type Result = Vec<u32>;
    fn split_at(self, _: usize) -> (Self, Self, JReducer) {
        panic!("split_at() on an unindexed consumer")
    }
    fn into_folder(self) -> JFolder {
        let path = self.path.get();
        self.sh.log.lock().unwrap().started.push(path);
        JFolder { sh: self.sh, path, keys: vec![] }
    }
    fn full(&self) -> bool {
        self.sh.full(self.path.get())
    }
}

impl<'a> UnindexedConsumer<(&'a u32, &'a Val)> for Judge {
    fn split_off_left(&self) -> Judge {
        let p = self.path.get();
        self.path.set(2 * p + 1);
        Judge { sh: self.sh.clone(), path: Cell::new(2 * p) }
    }
    fn to_reducer(&self) -> JReducer {
        JReducer(self.sh.clone())
    }
}

struct JFolder {
    sh: Arc<Shared>,
    path: u64,
    keys: Vec<u32>,
}

impl<'a> Folder<(&'a u32, &'a Val)> for JFolder {
    type Result = Vec<u32>;
    fn consume(mut self, (k, v): (&'a u32, &'a Val)) -> Self {
        self.sh.log.lock().unwrap().got.push((self.path, k as *const u32 as usize, v as *const Val as usize, *k, v.0));
        self.keys.push(*k);
        self
    }
    fn complete(self) -> Vec<u32> {
        self.sh.log.lock().unwrap().completed.push(self.path);
        self.keys
    }
    fn full(&self) -> bool {
        self.sh.full(self.path)
    }
}

struct JReducer(Arc<Shared>);

impl Reducer<Vec<u32>> for JReducer {
    fn reduce(self, mut left: Vec<u32>, right: Vec<u32>) -> Vec<u32> {
        self.0.log.lock().unwrap().reductions += 1;
        left.extend(right);
        left
    }
}

fn drive(m: &Map, full: Full) -> (Log, Vec<u32>) {
    let sh = Arc::new(Shared { log: Default::default(), full });
    let r = m.into_par_iter().drive_unindexed(Judge { sh: sh.clone(), path: Cell::new(1) });
    let sh = Arc::into_inner(sh).expect("a part of the consumer is still alive");
    (sh.log.into_inner().unwrap(), r)
}

/// Where each entry of the map is: addresses by key.
type Entries = BTreeMap<u32, (usize, usize, u32)>;

fn sound(l: &Log, r: &[u32], es: &Entries) -> R {
    let mut seen = BTreeSet::new();
    for (_, ka, va, k, v) in &l.got {
        match es.get(k) {
            Some((a, b, w)) if (a, b, w) == (ka, va, v) => {}
            _ => return Err(format!("({k}, {v}) was delivered, which is no entry of the map")),
        }
        if !seen.insert(*k) {
            return Err(format!("the entry with key {k} was delivered twice"));
        }
    }
    let mut a: Vec<u32> = l.got.iter().map(|x| x.3).collect();
    let mut b = r.to_vec();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("{a:?} were delivered, but the result is made of {b:?}"));
    }
    let (mut s, mut c) = (l.started.clone(), l.completed.clone());
    s.sort();
    c.sort();
    if s != c {
        return Err(format!("folders {s:?} were started, {c:?} completed"));
    }
    Ok(())
}

fn complete(l: &Log, es: &Entries) -> R {
    for k in es.keys() {
        if !l.got.iter().any(|x| x.3 == *k) {
            return Err(format!("the entry with key {k} was not delivered, though the consumer never had enough"));
        }
    }
    Ok(())
}

/// In what place each entry was delivered.
fn places(l: &Log) -> BTreeMap<u32, u64> {
    l.got.iter().map(|x| (x.3, x.0)).collect()
}

fn above(mut p: u64, all: &BTreeSet<u64>) -> bool {
    while p > 0 {
        if all.contains(&p) {
            return true;
        }
        p /= 2;
    }
    false
}

/// What has to hold when some parts of the consumer had enough: the other parts are complete.
fn parts(l: &Log, home: &BTreeMap<u32, u64>) -> R {
    let got = places(l);
    for (k, p) in home {
        match got.get(k) {
            Some(q) if q != p => return Err(format!("the entry with key {k} was delivered in part {q:b}, not {p:b}")),
            Some(_) => {}
            None if above(*p, &l.said_full) => {}
            None => return Err(format!("the entry with key {k} was not delivered, though no consumer in charge of it had enough")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ Structures

struct Shape {
    degree: u8,
    hashes: Vec<u64>,
    /// Inserted, then removed.
    removed: Vec<u32>,
}

fn palette(degree: u8) -> Vec<u64> {
    let d = degree as u64;
    let b = degree.trailing_zeros() as u64;
    let mut v = vec![0, 1, d - 1, d, d + 1, 1 << (b * 4), 1 << 63];
    v.dedup();
    v.sort();
    v.dedup();
    v
}

fn shape(c: &[u32]) -> Shape {
    let p = palette(c[0] as u8);
    let hashes: Vec<u64> = c[2..].iter().map(|i| p[*i as usize]).collect();
    let removed = (0..hashes.len() as u32).filter(|i| c[1] >> i & 1 != 0).collect();
    Shape { degree: c[0] as u8, hashes, removed }
}

fn build(s: &Shape) -> (Map, Entries) {
    let mut m: Map = HashTrieMapSync::new_with_hasher_and_degree_and_ptr_kind(TableHash(Arc::new(s.hashes.clone())), s.degree);
    for i in 0..s.hashes.len() as u32 {
        m.insert_mut(i, Val(1000 + i));
    }
    for i in &s.removed {
        m.remove_mut(i);
    }
    let es = (0..s.hashes.len() as u32)
        .filter(|i| !s.removed.contains(i))
        .map(|i| {
            let (k, v) = m.get_key_value(&i).expect("a key is missing");
            (i, (k as *const u32 as usize, v as *const Val as usize, 1000 + i))
        })
        .collect();
    (m, es)
}

/// Every multiset of hashes from the palette, with nothing or one entry removed again.
fn shapes(degrees: Vec<u8>, n: usize, removing: bool, visit: &mut dyn FnMut(&[u32]) -> bool) -> bool {
    fn go(p: u32, n: usize, c: &mut Vec<u32>, removing: bool, visit: &mut dyn FnMut(&[u32]) -> bool) -> bool {
        let len = c.len() - 2;
        c[1] = 0;
        if !visit(c) {
            return false;
        }
        if removing {
            for i in 0..len {
                // Of several equal hashes, remove the first, or the last.
                let eq = |j: usize| c.get(2 + j) == c.get(2 + i);
                if i > 0 && eq(i - 1) && i + 1 < len && eq(i + 1) {
                    continue;
                }
                c[1] = 1 << i;
                if !visit(c) {
                    return false;
                }
            }
            c[1] = 0;
        }
        if len == n {
            return true;
        }
        let from = if len == 0 { 0 } else { *c.last().unwrap() };
        for x in from..p {
            c.push(x);
            let ok = go(p, n, c, removing, visit);
            c.pop();
            c[1] = 0;
            if !ok {
                return false;
            }
        }
        true
    }
    for d in degrees {
        let p = palette(d).len() as u32;
        if !go(p, n, &mut vec![d as u32, 0], removing, visit) {
            return false;
        }
    }
    true
}

fn show_shape(c: &[u32]) -> String {
    let s = shape(c);
    format!("degree {}, keys 0.. with hashes {:x?}{}", s.degree, s.hashes, if s.removed.is_empty() { String::new() } else { format!(", {:?} removed again", s.removed) })
}

// ------------------------------------------------------------------------------ Suites

fn seen(c: &[u32], states: u64, transitions: u64, runs: u64, tag: u64) -> Seen {
    let mut s = Seen::new(c.len() > 2, c.iter().fold(tag, |h, x| mix(h, *x as u64)));
    s.extra = vec![("states", states), ("transitions", transitions), ("traces_validated_against_impl", runs)];
    s
}

/// Every division of the work, with a consumer that never, or at every possible moment, has enough.
fn dividing(degrees: Vec<u8>, n: usize) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "every division of the work".into(),
        bound: format!("degrees {degrees:?}, every multiset of up to {n} hashes from a palette, nothing or one entry removed again; every way of splitting the work and of ordering the halves; the consumer never has enough, or has enough from any one of the moments it is asked on"),
        generate: Box::new(move |visit| {
            shapes(degrees.clone(), n, true, visit);
        }),
        run: Box::new(|c| {
            let (m, es) = build(&shape(c));
            let (mut states, mut steps, mut runs) = (0, 0, 0);
            let divisions = RefCell::new(vec![]);
            runs += every_division(
                true,
                || Ok(drive(&m, Full::Never)),
                |(l, r), d, ch| {
                    sound(&l, &r, &es)?;
                    complete(&l, &es)?;
                    states += 1 + ch.log.borrow().len() as u64;
                    steps += l.got.len() as u64 + ch.log.borrow().len() as u64;
                    // What could not be split is the same as what was not.
                    if d.cannot.is_empty() || d.at.values().filter(|x| !x.0).count() == 0 {
                        divisions.borrow_mut().push((d.clone(), places(&l), l.asked));
                    }
                    Ok(())
                },
            )?;
            for (d, home, asked) in divisions.into_inner() {
                for k in 0..asked {
                    let s = Rc::new(Splitter { choices: Default::default(), orders: true, div: RefCell::new(d.clone()), fixed: true });
                    let (l, r) = with_oracle(&s, || drive(&m, Full::From(k)));
                    sound(&l, &r, &es).and_then(|_| parts(&l, &home)).map_err(|e| format!("{e} (enough from the {k}th question on; divided as {:?})", d.at))?;
                    runs += 1;
                    states += 1;
                    steps += l.got.len() as u64;
                }
            }
            Ok(seen(c, states, steps, runs, 1))
        }),
        show: Box::new(show_shape),
    })
}

/// Every pattern of answers, the parts of the consumer having enough or not as they like.
fn answering(degrees: Vec<u8>, n: usize, limit: u32) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "every pattern of answers".into(),
        bound: format!("degrees {degrees:?}, every multiset of up to {n} hashes from a palette; every way of splitting the work, left half first; every pattern of answers to the questions whether the consumer has enough that changes at most {limit} times"),
        generate: Box::new(move |visit| {
            shapes(degrees.clone(), n, false, visit);
        }),
        run: Box::new(move |c| {
            let (m, es) = build(&shape(c));
            let (mut states, mut steps, mut runs) = (0, 0, 0);
            let divisions = RefCell::new(vec![]);
            every_division(
                false,
                || Ok(drive(&m, Full::Never)),
                |(l, _), d, _| {
                    if d.cannot.is_empty() || d.at.values().filter(|x| !x.0).count() == 0 {
                        divisions.borrow_mut().push((d.clone(), places(&l)));
                    }
                    Ok(())
                },
            )?;
            for (d, home) in divisions.into_inner() {
                let mut prefix = Some(vec![]);
                while let Some(p) = prefix {
                    let ch = Rc::new(Choices { prefix: p, ..Default::default() });
                    let s = Rc::new(Splitter { choices: Default::default(), orders: true, div: RefCell::new(d.clone()), fixed: true });
                    let (l, r) = with_oracle(&s, || drive(&m, Full::Choose(ch.clone(), limit)));
                    sound(&l, &r, &es).and_then(|_| parts(&l, &home)).map_err(|e| format!("{e} (answers {}; divided as {:?})", ch.text(), d.at))?;
                    runs += 1;
                    states += ch.log.borrow().len() as u64;
                    steps += l.got.len() as u64 + ch.log.borrow().len() as u64;
                    prefix = ch.next();
                }
            }
            Ok(seen(c, states, steps, runs, 2))
        }),
        show: Box::new(show_shape),
    })
}

macro_rules! want {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{} is {:?}, expected {:?}", $what, g, w));
        }
    }};
}

/// The consumers people use.
fn uses(m: &Map, es: &Entries) -> R<u64> {
    let n = es.len();
    let keys: Vec<u32> = es.keys().copied().collect();
    let sorted = |mut v: Vec<u32>| {
        v.sort();
        v
    };
    let mut done = 0;
    macro_rules! each {
        ($what:expr, $got:expr, $want:expr) => {{
            want!($what, $got, $want);
            done += 1;
        }};
    }
    each!("count()", m.par_iter().count(), n);
    each!("sum of keys", m.par_iter().map(|(k, _)| *k).sum::<u32>(), keys.iter().sum::<u32>());
    each!("collect::<Vec>()", sorted(m.par_iter().map(|(k, _)| *k).collect()), keys.clone());
    each!("collect::<BTreeMap>()", m.par_iter().map(|(k, v)| (*k, v.0)).collect::<BTreeMap<_, _>>(), keys.iter().map(|k| (*k, 1000 + k)).collect::<BTreeMap<_, _>>());
    each!("partition()", { let (a, b): (Vec<u32>, Vec<u32>) = m.par_iter().map(|(k, _)| *k).partition(|k| k % 2 == 0); (sorted(a), sorted(b)) }, keys.iter().partition::<Vec<u32>, _>(|k| *k % 2 == 0));
    each!("fold().reduce()", sorted(m.par_iter().fold(Vec::new, |mut a, (k, _)| { a.push(*k); a }).reduce(Vec::new, |mut a, b| { a.extend(b); a })), keys.clone());
    each!("min_by_key()", m.par_iter().min_by_key(|x| *x.0).map(|x| *x.0), keys.first().copied());
    each!("max_by_key()", m.par_iter().max_by_key(|x| *x.0).map(|x| *x.0), keys.last().copied());
    let calls = AtomicU64::new(0);
    m.par_iter().for_each(|(k, v)| { calls.fetch_add(1 << (8 * (*k % 8)), Relaxed); assert_eq!(v.0, 1000 + k); });
    each!("calls of for_each()", calls.load(Relaxed), keys.iter().fold(0u64, |a, k| a + (1 << (8 * (*k % 8)))));
    each!("any(false)", m.par_iter().any(|_| false), false);
    each!("all(true)", m.par_iter().all(|_| true), true);
    each!("find_any() nothing", m.par_iter().find_any(|_| false).is_none(), true);
    each!("find_any() anything", m.par_iter().find_any(|_| true).is_some(), n > 0);
    for k in &keys {
        each!(format!("find_any({k})"), m.par_iter().find_any(|x| x.0 == k).map(|x| (*x.0, x.1.0)), Some((*k, 1000 + k)));
        each!(format!("find_first({k})"), m.par_iter().find_first(|x| x.0 == k).map(|x| *x.0), Some(*k));
        each!(format!("find_last({k})"), m.par_iter().find_last(|x| x.0 == k).map(|x| *x.0), Some(*k));
        each!(format!("find_map_any({k})"), m.par_iter().find_map_any(|x| (x.0 == k).then_some(x.1.0)), Some(1000 + k));
        each!(format!("position of {k}: any()"), m.par_iter().any(|x| x.0 == k), true);
        each!(format!("all() but {k}"), m.par_iter().all(|x| x.0 != k), false);
        each!(format!("try_for_each() up to {k}"), m.par_iter().try_for_each(|x| if x.0 == k { Err(*k) } else { Ok(()) }), Err(*k));
        each!(format!("filter() without {k}"), m.par_iter().filter(|x| x.0 != k).count(), n - 1);
    }
    for t in 0..=n + 1 {
        let got = sorted(m.par_iter().take_any(t).map(|x| *x.0).collect());
        let set: BTreeSet<u32> = got.iter().copied().collect();
        each!(format!("take_any({t})"), (got.len(), set.len(), set.is_subset(&keys.iter().copied().collect())), (t.min(n), t.min(n), true));
        let got = sorted(m.par_iter().skip_any(t).map(|x| *x.0).collect());
        let set: BTreeSet<u32> = got.iter().copied().collect();
        each!(format!("skip_any({t})"), (got.len(), set.len()), (n - t.min(n), n - t.min(n)));
    }
    Ok(done)
}

fn using(degrees: Vec<u8>, n: usize) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "the consumers of rayon".into(),
        bound: format!("degrees {degrees:?}, every multiset of up to {n} hashes from a palette; every way of splitting the work and of ordering the halves; counting, collecting, folding, searching and stopping consumers"),
        generate: Box::new(move |visit| {
            shapes(degrees.clone(), n, false, visit);
        }),
        run: Box::new(|c| {
            let (m, es) = build(&shape(c));
            // The divisions that exist, from one consumer; each is then used with every other.
            let divisions = RefCell::new(vec![]);
            every_division(true, || Ok(drive(&m, Full::Never)), |_, d, _| {
                if d.cannot.is_empty() || d.at.values().filter(|x| !x.0).count() == 0 {
                    divisions.borrow_mut().push(d.clone());
                }
                Ok(())
            })?;
            let mut runs = 0;
            let divisions = divisions.into_inner();
            for d in &divisions {
                let s = Rc::new(Splitter { choices: Default::default(), orders: true, div: RefCell::new(d.clone()), fixed: true });
                runs += with_oracle(&s, || uses(&m, &es)).map_err(|e| format!("{e} (divided as {:?})", d.at))?;
            }
            Ok(seen(c, divisions.len() as u64, runs * es.len() as u64, runs, 3))
        }),
        show: Box::new(show_shape),
    })
}

/// Larger maps, regular divisions.
fn large(sizes: Vec<u32>) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "larger maps".into(),
        bound: format!("{sizes:?} entries, degrees 2 to 64, four ways of hashing; the work split never, always, or everywhere above or below a depth, or only along one edge; the consumer never has enough, or has enough from any one of the moments it is asked on"),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for d in [2, 4, 8, 16, 32, 64] {
                    for h in 0..4 {
                        for div in 0..12 {
                            if !visit(&[d, h, *n, div]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(|c| {
            let hash = |i: u64| match c[1] {
                0 => i,
                1 => i % 7,
                2 => i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
                _ => (i % 3) << 60 | i % 5,
            };
            let removed = if c[2] > 4 { (0..c[2]).filter(|i| i % 4 == 3).collect() } else { vec![] };
            let (m, es) = build(&Shape { degree: c[0] as u8, hashes: (0..c[2] as u64).map(hash).collect(), removed });
            struct Rule(u32);
            impl oracle::Oracle for Rule {
                fn split(&self, p: u64) -> bool {
                    let depth = p.ilog2();
                    match self.0 {
                        0 => false,
                        1 => true,
                        2 => depth < 2,
                        3 => depth < 4,
                        4 => depth < 6,
                        5 | 6 => p.trailing_ones() == depth + 1,
                        7 | 8 => p.is_power_of_two(),
                        _ => (p ^ p >> 2) % 3 != 0,
                    }
                }
                fn unsplittable(&self, _: u64) {}
                fn right_first(&self, p: u64) -> bool {
                    match self.0 {
                        6 | 8 => true,
                        10 | 11 => p % 2 == 0,
                        _ => false,
                    }
                }
            }
            let run = |f: Full| {
                oracle::install(Some(Rc::new(Rule(c[3]))));
                let _i = Installed;
                drive(&m, f)
            };
            let (l, r) = run(Full::Never);
            sound(&l, &r, &es)?;
            complete(&l, &es)?;
            let home = places(&l);
            let mut steps = l.got.len() as u64;
            for k in 0..l.asked {
                let (l, r) = run(Full::From(k));
                sound(&l, &r, &es).and_then(|_| parts(&l, &home)).map_err(|e| format!("{e} (enough from the {k}th question on)"))?;
                steps += l.got.len() as u64;
            }
            // The consumers people use, under this division.
            let n = {
                oracle::install(Some(Rc::new(Rule(c[3]))));
                let _i = Installed;
                if es.len() <= 60 { uses(&m, &es)? } else { 0 }
            };
            let mut s = seen(&c[..], l.asked + 1, steps, l.asked + 1 + n, 4);
            s.nontrivial = c[2] > 0;
            Ok(s)
        }),
        show: Box::new(|c| format!("degree {}, way of hashing {}, {} entries of which every fourth is removed, division {}", c[0], c[1], c[2], c[3])),
    })
}

/// The same consumers on rayon's own splitter and real threads: the oracle adds no behaviour.
fn real(sizes: Vec<u32>) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "real threads".into(),
        bound: format!("conformance: {sizes:?} entries, pools of 1 to 4 threads with rayon's own splitter (not exhaustive, and not counted as such)"),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for d in [2, 16, 64] {
                    for h in 0..3 {
                        for threads in 1..=4 {
                            if !visit(&[d, h, *n, threads]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(|c| {
            let hash = |i: u64| match c[1] {
                0 => i,
                1 => i % 7,
                _ => i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            };
            let (m, es) = build(&Shape { degree: c[0] as u8, hashes: (0..c[2] as u64).map(hash).collect(), removed: vec![] });
            let pool = rayon::ThreadPoolBuilder::new().num_threads(c[3] as usize).build().map_err(|e| e.to_string())?;
            let runs = pool.install(|| {
                let (l, r) = drive(&m, Full::Never);
                sound(&l, &r, &es)?;
                complete(&l, &es)?;
                uses(&m, &es)
            })?;
            let mut s = seen(c, 0, 0, 0, 5);
            s.nontrivial = false;
            s.extra = vec![("runs_on_real_threads", runs + 1)];
            Ok(s)
        }),
        show: Box::new(|c| format!("degree {}, way of hashing {}, {} entries, {} threads", c[0], c[1], c[2], c[3])),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    vec![
        dividing(pick(t, vec![2, 4, 16, 64], vec![2, 4, 8, 16, 32, 64]), pick(t, 5, 7)),
        answering(pick(t, vec![2, 16, 64], vec![2, 4, 16, 64]), pick(t, 3, 4), pick(t, 2, 3)),
        using(pick(t, vec![2, 4, 16, 64], vec![2, 4, 8, 16, 32, 64]), pick(t, 5, 6)),
        large(pick(t, vec![0, 1, 2, 5, 20, 70], vec![0, 1, 2, 3, 4, 5, 6, 8, 20, 50, 70, 150, 300])),
        real(pick(t, vec![0, 1, 10, 40], vec![0, 1, 2, 3, 10, 40, 100])),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C19",
        level: "model_checking",
        rule: "a case is one map; states are the points at which the oracle decides, transitions its decisions and the entries delivered, traces whole parallel iterations of the real code under one division of the work, order of the halves and pattern of answers of the consumer. Judged: every entry delivered is one of the map's (by address), none twice, all of them unless a consumer in charge of it said it had enough, and every folder started is completed once. Non-trivial: the map is not empty; distinct by shape",
        assumptions: &[
            "rayon drives the producer only through split() and fold_with(); its splitter is replaced by an oracle, the rest of rayon is the original",
            "the producer reads an immutable map, so what another worker does reaches it only through the consumer's answers, all of which are explored",
        ],
        suites,
    })
}
