use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use mc_core::sched::{Scenario, Threads};
use mc_core::universe::{self, TLS, measure_stack};
use rpds::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

// ---------------------------------------------------------------------- every call, small and big

type Measured = (usize, u32);
type Call = (String, Box<dyn Fn(u32) -> Measured + Send + Sync>);

struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
struct NullHasher(u64);
impl Hasher for NullHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(b.len() as u64);
    }
}

fn keys(n: u32) -> impl Iterator<Item = Key> {
    (0..n).map(|i| Key::new(i * 2))
}
fn pairs(n: u32) -> impl Iterator<Item = (Key, Key)> {
    (0..n).map(|i| (Key::new(i * 2), Key::new(i)))
}

macro_rules! call {
    ($v:ident, $name:expr, $n:ident, $build:expr, $run:expr) => {
        $v.push(($name, Box::new(move |$n: u32| {
            let s = $build;
            let f = $run;
            let (_, b, d) = measure_stack(move || f(s));
            (b, d)
        }) as Box<dyn Fn(u32) -> Measured + Send + Sync>));
    };
}

/// What every structure can do; `$b` builds one of n elements.
macro_rules! common {
    ($v:ident, $t:expr, $b:expr) => {
        let t = $t;
        let b = $b;
        call!($v, format!("{t}: drop"), n, b(n), |s| drop(s));
        call!($v, format!("{t}: clone, drop both"), n, b(n), |s: _| { let c = Clone::clone(&s); drop(s); drop(c) });
        call!($v, format!("{t}: clone_from"), n, (b(n), b(n)), |s: (_, _)| { let (mut x, y) = s; Clone::clone_from(&mut x, &y); });
        call!($v, format!("{t}: =="), n, (b(n), b(n)), |s: (_, _)| { let _ = s.0 == s.1; });
        call!($v, format!("{t}: display"), n, b(n), |s| { let _ = write!(Null, "{s}"); });
        call!($v, format!("{t}: debug"), n, b(n), |s| { let _ = write!(Null, "{s:?}"); });
        call!($v, format!("{t}: alternate debug"), n, b(n), |s| { let _ = write!(Null, "{s:#?}"); });
        call!($v, format!("{t}: iterate"), n, b(n), |s: _| { iterate(&s) });
        call!($v, format!("{t}: iterate by fold"), n, b(n), |s: _| { fold_all(&s) });
        call!($v, format!("{t}: serialize"), n, b(n), |s| { let _ = serde_json::to_writer(std::io::sink(), &Ser(&s)); });
        call!($v, format!("{t}: is_empty on the way down to drop in a panic"), n, b(n), |s| {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _s = s; std::panic::panic_any(universe::Injected) }));
        });
    };
}

fn iterate<'a, S>(s: &'a S)
where
    &'a S: IntoIterator,
{
    for x in s {
        std::hint::black_box(&x);
    }
}
fn fold_all<'a, S>(s: &'a S)
where
    &'a S: IntoIterator,
{
    s.into_iter().fold(0, |a, _| a + 1);
    s.into_iter().last();
    let n = s.into_iter().count();
    s.into_iter().nth(n);
}

struct Ser<'a, T>(&'a T);
impl<T: serde::Serialize> serde::Serialize for Ser<'_, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}

macro_rules! ordered {
    ($v:ident, $t:expr, $b:expr) => {
        let t = $t;
        let b = $b;
        call!($v, format!("{t}: cmp"), n, (b(n), b(n)), |s: (_, _)| { let _ = Ord::cmp(&s.0, &s.1); let _ = PartialOrd::partial_cmp(&s.0, &s.1); let _ = s.0 < s.1; });
        call!($v, format!("{t}: hash"), n, b(n), |s: _| { Hash::hash(&s, &mut NullHasher(0)) });
    };
}

fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    // lists
    let list = |n: u32| {
        let mut l: List<SKey, McK> = List::new_with_ptr_kind();
        for k in keys(n) {
            l.push_front_mut(SKey(k));
        }
        l
    };
    common!(v, "List", list);
    ordered!(v, "List", list);
    call!(v, "List: reverse".into(), n, list(n), |s: List<SKey, McK>| drop(s.reverse()));
    call!(v, "List: reverse_mut".into(), n, list(n), |mut s: List<SKey, McK>| s.reverse_mut());
    call!(v, "List: reverse_mut of a clone".into(), n, list(n), |s: List<SKey, McK>| { let mut c = s.clone(); c.reverse_mut(); drop(s); drop(c) });
    call!(v, "List: reverse_mut of the original".into(), n, list(n), |mut s: List<SKey, McK>| { let c = s.clone(); s.reverse_mut(); drop(s); drop(c) });
    call!(v, "List: drop_first until empty".into(), n, list(n), |s: List<SKey, McK>| { let mut s = s; while let Some(t) = s.drop_first() { s = t } });
    call!(v, "List: drop_first_mut until empty".into(), n, list(n), |mut s: List<SKey, McK>| while s.drop_first_mut() {});
    call!(v, "List: drop_first once, then drop".into(), n, list(n), |s: List<SKey, McK>| { let t = s.drop_first(); drop(s); drop(t) });
    call!(v, "List: drop_first_mut once, then drop".into(), n, list(n), |mut s: List<SKey, McK>| { s.drop_first_mut(); });
    call!(v, "List: push_front".into(), n, list(n), |s: List<SKey, McK>| { let t = s.push_front(SKey(Key::new(1))); drop(s); drop(t) });
    call!(v, "List: push_front_mut".into(), n, list(n), |mut s: List<SKey, McK>| s.push_front_mut(SKey(Key::new(1))));
    call!(v, "List: first, last, len".into(), n, list(n), |s: List<SKey, McK>| { s.first(); s.last(); s.len(); });
    call!(v, "List: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: List<Key, McK> = s.into_iter().collect(); });
    call!(v, "List: deserialize".into(), n, json_seq(n), |s: String| { let _: List<u32, McK> = serde_json::from_str(&s).unwrap(); });
    // stacks
    let stack = |n: u32| {
        let mut l: Stack<SKey, McK> = Stack::new_with_ptr_kind();
        for k in keys(n) {
            l.push_mut(SKey(k));
        }
        l
    };
    common!(v, "Stack", stack);
    ordered!(v, "Stack", stack);
    call!(v, "Stack: pop until empty".into(), n, stack(n), |s: Stack<SKey, McK>| { let mut s = s; while let Some(t) = s.pop() { s = t } });
    call!(v, "Stack: pop_mut until empty".into(), n, stack(n), |mut s: Stack<SKey, McK>| while s.pop_mut() {});
    call!(v, "Stack: push, peek, size".into(), n, stack(n), |s: Stack<SKey, McK>| { let t = s.push(SKey(Key::new(1))); t.peek(); t.size(); });
    call!(v, "Stack: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: Stack<Key, McK> = s.into_iter().collect(); });
    call!(v, "Stack: deserialize".into(), n, json_seq(n), |s: String| { let _: Stack<u32, McK> = serde_json::from_str(&s).unwrap(); });
    // queues: everything incoming, everything outgoing, both
    for (what, shape) in [("incoming", 0), ("outgoing", 1), ("mixed", 2)] {
        let queue = move |n: u32| {
            let mut q: Queue<SKey, McK> = Queue::new_with_ptr_kind();
            let a = if shape == 2 { n / 2 } else { n };
            for k in keys(a) {
                q.enqueue_mut(SKey(k));
            }
            if shape > 0 {
                q.dequeue_mut();
            }
            for k in keys(n - a) {
                q.enqueue_mut(SKey(k));
            }
            q
        };
        let t = format!("Queue ({what})");
        common!(v, &t, queue);
        ordered!(v, &t, queue);
        call!(v, format!("{t}: dequeue"), n, queue(n), |s: Queue<SKey, McK>| { let t = s.dequeue(); drop(s); drop(t) });
        call!(v, format!("{t}: dequeue until empty"), n, queue(n.min(200)), |s: Queue<SKey, McK>| { let mut s = s; while let Some(t) = s.dequeue() { s = t } });
        call!(v, format!("{t}: dequeue_mut until empty"), n, queue(n), |mut s: Queue<SKey, McK>| while s.dequeue_mut() {});
        call!(v, format!("{t}: dequeue_mut of a clone"), n, queue(n), |s: Queue<SKey, McK>| { let mut c = s.clone(); c.dequeue_mut(); drop(s); drop(c) });
        call!(v, format!("{t}: enqueue, peek, len"), n, queue(n), |s: Queue<SKey, McK>| { let t = s.enqueue(SKey(Key::new(1))); t.peek(); t.len(); });
    }
    call!(v, "Queue: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: Queue<Key, McK> = s.into_iter().collect(); });
    call!(v, "Queue: deserialize".into(), n, json_seq(n), |s: String| { let _: Queue<u32, McK> = serde_json::from_str(&s).unwrap(); });
    // vectors
    for bits in [1u8, 5] {
        let vector = move |n: u32| {
            let mut q: Vector<SKey, McK> = Vector::new_with_bits(bits);
            for k in keys(n) {
                q.push_back_mut(SKey(k));
            }
            q
        };
        let t = format!("Vector (bits {bits})");
        common!(v, &t, vector);
        ordered!(v, &t, vector);
        call!(v, format!("{t}: push_back, set, drop_last"), n, vector(n), |s: Vector<SKey, McK>| { let t = s.push_back(SKey(Key::new(1))); let u = t.set(0, SKey(Key::new(1))); let w = s.drop_last(); drop((s, t, u, w)) });
        call!(v, format!("{t}: drop_last_mut until empty"), n, vector(n), |mut s: Vector<SKey, McK>| while s.drop_last_mut() {});
        call!(v, format!("{t}: get_mut everywhere"), n, vector(n), |mut s: Vector<SKey, McK>| { let c = s.clone(); for i in 0..s.len() { s.get_mut(i); s.get(i); } drop(c) });
        call!(v, format!("{t}: iterate backwards"), n, vector(n), |s: Vector<SKey, McK>| { s.iter().rev().count(); });
        call!(v, format!("{t}: extend"), n, vector(n), |mut s: Vector<SKey, McK>| { let n = s.len() as u32; s.extend(keys(n).map(SKey)) });
    }
    call!(v, "Vector: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: Vector<Key, McK> = s.into_iter().collect(); });
    call!(v, "Vector: deserialize".into(), n, json_seq(n), |s: String| { let _: Vector<u32, McK> = serde_json::from_str(&s).unwrap(); });
    // hash tries: spread hashes, and one bucket with everything
    for (what, coll) in [("spread hashes", false), ("all hashes equal", true)] {
        // A bucket is built in quadratic time.
        let scale = move |n: u32| if coll { n / 8 } else { n };
        let table = move |n: u32| TableHash(Arc::new(if coll { vec![7; 2 * n as usize + 10] } else { vec![] }));
        let map = move |n: u32| {
            let n = scale(n);
            let mut m: HashTrieMap<SKey, SKey, McK, TableHash> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(table(n), 64);
            for (k, x) in pairs(n) {
                m.insert_mut(SKey(k), SKey(x));
            }
            m
        };
        let t = format!("HashTrieMap ({what})");
        type M = HashTrieMap<SKey, SKey, McK, TableHash>;
        common!(v, &t, map);
        call!(v, format!("{t}: lookups"), n, map(n), |s: M| { for k in [0, 2, 9, 100, 2 * s.size() as u32 - 2] { let k = SKey(Key::new(k)); s.get(&k); s.contains_key(&k); } });
        call!(v, format!("{t}: insert, remove"), n, map(n), |s: M| { let mut all = vec![]; for k in [0, 1, 2 * s.size() as u32 - 2] { all.push(s.insert(SKey(Key::new(k)), SKey(Key::new(k)))); all.push(s.remove(&SKey(Key::new(k)))); } drop(s); drop(all) });
        call!(v, format!("{t}: get_mut of a clone"), n, map(n), |s: M| { let mut c = s.clone(); for k in [0, 2 * s.size() as u32 - 2] { c.get_mut(&SKey(Key::new(k))); } drop(s); drop(c) });
        call!(v, format!("{t}: remove_mut until empty"), n, map(n), |mut s: M| { for k in 0..s.size() as u32 { s.remove_mut(&SKey(Key::new(2 * k))); } });
        call!(v, format!("{t}: keys, values"), n, map(n), |s: M| { s.keys().count(); s.values().count(); });
        let set = move |n: u32| {
            let n = scale(n);
            let mut m: HashTrieSet<SKey, McK, TableHash> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(table(n), 64);
            for k in keys(n) {
                m.insert_mut(SKey(k));
            }
            m
        };
        let t = format!("HashTrieSet ({what})");
        type S = HashTrieSet<SKey, McK, TableHash>;
        common!(v, &t, set);
        call!(v, format!("{t}: set tests"), n, (set(n), set(n)), |s: (S, S)| { s.0.is_subset(&s.1); s.0.is_superset(&s.1); s.0.is_disjoint(&s.1); });
        call!(v, format!("{t}: insert, remove, lookups"), n, set(n), |s: S| { for k in [0, 1, 2 * s.size() as u32 - 2] { let t = s.insert(SKey(Key::new(k))); let u = s.remove(&SKey(Key::new(k))); t.get(&SKey(Key::new(k))); u.contains(&SKey(Key::new(k))); } });
    }
    call!(v, "HashTrieMap: collect".into(), n, pairs(n).collect::<Vec<_>>(), |s: Vec<(Key, Key)>| { let _: HashTrieMap<Key, Key, McK, TableHash> = s.into_iter().collect(); });
    call!(v, "HashTrieSet: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: HashTrieSet<Key, McK, TableHash> = s.into_iter().collect(); });
    call!(v, "HashTrieMap: deserialize".into(), n, json_map(n), |s: String| { let _: HashTrieMap<u32, u32, McK, TableHash> = serde_json::from_str(&s).unwrap(); });
    call!(v, "HashTrieSet: deserialize".into(), n, json_seq(n), |s: String| { let _: HashTrieSet<u32, McK, TableHash> = serde_json::from_str(&s).unwrap(); });
    // trees, inserted in ascending, descending and scattered order
    for (what, order) in [("ascending", 0), ("descending", 1), ("scattered", 2)] {
        let at = move |i: u32, n: u32| match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i as u64 * 7919 % n as u64) as u32, // n is a power of two times a small number, 7919 is prime
        };
        let map = move |n: u32| {
            let mut m: RedBlackTreeMap<SKey, SKey, McK> = RedBlackTreeMap::new_with_ptr_kind();
            for i in 0..n {
                m.insert_mut(SKey(Key::new(2 * at(i, n))), SKey(Key::new(i)));
            }
            m
        };
        type M = RedBlackTreeMap<SKey, SKey, McK>;
        let t = format!("RedBlackTreeMap ({what})");
        common!(v, &t, map);
        ordered!(v, &t, map);
        call!(v, format!("{t}: lookups"), n, map(n), |s: M| { for k in [0, 2, 9, 100, 2 * s.size() as u32 - 2] { let k = SKey(Key::new(k)); s.get(&k); s.contains_key(&k); } s.first(); s.last(); });
        call!(v, format!("{t}: insert, remove"), n, map(n), |s: M| { let mut all = vec![]; for k in [0, 1, 2 * s.size() as u32 - 2] { all.push(s.insert(SKey(Key::new(k)), SKey(Key::new(k)))); all.push(s.remove(&SKey(Key::new(k)))); } drop(s); drop(all) });
        call!(v, format!("{t}: get_mut of a clone"), n, map(n), |s: M| { let mut c = s.clone(); for k in 0..s.size() as u32 { c.get_mut(&SKey(Key::new(2 * k))); } drop(s); drop(c) });
        call!(v, format!("{t}: remove_mut until empty"), n, map(n), |mut s: M| { for k in 0..s.size() as u32 { s.remove_mut(&SKey(Key::new(2 * k))); } });
        call!(v, format!("{t}: remove_mut from the end until empty"), n, map(n), |mut s: M| { for k in (0..s.size() as u32).rev() { s.remove_mut(&SKey(Key::new(2 * k))); } });
        call!(v, format!("{t}: keys, values, ranges, backwards"), n, map(n), |s: M| {
            s.keys().count();
            s.values().rev().count();
            s.range(SKey(Key::new(3))..).count();
            s.range(SKey(Key::new(0))..=SKey(Key::new(2 * s.size() as u32))).rev().count();
        });
        let set = move |n: u32| {
            let mut m: RedBlackTreeSet<SKey, McK> = RedBlackTreeSet::new_with_ptr_kind();
            for i in 0..n {
                m.insert_mut(SKey(Key::new(2 * at(i, n))));
            }
            m
        };
        type S = RedBlackTreeSet<SKey, McK>;
        let t = format!("RedBlackTreeSet ({what})");
        common!(v, &t, set);
        ordered!(v, &t, set);
        call!(v, format!("{t}: set tests"), n, (set(n), set(n)), |s: (S, S)| { s.0.is_subset(&s.1); s.0.is_superset(&s.1); s.0.is_disjoint(&s.1); });
        call!(v, format!("{t}: the rest"), n, set(n), |s: S| { for k in [0, 1, 2 * s.size() as u32 - 2] { let t = s.insert(SKey(Key::new(k))); let u = s.remove(&SKey(Key::new(k))); t.get(&SKey(Key::new(k))); u.contains(&SKey(Key::new(k))); } s.first(); s.last(); s.range(SKey(Key::new(3))..).rev().count(); });
    }
    call!(v, "RedBlackTreeMap: collect".into(), n, pairs(n).collect::<Vec<_>>(), |s: Vec<(Key, Key)>| { let _: RedBlackTreeMap<Key, Key, McK> = s.into_iter().collect(); });
    call!(v, "RedBlackTreeSet: collect".into(), n, keys(n).collect::<Vec<_>>(), |s: Vec<Key>| { let _: RedBlackTreeSet<Key, McK> = s.into_iter().collect(); });
    call!(v, "RedBlackTreeMap: deserialize".into(), n, json_map(n), |s: String| { let _: RedBlackTreeMap<u32, u32, McK> = serde_json::from_str(&s).unwrap(); });
    call!(v, "RedBlackTreeSet: deserialize".into(), n, json_seq(n), |s: String| { let _: RedBlackTreeSet<u32, McK> = serde_json::from_str(&s).unwrap(); });
    v
}

fn json_seq(n: u32) -> String {
    format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","))
}
fn json_map(n: u32) -> String {
    format!("{{{}}}", (0..n).map(|i| format!("\"{i}\":{i}")).collect::<Vec<_>>().join(","))
}

/// A `Key` that can be serialized.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct SKey(Key);
impl std::fmt::Debug for SKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        universe::stack_probe();
        write!(f, "{:?}", self.0)
    }
}
impl std::fmt::Display for SKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        universe::stack_probe();
        write!(f, "{}", self.0)
    }
}
impl serde::Serialize for SKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        universe::stack_probe();
        s.serialize_u32(self.0.v)
    }
}

const SLACK: usize = 8 << 10;

fn extents(sizes: &'static [u32]) -> Box<dyn Suite> {
    let all = Arc::new(calls());
    let (a1, a2) = (all.clone(), all.clone());
    let n = all.len() as u32;
    Box::new(Cases {
        name: "stack extent of every call".into(),
        bound: format!("{n} calls on structures of {sizes:?} elements: bytes of stack and nesting of node releases may grow by a constant only ({SLACK} bytes, 12 levels)"),
        generate: Box::new(move |visit| {
            for i in 0..n {
                if !visit(&[i]) {
                    return;
                }
            }
        }),
        run: Box::new(move |c| {
            let call = &a1[c[0] as usize].1;
            let mut base: Option<Measured> = None;
            let mut key = c[0] as u64;
            for s in sizes {
                // On a thread with room, so that what grows is measured and not a crash.
                let (b, d) = call(*s);
                key = mix(key, d as u64);
                match base {
                    None => base = Some((b, d)),
                    Some((b0, d0)) => {
                        if b > b0 + SLACK || d > d0 + 12 {
                            return Err(format!("with {} elements it uses {b0} bytes of stack (node releases nest {d0} deep), with {s} elements {b} bytes ({d} deep)", sizes[0]));
                        }
                    }
                }
            }
            let mut s = Seen::new(true, key);
            s.extra.push(("calls_measured", sizes.len() as u64));
            Ok(s)
        }),
        show: Box::new(move |c| a2[c[0] as usize].0.clone()),
    })
}

// ------------------------------------------------------------------------------ sharing patterns

/// Four versions that share a sequence at every choice of positions, dropped in every order.
trait Seq: Send + Sync + 'static {
    type S: Clone + Send;
    const NAME: &'static str;
    fn build(n: u32) -> Self::S;
    fn cut(s: &Self::S) -> Option<Self::S>;
    fn grow(s: &Self::S, k: u32) -> Self::S;
    fn shrink_mut(s: &mut Self::S) -> bool;
}
struct SeqList;
impl Seq for SeqList {
    type S = List<Key, McK>;
    const NAME: &'static str = "List";
    fn build(n: u32) -> Self::S {
        keys(n).collect()
    }
    fn cut(s: &Self::S) -> Option<Self::S> {
        s.drop_first()
    }
    fn grow(s: &Self::S, k: u32) -> Self::S {
        s.push_front(Key::new(k))
    }
    fn shrink_mut(s: &mut Self::S) -> bool {
        s.drop_first_mut()
    }
}
struct SeqStack;
impl Seq for SeqStack {
    type S = Stack<Key, McK>;
    const NAME: &'static str = "Stack";
    fn build(n: u32) -> Self::S {
        keys(n).collect()
    }
    fn cut(s: &Self::S) -> Option<Self::S> {
        s.pop()
    }
    fn grow(s: &Self::S, k: u32) -> Self::S {
        s.push(Key::new(k))
    }
    fn shrink_mut(s: &mut Self::S) -> bool {
        s.pop_mut()
    }
}
struct SeqQueue;
impl Seq for SeqQueue {
    type S = Queue<Key, McK>;
    const NAME: &'static str = "Queue";
    fn build(n: u32) -> Self::S {
        let mut q: Self::S = keys(n - n / 4).collect();
        q.dequeue_mut();
        for k in keys(n / 4 + 1) {
            q.enqueue_mut(k);
        }
        q
    }
    fn cut(s: &Self::S) -> Option<Self::S> {
        s.dequeue()
    }
    fn grow(s: &Self::S, k: u32) -> Self::S {
        s.enqueue(Key::new(k))
    }
    fn shrink_mut(s: &mut Self::S) -> bool {
        s.dequeue_mut()
    }
}
/// A trie whose entries are all in one bucket.
struct SeqBucket;
impl Seq for SeqBucket {
    type S = HashTrieMap<Key, Key, McK, TableHash>;
    const NAME: &'static str = "HashTrieMap bucket";
    fn build(n: u32) -> Self::S {
        let mut m = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(TableHash(Arc::new(vec![5; 20000])), 64);
        for i in 0..n {
            m.insert_mut(Key::new(i), Key::new(i));
        }
        m
    }
    fn cut(s: &Self::S) -> Option<Self::S> {
        let k = s.keys().next()?.v;
        Some(s.remove(&Key::new(k)))
    }
    fn grow(s: &Self::S, k: u32) -> Self::S {
        s.insert(Key::new(10000 + k), Key::new(k))
    }
    fn shrink_mut(s: &mut Self::S) -> bool {
        let first = s.keys().next().map(|k| k.v);
        match first {
            Some(k) => s.remove_mut(&Key::new(k)),
            None => false,
        }
    }
}

/// Versions: the whole, cut at `a`, cut at `b`, and one grown from the cut at `a`.
fn family_of<Q: Seq>(n: u32, a: u32, b: u32) -> Vec<Q::S> {
    let whole = Q::build(n);
    let mut c = whole.clone();
    let mut at = vec![];
    for i in 0..=a.max(b) {
        if i == a {
            at.push(c.clone());
        }
        if i == b {
            at.push(c.clone());
        }
        match Q::cut(&c) {
            Some(d) => c = d,
            None => break,
        }
    }
    let grown = Q::grow(&Q::grow(&at[0], 1), 2);
    at.insert(0, whole);
    at.push(grown);
    at
}

const NEST: u32 = 16;

fn sharing<Q: Seq>(n: u32) -> Box<dyn Suite> {
    let perms: Arc<Vec<Vec<usize>>> = Arc::new({
        let mut out = vec![];
        for a in 0..4 {
            for b in 0..4 {
                for c in 0..4 {
                    for d in 0..4 {
                        let p = vec![a, b, c, d];
                        if (0..4).all(|x| p.contains(&x)) {
                            out.push(p);
                        }
                    }
                }
            }
        }
        out
    });
    let p2 = perms.clone();
    let cuts = [0, 1, n / 2, n - 2, n];
    Box::new(Cases {
        name: format!("teardown of shared {}s", Q::NAME),
        bound: format!("{n} elements; a version of them all, versions cut at every pair of 5 positions, one grown from a cut; every order of getting rid of the four, 3 ways"),
        generate: Box::new(move |visit| {
            for a in cuts {
                for b in cuts {
                    for p in 0..24 {
                        for how in 0..3 {
                            if !visit(&[a, b, p, how]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let mut vs: Vec<Option<Q::S>> = family_of::<Q>(n, c[0], c[1]).into_iter().map(Some).collect();
            let mut k = mix(c[2] as u64, c[0] as u64);
            let mut worst = (0, 0);
            for i in &perms[c[2] as usize] {
                let Some(slot) = vs.get_mut(*i) else { continue };
                let mut v = slot.take().unwrap();
                let (_, bytes, nest) = measure_stack(|| match c[3] {
                    0 => drop(v),
                    1 => while Q::shrink_mut(&mut v) {},
                    _ => {
                        v = Q::build(0);
                        drop(v);
                    }
                });
                worst = (worst.0.max(bytes), worst.1.max(nest));
                k = mix(k, nest as u64);
                if nest > NEST || bytes > 16 << 10 {
                    return Err(format!("getting rid of version {i} uses {bytes} bytes of stack, node releases nest {nest} deep"));
                }
            }
            Ok(Seen::new(true, mix(k, c[3] as u64 + c[1] as u64 * 8)))
        }),
        show: Box::new(move |c| {
            format!("{n} elements, cut at {} and {}, versions disposed of in order {:?} by {}", c[0], c[1], p2[c[2] as usize], ["drop", "removing elements in place until empty", "assignment"][c[3] as usize])
        }),
    })
}

// ------------------------------------------------------------------------------------ concurrently

/// Each thread owns some versions and gets rid of them one after the other, in every way.
fn racing<Q: Seq>(n: u32, threads: usize, per: usize, preemptions: u32, allowance: u32) -> Box<dyn Suite> {
    let cuts: Vec<u32> = vec![0, 1, n / 2];
    Box::new(Threads {
        name: format!("{threads} threads each dispose of {per} {} of {n}", Q::NAME),
        bound: format!("{n} elements; every choice of versions (whole, cut at 1, cut at {}); dropping, shrinking in place, or replacing; base version kept or not", n / 2),
        preemptions,
        fine: false,
        scenarios: Box::new(move || {
            // per thread: a way, and `per` versions
            let mut progs: Vec<Vec<u32>> = vec![];
            for how in 0..3u32 {
                let mut seqs: Vec<Vec<u32>> = vec![vec![]];
                for _ in 0..per {
                    seqs = seqs.into_iter().flat_map(|s| (0..cuts.len() as u32).map(move |c| [s.clone(), vec![c]].concat())).collect();
                }
                for s in seqs {
                    progs.push([vec![how], s].concat());
                }
            }
            let mut out = vec![];
            let mut rec: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..threads {
                rec = rec.into_iter().flat_map(|r| { let from = r.last().copied().unwrap_or(0); (from..progs.len()).map(move |p| [r.clone(), vec![p]].concat()) }).collect();
            }
            for base in 0..2 {
                for r in &rec {
                    let mut d = vec![base];
                    for p in r {
                        d.extend(&progs[*p]);
                    }
                    out.push(d);
                }
            }
            out
        }),
        make: Box::new(move |d| {
            let base = Q::build(n);
            let mut at = vec![base.clone()];
            let mut c = base.clone();
            for i in 1..=n / 2 {
                c = Q::cut(&c).unwrap();
                if i == 1 || i == n / 2 {
                    at.push(c.clone());
                }
            }
            drop(c);
            let mut bodies: Vec<mc_core::sched::Body> = vec![];
            for p in d[1..].chunks(per + 1) {
                let how = p[0];
                let mine: Vec<Q::S> = p[1..].iter().map(|c| at[*c as usize].clone()).collect();
                bodies.push(Box::new(move || {
                    TLS.with(|t| {
                        t.depth.set(0);
                        t.max_depth.set(0);
                    });
                    for mut v in mine {
                        match how {
                            0 => drop(v),
                            1 => while Q::shrink_mut(&mut v) {},
                            _ => {
                                v = Q::grow(&v, 9);
                                drop(v);
                            }
                        }
                    }
                    let nest = TLS.with(|t| t.max_depth.get());
                    if nest > allowance {
                        return Err(format!("node releases nest {nest} deep (at most {allowance} without recursing along the {n} elements)"));
                    }
                    Ok(())
                }));
            }
            drop(at);
            let keep = if d[0] == 0 { None } else { Some(base) };
            Scenario {
                bodies,
                judge: Box::new(move || {
                    drop(keep);
                    let (b, t) = (universe::live_blocks(), universe::live_toks());
                    if b != 0 || t != 0 {
                        return Err(format!("{b} nodes and {t} elements are left"));
                    }
                    Ok(universe::counters().uniq << 16 | universe::counters().rc_drop)
                }),
            }
        }),
        describe: Box::new(move |d| {
            let t: Vec<String> = d[1..].chunks(per + 1).map(|p| format!("{} versions {:?}", ["drop", "shrink in place", "grow persistently and drop"][p[0] as usize], &p[1..])).collect();
            format!("{} of {n}; base {}; threads: {}", Q::NAME, if d[0] == 1 { "kept" } else { "dropped" }, t.join(" | "))
        }),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let j = Judge { nest: Some(4), ..Default::default() };
    let b = if q { 2 } else { 3 };
    vec![
        extents(if q { &[512, 2048] } else { &[512, 2048, 8192] }),
        World::new("nesting", ListF { max: if q { 6 } else { 8 } }, 3, if q { 9 } else { 12 }, j).boxed(),
        World::new("nesting", StackF { max: if q { 6 } else { 8 } }, 3, if q { 12 } else { 16 }, j).boxed(),
        World::new("nesting", QueueF { max: 6 }, 2, if q { 10 } else { 14 }, j).boxed(),
        World::new("nesting", QueueF { max: 5 }, 3, if q { 7 } else { 9 }, j).boxed(),
        sharing::<SeqList>(500),
        sharing::<SeqStack>(500),
        sharing::<SeqQueue>(500),
        sharing::<SeqBucket>(if q { 60 } else { 120 }),
        racing::<SeqList>(10, 2, 1, b, 5),
        racing::<SeqStack>(10, 2, 1, b, 5),
        racing::<SeqQueue>(12, 2, 1, b, 5),
        racing::<SeqList>(12, 2, 2, if q { 1 } else { 2 }, 6),
        racing::<SeqList>(10, 3, 1, if q { 1 } else { 2 }, 6),
        racing::<SeqBucket>(24, 2, 1, 1, 20),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C15",
        level: "model_checking",
        rule: "states, transitions: versions reached by histories of several coexisting versions (each step and each teardown measured) and nodes of the schedule trees of threads that dispose of shared versions; evaluations: those executions, every listed call measured on small and large structures, and every order of disposing of versions that share a large structure. A case is judged by the bytes of stack below the call (probed at every node access and callback) and by how deep node releases nest",
        assumptions: &["stack use is probed at every node access, node allocation, node release and callback into elements; a recursion along the elements does at least one of these per level", "the depth may grow with the number of versions disposed of at the same time, not with the number of elements"],
        suites,
    })
}
