//! Structures with tens of thousands of elements, on the shipping pointer kinds, at the sizes where
//! a counter, an index or a level could run out: every way of building one, then every operation at
//! every interesting place, then down to nothing, against plain `Vec`s and `BTreeMap`s.
use crate::fam::{PK, R};
use crate::want;
use archery::{ArcK, ArcTK, RcK};
use mc_core::cases::{Cases, Seen, mix};
use mc_core::run::{Suite, Tier};
use rpds::*;
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    /// What the structure holds.
    Contents,
    /// Versions kept from before.
    Old,
    /// Comparison and hashing.
    Compare,
    /// Subsets and the like.
    Relations,
    /// Every way of iterating.
    Iterate,
    /// Ranges of trees.
    Range,
    /// Out through serde and in again.
    Serde,
    /// Collected, against built one by one.
    Bulk,
}
use Part::*;

type H = BuildHasherDefault<DefaultHasher>;

/// A hasher that hands the key through: neighbours share everything but the lowest digits.
#[derive(Default, Clone)]
pub struct Through(u64);
impl Hasher for Through {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = x as u64;
    }
}
type HThrough = BuildHasherDefault<Through>;

fn value(i: u32) -> u32 {
    i.wrapping_mul(2_654_435_761)
}

pub fn boundaries(t: Tier) -> Vec<u32> {
    if t == Tier::Quick {
        vec![4096, 32768, 32801, 65536, 65537]
    } else {
        vec![4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 32800, 32801, 49152, 65535, 65536, 65537, 66560, 66561, 100_000, 131_071, 131_072, 131_073, 262_145, 300_000]
    }
}

/// Interesting positions among n.
fn places(n: u32) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 31, 32, 1023, 1024, 32767, 32768, 65535, 65536, n / 2, n / 3];
    for b in [0u32, 1, 5, 10, 15, 16] {
        v.push(n.saturating_sub(1) >> b << b);
        v.push((n.saturating_sub(1) >> b << b).saturating_sub(1));
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

/// Look closely at this size on the way down?
fn stop_at(n: usize) -> bool {
    n <= 2 || [33, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537].contains(&n)
}

fn all<T: PartialEq + std::fmt::Debug>(what: &str, got: impl Iterator<Item = T>, exp: impl Iterator<Item = T>) -> R {
    let (mut g, mut e) = (got, exp);
    let mut i = 0usize;
    loop {
        let (a, b) = (g.next(), e.next());
        if a != b {
            return Err(format!("{what}: number {i} is {a:?}, expected {b:?}"));
        }
        if a.is_none() {
            return Ok(());
        }
        i += 1;
    }
}

fn fed<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn comparisons<T: PartialEq + Hash>(same: &[T], others: &[T]) -> R {
    for (i, a) in same.iter().enumerate() {
        for (j, b) in same.iter().enumerate() {
            if a != b {
                return Err(format!("builds {i} and {j} of the same contents are not equal"));
            }
            if fed(a) != fed(b) {
                return Err(format!("builds {i} and {j} of the same contents hash differently"));
            }
        }
        for (j, b) in others.iter().enumerate() {
            if a == b || b == a {
                return Err(format!("build {i} equals something else ({j})"));
            }
        }
    }
    Ok(())
}

fn order<T: Ord + PartialOrd>(a: &T, less: &[T], greater: &[T]) -> R {
    use std::cmp::Ordering::*;
    want!("cmp with itself", a.cmp(a), Equal);
    for (i, b) in less.iter().enumerate() {
        want!(format!("cmp with a smaller one ({i})"), (a.cmp(b), b.cmp(a), a.partial_cmp(b), a > b), (Greater, Less, Some(Greater), true));
    }
    for (i, b) in greater.iter().enumerate() {
        want!(format!("cmp with a greater one ({i})"), (a.cmp(b), b.cmp(a), a.partial_cmp(b), a < b), (Less, Greater, Some(Less), true));
    }
    Ok(())
}

/// The same walk over any two-ended iterator of known length.
fn walk<'a, T: Clone + PartialEq + std::fmt::Debug + 'a>(what: &str, make: impl Fn() -> (usize, Box<dyn DoubleEndedIterator<Item = T> + 'a>), m: &[T]) -> R {
    let (n, it) = make();
    want!(format!("{what}: len"), n, m.len());
    want!(format!("{what}: size_hint"), it.size_hint(), (m.len(), Some(m.len())));
    all(what, it, m.iter().cloned())?;
    all(&format!("{what} reversed"), make().1.rev(), m.iter().rev().cloned())?;
    // from both ends, in runs of 1, 2, 4, ...
    let (mut it, mut f, mut b, mut run) = (make().1, 0usize, m.len(), 1usize);
    while f < b {
        for _ in 0..run {
            let e = (f < b).then(|| m[f].clone());
            want!(format!("{what}: next after {f} and {} from the back", m.len() - b), it.next(), e);
            f += (f < b) as usize;
        }
        for _ in 0..run {
            let e = (f < b).then(|| m[b - 1].clone());
            want!(format!("{what}: next_back after {f} and {} from the back", m.len() - b), it.next_back(), e);
            b -= (f < b) as usize;
        }
        want!(format!("{what}: size_hint in the middle"), it.size_hint(), (b - f, Some(b - f)));
        run *= 2;
    }
    want!(format!("{what}: next at the end"), (it.next(), it.next_back()), (None, None));
    for p in places(m.len() as u32) {
        let p = p as usize;
        want!(format!("{what}: nth({p})"), make().1.nth(p), Some(m[p].clone()));
        want!(format!("{what}: nth_back({p})"), make().1.nth_back(p), Some(m[m.len() - 1 - p].clone()));
    }
    want!(format!("{what}: nth(len)"), make().1.nth(m.len()), None);
    want!(format!("{what}: last"), make().1.last(), m.last().cloned());
    want!(format!("{what}: count"), make().1.count(), m.len());
    Ok(())
}

macro_rules! both_ends {
    ($what:expr, $make:expr, $m:expr) => {
        walk($what, || ($make.len(), Box::new($make)), $m)
    };
}

// ------------------------------------------------------------------------------------- sequences

const SEQ_FORMS: [&str; 4] = ["in place", "persistent", "collected", "with removals in between"];

fn list_build<P: PK>(form: u32, v: &[u32]) -> List<u32, P> {
    let mut l = List::new_with_ptr_kind();
    match form {
        0 => v.iter().rev().for_each(|x| l.push_front_mut(*x)),
        1 => v.iter().rev().for_each(|x| l = l.push_front(*x)),
        2 => l = v.iter().copied().collect(),
        _ => {
            for x in v {
                l.push_front_mut(*x);
                l.push_front_mut(*x);
                l.drop_first_mut();
            }
            l.reverse_mut();
        }
    }
    l
}

fn list_is<P: PK>(l: &List<u32, P>, v: &[u32]) -> R {
    want!("len()", (l.len(), l.is_empty()), (v.len(), v.is_empty()));
    want!("first() and last()", (l.first(), l.last()), (v.first(), v.last()));
    all("iteration", l.iter(), v.iter())
}

fn list<P: PK>(part: Part, n: u32, form: u32) -> R {
    let v: Vec<u32> = (0..n).map(value).collect();
    let mut l = list_build::<P>(form, &v);
    let rev: Vec<u32> = v.iter().rev().copied().collect();
    match part {
        Contents => {
            list_is(&l, &v)?;
            list_is(&l.reverse(), &rev)?;
            let mut r = l.clone();
            r.reverse_mut();
            list_is(&r, &rev)?;
            r.push_front_mut(7);
            list_is(&r, &[&[7], &rev[..]].concat())?;
            l.reverse_mut();
            l.reverse_mut();
            for i in 0..v.len() {
                want!("first() on the way down", (l.first(), l.last(), l.len()), (v.get(i), v.last(), v.len() - i));
                if stop_at(l.len()) {
                    list_is(&l, &v[i..])?;
                }
                if i % 3 == 0 {
                    l = l.drop_first().ok_or("drop_first() of a non-empty list failed")?;
                } else {
                    want!("drop_first_mut()", l.drop_first_mut(), true);
                }
            }
            list_is(&l, &[])?;
            want!("drop_first of nothing", (l.drop_first_mut(), l.drop_first().is_some()), (false, false));
        }
        Old => {
            let old = l.clone();
            l.reverse_mut();
            list_is(&old, &v)?;
            let mut l2 = old.clone();
            while l2.drop_first_mut() {}
            list_is(&old, &v)?;
            l.push_front_mut(1);
            drop(l2);
            list_is(&old, &v)?;
            list_is(&l, &[&[1], &rev[..]].concat())?;
            drop(l);
            list_is(&old, &v)?;
        }
        Compare => {
            let b: Vec<List<u32, P>> = (0..4).map(|f| list_build(f, &v)).collect();
            let o: Vec<List<u32, P>> = vec![l.drop_first().unwrap(), l.push_front(0), list_build(form, &[&v[..], &[0]].concat()), list_build(form, &v[..v.len() - 1]), list_build(form, &bumped(&v))];
            comparisons(&b, &o)?;
            order(&l, &[o[3].clone()], &[o[2].clone(), o[4].clone()])?;
        }
        Iterate => {
            want!("size_hint()", l.iter().size_hint(), (v.len(), Some(v.len())));
            all("iteration", l.iter(), v.iter())?;
            all("into_iter of a reference", (&l).into_iter(), v.iter())?;
            for p in places(n) {
                want!(format!("nth({p})"), l.iter().nth(p as usize), v.get(p as usize));
            }
            want!("count()", (l.iter().count(), l.iter().last()), (v.len(), v.last()));
        }
        Serde => {
            let s = text(&l)?;
            want!("what was written", &s, &text(&v)?);
            list_is(&read::<List<u32, P>>(&s)?, &v)?;
        }
        Bulk => {
            let b = list_build::<P>(2, &v);
            list_is(&b, &v)?;
            want!("equal to the one built by hand", (b == l, l == b), (true, true));
        }
        Range | Relations => {}
    }
    Ok(())
}

/// The same with the last element increased.
fn bumped(v: &[u32]) -> Vec<u32> {
    let mut w = v.to_vec();
    *w.last_mut().unwrap() = u32::MAX;
    w
}

fn text<T: serde::Serialize>(x: &T) -> R<String> {
    serde_json::to_string(x).map_err(|e| format!("serializing fails: {e}"))
}
fn read<'a, T: serde::Deserialize<'a>>(s: &'a str) -> R<T> {
    serde_json::from_str(s).map_err(|e| format!("deserializing fails: {e}"))
}

fn stack<P: PK>(part: Part, n: u32, form: u32) -> R {
    let v: Vec<u32> = (0..n).map(value).collect();
    let build = |form: u32, v: &[u32]| -> Stack<u32, P> {
        let mut s = Stack::new_with_ptr_kind();
        match form {
            0 => v.iter().rev().for_each(|x| s.push_mut(*x)),
            1 => v.iter().rev().for_each(|x| s = s.push(*x)),
            2 => s = v.iter().copied().collect(),
            _ => v.iter().rev().for_each(|x| {
                s.push_mut(*x);
                s.push_mut(*x);
                s.pop_mut();
            }),
        }
        s
    };
    let is = |s: &Stack<u32, P>, v: &[u32]| -> R {
        want!("size()", (s.size(), s.is_empty()), (v.len(), v.is_empty()));
        want!("peek()", s.peek(), v.first());
        all("iteration", s.iter(), v.iter())
    };
    let mut s = build(form, &v);
    match part {
        Contents => {
            is(&s, &v)?;
            for i in 0..v.len() {
                want!("peek() on the way down", (s.peek(), s.size()), (v.get(i), v.len() - i));
                if stop_at(s.size()) {
                    is(&s, &v[i..])?;
                }
                if i % 3 == 0 {
                    s = s.pop().ok_or("pop() of a non-empty stack failed")?;
                } else {
                    want!("pop_mut()", s.pop_mut(), true);
                }
            }
            is(&s, &[])?;
            want!("pop of nothing", (s.pop_mut(), s.pop().is_some()), (false, false));
        }
        Old => {
            let old = s.clone();
            while s.pop_mut() {}
            is(&old, &v)?;
            let more = old.push(1);
            is(&old, &v)?;
            is(&more, &[&[1], &v[..]].concat())?;
        }
        Compare => {
            let b: Vec<_> = (0..4).map(|f| build(f, &v)).collect();
            let o = vec![s.pop().unwrap(), s.push(0), build(form, &[&v[..], &[0]].concat()), build(form, &v[..v.len() - 1]), build(form, &bumped(&v))];
            comparisons(&b, &o)?;
            order(&s, &[o[3].clone()], &[o[2].clone(), o[4].clone()])?;
        }
        Iterate => {
            want!("size_hint()", s.iter().size_hint(), (v.len(), Some(v.len())));
            all("iteration", s.iter(), v.iter())?;
        }
        Serde => {
            let x = text(&s)?;
            want!("what was written", &x, &text(&v)?);
            is(&read(&x)?, &v)?;
        }
        Bulk => {
            let b = build(2, &v);
            is(&b, &v)?;
            want!("equal to the one built by hand", (b == s, s == b), (true, true));
        }
        Range | Relations => {}
    }
    Ok(())
}

fn queue<P: PK>(part: Part, n: u32, form: u32) -> R {
    let v: Vec<u32> = (0..n).map(value).collect();
    let build = |form: u32, v: &[u32]| -> Queue<u32, P> {
        let mut q = Queue::new_with_ptr_kind();
        match form {
            0 => v.iter().for_each(|x| q.enqueue_mut(*x)),
            1 => v.iter().for_each(|x| q = q.enqueue(*x)),
            2 => q = v.iter().copied().collect(),
            _ => {
                // half of it on the way out, the other half on the way in
                q.enqueue_mut(9);
                v.iter().take(v.len() / 2).for_each(|x| q.enqueue_mut(*x));
                q.dequeue_mut();
                v.iter().skip(v.len() / 2).for_each(|x| q.enqueue_mut(*x));
            }
        }
        q
    };
    let is = |q: &Queue<u32, P>, v: &[u32]| -> R {
        want!("len()", (q.len(), q.is_empty()), (v.len(), v.is_empty()));
        want!("peek()", q.peek(), v.first());
        all("iteration", q.iter(), v.iter())
    };
    let mut q = build(form, &v);
    match part {
        Contents => {
            is(&q, &v)?;
            for i in 0..v.len() {
                want!("peek() on the way down", (q.peek(), q.len()), (v.get(i), v.len() - i));
                if stop_at(q.len()) {
                    is(&q, &v[i..])?;
                }
                if i % 3 == 0 {
                    q = q.dequeue().ok_or("dequeue() of a non-empty queue failed")?;
                } else {
                    want!("dequeue_mut()", q.dequeue_mut(), true);
                }
            }
            is(&q, &[])?;
            want!("dequeue of nothing", (q.dequeue_mut(), q.dequeue().is_some()), (false, false));
        }
        Old => {
            let old = q.clone();
            let mut other = old.clone();
            while q.dequeue_mut() {}
            is(&old, &v)?;
            other.enqueue_mut(3);
            other.dequeue_mut();
            is(&old, &v)?;
            is(&other, &[&v[1..], &[3]].concat())?;
            is(&old.dequeue().unwrap(), &v[1..])?;
        }
        Compare => {
            let b: Vec<_> = (0..4).map(|f| build(f, &v)).collect();
            let o = vec![q.dequeue().unwrap(), q.enqueue(0), build(form, &v[..v.len() - 1]), build(form, &bumped(&v))];
            comparisons(&b, &o)?;
            order(&q, &[o[2].clone()], &[o[1].clone(), o[3].clone()])?;
        }
        Iterate => {
            all("iteration", q.iter(), v.iter())?;
            all("into_iter of a reference", (&q).into_iter(), v.iter())?;
            let (lo, hi) = q.iter().size_hint();
            if lo > v.len() || hi.is_some_and(|h| h < v.len()) {
                return Err(format!("size_hint() {:?} for {} elements", (lo, hi), v.len()));
            }
        }
        Serde => {
            let x = text(&q)?;
            want!("what was written", &x, &text(&v)?);
            is(&read(&x)?, &v)?;
        }
        Bulk => {
            let b = build(2, &v);
            is(&b, &v)?;
            want!("equal to the one built by hand", (b == q, q == b), (true, true));
        }
        Range | Relations => {}
    }
    Ok(())
}

fn vector<P: PK>(bits: u8, part: Part, n: u32, form: u32) -> R {
    let v: Vec<u32> = (0..n).map(value).collect();
    let build = |form: u32, v: &[u32]| -> Vector<u32, P> {
        let mut x = if bits == 5 { Vector::new_with_ptr_kind() } else { Vector::new_with_bits(bits) };
        match form {
            0 => v.iter().for_each(|i| x.push_back_mut(*i)),
            1 => v.iter().for_each(|i| x = x.push_back(*i)),
            2 if bits == 5 => x = v.iter().copied().collect(),
            2 => x.extend(v.iter().copied()),
            _ => {
                let h = v.len() / 3;
                x.extend(v[..h].iter().copied());
                for i in &v[h..] {
                    x.push_back_mut(*i);
                    x.push_back_mut(*i);
                    x.drop_last_mut();
                }
            }
        }
        x
    };
    let is = |x: &Vector<u32, P>, v: &[u32]| -> R {
        want!("len()", (x.len(), x.is_empty()), (v.len(), v.is_empty()));
        want!("first() and last()", (x.first(), x.last()), (v.first(), v.last()));
        for i in 0..v.len() {
            if x.get(i) != v.get(i) {
                return Err(format!("get({i}) is {:?}, expected {:?}", x.get(i), v.get(i)));
            }
        }
        for p in [0, 1, 2, 31, 32, 1024, 32768, 1 << 16, 1 << 32, usize::MAX - v.len()] {
            want!(format!("get(len + {p})"), x.get(v.len() + p), None);
        }
        all("iteration", x.iter(), v.iter())
    };
    let mut x = build(form, &v);
    match part {
        Contents => {
            is(&x, &v)?;
            let mut m = v.clone();
            for p in places(n) {
                let p = p as usize;
                let y = x.set(p, 5).ok_or(format!("set({p}) refused"))?;
                let mut w = m.clone();
                w[p] = 5;
                is(&y, &w)?;
                drop(y);
                *x.get_mut(p).ok_or(format!("get_mut({p}) refused"))? = 6;
                m[p] = 6;
                want!(format!("set_mut({p})"), x.set_mut(p, 6), true);
                want!(format!("index {p}"), x[p], 6);
            }
            is(&x, &m)?;
            want!("writes at the end", (x.set(m.len(), 0).is_some(), x.set_mut(m.len(), 0), x.get_mut(m.len()).is_some()), (false, false, false));
            is(&x.push_back(8), &[&m[..], &[8]].concat())?;
            for i in (0..m.len()).rev() {
                want!("last() on the way down", (x.last(), x.len(), x.get(i + 1), x.get(i / 2)), (m.get(i), i + 1, None, m.get(i / 2)));
                if stop_at(x.len()) {
                    is(&x, &m[..=i])?;
                }
                if i % 3 == 0 {
                    x = x.drop_last().ok_or("drop_last() of a non-empty vector failed")?;
                } else {
                    want!("drop_last_mut()", x.drop_last_mut(), true);
                }
            }
            is(&x, &[])?;
            want!("drop_last of nothing", (x.drop_last_mut(), x.drop_last().is_some()), (false, false));
            x.push_back_mut(1);
            is(&x, &[1])?;
        }
        Old => {
            let old = x.clone();
            for p in places(n) {
                x.set_mut(p as usize, 1);
                *x.get_mut((n - 1 - p) as usize).unwrap() = 2;
            }
            is(&old, &v)?;
            let before: Vec<u32> = x.iter().copied().collect();
            let mid = x.clone();
            for _ in 0..40 {
                x.push_back_mut(3);
            }
            while x.drop_last_mut() {}
            is(&old, &v)?;
            is(&mid, &before)?;
            drop(old);
            is(&mid, &before)?;
        }
        Compare => {
            let b: Vec<_> = (0..4).map(|f| build(f, &v)).collect();
            let o = vec![x.drop_last().unwrap(), x.push_back(0), build(form, &bumped(&v)), x.set(0, 77).unwrap()];
            comparisons(&b, &o)?;
            order(&x, &[o[0].clone()], &[o[1].clone(), o[2].clone(), o[3].clone()])?;
            // branching factors do not matter
            let mut y = Vector::new_with_bits(if bits == 3 { 6 } else { 3 });
            y.extend(v.iter().copied());
            comparisons(&[x, y], &[])?;
        }
        Iterate => {
            let m: Vec<&u32> = v.iter().collect();
            both_ends!("iteration", x.iter(), &m)?;
            both_ends!("into_iter of a reference", (&x).into_iter(), &m)?;
        }
        Serde => {
            let s = text(&x)?;
            want!("what was written", &s, &text(&v)?);
            is(&read(&s)?, &v)?;
        }
        Bulk => {
            let b = build(2, &v);
            is(&b, &v)?;
            want!("equal to the one built by hand", (b == x, x == b), (true, true));
        }
        Range | Relations => {}
    }
    Ok(())
}

// -------------------------------------------------------------------------------- maps and sets

const MAP_FORMS: [&str; 5] = ["ascending, in place", "descending, persistent", "collected, with repeated keys", "scattered, with removals in between", "alternating ends, with replacements"];

/// Keys in this order; keys are even, so that odd ones are absent.
fn keys(form: u32, n: u32) -> Vec<u32> {
    match form {
        0 => (0..n).map(|i| 2 * i).collect(),
        1 => (0..n).rev().map(|i| 2 * i).collect(),
        4 => (0..n).map(|i| if i % 2 == 0 { i } else { 2 * n - 1 - i }).collect(),
        _ => {
            let mut v: Vec<u32> = (0..n).map(|i| 2 * i).collect();
            v.sort_by_key(|i| value(*i));
            v
        }
    }
}

type M = BTreeMap<u32, u32>;

fn model(n: u32) -> M {
    (0..n).map(|i| (2 * i, value(i))).collect()
}

/// What maps have in common.
trait Map: Clone + FromIterator<(u32, u32)> + PartialEq {
    fn new() -> Self;
    fn ins(&mut self, k: u32, v: u32);
    fn with(&self, k: u32, v: u32) -> Self;
    fn rem(&mut self, k: u32) -> bool;
    fn without(&self, k: u32) -> Self;
    fn is(&self, m: &M) -> R;
    fn g(&self, k: u32) -> Option<u32>;
    fn gm(&mut self, k: u32) -> Option<&mut u32>;
    fn n(&self) -> usize;
    fn same_version(&self, o: &Self) -> bool;
}

macro_rules! map {
    ($t:ty, $sorted:expr, $new:expr, |$s:ident, $m:ident| $more:expr) => {
        impl<P: PK> Map for $t {
            fn new() -> Self {
                $new
            }
            fn ins(&mut self, k: u32, v: u32) {
                self.insert_mut(k, v)
            }
            fn with(&self, k: u32, v: u32) -> Self {
                self.insert(k, v)
            }
            fn rem(&mut self, k: u32) -> bool {
                self.remove_mut(&k)
            }
            fn without(&self, k: u32) -> Self {
                self.remove(&k)
            }
            fn g(&self, k: u32) -> Option<u32> {
                self.get(&k).copied()
            }
            fn gm(&mut self, k: u32) -> Option<&mut u32> {
                self.get_mut(&k)
            }
            fn n(&self) -> usize {
                self.size()
            }
            fn same_version(&self, o: &Self) -> bool {
                self.ptr_eq(o)
            }
            fn is(&self, $m: &M) -> R {
                let $s = self;
                want!("size()", ($s.size(), $s.is_empty()), ($m.len(), $m.is_empty()));
                for (k, v) in $m {
                    if $s.get(k) != Some(v) || !$s.contains_key(k) || $s.contains_key(&(k + 1)) != $m.contains_key(&(k + 1)) {
                        return Err(format!("get({k}) is {:?}, expected {v:?}; get({}) is {:?}", $s.get(k), k + 1, $s.get(&(k + 1))));
                    }
                }
                if $sorted {
                    all("iteration", $s.iter(), $m.iter())?;
                } else {
                    let mut c: Vec<(&u32, &u32)> = $s.iter().collect();
                    c.sort();
                    all("iteration (sorted)", c.into_iter(), $m.iter())?;
                }
                $more
            }
        }
    };
}
map!(RedBlackTreeMap<u32, u32, P>, true, RedBlackTreeMap::new_with_ptr_kind(), |s, m| {
    want!("first() and last()", (s.first(), s.last()), (m.first_key_value(), m.last_key_value()));
    all("iteration from the back", s.iter().rev(), m.iter().rev())
});
map!(HashTrieMap<u32, u32, P, H>, false, HashTrieMap::new_with_hasher_and_ptr_kind(H::default()), |_s, _m| Ok(()));
map!(HashTrieMap<u32, u32, P, HThrough>, false, HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(HThrough::default(), 4), |_s, _m| Ok(()));

fn map_build<S: Map>(form: u32, n: u32) -> S {
    let mut s = S::new();
    let ks = keys(form, n);
    match form {
        0 => ks.iter().for_each(|k| s.ins(*k, value(k / 2))),
        1 => ks.iter().for_each(|k| s = s.with(*k, value(k / 2))),
        2 => s = ks.iter().map(|k| (*k, 0)).take(1000).chain(ks.iter().map(|k| (*k, value(k / 2)))).collect(),
        3 => {
            for k in &ks {
                s.ins(*k, value(k / 2));
                s.ins(*k + 1, 0);
                s.rem(*k + 1);
            }
        }
        _ => {
            for k in &ks {
                s.ins(*k, 1);
                *s.gm(*k).unwrap() = 2;
                s = s.with(*k, value(k / 2));
            }
        }
    }
    s
}

fn map_case<S: Map + Ser>(part: Part, n: u32, form: u32) -> R {
    let mut m = model(n);
    let mut s = map_build::<S>(form, n);
    match part {
        Contents => {
            s.is(&m)?;
            for p in places(n) {
                let k = 2 * p;
                *s.gm(k).ok_or(format!("get_mut({k}) is None"))? = 5;
                m.insert(k, 5);
                want!(format!("get({k}) after writing"), s.g(k), Some(5));
                want!(format!("get_mut({})", k + 1), s.gm(k + 1), None);
                want!(format!("remove_mut({})", k + 1), s.rem(k + 1), false);
                let without = s.without(k);
                want!(format!("size and get({k}) without {k}"), (without.n(), without.g(k)), (m.len() - 1, None));
                let with = s.with(k + 1, 1);
                want!(format!("size and get({}) with it", k + 1), (with.n(), with.g(k + 1)), (m.len() + 1, Some(1)));
                if p == 0 || p + 1 == n || p == n / 2 {
                    let mut w = m.clone();
                    w.remove(&k);
                    without.is(&w)?;
                    m.insert(k + 1, 1);
                    with.is(&m)?;
                    m.remove(&(k + 1));
                }
                want!(format!("size and get({k}) afterwards"), (s.n(), s.g(k), s.g(k + 1)), (m.len(), Some(5), None));
            }
            s.is(&m)?;
            // out in another order than in
            for (i, k) in keys((form + 2) % 5, n).into_iter().enumerate() {
                m.remove(&k);
                if i % 3 == 0 {
                    s = s.without(k);
                } else {
                    want!(format!("remove_mut({k})"), s.rem(k), true);
                }
                if i % 7 == 0 {
                    want!(format!("get({k}) after removing it"), (s.g(k), s.n()), (None, m.len()));
                }
                if stop_at(s.n()) {
                    s.is(&m)?;
                }
            }
            s.is(&m)?;
            want!("remove_mut of nothing", s.rem(0), false);
            s.ins(4, 4);
            s.is(&M::from([(4, 4)]))?;
        }
        Old => {
            let old = s.clone();
            for p in places(n) {
                if let Some(v) = s.gm(2 * p) {
                    *v = 5;
                }
                s.rem(2 * (n - 1 - p));
                s.ins(2 * p + 1, 0);
            }
            old.is(&m)?;
            let kept = s.clone();
            let n_kept = kept.n();
            for k in keys((form + 1) % 5, n) {
                s.rem(k);
            }
            old.is(&m)?;
            want!("size of the version in between", kept.n(), n_kept);
            drop(s);
            drop(kept);
            old.is(&m)?;
        }
        Compare => {
            let b: Vec<S> = (0..5).map(|f| map_build(f, n)).collect();
            let o = [s.without(0), s.with(1, 0), s.with(2 * (n / 2), 0), s.without(2 * (n - 1)), s.without(2).with(3, value(1))];
            for (i, a) in b.iter().enumerate() {
                for (j, c) in b.iter().enumerate() {
                    if a != c {
                        return Err(format!("builds {i} and {j} of the same entries are not equal"));
                    }
                }
                for (j, c) in o.iter().enumerate() {
                    if a == c || c == a {
                        return Err(format!("build {i} equals something else ({j})"));
                    }
                }
            }
            s.hash_and_order(&b, &o)?;
            if !s.same_version(&s.clone()) || s.same_version(&s.with(0, value(0)).without(0)) {
                return Err("ptr_eq is wrong".into());
            }
        }
        Iterate => s.iterate(&m)?,
        Range => s.ranges(&m)?,
        Relations => {}
        Bulk => {
            let b = map_build::<S>(2, n);
            b.is(&m)?;
            want!("equal to the one built by hand", (b == s, s == b), (true, true));
        }
        Serde => {
            let t = s.text()?;
            let back: S = S::read(&t)?;
            back.is(&m)?;
            if back != s {
                return Err("what was read back is not equal".into());
            }
            let plain: M = read(&t)?;
            want!("what was written (size)", plain.len(), m.len());
            if plain != m {
                return Err("what was written is not the entries".into());
            }
        }
    }
    Ok(())
}

trait Ser: Sized {
    fn text(&self) -> R<String>;
    fn read(s: &str) -> R<Self>;
    fn iterate(&self, m: &M) -> R;
    fn ranges(&self, _m: &M) -> R {
        Ok(())
    }
    fn hash_and_order(&self, _same: &[Self], _others: &[Self]) -> R {
        Ok(())
    }
}

macro_rules! hash_ser {
    ($h:ty) => {
        impl<P: PK> Ser for HashTrieMap<u32, u32, P, $h> {
            fn text(&self) -> R<String> {
                text(self)
            }
            fn read(s: &str) -> R<Self> {
                read(s)
            }
            fn iterate(&self, m: &M) -> R {
                let it: Vec<(&u32, &u32)> = self.iter().collect();
                want!("entries", it.len(), m.len());
                all("iteration again", self.iter(), it.iter().copied())?;
                all("into_iter of a reference", self.into_iter(), it.iter().copied())?;
                all("keys", self.keys(), it.iter().map(|e| e.0))?;
                all("values", self.values(), it.iter().map(|e| e.1))?;
                let mut i = self.iter();
                for left in (0..=it.len()).rev() {
                    if stop_at(left) || left % 997 == 0 {
                        want!("len()", (i.len(), i.size_hint()), (left, (left, Some(left))));
                    }
                    i.next();
                }
                want!("after the end", (i.next(), i.len()), (None, 0));
                for p in places(it.len() as u32) {
                    want!(format!("nth({p})"), self.iter().nth(p as usize), it.get(p as usize).copied());
                }
                Ok(())
            }
        }
    };
}
hash_ser!(H);
hash_ser!(HThrough);

impl<P: PK> Ser for RedBlackTreeMap<u32, u32, P> {
    fn text(&self) -> R<String> {
        text(self)
    }
    fn read(s: &str) -> R<Self> {
        read(s)
    }
    fn iterate(&self, m: &M) -> R {
        let e: Vec<(&u32, &u32)> = m.iter().collect();
        let k: Vec<&u32> = m.keys().collect();
        let v: Vec<&u32> = m.values().collect();
        both_ends!("iteration", self.iter(), &e)?;
        both_ends!("keys", self.keys(), &k)?;
        both_ends!("values", self.values(), &v)
    }
    fn ranges(&self, m: &M) -> R {
        use std::ops::Bound::*;
        let n = m.len() as u32;
        let mut at: Vec<u32> = vec![0, 1, 2, n, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 5];
        at.extend([2 * (n / 3), 2 * (n / 3) + 1, 131_072]);
        at.sort();
        at.dedup();
        let mut lo = vec![Unbounded];
        lo.extend(at.iter().flat_map(|k| [Included(*k), Excluded(*k)]));
        for a in &lo {
            for b in &lo {
                let bad = match (a, b) {
                    (Included(x) | Excluded(x), Included(y) | Excluded(y)) if x > y => true,
                    (Excluded(x), Excluded(y)) if x == y => true,
                    _ => false,
                };
                if bad {
                    if !mc_core::run::panics(|| drop(self.range::<u32, _>((*a, *b)))) {
                        return Err(format!("range {a:?}..{b:?} did not panic"));
                    }
                    continue;
                }
                all(&format!("range {a:?}..{b:?}"), self.range::<u32, _>((*a, *b)), m.range((*a, *b)))?;
                all(&format!("range {a:?}..{b:?} from the back"), self.range::<u32, _>((*a, *b)).rev(), m.range((*a, *b)).rev())?;
                // from both ends in turn
                let (mut i, mut j) = (self.range::<u32, _>((*a, *b)), m.range((*a, *b)));
                loop {
                    let (x, y) = ((i.next(), i.next_back()), (j.next(), j.next_back()));
                    want!(format!("range {a:?}..{b:?} from both ends"), x, y);
                    if x.1.is_none() {
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    fn hash_and_order(&self, same: &[Self], others: &[Self]) -> R {
        for b in same {
            want!("hash of the same entries", fed(b), fed(self));
            want!("cmp of the same entries", self.cmp(b), std::cmp::Ordering::Equal);
        }
        // without 0, with 1, middle value 0, without the last, 3 instead of 2
        order(self, &[others[3].clone(), others[1].clone(), others[2].clone()], &[others[0].clone(), others[4].clone()])
    }
}

fn set_case<P: PK>(tree: bool, part: Part, n: u32, form: u32) -> R {
    type HS<P> = HashTrieSet<u32, P, H>;
    type TS<P> = RedBlackTreeSet<u32, P>;
    let ks = keys(form, n);
    macro_rules! run {
        ($t:ty, $new:expr, $sorted:expr) => {{
            let build = |form: u32, ks: &[u32]| -> $t {
                let mut s: $t = $new;
                match form {
                    0 => ks.iter().for_each(|k| s.insert_mut(*k)),
                    1 => ks.iter().for_each(|k| s = s.insert(*k)),
                    2 => s = ks.iter().take(500).chain(ks).copied().collect(),
                    _ => ks.iter().for_each(|k| {
                        s.insert_mut(*k);
                        s.insert_mut(*k + 1);
                        s.remove_mut(&(*k + 1));
                    }),
                }
                s
            };
            let is = |s: &$t, m: &std::collections::BTreeSet<u32>| -> R {
                want!("size()", (s.size(), s.is_empty()), (m.len(), m.is_empty()));
                for k in m {
                    if s.get(k) != Some(k) || !s.contains(k) {
                        return Err(format!("{k} is missing"));
                    }
                }
                let mut c: Vec<&u32> = s.iter().collect();
                if !$sorted {
                    c.sort();
                }
                all("iteration", c.into_iter(), m.iter())
            };
            let mut m: std::collections::BTreeSet<u32> = ks.iter().copied().collect();
            let mut s = build(form, &ks);
            match part {
                Contents => {
                    is(&s, &m)?;
                    for (i, k) in keys((form + 2) % 5, n).into_iter().enumerate() {
                        m.remove(&k);
                        if i % 3 == 0 {
                            s = s.remove(&k);
                        } else {
                            want!(format!("remove_mut({k})"), s.remove_mut(&k), true);
                        }
                        if i % 7 == 0 {
                            want!(format!("contains({k}) after removing it"), (s.contains(&k), s.contains(&(k + 1)), s.size()), (false, false, m.len()));
                        }
                        if stop_at(s.size()) {
                            is(&s, &m)?;
                        }
                    }
                    want!("remove_mut of nothing", s.remove_mut(&0), false);
                }
                Old => {
                    let old = s.clone();
                    for k in keys((form + 1) % 5, n) {
                        s.remove_mut(&k);
                    }
                    is(&old, &m)?;
                }
                Compare => {
                    let same: Vec<$t> = (0..4).map(|f| build(f, &keys((f + form) % 5, n))).collect();
                    let others = [s.remove(&0), s.insert(1), s.remove(&(2 * (n / 2))), s.remove(&(2 * (n - 1))), s.remove(&2).insert(3)];
                    for (i, a) in same.iter().enumerate() {
                        for (j, b) in same.iter().enumerate() {
                            if a != b {
                                return Err(format!("builds {i} and {j} of the same elements are not equal"));
                            }
                        }
                        for (j, b) in others.iter().enumerate() {
                            if a == b || b == a {
                                return Err(format!("build {i} equals something else ({j})"));
                            }
                        }
                    }
                }
                Relations => {
                    // relations between sets that differ in one place
                    let less: Vec<$t> = places(n).into_iter().map(|p| s.remove(&(2 * p))).collect();
                    let more = s.insert(1);
                    let odd: Vec<u32> = ks.iter().map(|k| k + 1).collect();
                    let odd = build(form, &odd);
                    let other = build((form + 1) % 4, &keys((form + 3) % 5, n));
                    want!("two builds", (s == other, s.is_subset(&other), other.is_subset(&s), s.is_superset(&other), s.is_disjoint(&other)), (true, true, true, true, false));
                    for l in less.iter() {
                        want!("one fewer", (*l == s, l.is_subset(&other), other.is_subset(l), other.is_superset(l), l.is_superset(&other), l.is_disjoint(&other)), (false, true, false, true, false, false));
                    }
                    want!("one more", (more == s, s.is_subset(&more), more.is_subset(&s), more.is_superset(&other), more.is_disjoint(&other)), (false, true, false, true, false));
                    want!("all different", (s == odd, s.is_subset(&odd), s.is_superset(&odd), s.is_disjoint(&odd), odd.is_disjoint(&s)), (false, false, false, true, true));
                    for p in places(n) {
                        let o = odd.insert(2 * p);
                        want!("one in common", (s.is_disjoint(&o), o.is_disjoint(&s), o.is_subset(&s), s.is_subset(&o)), (false, false, false, false));
                    }
                }
                Serde => {
                    let t = text(&s)?;
                    let back: $t = read(&t)?;
                    is(&back, &m)?;
                    if back != s {
                        return Err("what was read back is not equal".into());
                    }
                    let plain: Vec<u32> = read(&t)?;
                    all("what was written", plain.iter(), s.iter())?;
                }
                Iterate => {
                    let it: Vec<&u32> = s.iter().collect();
                    all("iteration again", s.iter(), it.iter().copied())?;
                    want!("size_hint()", s.iter().size_hint(), (m.len(), Some(m.len())));
                    want!("len()", s.iter().len(), m.len());
                }
                Bulk => {
                    let b = build(2, &ks);
                    is(&b, &m)?;
                    want!("equal to the one built by hand", (b == s, s == b), (true, true));
                }
                Range => {}
            }
            Ok(())
        }};
    }
    if tree {
        if part == Range {
            let s: TS<P> = ks.iter().copied().collect();
            let m: std::collections::BTreeSet<u32> = ks.iter().copied().collect();
            for (a, b) in [(0, n), (1, 2 * n), (n, n + 1), (n / 2, n + n / 2), (2 * n - 2, 2 * n)] {
                all(&format!("range {a}..{b}"), s.range(a..b), m.range(a..b))?;
                all(&format!("range {a}..={b} from the back"), s.range(a..=b).rev(), m.range(a..=b).rev())?;
            }
            return Ok(());
        }
        run!(TS<P>, RedBlackTreeSet::new_with_ptr_kind(), true)
    } else {
        run!(HS<P>, HashTrieSet::new_with_hasher_with_ptr_kind(H::default()), false)
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum What {
    List,
    Stack,
    Queue,
    Vector,
    VectorOf2,
    VectorOf8,
    HashMap,
    HashMapOf4,
    HashSet,
    TreeMap,
    TreeSet,
}
pub const SEQS: &[What] = &[What::List, What::Stack, What::Queue, What::Vector, What::VectorOf2, What::VectorOf8];
pub const HASHES: &[What] = &[What::HashMap, What::HashMapOf4, What::HashSet];
pub const TREES: &[What] = &[What::TreeMap, What::TreeSet];
pub const EVERY: &[What] = &[What::List, What::Stack, What::Queue, What::Vector, What::VectorOf2, What::VectorOf8, What::HashMap, What::HashMapOf4, What::HashSet, What::TreeMap, What::TreeSet];

impl What {
    fn name(self) -> &'static str {
        use What::*;
        match self {
            List => "List",
            Stack => "Stack",
            Queue => "Queue",
            Vector => "Vector",
            VectorOf2 => "Vector, 1 bit",
            VectorOf8 => "Vector, 3 bits",
            HashMap => "HashTrieMap",
            HashMapOf4 => "HashTrieMap, degree 4, keys as hashes",
            HashSet => "HashTrieSet",
            TreeMap => "RedBlackTreeMap",
            TreeSet => "RedBlackTreeSet",
        }
    }
    fn forms(self) -> &'static [&'static str] {
        if SEQS.contains(&self) { &SEQ_FORMS } else { &MAP_FORMS }
    }
    fn run<P: PK>(self, part: Part, n: u32, form: u32) -> R {
        use What::*;
        match self {
            List => list::<P>(part, n, form),
            Stack => stack::<P>(part, n, form),
            Queue => queue::<P>(part, n, form),
            Vector => vector::<P>(5, part, n, form),
            VectorOf2 => vector::<P>(1, part, n, form),
            VectorOf8 => vector::<P>(3, part, n, form),
            HashMap => map_case::<HashTrieMap<u32, u32, P, H>>(part, n, form),
            HashMapOf4 => if form == 2 || part == Serde { Ok(()) } else { map_case::<HashTrieMap<u32, u32, P, HThrough>>(part, n, form) },
            HashSet => set_case::<P>(false, part, n, form.min(3)),
            TreeMap => map_case::<RedBlackTreeMap<u32, u32, P>>(part, n, form),
            TreeSet => set_case::<P>(true, part, n, form.min(3)),
        }
    }
}

pub fn big(part: Part, whats: &'static [What], t: Tier) -> Box<dyn Suite> {
    big_sizes(part, whats, boundaries(t), t)
}

pub fn big_sizes(part: Part, whats: &'static [What], sizes: Vec<u32>, t: Tier) -> Box<dyn Suite> {
    const KINDS: [&str; 3] = ["ArcTK", "RcK", "ArcK"];
    let kinds = if t == Tier::Quick { 2 } else { 3u32 };
    Box::new(Cases {
        name: format!("big ({part:?})"),
        bound: format!("{}: sizes {sizes:?}, every way of building, {:?}", whats.iter().map(|w| w.name()).collect::<Vec<_>>().join("; "), &KINDS[..kinds as usize]),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for w in 0..whats.len() as u32 {
                    for f in 0..whats[w as usize].forms().len() as u32 {
                        for k in 0..kinds {
                            if !visit(&[*n, w, f, k]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let w = whats[c[1] as usize];
            match c[3] {
                0 => w.run::<ArcTK>(part, c[0], c[2])?,
                1 => w.run::<RcK>(part, c[0], c[2])?,
                _ => w.run::<ArcK>(part, c[0], c[2])?,
            }
            Ok(Seen::new(true, c.iter().fold(3, |h, x| mix(h, *x as u64))))
        }),
        show: Box::new(move |c| {
            let w = whats[c[1] as usize];
            format!("{} of {}, built {}, {}", w.name(), c[0], w.forms()[c[2] as usize], KINDS[c[3] as usize])
        }),
    })
}
