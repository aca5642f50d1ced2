//! The same histories with elements of other types: of no size, large, aligned, owning, borrowed.
use crate::cases::{Seen, mix};
use crate::*;
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::num::NonZeroU8;
use std::rc::Rc;

/// Collides a lot, whatever the type.
#[derive(Default)]
pub struct Crowded(u64);
impl Hasher for Crowded {
    fn finish(&self) -> u64 {
        self.0 & 1 | (self.0 & 6) << 60
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_add(*x as u64);
        }
    }
}
type Hb = BuildHasherDefault<Crowded>;

pub trait Elem: Clone + Eq + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    fn of(i: u32) -> Self;
    fn hm<'a, V, P: SharedPointerKind>(m: &'a HashTrieMap<Self, V, P, Hb>, k: &Self) -> Option<&'a V> {
        m.get(k)
    }
    fn hs<P: SharedPointerKind>(m: &HashTrieSet<Self, P, Hb>, k: &Self) -> bool {
        m.contains(k)
    }
    fn rm<'a, V, P: SharedPointerKind>(m: &'a RedBlackTreeMap<Self, V, P>, k: &Self) -> Option<&'a V> {
        m.get(k)
    }
    fn rs<P: SharedPointerKind>(m: &RedBlackTreeSet<Self, P>, k: &Self) -> bool {
        m.contains(k)
    }
}
macro_rules! elem {
    ($t:ty, $name:expr, |$i:ident| $of:expr $(, by |$k:ident| $by:expr)?) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            fn of($i: u32) -> Self {
                $of
            }
            $(
                fn hm<'a, V, P: SharedPointerKind>(m: &'a HashTrieMap<Self, V, P, Hb>, $k: &Self) -> Option<&'a V> {
                    m.get($by)
                }
                fn hs<P: SharedPointerKind>(m: &HashTrieSet<Self, P, Hb>, $k: &Self) -> bool {
                    m.contains($by)
                }
                fn rm<'a, V, P: SharedPointerKind>(m: &'a RedBlackTreeMap<Self, V, P>, $k: &Self) -> Option<&'a V> {
                    m.get($by)
                }
                fn rs<P: SharedPointerKind>(m: &RedBlackTreeSet<Self, P>, $k: &Self) -> bool {
                    m.contains($by)
                }
            )?
        }
    };
}

thread_local!(static UNITS: Cell<i64> = const { Cell::new(0) });
/// Of no size, but counted.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Unit;
impl Unit {
    fn new() -> Unit {
        UNITS.set(UNITS.get() + 1);
        Unit
    }
}
impl Clone for Unit {
    fn clone(&self) -> Unit {
        Unit::new()
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.set(UNITS.get() - 1);
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(64))]
pub struct Aligned(u32);

elem!((), "()", |_i| ());
elem!(Unit, "a counted type of no size", |_i| Unit::new());
elem!(u8, "u8", |i| i as u8);
elem!(bool, "bool", |i| i % 2 == 1);
elem!(Option<NonZeroU8>, "Option<NonZeroU8>", |i| NonZeroU8::new(i as u8));
elem!([u64; 17], "[u64; 17]", |i| [i as u64; 17]);
elem!(Aligned, "a type aligned to 64", |i| Aligned(i));
elem!(Box<u32>, "Box<u32>", |i| Box::new(i));
elem!(&'static str, "&str", |i| ["zero", "one", "two", "three", "four", "five", "six"][i as usize % 7]);
elem!(String, "String, looked up by str", |i| format!("{i}"), by |k| k.as_str());
elem!(Rc<str>, "Rc<str>, looked up by str", |i| format!("{i}").into(), by |k| &**k);
elem!(Vec<Option<u16>>, "Vec<Option<u16>>, looked up by slice", |i| vec![None, Some(i as u16)], by |k| &k[..]);

/// One structure: an operation has a number, both forms, and a model that is an ordinary collection.
pub trait Kind: Send + Sync + 'static {
    const NAME: &'static str;
    const OPS: &'static [&'static str];
    type S<T: Elem, P: SharedPointerKind>: Clone;
    type M<T: Elem>: Clone;
    fn new<T: Elem, P: SharedPointerKind>() -> (Self::S<T, P>, Self::M<T>);
    fn act<T: Elem, P: SharedPointerKind>(s: &mut Self::S<T, P>, m: &mut Self::M<T>, op: u32, fresh: u32, pers: bool) -> R;
    fn see<T: Elem, P: SharedPointerKind>(s: &Self::S<T, P>, m: &Self::M<T>) -> R;
}

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) }
}
/// `v = v.op()` of a form that may refuse.
fn maybe<S>(s: &mut S, new: Option<S>) -> bool {
    match new {
        Some(n) => {
            *s = n;
            true
        }
        None => false,
    }
}

pub struct Lists;
impl Kind for Lists {
    const NAME: &'static str = "List";
    const OPS: &'static [&'static str] = &["push_front", "drop_first", "reverse"];
    type S<T: Elem, P: SharedPointerKind> = List<T, P>;
    type M<T: Elem> = Vec<T>;
    fn new<T: Elem, P: SharedPointerKind>() -> (List<T, P>, Vec<T>) {
        (List::new_with_ptr_kind(), vec![])
    }
    fn act<T: Elem, P: SharedPointerKind>(s: &mut List<T, P>, m: &mut Vec<T>, op: u32, fresh: u32, pers: bool) -> R {
        match (op, pers) {
            (0, false) => s.push_front_mut(T::of(fresh)),
            (0, true) => *s = s.push_front(T::of(fresh)),
            (1, false) => same("drop_first_mut", s.drop_first_mut(), !m.is_empty())?,
            (1, true) => {
                let n = s.drop_first();
                same("drop_first", maybe(s, n), !m.is_empty())?
            }
            (_, false) => s.reverse_mut(),
            (_, true) => *s = s.reverse(),
        }
        match op {
            0 => m.insert(0, T::of(fresh)),
            1 if !m.is_empty() => drop(m.remove(0)),
            1 => (),
            _ => m.reverse(),
        }
        Ok(())
    }
    fn see<T: Elem, P: SharedPointerKind>(s: &List<T, P>, m: &Vec<T>) -> R {
        same("iter", s.iter().collect::<Vec<_>>(), m.iter().collect())?;
        same("len", s.len(), m.len())?;
        same("first, last", (s.first(), s.last()), (m.first(), m.last()))
    }
}

pub struct Stacks;
impl Kind for Stacks {
    const NAME: &'static str = "Stack";
    const OPS: &'static [&'static str] = &["push", "pop"];
    type S<T: Elem, P: SharedPointerKind> = Stack<T, P>;
    type M<T: Elem> = Vec<T>;
    fn new<T: Elem, P: SharedPointerKind>() -> (Stack<T, P>, Vec<T>) {
        (Stack::new_with_ptr_kind(), vec![])
    }
    fn act<T: Elem, P: SharedPointerKind>(s: &mut Stack<T, P>, m: &mut Vec<T>, op: u32, fresh: u32, pers: bool) -> R {
        match (op, pers) {
            (0, false) => s.push_mut(T::of(fresh)),
            (0, true) => *s = s.push(T::of(fresh)),
            (_, false) => same("pop_mut", s.pop_mut(), !m.is_empty())?,
            (_, true) => {
                let n = s.pop();
                same("pop", maybe(s, n), !m.is_empty())?
            }
        }
        if op == 0 { m.push(T::of(fresh)) } else { drop(m.pop()) }
        Ok(())
    }
    fn see<T: Elem, P: SharedPointerKind>(s: &Stack<T, P>, m: &Vec<T>) -> R {
        same("iter", s.iter().collect::<Vec<_>>(), m.iter().rev().collect())?;
        same("size", s.size(), m.len())?;
        same("peek", s.peek(), m.last())
    }
}

pub struct Queues;
impl Kind for Queues {
    const NAME: &'static str = "Queue";
    const OPS: &'static [&'static str] = &["enqueue", "dequeue"];
    type S<T: Elem, P: SharedPointerKind> = Queue<T, P>;
    type M<T: Elem> = Vec<T>;
    fn new<T: Elem, P: SharedPointerKind>() -> (Queue<T, P>, Vec<T>) {
        (Queue::new_with_ptr_kind(), vec![])
    }
    fn act<T: Elem, P: SharedPointerKind>(s: &mut Queue<T, P>, m: &mut Vec<T>, op: u32, fresh: u32, pers: bool) -> R {
        match (op, pers) {
            (0, false) => s.enqueue_mut(T::of(fresh)),
            (0, true) => *s = s.enqueue(T::of(fresh)),
            (_, false) => same("dequeue_mut", s.dequeue_mut(), !m.is_empty())?,
            (_, true) => {
                let n = s.dequeue();
                same("dequeue", maybe(s, n), !m.is_empty())?
            }
        }
        match op {
            0 => m.push(T::of(fresh)),
            _ if !m.is_empty() => drop(m.remove(0)),
            _ => (),
        }
        Ok(())
    }
    fn see<T: Elem, P: SharedPointerKind>(s: &Queue<T, P>, m: &Vec<T>) -> R {
        same("iter", s.iter().collect::<Vec<_>>(), m.iter().collect())?;
        same("len", s.len(), m.len())?;
        same("peek", s.peek(), m.first())
    }
}

pub struct Vectors<const BITS: u8>;
impl<const BITS: u8> Kind for Vectors<BITS> {
    const NAME: &'static str = ["", "Vector(bits=1)", "Vector(bits=2)"][BITS as usize];
    const OPS: &'static [&'static str] = &["push_back", "drop_last", "set the first", "set the last", "write to the middle", "push_back twice"];
    type S<T: Elem, P: SharedPointerKind> = Vector<T, P>;
    type M<T: Elem> = Vec<T>;
    fn new<T: Elem, P: SharedPointerKind>() -> (Vector<T, P>, Vec<T>) {
        (Vector::new_with_bits(BITS), vec![])
    }
    fn act<T: Elem, P: SharedPointerKind>(s: &mut Vector<T, P>, m: &mut Vec<T>, op: u32, fresh: u32, pers: bool) -> R {
        let at = match op {
            2 => 0,
            3 => m.len().max(1) - 1,
            _ => m.len() / 2,
        };
        match (op, pers) {
            (0 | 5, false) => {
                for _ in 0..1 + op / 5 {
                    s.push_back_mut(T::of(fresh));
                }
            }
            (0 | 5, true) => {
                for _ in 0..1 + op / 5 {
                    *s = s.push_back(T::of(fresh));
                }
            }
            (1, false) => same("drop_last_mut", s.drop_last_mut(), !m.is_empty())?,
            (1, true) => {
                let n = s.drop_last();
                same("drop_last", maybe(s, n), !m.is_empty())?
            }
            (2 | 3, false) => same("set_mut", s.set_mut(at, T::of(fresh)), at < m.len())?,
            (2 | 3, true) => {
                let n = s.set(at, T::of(fresh));
                same("set", maybe(s, n), at < m.len())?
            }
            _ => match s.get_mut(at) {
                Some(x) => *x = T::of(fresh),
                None => same("length", m.len(), 0)?,
            },
        }
        match op {
            0 | 5 => m.extend((0..1 + op / 5).map(|_| T::of(fresh))),
            1 => drop(m.pop()),
            _ if at < m.len() => m[at] = T::of(fresh),
            _ => (),
        }
        Ok(())
    }
    fn see<T: Elem, P: SharedPointerKind>(s: &Vector<T, P>, m: &Vec<T>) -> R {
        same("iter", s.iter().collect::<Vec<_>>(), m.iter().collect())?;
        same("iter().rev()", s.iter().rev().collect::<Vec<_>>(), m.iter().rev().collect())?;
        same("len", s.len(), m.len())?;
        for i in 0..=m.len() {
            same("get", s.get(i), m.get(i))?;
        }
        same("first, last", (s.first(), s.last()), (m.first(), m.last()))
    }
}

fn sorted<'a, K: Ord + 'a, V: Ord + 'a>(i: impl Iterator<Item = (&'a K, &'a V)>) -> Vec<(&'a K, &'a V)> {
    let mut v: Vec<_> = i.collect();
    v.sort();
    v
}

macro_rules! maps {
    ($kind:ident, $name:expr, $map:ident, $s:ty, $new:expr, $by:ident, |$x:ident, $y:ident| $more:expr) => {
        pub struct $kind;
        impl Kind for $kind {
            const NAME: &'static str = $name;
            const OPS: &'static [&'static str] = &["insert(0)", "insert(1)", "insert(2)", "remove(0)", "remove(1)", "remove(2)", "write to 0"];
            type S<T: Elem, P: SharedPointerKind> = $s;
            type M<T: Elem> = BTreeMap<T, T>;
            fn new<T: Elem, P: SharedPointerKind>() -> ($s, BTreeMap<T, T>) {
                ($new, BTreeMap::new())
            }
            fn act<T: Elem, P: SharedPointerKind>(s: &mut $s, m: &mut BTreeMap<T, T>, op: u32, fresh: u32, pers: bool) -> R {
                let k = T::of(if op < 6 { op % 3 } else { 0 });
                match (op / 3, pers) {
                    (0, false) => s.insert_mut(k.clone(), T::of(fresh)),
                    (0, true) => *s = s.insert(k.clone(), T::of(fresh)),
                    (1, false) => same("remove_mut", s.remove_mut(&k), m.contains_key(&k))?,
                    (1, true) => *s = s.remove(&k),
                    _ => match s.get_mut(&k) {
                        Some(x) => *x = T::of(fresh),
                        None => same("presence", m.contains_key(&k), false)?,
                    },
                }
                match op / 3 {
                    0 => drop(m.insert(k, T::of(fresh))),
                    1 => drop(m.remove(&k)),
                    _ => {
                        if let Some(x) = m.get_mut(&k) {
                            *x = T::of(fresh);
                        }
                    }
                }
                Ok(())
            }
            fn see<T: Elem, P: SharedPointerKind>($x: &$s, $y: &BTreeMap<T, T>) -> R {
                same("iter", sorted($x.iter()), $y.iter().collect())?;
                same("size", $x.size(), $y.len())?;
                for i in 0..4 {
                    let k = T::of(i);
                    same("get", T::$by($x, &k), $y.get(&k))?;
                    same("contains_key", $x.contains_key(&k), $y.contains_key(&k))?;
                }
                $more
            }
        }
    };
}
maps!(HashMaps, "HashTrieMap(degree=4)", HashTrieMap, HashTrieMap<T, T, P, Hb>, HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Hb::default(), 4), hm, |_s, _m| Ok(()));
maps!(TreeMaps, "RedBlackTreeMap", RedBlackTreeMap, RedBlackTreeMap<T, T, P>, RedBlackTreeMap::new_with_ptr_kind(), rm, |s, m| {
    same("order", s.iter().collect::<Vec<_>>(), m.iter().collect())?;
    same("backwards", s.iter().rev().collect::<Vec<_>>(), m.iter().rev().collect())?;
    same("range", s.range::<T, _>(T::of(1)..).collect::<Vec<_>>(), m.range(T::of(1)..).collect())?;
    same("first, last", (s.first(), s.last()), (m.first_key_value(), m.last_key_value()))
});

macro_rules! sets {
    ($kind:ident, $name:expr, $s:ty, $new:expr, $by:ident) => {
        pub struct $kind;
        impl Kind for $kind {
            const NAME: &'static str = $name;
            const OPS: &'static [&'static str] = &["insert(0)", "insert(1)", "insert(2)", "insert(3)", "remove(0)", "remove(1)", "remove(2)", "remove(3)"];
            type S<T: Elem, P: SharedPointerKind> = $s;
            type M<T: Elem> = BTreeMap<T, ()>;
            fn new<T: Elem, P: SharedPointerKind>() -> ($s, BTreeMap<T, ()>) {
                ($new, BTreeMap::new())
            }
            fn act<T: Elem, P: SharedPointerKind>(s: &mut $s, m: &mut BTreeMap<T, ()>, op: u32, _fresh: u32, pers: bool) -> R {
                let k = T::of(op % 4);
                match (op / 4, pers) {
                    (0, false) => s.insert_mut(k.clone()),
                    (0, true) => *s = s.insert(k.clone()),
                    (_, false) => same("remove_mut", s.remove_mut(&k), m.contains_key(&k))?,
                    (_, true) => *s = s.remove(&k),
                }
                if op / 4 == 0 {
                    m.insert(k, ());
                } else {
                    m.remove(&k);
                }
                Ok(())
            }
            fn see<T: Elem, P: SharedPointerKind>(s: &$s, m: &BTreeMap<T, ()>) -> R {
                let mut v: Vec<&T> = s.iter().collect();
                v.sort();
                same("iter", v, m.keys().collect())?;
                same("size", s.size(), m.len())?;
                for i in 0..5 {
                    let k = T::of(i);
                    same("contains", T::$by(s, &k), m.contains_key(&k))?;
                    same("get", s.get(&k), m.get_key_value(&k).map(|e| e.0))?;
                }
                Ok(())
            }
        }
    };
}
sets!(HashSets, "HashTrieSet(degree=4)", HashTrieSet<T, P, Hb>, HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(Hb::default(), 4), hs);
sets!(TreeSets, "RedBlackTreeSet", RedBlackTreeSet<T, P>, RedBlackTreeSet::new_with_ptr_kind(), rs);

fn word<K: Kind, T: Elem, P: SharedPointerKind>(w: &[u32]) -> R {
    let before = UNITS.get();
    {
        let (mut s, mut m) = K::new::<T, P>();
        let mut kept = vec![];
        let n = K::OPS.len() as u32;
        for (i, d) in w.iter().enumerate() {
            let (op, pers) = (d % n, d / n == 1);
            // An in-place operation works on what an earlier version may share.
            if pers || i % 2 == 1 {
                kept.push((s.clone(), m.clone()));
            }
            K::act::<T, P>(&mut s, &mut m, op, i as u32 + 1, pers).map_err(|e| format!("operation {}: {e}", i + 1))?;
            K::see::<T, P>(&s, &m).map_err(|e| format!("after operation {}: {e}", i + 1))?;
        }
        for (i, (s, m)) in kept.iter().enumerate() {
            K::see::<T, P>(s, m).map_err(|e| format!("kept version {i}: {e}"))?;
        }
    }
    same("elements left over", UNITS.get() - before, 0)
}

macro_rules! types {
    ($($t:ty),*) => {
        const NAMES: &[&str] = &[$(<$t as Elem>::NAME),*];
        fn each<K: Kind>(t: u32, arc: bool, w: &[u32]) -> R {
            let mut i = 0;
            $(
                if t == i {
                    return if arc { word::<K, $t, ArcTK>(w) } else { word::<K, $t, RcK>(w) };
                }
                i += 1;
            )*
            let _ = i;
            Ok(())
        }
    };
}
types!((), Unit, u8, bool, Option<NonZeroU8>, [u64; 17], Aligned, Box<u32>, &'static str, String, Rc<str>, Vec<Option<u16>>);

/// Every word of operations, with every element type.
pub fn types<K: Kind>(_: K, len: usize) -> Box<dyn Suite> {
    let both = 2 * K::OPS.len() as u32;
    Box::new(Cases {
        name: format!("element types in {}", K::NAME),
        bound: format!("every history of {len} operations, in place and persistent, with every version kept; {} types of elements, RcK and ArcTK", NAMES.len()),
        generate: Box::new(move |visit| {
            let mut w = vec![0u32; len + 2];
            for t in 0..NAMES.len() as u32 {
                for arc in 0..2 {
                    w[0] = t;
                    w[1] = arc;
                    w[2..].fill(0);
                    loop {
                        if !visit(&w) {
                            return;
                        }
                        let Some(i) = (2..w.len()).rev().find(|i| w[*i] + 1 < both) else { break };
                        w[i] += 1;
                        w[i + 1..].fill(0);
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            each::<K>(c[0], c[1] == 1, &c[2..])?;
            let mut s = Seen::new(true, c.iter().fold(3, |k, x| mix(k, *x as u64)));
            s.extra = vec![("transitions", c.len() as u64 - 2), ("states", 1), ("traces_validated_against_impl", 1)];
            Ok(s)
        }),
        show: Box::new(move |c| {
            let n = K::OPS.len() as u32;
            let w: Vec<String> = c[2..].iter().map(|d| format!("{}{}", if d / n == 1 { "persistent " } else { "" }, K::OPS[(d % n) as usize])).collect();
            format!("{} of {} ({}): {}", K::NAME, NAMES[c[0] as usize], if c[1] == 1 { "ArcTK" } else { "RcK" }, w.join("; "))
        }),
    })
}
