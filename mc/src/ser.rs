//! A data format that records what is serialized and a source under full control.
use crate::fam::*;
use mc_core::universe::{K_ITER, tick};
use mc_core::*;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

/// An error of the format: a number, or what the code under test complained about.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum E {
    At(u32),
    Custom(String),
}

impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E::Custom(m.to_string())
    }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E::Custom(m.to_string())
    }
}

thread_local! {
    /// The elements made by deserialization, in order.
    static MADE: RefCell<Vec<Ix>> = const { RefCell::new(vec![]) };
}

pub fn forget_made() {
    MADE.with(|m| m.borrow_mut().clear());
}
pub fn made() -> Vec<Ix> {
    MADE.with(|m| m.borrow().clone())
}

/// Serializable elements; they are recorded with their identity.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct ST(pub Tok);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SK(pub Key);

struct U64;
impl Visitor<'_> for U64 {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("an integer")
    }
    fn visit_u64<X>(self, v: u64) -> Result<u64, X> {
        Ok(v)
    }
}

macro_rules! elem {
    ($t:ident, $e:ident) => {
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let i = self.0.ix();
                s.serialize_u64((i.v as u64) << 32 | i.orig as u64)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                let v = d.deserialize_u64(U64)?;
                let t = $e::new((v >> 32) as u32);
                MADE.with(|m| m.borrow_mut().push(t.ix()));
                Ok($t(t))
            }
        }
    };
}
elem!(ST, Tok);
elem!(SK, Key);

// ------------------------------------------------------------------------------------ Serializer

#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct Rec {
    /// The declared length, when a sequence or map was begun.
    pub len: Option<Option<usize>>,
    pub map: bool,
    pub vals: Vec<u64>,
    pub ended: u32,
    calls: u32,
    /// The call to refuse.
    pub fail: Option<u32>,
}

impl Rec {
    pub fn call(&mut self) -> Result<(), E> {
        tick(K_ITER, u32::MAX);
        let c = self.calls;
        self.calls += 1;
        if self.fail == Some(c) { Err(E::At(c)) } else { Ok(()) }
    }
    pub fn calls(&self) -> u32 {
        self.calls
    }
}

macro_rules! refuse {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E::Custom(format!("unexpected {}", stringify!($f)))) })*
    };
}
macro_rules! refuse_all {
    () => {
        refuse! {
            serialize_bool(bool) -> ();
            serialize_i8(i8) -> ();
            serialize_i16(i16) -> ();
            serialize_i32(i32) -> ();
            serialize_i64(i64) -> ();
            serialize_u8(u8) -> ();
            serialize_u16(u16) -> ();
            serialize_u32(u32) -> ();
            serialize_f32(f32) -> ();
            serialize_f64(f64) -> ();
            serialize_char(char) -> ();
            serialize_str(&str) -> ();
            serialize_bytes(&[u8]) -> ();
            serialize_none() -> ();
            serialize_unit() -> ();
            serialize_unit_struct(&'static str) -> ();
            serialize_unit_variant(&'static str, u32, &'static str) -> ();
            serialize_tuple(usize) -> Impossible<(), E>;
            serialize_tuple_struct(&'static str, usize) -> Impossible<(), E>;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Impossible<(), E>;
            serialize_struct(&'static str, usize) -> Impossible<(), E>;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Impossible<(), E>;
        }
        type Ok = ();
        type Error = E;
        type SerializeTuple = Impossible<(), E>;
        type SerializeTupleStruct = Impossible<(), E>;
        type SerializeTupleVariant = Impossible<(), E>;
        type SerializeStruct = Impossible<(), E>;
        type SerializeStructVariant = Impossible<(), E>;
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), E> {
            Err(E::Custom("unexpected serialize_some".into()))
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<(), E> {
            Err(E::Custom("unexpected serialize_newtype_struct".into()))
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
            Err(E::Custom("unexpected serialize_newtype_variant".into()))
        }
        fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<(), E> {
            Err(E::Custom("unexpected collect_str".into()))
        }
    };
}

impl<'a> Serializer for &'a mut Rec {
    refuse_all!();
    type SerializeSeq = &'a mut Rec;
    type SerializeMap = &'a mut Rec;
    fn serialize_u64(self, _: u64) -> Result<(), E> {
        Err(E::Custom("unexpected serialize_u64".into()))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<&'a mut Rec, E> {
        self.call()?;
        if self.len.is_some() {
            return Err(E::Custom("begun twice".into()));
        }
        self.len = Some(len);
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<&'a mut Rec, E> {
        self.map = true;
        self.serialize_seq(len)
    }
}
impl SerializeSeq for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.call()?;
        t.serialize(One(self))
    }
    fn end(self) -> Result<(), E> {
        self.call()?;
        self.ended += 1;
        Ok(())
    }
}
impl SerializeMap for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        if self.vals.len() % 2 != 0 {
            return Err(E::Custom("a key where a value should be".into()));
        }
        self.call()?;
        t.serialize(One(self))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        if self.vals.len() % 2 != 1 {
            return Err(E::Custom("a value where a key should be".into()));
        }
        self.call()?;
        t.serialize(One(self))
    }
    fn end(self) -> Result<(), E> {
        self.call()?;
        self.ended += 1;
        Ok(())
    }
}

/// One element.
struct One<'a>(&'a mut Rec);
impl Serializer for One<'_> {
    refuse_all!();
    type SerializeSeq = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    refuse! {
        serialize_seq(Option<usize>) -> Impossible<(), E>;
        serialize_map(Option<usize>) -> Impossible<(), E>;
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.0.vals.push(v);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- Deserializer

pub const FORMS: [&str; 6] = ["what was asked for", "a map instead of a sequence or the reverse", "an integer", "a string", "nothing", "one bare value"];
pub const SIZE_HINTS: [&str; 9] = ["none", "exact", "0", "1", "one too many", "1000 too many", "2^40", "MAX/2", "MAX"];

/// A source: its values (keys and values alternate for a map), what it claims, where it fails.
pub struct Source<'a> {
    pub vals: &'a [u64],
    pub hint: u32,
    pub form: u32,
    pub fail: Option<u32>,
    /// Calls so far.
    pub calls: &'a Cell<u32>,
    pub map: bool,
}

struct Acc<'a> {
    s: Source<'a>,
    pos: usize,
}

impl Acc<'_> {
    fn call(&mut self) -> Result<(), E> {
        tick(K_ITER, u32::MAX);
        let c = self.s.calls.get();
        self.s.calls.set(c + 1);
        if self.s.fail == Some(c) { Err(E::At(c)) } else { Ok(()) }
    }
    fn next(&mut self) -> Option<u64> {
        let v = self.s.vals.get(self.pos).copied();
        self.pos += 1;
        v
    }
    fn hint(&self) -> Option<usize> {
        tick(K_ITER, u32::MAX);
        let n = self.s.vals.len().saturating_sub(self.pos) / if self.s.map { 2 } else { 1 };
        match self.s.hint {
            0 => None,
            1 => Some(n),
            2 => Some(0),
            3 => Some(1),
            4 => Some(n + 1),
            5 => Some(n + 1000),
            6 => Some(1 << 40),
            7 => Some(usize::MAX / 2),
            _ => Some(usize::MAX),
        }
    }
}

struct Val(u64);
impl<'de> Deserializer<'de> for Val {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u64(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> SeqAccess<'de> for Acc<'_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        self.call()?;
        match self.next() {
            Some(v) => seed.deserialize(Val(v)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
impl<'de> MapAccess<'de> for Acc<'_> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        self.call()?;
        match self.next() {
            Some(v) => seed.deserialize(Val(v)).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        self.call()?;
        match self.next() {
            Some(v) => seed.deserialize(Val(v)),
            None => Err(E::Custom("a value was asked for without a key".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}

impl<'de> Deserializer<'de> for Source<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let map = self.map != (self.form == 1);
        match self.form {
            2 => v.visit_u64(7),
            3 => v.visit_str("something else"),
            4 => v.visit_unit(),
            5 => v.visit_newtype_struct(Val(7)),
            _ if map => v.visit_map(Acc { s: self, pos: 0 }),
            _ => v.visit_seq(Acc { s: self, pos: 0 }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ------------------------------------------------------------------------------------- Structures

/// A structure over serializable elements.
pub trait SerF: Sync + Send + 'static {
    type S<P: PK>: Clone + fmt::Debug + PartialEq + Serialize + for<'de> Deserialize<'de>;
    fn name(&self) -> String;
    const MAP: bool = false;
    const KEYED: bool = false;
    /// Is the iteration order that of the model (order of arrival, or of keys)?
    const ORDERED: bool = true;
    fn prepare(&self) {}
    /// One item at a time. Items are values, or key and value.
    /// `shape` picks one of the internal forms of the same contents, where there are several.
    fn make<P: PK>(&self, items: &[(u32, u32)], shape: u32) -> Self::S<P>;
    fn shapes(&self, _n: usize) -> u32 {
        1
    }
    fn items<P: PK>(&self, s: &Self::S<P>) -> Vec<Item>;
    fn len<P: PK>(&self, s: &Self::S<P>) -> usize;
    /// Reads by key or position and one more operation on a clone agree with `m`.
    fn probe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R;
}

pub struct SList;
pub struct SStack;
pub struct SQueue;
pub struct SVec;
pub struct SHtm(pub TableHash);
pub struct SHts(pub TableHash);
pub struct SRbm;
pub struct SRbs;

fn one(t: &ST) -> Item {
    (t.0.ix(), NIL)
}

macro_rules! seq {
    ($n:ident, $t:ident, $name:expr, $add:ident, $front:expr, $len:ident, |$s:ident, $m:ident| $probe:expr) => {
        impl SerF for $n {
            type S<P: PK> = rpds::$t<ST, P>;
            fn name(&self) -> String {
                $name.into()
            }
            fn make<P: PK>(&self, items: &[(u32, u32)], _shape: u32) -> Self::S<P> {
                let mut s = rpds::$t::new_with_ptr_kind();
                let mut v: Vec<u32> = items.iter().map(|i| i.0).collect();
                if $front {
                    v.reverse();
                }
                for x in v {
                    s.$add(ST(Tok::new(x)));
                }
                s
            }
            fn items<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
                s.iter().map(one).collect()
            }
            fn len<P: PK>(&self, s: &Self::S<P>) -> usize {
                s.$len()
            }
            fn probe<P: PK>(&self, $s: &Self::S<P>, $m: &[Item]) -> R {
                $probe
            }
        }
    };
}

fn id(t: Option<&ST>) -> Option<u32> {
    t.map(|t| t.0.id)
}
fn mid(m: Option<&Item>) -> Option<u32> {
    m.map(|i| i.0.id)
}

seq!(SList, List, "List", push_front_mut, true, len, |s, m| {
    crate::want!("first()", id(s.first()), mid(m.first()));
    crate::want!("last()", id(s.last()), mid(m.last()));
    let mut t = s.clone();
    t.push_front_mut(ST(Tok::new(9)));
    crate::want!("pushing onto it", t.iter().skip(1).map(|t| t.0.id).collect::<Vec<_>>(), m.iter().map(|i| i.0.id).collect::<Vec<_>>());
    let mut t = s.clone();
    crate::want!("drop_first_mut()", t.drop_first_mut(), !m.is_empty());
    crate::want!("what is left", t.iter().map(|t| t.0.id).collect::<Vec<_>>(), m.iter().skip(1).map(|i| i.0.id).collect::<Vec<_>>());
    Ok(())
});
seq!(SStack, Stack, "Stack", push_mut, true, size, |s, m| {
    crate::want!("peek()", id(s.peek()), mid(m.first()));
    let mut t = s.clone();
    crate::want!("pop_mut()", t.pop_mut(), !m.is_empty());
    crate::want!("what is left", t.iter().map(|t| t.0.id).collect::<Vec<_>>(), m.iter().skip(1).map(|i| i.0.id).collect::<Vec<_>>());
    Ok(())
});
impl SerF for SQueue {
    type S<P: PK> = rpds::Queue<ST, P>;
    fn name(&self) -> String {
        "Queue".into()
    }
    fn shapes(&self, n: usize) -> u32 {
        n as u32 + 1
    }
    fn make<P: PK>(&self, items: &[(u32, u32)], shape: u32) -> Self::S<P> {
        let mut s = rpds::Queue::new_with_ptr_kind();
        s.enqueue_mut(ST(Tok::new(99)));
        for (i, x) in items.iter().enumerate() {
            if i as u32 == shape {
                s.dequeue_mut();
            }
            s.enqueue_mut(ST(Tok::new(x.0)));
        }
        if shape as usize >= items.len() {
            s.dequeue_mut();
        }
        s
    }
    fn items<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
        s.iter().map(one).collect()
    }
    fn len<P: PK>(&self, s: &Self::S<P>) -> usize {
        s.len()
    }
    fn probe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {

    crate::want!("peek()", id(s.peek()), mid(m.first()));
    let mut t = s.clone();
    crate::want!("dequeue_mut()", t.dequeue_mut(), !m.is_empty());
    crate::want!("what is left", t.iter().map(|t| t.0.id).collect::<Vec<_>>(), m.iter().skip(1).map(|i| i.0.id).collect::<Vec<_>>());
    t.enqueue_mut(ST(Tok::new(9)));
    crate::want!("after enqueueing", t.iter().count(), m.len().saturating_sub(1) + 1);
    Ok(())
    }
}
seq!(SVec, Vector, "Vector", push_back_mut, false, len, |s, m| {
    crate::want!("last()", id(s.last()), mid(m.last()));
    for i in 0..m.len() + 1 {
        crate::want!(format!("get({i})"), id(s.get(i)), mid(m.get(i)));
    }
    let mut t = s.clone();
    t.push_back_mut(ST(Tok::new(9)));
    crate::want!("after push_back", t.iter().take(m.len()).map(|t| t.0.id).collect::<Vec<_>>(), m.iter().map(|i| i.0.id).collect::<Vec<_>>());
    let mut t = s.clone();
    crate::want!("drop_last_mut()", t.drop_last_mut(), !m.is_empty());
    Ok(())
});

macro_rules! map {
    ($n:ident, $s:ty, $name:expr, $ordered:expr, |$this:ident| $new:expr, $prep:expr) => {
        impl SerF for $n {
            type S<P: PK> = $s;
            const MAP: bool = true;
            const KEYED: bool = true;
            const ORDERED: bool = $ordered;
            fn name(&self) -> String {
                let f: fn(&$n) -> String = $name;
                f(self)
            }
            fn prepare(&self) {
                let f: fn(&$n) = $prep;
                f(self)
            }
            fn make<P: PK>(&self, items: &[(u32, u32)], _shape: u32) -> Self::S<P> {
                let $this = self;
                let mut s = $new;
                for (k, v) in items {
                    s.insert_mut(SK(Key::new(*k)), ST(Tok::new(*v)));
                }
                s
            }
            fn items<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
                s.iter().map(|(k, v)| (k.0.ix(), v.0.ix())).collect()
            }
            fn len<P: PK>(&self, s: &Self::S<P>) -> usize {
                s.size()
            }
            fn probe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
                for k in 0..8 {
                    let e = m.iter().find(|i| i.0.v == k);
                    let p = SK(Key::new(k));
                    crate::want!(format!("get({k})"), s.get(&p).map(|v| v.0.id), e.map(|e| e.1.id));
                    let mut t = s.clone();
                    crate::want!(format!("remove_mut({k})"), t.remove_mut(&p), e.is_some());
                    crate::want!("the size after it", t.size(), m.len() - e.is_some() as usize);
                    crate::want!("get after it", t.get(&p).is_some(), false);
                }
                Ok(())
            }
        }
    };
}
macro_rules! set {
    ($n:ident, $s:ty, $name:expr, $ordered:expr, |$this:ident| $new:expr, $prep:expr) => {
        impl SerF for $n {
            type S<P: PK> = $s;
            const KEYED: bool = true;
            const ORDERED: bool = $ordered;
            fn name(&self) -> String {
                let f: fn(&$n) -> String = $name;
                f(self)
            }
            fn prepare(&self) {
                let f: fn(&$n) = $prep;
                f(self)
            }
            fn make<P: PK>(&self, items: &[(u32, u32)], _shape: u32) -> Self::S<P> {
                let $this = self;
                let mut s = $new;
                for (k, _) in items {
                    s.insert_mut(SK(Key::new(*k)));
                }
                s
            }
            fn items<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
                s.iter().map(|k| (k.0.ix(), NIL)).collect()
            }
            fn len<P: PK>(&self, s: &Self::S<P>) -> usize {
                s.size()
            }
            fn probe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
                for k in 0..8 {
                    let e = m.iter().find(|i| i.0.v == k);
                    let p = SK(Key::new(k));
                    crate::want!(format!("get({k})"), s.get(&p).map(|v| v.0.id), e.map(|e| e.0.id));
                    let mut t = s.clone();
                    crate::want!(format!("remove_mut({k})"), t.remove_mut(&p), e.is_some());
                    crate::want!("the size after it", t.size(), m.len() - e.is_some() as usize);
                }
                Ok(())
            }
        }
    };
}

map!(SHtm, rpds::HashTrieMap<SK, ST, P, TableHash>, |s| format!("HashTrieMap(hashes {})", show_hashes(&s.0)), false,
    |this| rpds::HashTrieMap::new_with_hasher_and_ptr_kind(this.0.clone()), |s| mc_core::tok::set_default_table(&s.0.0));
map!(SRbm, rpds::RedBlackTreeMap<SK, ST, P>, |_| "RedBlackTreeMap".into(), true, |_this| rpds::RedBlackTreeMap::new_with_ptr_kind(), |_| ());
set!(SHts, rpds::HashTrieSet<SK, P, TableHash>, |s| format!("HashTrieSet(hashes {})", show_hashes(&s.0)), false,
    |this| rpds::HashTrieSet::new_with_hasher_with_ptr_kind(this.0.clone()), |s| mc_core::tok::set_default_table(&s.0.0));
set!(SRbs, rpds::RedBlackTreeSet<SK, P>, |_| "RedBlackTreeSet".into(), true, |_this| rpds::RedBlackTreeSet::new_with_ptr_kind(), |_| ());

/// The values of a source for these items, and the model of what comes out of it, given the
/// elements made in order.
pub fn source_vals(map: bool, items: &[(u32, u32)]) -> Vec<u64> {
    items.iter().flat_map(|(a, b)| if map { vec![(*a as u64) << 32, (*b as u64) << 32] } else { vec![(*a as u64) << 32] }).collect()
}

pub fn model_of<F: SerF>(made: &[Ix]) -> Vec<Item> {
    let items: Vec<Item> = if F::MAP { made.chunks(2).map(|c| (c[0], c[1])).collect() } else { made.iter().map(|x| (*x, NIL)).collect() };
    if !F::KEYED {
        return items;
    }
    let mut m: Vec<Item> = vec![];
    for i in items {
        match m.binary_search_by(|x| x.0.v.cmp(&i.0.v)) {
            Ok(p) => m[p] = i,
            Err(p) => m.insert(p, i),
        }
    }
    m
}
