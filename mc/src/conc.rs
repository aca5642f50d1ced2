//! Structures over concrete keys and values: every content over a small alphabet is distinct.
use crate::fam::*;
use crate::reach::*;
use mc_core::universe;
use mc_core::*;
use rpds::*;
use std::collections::HashSet;
use std::sync::Arc;

/// A state space of one structure over a small alphabet, with a reference model of the contents.
/// The contents are (element, 0) in sequence order, or (key, value) in key order.
pub trait Conc: Send + Sync + 'static {
    type S<P: PK>: Clone + std::fmt::Debug;
    fn name(&self) -> String;
    fn empty<P: PK>(&self) -> Self::S<P>;
    fn ops(&self, m: &[(u32, u32)], out: &mut Vec<u16>);
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16);
    fn show(&self, op: u16) -> String;
}

pub fn conc_build<C: Conc, P: PK>(c: &C, hist: &[u16]) -> (C::S<P>, Vec<(u32, u32)>) {
    let mut s = c.empty::<P>();
    let mut m = vec![];
    for op in hist {
        c.apply(&mut s, &mut m, *op);
    }
    (s, m)
}

/// Every distinct state (contents and layout) within `depth` operations.
pub fn conc_states<C: Conc>(c: &C, depth: usize) -> Vec<Vec<u16>> {
    let prev = universe::cur();
    let u = Universe::new();
    u.begin();
    let mut seen = HashSet::new();
    seen.insert(universe::canon(&[&c.empty::<McK>()], None));
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut from = 0;
    let t0 = std::time::Instant::now();
    for _ in 0..depth {
        let to = out.len();
        for i in from..to {
            if out.len() > mc_core::run::shape_cap() || t0.elapsed().as_secs() > 60 && mc_core::run::shape_cap() < 100_000 || mc_core::run::expired() {
                mc_core::run::CUT.store(true, std::sync::atomic::Ordering::Relaxed);
                break;
            }
            u.begin();
            let mut ops = vec![];
            {
                let (_s, m) = conc_build::<C, McK>(c, &out[i]);
                c.ops(&m, &mut ops);
            }
            for op in ops {
                let mut h = out[i].clone();
                h.push(op);
                mc_core::run::begin_here(&pack(&h, &[]));
                u.begin();
                let k = mc_core::run::guarded(|| {
                    let (s, _m) = conc_build::<C, McK>(c, &h);
                    Ok(universe::canon(&[&s], None))
                });
                mc_core::run::end_case();
                if let Ok(k) = k {
                    if seen.insert(k) {
                        out.push(h);
                    }
                }
            }
        }
        from = to;
        if from == out.len() || mc_core::run::CUT.load(std::sync::atomic::Ordering::Relaxed) {
            break;
        }
    }
    universe::set_cur(prev);
    out
}

pub fn conc_show<C: Conc>(c: &C, h: &[u16]) -> String {
    format!("{}[{}]", c.name(), h.iter().map(|o| c.show(*o)).collect::<Vec<_>>().join("; "))
}

fn put(m: &mut Vec<(u32, u32)>, k: u32, v: u32) {
    match m.binary_search_by_key(&k, |e| e.0) {
        Ok(i) => m[i].1 = v,
        Err(i) => m.insert(i, (k, v)),
    }
}
fn del(m: &mut Vec<(u32, u32)>, k: u32) {
    if let Ok(i) = m.binary_search_by_key(&k, |e| e.0) {
        m.remove(i);
    }
}

macro_rules! keyed_ops {
    () => {
        fn ops(&self, m: &[(u32, u32)], out: &mut Vec<u16>) {
            for k in 0..self.keys {
                let there = m.iter().any(|e| e.0 == k);
                if there || m.len() < self.max {
                    for v in 0..self.values {
                        out.push(INS + (k * 16 + v) as u16);
                    }
                }
                if there {
                    out.push(REM + (k * 16) as u16);
                }
            }
        }
        fn show(&self, op: u16) -> String {
            let (k, v) = (op >> 4 & 255, op & 15);
            if op & 0xf000 == INS { if self.values > 1 { format!("insert({k},{v})") } else { format!("insert({k})") } } else { format!("remove({k})") }
        }
    };
}

fn table(t: &[u64]) -> TableHash {
    TableHash(Arc::new(t.to_vec()))
}

pub struct CHts {
    pub degree: u8,
    pub table: Vec<u64>,
    pub keys: u32,
    pub values: u32,
    pub max: usize,
}
impl CHts {
    pub fn new(degree: u8, hashes: &[u64], max: usize) -> CHts {
        CHts { degree, table: hashes.to_vec(), keys: hashes.len() as u32, values: 1, max }
    }
}
impl Conc for CHts {
    type S<P: PK> = HashTrieSet<Key, P, TableHash>;
    fn name(&self) -> String {
        format!("HashTrieSet(degree {}, hashes {:x?})", self.degree, self.table)
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(table(&self.table), self.degree)
    }
    keyed_ops!();
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        let k = (op >> 4 & 255) as u32;
        if op & 0xf000 == INS {
            s.insert_mut(Key::new(k));
            put(m, k, 0);
        } else {
            s.remove_mut(&Key::new(k));
            del(m, k);
        }
    }
}

pub struct CHtm {
    pub degree: u8,
    pub table: Vec<u64>,
    pub keys: u32,
    pub values: u32,
    pub max: usize,
}
impl CHtm {
    pub fn new(degree: u8, hashes: &[u64], values: u32, max: usize) -> CHtm {
        CHtm { degree, table: hashes.to_vec(), keys: hashes.len() as u32, values, max }
    }
}
impl Conc for CHtm {
    type S<P: PK> = HashTrieMap<Key, Key, P, TableHash>;
    fn name(&self) -> String {
        format!("HashTrieMap(degree {}, hashes {:x?})", self.degree, self.table)
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(table(&self.table), self.degree)
    }
    keyed_ops!();
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        let (k, v) = ((op >> 4 & 255) as u32, (op & 15) as u32);
        if op & 0xf000 == INS {
            s.insert_mut(Key::new(k), Key::new(v));
            put(m, k, v);
        } else {
            s.remove_mut(&Key::new(k));
            del(m, k);
        }
    }
}

pub struct CRbs {
    pub keys: u32,
    pub values: u32,
    pub max: usize,
}
impl Conc for CRbs {
    type S<P: PK> = RedBlackTreeSet<Key, P>;
    fn name(&self) -> String {
        "RedBlackTreeSet".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    keyed_ops!();
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        let k = (op >> 4 & 255) as u32;
        if op & 0xf000 == INS {
            s.insert_mut(Key::new(k));
            put(m, k, 0);
        } else {
            s.remove_mut(&Key::new(k));
            del(m, k);
        }
    }
}

pub struct CRbm {
    pub keys: u32,
    pub values: u32,
    pub max: usize,
}
impl Conc for CRbm {
    type S<P: PK> = RedBlackTreeMap<Key, Key, P>;
    fn name(&self) -> String {
        "RedBlackTreeMap".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    keyed_ops!();
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        let (k, v) = ((op >> 4 & 255) as u32, (op & 15) as u32);
        if op & 0xf000 == INS {
            s.insert_mut(Key::new(k), Key::new(v));
            put(m, k, v);
        } else {
            s.remove_mut(&Key::new(k));
            del(m, k);
        }
    }
}

macro_rules! seq_ops {
    ($push:literal, $pop:literal) => {
        fn ops(&self, m: &[(u32, u32)], out: &mut Vec<u16>) {
            if m.len() < self.max {
                for v in 0..self.values {
                    out.push(v as u16);
                }
            }
            if !m.is_empty() {
                out.push(REM);
            }
        }
        fn show(&self, op: u16) -> String {
            if op & 0xf000 == REM { $pop.into() } else { format!("{}({})", $push, op) }
        }
    };
}

pub struct CList {
    pub values: u32,
    pub max: usize,
}
impl Conc for CList {
    type S<P: PK> = List<Key, P>;
    fn name(&self) -> String {
        "List".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        List::new_with_ptr_kind()
    }
    seq_ops!("push_front", "drop_first");
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        if op & 0xf000 == REM {
            s.drop_first_mut();
            m.remove(0);
        } else {
            s.push_front_mut(Key::new(op as u32));
            m.insert(0, (op as u32, 0));
        }
    }
}

pub struct CStack {
    pub values: u32,
    pub max: usize,
}
impl Conc for CStack {
    type S<P: PK> = Stack<Key, P>;
    fn name(&self) -> String {
        "Stack".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        Stack::new_with_ptr_kind()
    }
    seq_ops!("push", "pop");
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        if op & 0xf000 == REM {
            s.pop_mut();
            m.remove(0);
        } else {
            s.push_mut(Key::new(op as u32));
            m.insert(0, (op as u32, 0));
        }
    }
}

pub struct CQueue {
    pub values: u32,
    pub max: usize,
}
impl Conc for CQueue {
    type S<P: PK> = Queue<Key, P>;
    fn name(&self) -> String {
        "Queue".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        Queue::new_with_ptr_kind()
    }
    seq_ops!("enqueue", "dequeue");
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        if op & 0xf000 == REM {
            s.dequeue_mut();
            m.remove(0);
        } else {
            s.enqueue_mut(Key::new(op as u32));
            m.push((op as u32, 0));
        }
    }
}

pub struct CVec {
    pub bits: u8,
    pub values: u32,
    pub max: usize,
}
impl Conc for CVec {
    type S<P: PK> = Vector<Key, P>;
    fn name(&self) -> String {
        format!("Vector(bits {})", self.bits)
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        Vector::new_with_bits(self.bits)
    }
    fn ops(&self, m: &[(u32, u32)], out: &mut Vec<u16>) {
        if m.len() < self.max {
            for v in 0..self.values {
                out.push(v as u16);
            }
        }
        if !m.is_empty() {
            out.push(REM);
            for v in 0..self.values {
                out.push(SET + v as u16);
            }
        }
    }
    fn show(&self, op: u16) -> String {
        match op & 0xf000 {
            REM => "drop_last".into(),
            SET => format!("set(0,{})", op & 15),
            _ => format!("push_back({op})"),
        }
    }
    fn apply<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<(u32, u32)>, op: u16) {
        match op & 0xf000 {
            REM => {
                s.drop_last_mut();
                m.pop();
            }
            SET => {
                s.set_mut(0, Key::new((op & 15) as u32));
                m[0].0 = (op & 15) as u32;
            }
            _ => {
                s.push_back_mut(Key::new(op as u32));
                m.push((op as u32, 0));
            }
        }
    }
}
