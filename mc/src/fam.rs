//! One `Fam` per structure: its operations, its reference model and everything it lets one read.
//! The model of every structure is a list of items: the elements in sequence order, or the entries
//! in key order (sets have no second component).
use archery::SharedPointerKind;
use mc_core::run::panics;
use mc_core::*;
use rpds::*;
use std::fmt::Debug;
use std::sync::Arc;

pub trait PK: SharedPointerKind + 'static {}
impl<P: SharedPointerKind + 'static> PK for P {}

pub type Item = (Ix, Ix);
pub const NIL: Ix = Ix { v: u32::MAX, orig: u32::MAX, id: u32::MAX };
pub type R<T = ()> = Result<T, String>;

/// A source of fresh labels, so that equal histories use equal labels.
#[derive(Clone, Debug)]
pub struct Fresh(pub u32);
impl Fresh {
    pub fn tok(&mut self) -> Tok {
        self.0 += 1;
        Tok::new(1000 + self.0)
    }
}

pub trait Fam: Sync + Send + Sized + 'static {
    type S<P: PK>: Clone + Debug;
    fn name(&self) -> String;
    fn empty<P: PK>(&self) -> Self::S<P>;
    /// Operations that make sense on a version with these contents (failing ones included).
    fn ops(&self, m: &[Item], out: &mut Vec<u16>);
    fn show(&self, op: u16) -> String;
    /// Is there a persistent form of this operation?
    fn has_pers(&self, op: u16) -> bool;
    /// May this operation clone an entry that is shared?
    fn clones(&self, _op: u16) -> bool {
        false
    }
    /// In-place form. Returns whether it took effect; updates the model.
    fn mutate<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool>;
    /// Persistent form. `None`: it reported failure.
    fn pers<P: PK>(&self, s: &Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Self::S<P>>>;
    /// Contents by iteration.
    fn contents<P: PK>(&self, s: &Self::S<P>) -> Vec<Item>;
    fn size<P: PK>(&self, s: &Self::S<P>) -> usize;
    fn eq<P: PK, PO: PK>(&self, a: &Self::S<P>, b: &Self::S<PO>) -> bool;
    fn ptr_eq<P: PK>(&self, _a: &Self::S<P>, _b: &Self::S<P>) -> Option<bool> {
        None
    }
    /// Is the iteration order that of the model?
    fn ordered(&self) -> bool {
        true
    }
    /// Everything else there is to read, compared with the model.
    fn observe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R;
}

pub fn same_items(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.same(&y.0) && x.1.same(&y.1))
}

pub fn show_items(m: &[Item]) -> String {
    m.iter().map(|(a, b)| if *b == NIL { format!("{}#{}", a.v, a.orig) } else { format!("{}#{}:{}#{}", a.v, a.orig, b.v, b.orig) }).collect::<Vec<_>>().join(",")
}

/// Contents in model order.
pub fn model_order<F: Fam>(fam: &F, mut c: Vec<Item>) -> Vec<Item> {
    if !fam.ordered() {
        c.sort();
    }
    c
}

pub fn check_contents<F: Fam, P: PK>(fam: &F, s: &F::S<P>, m: &[Item]) -> R {
    let c = model_order(fam, fam.contents(s));
    if !same_items(&c, m) {
        return Err(format!("contents are [{}], expected [{}]", show_items(&c), show_items(m)));
    }
    let n = fam.size(s);
    if n != m.len() {
        return Err(format!("size is {n}, expected {}", m.len()));
    }
    Ok(())
}

#[macro_export]
macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        let (g, e) = ($got, $exp);
        if g != e {
            return Err(format!("{} is {:?}, expected {:?}", $what, g, e));
        }
    }};
}

fn ix(t: Option<&Tok>) -> Option<(u32, u32)> {
    t.map(|t| (t.ix().v, t.orig))
}
fn kx(t: Option<&Key>) -> Option<(u32, u32)> {
    t.map(|t| (t.ix().v, t.orig))
}
fn mx(i: Option<&Ix>) -> Option<(u32, u32)> {
    i.map(|i| (i.v, i.orig))
}

fn expect_panic(what: &str, f: impl FnOnce()) -> R {
    if panics(f) { Ok(()) } else { Err(format!("{what} did not panic")) }
}

fn display_seq(m: &[Item], open: &str, close: &str) -> String {
    format!("{open}{}{close}", m.iter().map(|i| i.0.v.to_string()).collect::<Vec<_>>().join(", "))
}

// ------------------------------------------------------------------------------------------ List

pub struct ListF {
    pub max: usize,
}

pub const PUSH: u16 = 0;
pub const POP: u16 = 1;
pub const REVERSE: u16 = 2;

impl Fam for ListF {
    type S<P: PK> = List<Tok, P>;
    fn name(&self) -> String {
        "List".into()
    }
    fn empty<P: PK>(&self) -> List<Tok, P> {
        List::new_with_ptr_kind()
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        out.push(POP);
        if m.len() < self.max {
            out.push(PUSH);
        }
        out.push(REVERSE);
    }
    fn show(&self, op: u16) -> String {
        ["push_front", "drop_first", "reverse"][op as usize].into()
    }
    fn has_pers(&self, _op: u16) -> bool {
        true
    }
    fn mutate<P: PK>(&self, s: &mut List<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        match op {
            PUSH => {
                let t = f.tok();
                m.insert(0, (t.ix(), NIL));
                s.push_front_mut(t);
                Ok(true)
            }
            POP => {
                let ok = s.drop_first_mut();
                want!("drop_first_mut()", ok, !m.is_empty());
                if ok {
                    m.remove(0);
                }
                Ok(ok)
            }
            _ => {
                s.reverse_mut();
                m.reverse();
                Ok(true)
            }
        }
    }
    fn pers<P: PK>(&self, s: &List<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<List<Tok, P>>> {
        match op {
            PUSH => {
                let t = f.tok();
                m.insert(0, (t.ix(), NIL));
                Ok(Some(s.push_front(t)))
            }
            POP => {
                let r = s.drop_first();
                want!("drop_first().is_some()", r.is_some(), !m.is_empty());
                if r.is_some() {
                    m.remove(0);
                }
                Ok(r)
            }
            _ => {
                m.reverse();
                Ok(Some(s.reverse()))
            }
        }
    }
    fn contents<P: PK>(&self, s: &List<Tok, P>) -> Vec<Item> {
        s.iter().map(|t| (t.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &List<Tok, P>) -> usize {
        s.len()
    }
    fn eq<P: PK, PO: PK>(&self, a: &List<Tok, P>, b: &List<Tok, PO>) -> bool {
        a == b
    }
    fn observe<P: PK>(&self, s: &List<Tok, P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        want!("first()", ix(s.first()), mx(m.first().map(|i| &i.0)));
        want!("last()", ix(s.last()), mx(m.last().map(|i| &i.0)));
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("display", format!("{s}"), display_seq(m, "[", "]"));
        want!("len of iter", s.iter().len(), m.len());
        Ok(())
    }
}

// ----------------------------------------------------------------------------------------- Stack

pub struct StackF {
    pub max: usize,
}

impl Fam for StackF {
    type S<P: PK> = Stack<Tok, P>;
    fn name(&self) -> String {
        "Stack".into()
    }
    fn empty<P: PK>(&self) -> Stack<Tok, P> {
        Stack::new_with_ptr_kind()
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        out.push(POP);
        if m.len() < self.max {
            out.push(PUSH);
        }
    }
    fn show(&self, op: u16) -> String {
        ["push", "pop"][op as usize].into()
    }
    fn has_pers(&self, _op: u16) -> bool {
        true
    }
    fn mutate<P: PK>(&self, s: &mut Stack<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        if op == PUSH {
            let t = f.tok();
            m.insert(0, (t.ix(), NIL));
            s.push_mut(t);
            return Ok(true);
        }
        let ok = s.pop_mut();
        want!("pop_mut()", ok, !m.is_empty());
        if ok {
            m.remove(0);
        }
        Ok(ok)
    }
    fn pers<P: PK>(&self, s: &Stack<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Stack<Tok, P>>> {
        if op == PUSH {
            let t = f.tok();
            m.insert(0, (t.ix(), NIL));
            return Ok(Some(s.push(t)));
        }
        let r = s.pop();
        want!("pop().is_some()", r.is_some(), !m.is_empty());
        if r.is_some() {
            m.remove(0);
        }
        Ok(r)
    }
    fn contents<P: PK>(&self, s: &Stack<Tok, P>) -> Vec<Item> {
        s.iter().map(|t| (t.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &Stack<Tok, P>) -> usize {
        s.size()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Stack<Tok, P>, b: &Stack<Tok, PO>) -> bool {
        a == b
    }
    fn observe<P: PK>(&self, s: &Stack<Tok, P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        want!("peek()", ix(s.peek()), mx(m.first().map(|i| &i.0)));
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("display", format!("{s}"), display_seq(m, "Stack(", ")"));
        want!("len of iter", s.iter().len(), m.len());
        Ok(())
    }
}

// ----------------------------------------------------------------------------------------- Queue

pub struct QueueF {
    pub max: usize,
}

impl Fam for QueueF {
    type S<P: PK> = Queue<Tok, P>;
    fn name(&self) -> String {
        "Queue".into()
    }
    fn empty<P: PK>(&self) -> Queue<Tok, P> {
        Queue::new_with_ptr_kind()
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        out.push(POP);
        if m.len() < self.max {
            out.push(PUSH);
        }
    }
    fn show(&self, op: u16) -> String {
        ["enqueue", "dequeue"][op as usize].into()
    }
    fn has_pers(&self, _op: u16) -> bool {
        true
    }
    fn mutate<P: PK>(&self, s: &mut Queue<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        if op == PUSH {
            let t = f.tok();
            m.push((t.ix(), NIL));
            s.enqueue_mut(t);
            return Ok(true);
        }
        let ok = s.dequeue_mut();
        want!("dequeue_mut()", ok, !m.is_empty());
        if ok {
            m.remove(0);
        }
        Ok(ok)
    }
    fn pers<P: PK>(&self, s: &Queue<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Queue<Tok, P>>> {
        if op == PUSH {
            let t = f.tok();
            m.push((t.ix(), NIL));
            return Ok(Some(s.enqueue(t)));
        }
        let r = s.dequeue();
        want!("dequeue().is_some()", r.is_some(), !m.is_empty());
        if r.is_some() {
            m.remove(0);
        }
        Ok(r)
    }
    fn contents<P: PK>(&self, s: &Queue<Tok, P>) -> Vec<Item> {
        s.iter().map(|t| (t.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &Queue<Tok, P>) -> usize {
        s.len()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Queue<Tok, P>, b: &Queue<Tok, PO>) -> bool {
        a == b
    }
    fn observe<P: PK>(&self, s: &Queue<Tok, P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        want!("peek()", ix(s.peek()), mx(m.first().map(|i| &i.0)));
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("display", format!("{s}"), display_seq(m, "Queue(", ")"));
        want!("len of iter", s.iter().size_hint(), (m.len(), Some(m.len())));
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------- Vector

pub struct VectorF {
    pub bits: u8,
    pub max: usize,
    /// Indices tried by set and get_mut (all when empty).
    pub indices: Vec<usize>,
}

pub const EXTEND: u16 = 2;
pub const SET: u16 = 0x1000;
pub const GETM: u16 = 0x2000;
pub const IDXM: u16 = 0x3000;

impl VectorF {
    fn idx(&self, n: usize) -> Vec<usize> {
        if self.indices.is_empty() { (0..=n).collect() } else { self.indices.iter().copied().filter(|i| *i <= n).collect() }
    }
}

impl Fam for VectorF {
    type S<P: PK> = Vector<Tok, P>;
    fn name(&self) -> String {
        format!("Vector(bits={})", self.bits)
    }
    fn empty<P: PK>(&self) -> Vector<Tok, P> {
        Vector::new_with_bits(self.bits)
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        out.push(POP);
        if m.len() < self.max {
            out.push(PUSH);
        }
        if m.len() + 2 <= self.max {
            out.push(EXTEND);
        }
        for i in self.idx(m.len()) {
            out.push(SET + i as u16);
            out.push(GETM + i as u16);
            if i < m.len() {
                out.push(IDXM + i as u16);
            }
        }
    }
    fn show(&self, op: u16) -> String {
        let i = op & 0xfff;
        match op & 0xf000 {
            SET => format!("set({i})"),
            GETM => format!("*get_mut({i})="),
            IDXM => format!("[{i}]="),
            _ => ["push_back", "drop_last", "extend2"][op as usize].into(),
        }
    }
    fn has_pers(&self, op: u16) -> bool {
        op == PUSH || op == POP || op & 0xf000 == SET
    }
    fn clones(&self, op: u16) -> bool {
        op & 0xf000 >= GETM
    }
    fn mutate<P: PK>(&self, s: &mut Vector<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        let i = (op & 0xfff) as usize;
        match op & 0xf000 {
            SET => {
                let t = f.tok();
                let x = t.ix();
                let ok = s.set_mut(i, t);
                want!(format!("set_mut({i})"), ok, i < m.len());
                if ok {
                    m[i].0 = x;
                }
                Ok(ok)
            }
            GETM => match s.get_mut(i) {
                Some(r) => {
                    if i >= m.len() {
                        return Err(format!("get_mut({i}) found something beyond the end"));
                    }
                    want!("the element get_mut gives", (r.v, r.orig), (m[i].0.v, m[i].0.orig));
                    let t = f.tok();
                    m[i].0 = t.ix();
                    *r = t;
                    Ok(true)
                }
                None => {
                    want!(format!("get_mut({i}).is_some()"), false, i < m.len());
                    Ok(false)
                }
            },
            IDXM => {
                let t = f.tok();
                m[i].0 = t.ix();
                s[i] = t;
                Ok(true)
            }
            _ => match op {
                PUSH => {
                    let t = f.tok();
                    m.push((t.ix(), NIL));
                    s.push_back_mut(t);
                    Ok(true)
                }
                EXTEND => {
                    let (a, b) = (f.tok(), f.tok());
                    m.push((a.ix(), NIL));
                    m.push((b.ix(), NIL));
                    s.extend([a, b]);
                    Ok(true)
                }
                _ => {
                    let ok = s.drop_last_mut();
                    want!("drop_last_mut()", ok, !m.is_empty());
                    m.pop();
                    Ok(ok)
                }
            },
        }
    }
    fn pers<P: PK>(&self, s: &Vector<Tok, P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Vector<Tok, P>>> {
        let i = (op & 0xfff) as usize;
        match op {
            PUSH => {
                let t = f.tok();
                m.push((t.ix(), NIL));
                Ok(Some(s.push_back(t)))
            }
            POP => {
                let r = s.drop_last();
                want!("drop_last().is_some()", r.is_some(), !m.is_empty());
                m.pop();
                Ok(r)
            }
            _ => {
                let t = f.tok();
                let x = t.ix();
                let r = s.set(i, t);
                want!(format!("set({i}).is_some()"), r.is_some(), i < m.len());
                if r.is_some() {
                    m[i].0 = x;
                }
                Ok(r)
            }
        }
    }
    fn contents<P: PK>(&self, s: &Vector<Tok, P>) -> Vec<Item> {
        s.iter().map(|t| (t.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &Vector<Tok, P>) -> usize {
        s.len()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Vector<Tok, P>, b: &Vector<Tok, PO>) -> bool {
        a == b
    }
    fn observe<P: PK>(&self, s: &Vector<Tok, P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        for i in 0..m.len() {
            want!(format!("get({i})"), ix(s.get(i)), mx(Some(&m[i].0)));
            want!(format!("[{i}]"), ix(Some(&s[i])), mx(Some(&m[i].0)));
        }
        for i in [m.len(), m.len() + 1, m.len() * 2 + 7, 1 << 20, usize::MAX] {
            if i >= m.len() {
                want!(format!("get({i})"), ix(s.get(i)), None);
            }
        }
        expect_panic("indexing beyond the end", || {
            let _ = &s[m.len()];
        })?;
        want!("first()", ix(s.first()), mx(m.first().map(|i| &i.0)));
        want!("last()", ix(s.last()), mx(m.last().map(|i| &i.0)));
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("display", format!("{s}"), display_seq(m, "[", "]"));
        want!("len of iter", s.iter().len(), m.len());
        let back: Vec<(u32, u32)> = s.iter().rev().map(|t| (t.v, t.orig)).collect();
        want!("backwards iteration", back, m.iter().rev().map(|i| (i.0.v, i.0.orig)).collect::<Vec<_>>());
        Ok(())
    }
}

// ------------------------------------------------------------------------------------- Hash maps

pub const INS: u16 = 0x1000;
pub const REM: u16 = 0x2000;
pub const GET: u16 = 0x3000;

fn find(m: &[Item], k: u32) -> Result<usize, usize> {
    m.binary_search_by(|i| i.0.v.cmp(&k))
}

fn model_insert(m: &mut Vec<Item>, k: Ix, v: Ix) {
    match find(m, k.v) {
        Ok(i) => m[i] = (k, v),
        Err(i) => m.insert(i, (k, v)),
    }
}

fn model_remove(m: &mut Vec<Item>, k: u32) -> bool {
    match find(m, k) {
        Ok(i) => {
            m.remove(i);
            true
        }
        Err(_) => false,
    }
}

pub struct HtmF {
    pub degree: u8,
    pub table: TableHash,
    pub keys: u32,
    pub max: usize,
    pub getm: bool,
}

impl HtmF {
    pub fn new(degree: u8, hashes: &[u64], max: usize) -> HtmF {
        HtmF { degree, table: TableHash(Arc::new(hashes.to_vec())), keys: hashes.len() as u32, max, getm: true }
    }
}

pub fn show_hashes(t: &TableHash) -> String {
    if t.0.len() > 8 {
        return format!("of {} keys", t.0.len());
    }
    t.0.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(" ")
}

fn pair(e: Option<(&Key, &Tok)>) -> Option<((u32, u32), (u32, u32))> {
    e.map(|(k, v)| (kx(Some(k)).unwrap(), ix(Some(v)).unwrap()))
}
fn mpair(i: &Item) -> ((u32, u32), (u32, u32)) {
    ((i.0.v, i.0.orig), (i.1.v, i.1.orig))
}

impl Fam for HtmF {
    type S<P: PK> = HashTrieMap<Key, Tok, P, TableHash>;
    fn name(&self) -> String {
        format!("HashTrieMap(degree={}, hashes {})", self.degree, show_hashes(&self.table))
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(self.table.clone(), self.degree)
    }
    fn ordered(&self) -> bool {
        false
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        for k in 0..self.keys as u16 {
            if m.len() < self.max || find(m, k as u32).is_ok() {
                out.push(INS + k);
            }
            out.push(REM + k);
            if self.getm {
                out.push(GET + k);
            }
        }
    }
    fn show(&self, op: u16) -> String {
        let k = op & 0xfff;
        match op & 0xf000 {
            INS => format!("insert({k})"),
            REM => format!("remove({k})"),
            _ => format!("*get_mut({k})="),
        }
    }
    fn has_pers(&self, op: u16) -> bool {
        op & 0xf000 != GET
    }
    fn clones(&self, op: u16) -> bool {
        op & 0xf000 == GET
    }
    fn mutate<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        let k = (op & 0xfff) as u32;
        match op & 0xf000 {
            INS => {
                let (a, b) = (Key::new(k), f.tok());
                model_insert(m, a.ix(), b.ix());
                s.insert_mut(a, b);
                Ok(true)
            }
            REM => {
                let ok = s.remove_mut(other(k).by());
                want!(format!("remove_mut({k})"), ok, model_remove(m, k));
                Ok(ok)
            }
            _ => {
                get_mut_write(s.get_mut(other(k).by()), m, k, f)
            }
        }
    }
    fn pers<P: PK>(&self, s: &Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Self::S<P>>> {
        let k = (op & 0xfff) as u32;
        if op & 0xf000 == INS {
            let (a, b) = (Key::new(k), f.tok());
            model_insert(m, a.ix(), b.ix());
            return Ok(Some(s.insert(a, b)));
        }
        let probe = Key::new(k);
        let r = s.remove(&probe);
            drop(probe);
        if !model_remove(m, k) && !r.ptr_eq(s) {
            return Err("removing an absent key gave a version that is not ptr_eq to the original".into());
        }
        Ok(Some(r))
    }
    fn contents<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
        s.iter().map(|(k, v)| (k.ix(), v.ix())).collect()
    }
    fn size<P: PK>(&self, s: &Self::S<P>) -> usize {
        s.size()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Self::S<P>, b: &Self::S<PO>) -> bool {
        a == b
    }
    fn ptr_eq<P: PK>(&self, a: &Self::S<P>, b: &Self::S<P>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn observe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        for k in 0..self.keys + 1 {
            let probe = Key::new(k);
            let e = find(m, k).ok().map(|i| &m[i]);
            want!(format!("get({k})"), ix(s.get(&probe)), mx(e.map(|e| &e.1)));
            want!(format!("get_key_value({k})"), pair(s.get_key_value(&probe)), e.map(mpair));
            want!(format!("get_key_value({k}) by a borrowed form"), pair(s.get_key_value(other(k).by())), e.map(mpair));
            want!(format!("contains_key({k})"), s.contains_key(&probe), e.is_some());
            want!(format!("contains_key({k}) by a borrowed form"), s.contains_key(other(k).by()), e.is_some());
            match e {
                Some(e) => want!(format!("[{k}]"), ix(Some(&s[&probe])), mx(Some(&e.1))),
                None if k == self.keys => expect_panic("indexing an absent key", || {
                    let _ = &s[&probe];
                })?,
                None => {}
            }
        }
        want!("is_empty()", s.is_empty(), m.is_empty());
        let order: Vec<_> = s.iter().map(|(k, v)| pair(Some((k, v))).unwrap()).collect();
        want!("keys()", s.keys().map(|k| (k.v, k.orig)).collect::<Vec<_>>(), order.iter().map(|e| e.0).collect::<Vec<_>>());
        want!("values()", s.values().map(|k| (k.v, k.orig)).collect::<Vec<_>>(), order.iter().map(|e| e.1).collect::<Vec<_>>());
        want!("len of iter", s.iter().len(), m.len());
        want!("display", format!("{s}"), format!("{{{}}}", order.iter().map(|e| format!("{}: {}", e.0.0, e.1.0)).collect::<Vec<_>>().join(", ")));
        Ok(())
    }
}

fn get_mut_write(r: Option<&mut Tok>, m: &mut [Item], k: u32, f: &mut Fresh) -> R<bool> {
    match (r, find(m, k)) {
        (Some(r), Ok(i)) => {
            want!("the value get_mut gives", (r.v, r.orig), (m[i].1.v, m[i].1.orig));
            let t = f.tok();
            m[i].1 = t.ix();
            *r = t;
            Ok(true)
        }
        (None, Err(_)) => Ok(false),
        (r, e) => Err(format!("get_mut({k}).is_some() is {}, expected {}", r.is_some(), e.is_ok())),
    }
}

pub struct HtsF {
    pub degree: u8,
    pub table: TableHash,
    pub keys: u32,
    pub max: usize,
}

impl HtsF {
    pub fn new(degree: u8, hashes: &[u64], max: usize) -> HtsF {
        HtsF { degree, table: TableHash(Arc::new(hashes.to_vec())), keys: hashes.len() as u32, max }
    }
}

impl Fam for HtsF {
    type S<P: PK> = HashTrieSet<Key, P, TableHash>;
    fn name(&self) -> String {
        format!("HashTrieSet(degree={}, hashes {})", self.degree, show_hashes(&self.table))
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(self.table.clone(), self.degree)
    }
    fn ordered(&self) -> bool {
        false
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        for k in 0..self.keys as u16 {
            if m.len() < self.max || find(m, k as u32).is_ok() {
                out.push(INS + k);
            }
            out.push(REM + k);
        }
    }
    fn show(&self, op: u16) -> String {
        let k = op & 0xfff;
        if op & 0xf000 == INS { format!("insert({k})") } else { format!("remove({k})") }
    }
    fn has_pers(&self, _op: u16) -> bool {
        true
    }
    fn mutate<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<Item>, op: u16, _f: &mut Fresh) -> R<bool> {
        let k = (op & 0xfff) as u32;
        let a = Key::new(k);
        if op & 0xf000 == INS {
            model_insert(m, a.ix(), NIL);
            s.insert_mut(a);
            return Ok(true);
        }
        drop(a);
        let ok = s.remove_mut(other(k).by());
        want!(format!("remove_mut({k})"), ok, model_remove(m, k));
        Ok(ok)
    }
    fn pers<P: PK>(&self, s: &Self::S<P>, m: &mut Vec<Item>, op: u16, _f: &mut Fresh) -> R<Option<Self::S<P>>> {
        let k = (op & 0xfff) as u32;
        let a = Key::new(k);
        if op & 0xf000 == INS {
            model_insert(m, a.ix(), NIL);
            return Ok(Some(s.insert(a)));
        }
        let r = s.remove(&a);
            drop(a);
        if !model_remove(m, k) && !r.ptr_eq(s) {
            return Err("removing an absent element gave a version that is not ptr_eq to the original".into());
        }
        Ok(Some(r))
    }
    fn contents<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
        s.iter().map(|k| (k.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &Self::S<P>) -> usize {
        s.size()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Self::S<P>, b: &Self::S<PO>) -> bool {
        a == b
    }
    fn ptr_eq<P: PK>(&self, a: &Self::S<P>, b: &Self::S<P>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn observe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        for k in 0..self.keys + 1 {
            let probe = Key::new(k);
            let e = find(m, k).ok().map(|i| &m[i]);
            want!(format!("get({k})"), kx(s.get(&probe)), mx(e.map(|e| &e.0)));
            want!(format!("contains({k})"), s.contains(&probe), e.is_some());
            want!(format!("get({k}) by a borrowed form"), kx(s.get(other(k).by())), mx(e.map(|e| &e.0)));
        }
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("len of iter", s.iter().len(), m.len());
        want!("display", format!("{s}"), format!("{{{}}}", s.iter().map(|k| k.v.to_string()).collect::<Vec<_>>().join(", ")));
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ Tree maps
// Operations are relative to the ranks of the keys present: `INS+g` inserts a new key into gap g,
// `REP+r` replaces the key of rank r, `REM+r` / `GET+r` address it, `REMX+g` / `GETX+g` address an
// absent key in gap g.

pub const REP: u16 = 0x4000;
pub const REMX: u16 = 0x5000;
pub const GETX: u16 = 0x6000;

/// A key strictly inside gap `g`.
pub fn gap_key(m: &[Item], g: usize) -> Option<u32> {
    const STEP: u32 = 1 << 19;
    if m.is_empty() {
        return Some(1 << 31);
    }
    if g == 0 {
        return m[0].0.v.checked_sub(STEP);
    }
    if g == m.len() {
        return m[g - 1].0.v.checked_add(STEP);
    }
    let (lo, hi) = (m[g - 1].0.v, m[g].0.v);
    let mid = lo + (hi - lo) / 2;
    if mid > lo { Some(mid) } else { None }
}

/// The key operation `op` addresses.
pub fn rank_key(m: &[Item], op: u16) -> Option<u32> {
    let i = (op & 0xfff) as usize;
    match op & 0xf000 {
        INS | REMX | GETX => if i <= m.len() { gap_key(m, i) } else { None },
        _ => m.get(i).map(|e| e.0.v),
    }
}

pub struct RbmF {
    pub max: usize,
    pub getm: bool,
    pub replace: bool,
}

fn rank_ops(m: &[Item], max: usize, getm: bool, replace: bool, out: &mut Vec<u16>) {
    let n = m.len() as u16;
    for g in 0..=n {
        if m.len() < max && gap_key(m, g as usize).is_some() {
            out.push(INS + g);
        }
        if gap_key(m, g as usize).is_some() {
            out.push(REMX + g);
            if getm {
                out.push(GETX + g);
            }
        }
    }
    for r in 0..n {
        out.push(REM + r);
        if replace {
            out.push(REP + r);
        }
        if getm {
            out.push(GET + r);
        }
    }
}

fn rank_show(op: u16) -> String {
    let k = op & 0xfff;
    match op & 0xf000 {
        INS => format!("insert(gap {k})"),
        REP => format!("insert(rank {k})"),
        REM => format!("remove(rank {k})"),
        REMX => format!("remove(gap {k})"),
        GET => format!("*get_mut(rank {k})="),
        _ => format!("get_mut(gap {k})"),
    }
}

impl Fam for RbmF {
    type S<P: PK> = RedBlackTreeMap<Key, Tok, P>;
    fn name(&self) -> String {
        "RedBlackTreeMap".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        rank_ops(m, self.max, self.getm, self.replace, out)
    }
    fn show(&self, op: u16) -> String {
        rank_show(op)
    }
    fn has_pers(&self, op: u16) -> bool {
        !matches!(op & 0xf000, GET | GETX)
    }
    fn clones(&self, op: u16) -> bool {
        matches!(op & 0xf000, GET | GETX)
    }
    fn mutate<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<bool> {
        let k = rank_key(m, op).expect("operation addresses no key");
        match op & 0xf000 {
            INS | REP => {
                let (a, b) = (Key::new(k), f.tok());
                model_insert(m, a.ix(), b.ix());
                s.insert_mut(a, b);
                Ok(true)
            }
            REM | REMX => {
                let ok = s.remove_mut(other(k).by());
                want!(format!("remove_mut({k})"), ok, model_remove(m, k));
                Ok(ok)
            }
            _ => {
                get_mut_write(s.get_mut(other(k).by()), m, k, f)
            }
        }
    }
    fn pers<P: PK>(&self, s: &Self::S<P>, m: &mut Vec<Item>, op: u16, f: &mut Fresh) -> R<Option<Self::S<P>>> {
        let k = rank_key(m, op).expect("operation addresses no key");
        match op & 0xf000 {
            INS | REP => {
                let (a, b) = (Key::new(k), f.tok());
                model_insert(m, a.ix(), b.ix());
                Ok(Some(s.insert(a, b)))
            }
            _ => {
                let probe = Key::new(k);
                let r = s.remove(&probe);
            drop(probe);
                if !model_remove(m, k) && !r.ptr_eq(s) {
                    return Err("removing an absent key gave a version that is not ptr_eq to the original".into());
                }
                Ok(Some(r))
            }
        }
    }
    fn contents<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
        s.iter().map(|(k, v)| (k.ix(), v.ix())).collect()
    }
    fn size<P: PK>(&self, s: &Self::S<P>) -> usize {
        s.size()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Self::S<P>, b: &Self::S<PO>) -> bool {
        a == b
    }
    fn ptr_eq<P: PK>(&self, a: &Self::S<P>, b: &Self::S<P>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn observe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        let mut probes: Vec<u32> = m.iter().map(|i| i.0.v).collect();
        probes.extend((0..=m.len()).filter_map(|g| gap_key(m, g)));
        for k in probes {
            let probe = Key::new(k);
            let e = find(m, k).ok().map(|i| &m[i]);
            want!(format!("get({k})"), ix(s.get(&probe)), mx(e.map(|e| &e.1)));
            want!(format!("get_key_value({k})"), pair(s.get_key_value(&probe)), e.map(mpair));
            want!(format!("get_key_value({k}) by a borrowed form"), pair(s.get_key_value(other(k).by())), e.map(mpair));
            want!(format!("contains_key({k})"), s.contains_key(&probe), e.is_some());
            want!(format!("contains_key({k}) by a borrowed form"), s.contains_key(other(k).by()), e.is_some());
            if let Some(e) = e {
                want!(format!("[{k}]"), ix(Some(&s[&probe])), mx(Some(&e.1)));
            }
        }
        if let Some(k) = gap_key(m, m.len() / 2) {
            let probe = Key::new(k);
            expect_panic("indexing an absent key", || {
                let _ = &s[&probe];
            })?;
        }
        want!("first()", pair(s.first()), m.first().map(mpair));
        want!("last()", pair(s.last()), m.last().map(mpair));
        want!("is_empty()", s.is_empty(), m.is_empty());
        let order: Vec<_> = m.iter().map(mpair).collect();
        want!("keys()", s.keys().map(|k| (k.v, k.orig)).collect::<Vec<_>>(), order.iter().map(|e| e.0).collect::<Vec<_>>());
        want!("values()", s.values().map(|k| (k.v, k.orig)).collect::<Vec<_>>(), order.iter().map(|e| e.1).collect::<Vec<_>>());
        want!("backwards iteration", s.iter().rev().map(|e| pair(Some(e)).unwrap()).collect::<Vec<_>>(), order.iter().rev().copied().collect::<Vec<_>>());
        want!("len of iter", s.iter().len(), m.len());
        want!("display", format!("{s}"), format!("{{{}}}", order.iter().map(|e| format!("{}: {}", e.0.0, e.1.0)).collect::<Vec<_>>().join(", ")));
        Ok(())
    }
}

pub struct RbsF {
    pub max: usize,
    pub replace: bool,
}

impl Fam for RbsF {
    type S<P: PK> = RedBlackTreeSet<Key, P>;
    fn name(&self) -> String {
        "RedBlackTreeSet".into()
    }
    fn empty<P: PK>(&self) -> Self::S<P> {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    fn ops(&self, m: &[Item], out: &mut Vec<u16>) {
        rank_ops(m, self.max, false, self.replace, out)
    }
    fn show(&self, op: u16) -> String {
        rank_show(op)
    }
    fn has_pers(&self, _op: u16) -> bool {
        true
    }
    fn mutate<P: PK>(&self, s: &mut Self::S<P>, m: &mut Vec<Item>, op: u16, _f: &mut Fresh) -> R<bool> {
        let k = rank_key(m, op).expect("operation addresses no key");
        let a = Key::new(k);
        if matches!(op & 0xf000, INS | REP) {
            model_insert(m, a.ix(), NIL);
            s.insert_mut(a);
            return Ok(true);
        }
        drop(a);
        let ok = s.remove_mut(other(k).by());
        want!(format!("remove_mut({k})"), ok, model_remove(m, k));
        Ok(ok)
    }
    fn pers<P: PK>(&self, s: &Self::S<P>, m: &mut Vec<Item>, op: u16, _f: &mut Fresh) -> R<Option<Self::S<P>>> {
        let k = rank_key(m, op).expect("operation addresses no key");
        let a = Key::new(k);
        if matches!(op & 0xf000, INS | REP) {
            model_insert(m, a.ix(), NIL);
            return Ok(Some(s.insert(a)));
        }
        let r = s.remove(&a);
            drop(a);
        if !model_remove(m, k) && !r.ptr_eq(s) {
            return Err("removing an absent element gave a version that is not ptr_eq to the original".into());
        }
        Ok(Some(r))
    }
    fn contents<P: PK>(&self, s: &Self::S<P>) -> Vec<Item> {
        s.iter().map(|k| (k.ix(), NIL)).collect()
    }
    fn size<P: PK>(&self, s: &Self::S<P>) -> usize {
        s.size()
    }
    fn eq<P: PK, PO: PK>(&self, a: &Self::S<P>, b: &Self::S<PO>) -> bool {
        a == b
    }
    fn ptr_eq<P: PK>(&self, a: &Self::S<P>, b: &Self::S<P>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn observe<P: PK>(&self, s: &Self::S<P>, m: &[Item]) -> R {
        check_contents(self, s, m)?;
        let mut probes: Vec<u32> = m.iter().map(|i| i.0.v).collect();
        probes.extend((0..=m.len()).filter_map(|g| gap_key(m, g)));
        for k in probes {
            let probe = Key::new(k);
            let e = find(m, k).ok().map(|i| &m[i]);
            want!(format!("get({k})"), kx(s.get(&probe)), mx(e.map(|e| &e.0)));
            want!(format!("contains({k})"), s.contains(&probe), e.is_some());
            want!(format!("get({k}) by a borrowed form"), kx(s.get(other(k).by())), mx(e.map(|e| &e.0)));
        }
        want!("first()", kx(s.first()), mx(m.first().map(|i| &i.0)));
        want!("last()", kx(s.last()), mx(m.last().map(|i| &i.0)));
        want!("is_empty()", s.is_empty(), m.is_empty());
        want!("backwards iteration", s.iter().rev().map(|k| (k.v, k.orig)).collect::<Vec<_>>(), m.iter().rev().map(|i| (i.0.v, i.0.orig)).collect::<Vec<_>>());
        want!("len of iter", s.iter().len(), m.len());
        want!("display", format!("{s}"), format!("{{{}}}", m.iter().map(|i| i.0.v.to_string()).collect::<Vec<_>>().join(", ")));
        Ok(())
    }
}
