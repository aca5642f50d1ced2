//! Elements, keys and values under observation, and a hash builder with chosen hash values.
use crate::universe::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

fn fresh_id() -> u32 {
    with(|u| {
        u.toks.push(1);
        u.live_toks += 1;
        (u.toks.len() - 1) as u32
    })
}

fn check_live(id: u32, what: &str) {
    if !tok_live(id) {
        fatal(&format!("element instance #{id} was {what} after it was dropped"));
    }
}

fn bury(id: u32) {
    with(|u| match u.toks.get_mut(id as usize) {
        Some(s) if *s == 1 => {
            *s = 0;
            u.live_toks -= 1;
        }
        _ => fatal(&format!("element instance #{id} was dropped twice")),
    });
}

macro_rules! token {
    ($(#[$m:meta])* $name:ident, $dbg:expr) => {
        $(#[$m])*
        pub struct $name {
            /// What the element is (its value for `Eq`, `Ord`, `Hash`, `Display`).
            pub v: u32,
            /// Which element this is: the id of the instance originally given to the structure.
            pub orig: u32,
            /// This instance.
            pub id: u32,
        }
        impl $name {
            pub fn new(v: u32) -> $name {
                let id = fresh_id();
                $name { v, orig: id, id }
            }
            pub fn ix(&self) -> Ix {
                check_live(self.id, "read");
                Ix { v: self.v, orig: self.orig, id: self.id }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> $name {
                tick(K_CLONE, self.id);
                check_live(self.id, "cloned");
                $name { v: self.v, orig: self.orig, id: fresh_id() }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if cur().is_null() { return; }
                bury(self.id);
                tick(K_DROP, self.id);
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &$name) -> bool {
                tick(K_EQ, self.id);
                check_live(self.id, "compared");
                check_live(o.id, "compared");
                self.v == o.v
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &$name) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &$name) -> Ordering {
                tick(K_CMP, self.id);
                check_live(self.id, "compared");
                check_live(o.id, "compared");
                self.v.cmp(&o.v)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                tick(K_HASH, self.id);
                check_live(self.id, "hashed");
                h.write_u32(self.v);
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick(K_FMT, self.id);
                write!(f, "{}", self.v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let traced = with(|u| match u.trace.as_mut() {
                    Some(t) => {
                        let g: fn(&mut Trace, &$name) = $dbg;
                        g(t, self);
                        true
                    }
                    None => false,
                });
                if traced {
                    return Ok(());
                }
                tick(K_FMT, self.id);
                write!(f, "{}", self.v)
            }
        }
    };
}

token!(
    /// An element or value: only its identity matters to the code under test.
    Tok, |t, s| t.label(s.orig)
);
token!(
    /// A key: its value has a fixed meaning (or a rank); `orig` tells equal keys apart.
    Key, |t, s| { t.rank(s.v); t.label(s.orig) }
);

/// What keys can be looked up by without having a key: their value, in something of another type and size.
pub trait ByValue {
    fn val(&self) -> u32;
}

impl ByValue for Key {
    fn val(&self) -> u32 {
        check_live(self.id, "looked at");
        self.v
    }
}

pub struct Other {
    _pad: [u64; 5],
    v: u64,
}

impl ByValue for Other {
    fn val(&self) -> u32 {
        self.v as u32
    }
}

/// Something that is not a key to look up key `v` by.
pub fn other(v: u32) -> Other {
    Other { _pad: [v as u64 ^ !0; 5], v: v as u64 }
}

impl Other {
    pub fn by(&self) -> &dyn ByValue {
        self
    }
}

impl<'a> std::borrow::Borrow<dyn ByValue + 'a> for Key {
    fn borrow(&self) -> &(dyn ByValue + 'a) {
        self
    }
}

impl PartialEq for dyn ByValue + '_ {
    fn eq(&self, o: &Self) -> bool {
        tick(K_EQ, u32::MAX);
        self.val() == o.val()
    }
}
impl Eq for dyn ByValue + '_ {}
impl PartialOrd for dyn ByValue + '_ {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for dyn ByValue + '_ {
    fn cmp(&self, o: &Self) -> Ordering {
        tick(K_CMP, u32::MAX);
        self.val().cmp(&o.val())
    }
}
impl Hash for dyn ByValue + '_ {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(K_HASH, u32::MAX);
        h.write_u32(self.val());
    }
}

/// What the reference model stores of an element.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ix {
    pub v: u32,
    pub orig: u32,
    pub id: u32,
}

impl Ix {
    /// Same element (contents), maybe another instance.
    pub fn same(&self, o: &Ix) -> bool {
        self.v == o.v && self.orig == o.orig
    }
}

/// Key `v` hashes to `table[v]`.
#[derive(Clone)]
pub struct TableHash(pub Arc<Vec<u64>>);

impl fmt::Debug for TableHash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TableHash")
    }
}

pub struct TableHasher {
    t: Arc<Vec<u64>>,
    acc: Option<u32>,
    mix: u64,
}

impl BuildHasher for TableHash {
    type Hasher = TableHasher;
    fn build_hasher(&self) -> TableHasher {
        TableHasher { t: self.0.clone(), acc: None, mix: 0 }
    }
}

impl Hasher for TableHasher {
    fn finish(&self) -> u64 {
        match self.acc {
            Some(v) => self.t.get(v as usize).copied().unwrap_or((v as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) ^ self.mix,
            None => self.mix,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.mix = (self.mix ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u32(&mut self, v: u32) {
        if self.acc.is_none() {
            self.acc = Some(v);
        } else {
            self.mix = (self.mix ^ v as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

thread_local! {
    static DEFAULT_TABLE: std::cell::RefCell<Arc<Vec<u64>>> = std::cell::RefCell::new(Arc::new(Vec::new()));
}

/// What `TableHash::default()` gives on this thread.
pub fn set_default_table(t: &[u64]) {
    DEFAULT_TABLE.with(|d| *d.borrow_mut() = Arc::new(t.to_vec()));
}

impl Default for TableHash {
    fn default() -> TableHash {
        TableHash(DEFAULT_TABLE.with(|d| d.borrow().clone()))
    }
}
