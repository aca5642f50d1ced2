L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''

bug('htm-collision-getmut-alias','C01',
 'get_mut on the most recently touched key of a full hash collision whose list another version shares',
 'the value changes in the other version too',
 [(L,'''            .map(|node| SharedPointer::make_mut(&mut SharedPointer::make_mut(node).value))''','''            .map(|node| {
                // Once the node is ours its value is as well.
                let value: *mut T = SharedPointer::as_ptr(&SharedPointer::make_mut(node).value).cast_mut();

                unsafe { &mut *value }
            })'''),
  (H,'''            Bucket::Collision(entries) => {
                let removed =
                    bucket_utils::list_remove_first(entries, |e| e.matches(key, key_hash));
                removed.and_then(|e| {''','''            // The entry is where we would put it already.
            Bucket::Collision(entries)
                if entries.first().is_some_and(|e| e.matches(key, key_hash)) =>
            {
                entries.first_mut()
            }
            Bucket::Collision(entries) => {
                let removed =
                    bucket_utils::list_remove_first(entries, |e| e.matches(key, key_hash));
                removed.and_then(|e| {''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    for n in 2..6u64 {
        let mut a: HashTrieMap<u64, String, archery::RcK, Zero> = HashTrieMap::default();
        for k in 0..n { a.insert_mut(k, format!("v{k}")); }
        for k in 0..n {
            let mut b = a.clone();
            b.get_mut(&k).unwrap().push('x');
            for i in 0..n { assert_eq!(a[&i], format!("v{i}"), "the original changed"); }
        }
    }
}
''', deps=A)

bug('queue-refill-batch','C03',
 'more than 16 elements waiting in the incoming list when the outgoing list runs empty',
 'elements are dequeued out of order',
 [(Q,'''            core::mem::swap(&mut self.in_list, &mut self.out_list);

            self.out_list.reverse_mut();
            self.out_list.drop_first_mut();
            true''','''            if self.in_list.len() > MAX_REFILL {
                // Spread the work of a long reversal over several calls.
                let mut batch = List::new_with_ptr_kind();
                let rest = self.in_list.iter_ptr().skip(MAX_REFILL).count();

                while self.in_list.len() > rest {
                    batch.push_front_shared_mut(&self.in_list);
                    self.in_list.drop_first_mut();
                }

                self.out_list = batch;
            } else {
                core::mem::swap(&mut self.in_list, &mut self.out_list);

                self.out_list.reverse_mut();
            }

            self.out_list.drop_first_mut();
            true'''),
  (Q,'''#[derive(Debug)]
pub struct Queue<T, P = RcK>''','''#[derive(Debug)]
#[doc(alias = "fifo")]
pub struct Queue<T, P = RcK>'''),
  (Q,'''pub type QueueSync<T> = Queue<T, ArcTK>;''','''pub type QueueSync<T> = Queue<T, ArcTK>;

/// The number of elements that are reversed at once.
const MAX_REFILL: usize = 16;'''),
  (L,'''    #[must_use]
    pub fn push_front(&self, v: T) -> List<T, P> {''','''    /// Pushes the first element of the other list.
    pub(crate) fn push_front_shared_mut(&mut self, other: &List<T, P>) {
        if let Some(node) = &other.head {
            self.push_front_ptr_mut(SharedPointer::clone(&node.value));
        }
    }

    #[must_use]
    pub fn push_front(&self, v: T) -> List<T, P> {''')],
 '''
use rpds::Queue;
fn main() {
    for n in 0..100 {
        let mut q = Queue::new();
        for i in 0..n { q.enqueue_mut(i); }
        for i in 0..n { assert_eq!(q.peek(), Some(&i)); assert!(q.dequeue_mut()); }
        assert!(q.is_empty());
    }
}
''')

bug('vec-iter-two-levels','C04',
 'iterating a vector of more than eight levels past the end of a subtree of eight levels',
 'iteration skips the rest of the vector',
 [(V,'''        if let Some(mut stack_element) = stack.pop() {
            let finished = stack_element.advance(backwards);

            if finished {
                IterPtr::advance(stack, backwards);
            } else {
                stack.push(stack_element);

                IterPtr::dig(stack, backwards);
            }
        }''','''        // Go up until there is something left.
        for _ in 0..8 {
            if let Some(mut stack_element) = stack.pop() {
                if !stack_element.advance(backwards) {
                    stack.push(stack_element);

                    IterPtr::dig(stack, backwards);
                    break;
                }
            }
        }''')],
 '''
use rpds::Vector;
fn main() {
    for bits in 1..4 {
        let mut v: Vector<usize> = Vector::new_with_bits(bits);
        for i in 0..2000 {
            assert!(v.iter().copied().eq(0..i));
            assert!(v.iter().rev().copied().eq((0..i).rev()));
            v.push_back_mut(i);
        }
    }
}
''')

bug('htm-getmut-absent-collision','C05',
 'get_mut of an absent key whose hash collides with that of two or more keys in the map',
 'the entries that were looked at are lost',
 [(H,'''                let removed =
                    bucket_utils::list_remove_first(entries, |e| e.matches(key, key_hash));
                removed.and_then(|e| {
                    entries.push_front_mut(e);
                    entries.first_mut()
                })''','''                // Bring the entry to the front, where it can be changed.
                let mut before: Vec<EntryWithHash<K, V, P>> = Vec::new();

                let found = loop {
                    let e = entries.first()?.clone();
                    entries.drop_first_mut();

                    if e.matches(key, key_hash) {
                        break e;
                    }
                    before.push(e);
                };

                while let Some(e) = before.pop() {
                    entries.push_front_mut(e);
                }

                entries.push_front_mut(found);
                entries.first_mut()''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    let mut a: HashTrieMap<u64, u64, archery::RcK, Zero> = HashTrieMap::default();
    for k in 0..5u64 { a.insert_mut(k, k); }
    assert!(a.get_mut(&9).is_none());
    for k in 0..5u64 { assert_eq!(a.get(&k), Some(&k)); }
    assert_eq!(a.iter().count(), 5);
}
''', deps=A)

bug('rbt-range-fold','C07',
 'a consuming adaptor (sum, for_each, ...) on a range from whose back elements were taken already',
 'entries that were taken from the back are delivered again',
 [(R,'''        let current = self.current_forward();

        self.advance_forward();

        current
    }
}

impl<'a, K, V, RB, Q, P> DoubleEndedIterator for RangeIterPtr''','''        let current = self.current_forward();

        self.advance_forward();

        current
    }

    fn fold<B, F: FnMut(B, Self::Item) -> B>(mut self, init: B, mut f: F) -> B {
        self.init_if_needed(false);

        // The end of the range is known to the stack.
        let mut acc = init;

        while let Some(entry) = self.stack_forward.as_ref().and_then(|s| s.current()) {
            acc = f(acc, entry);
            self.advance_forward();
        }

        acc
    }
}

impl<'a, K, V, RB, Q, P> DoubleEndedIterator for RangeIterPtr''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|i| (i, i)).collect();
    for f in 0..4 { for b in 0..4 {
        let mut it = m.range(2..9);
        for _ in 0..f { it.next(); }
        for _ in 0..b { it.next_back(); }
        let mut got = vec![];
        it.for_each(|(k, _)| got.push(*k));
        let want: Vec<i32> = (2 + f..9 - b).collect();
        assert_eq!(got, want);
    } }
}
''')

bug('rbt-range-excl-incl-panic','C07',
 'a range with an excluded start and an included end that are equal',
 'it panics instead of being empty',
 [(R,'''            (Excluded(s), Excluded(e)) if s == e => {''','''            (Excluded(s), Included(e) | Excluded(e)) if s == e => {''')],
 '''
use rpds::RedBlackTreeMap;
use std::ops::Bound::*;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|i| (i, i)).collect();
    assert_eq!(m.range((Excluded(3), Included(3))).count(), 0);
    assert_eq!(m.range((Included(3), Excluded(3))).count(), 0);
}
''')

bug('rbt-partial-cmp-keys-first','C10',
 'two maps where the first difference is in a value and a later key differs the other way',
 'partial_cmp (and <, >) is not lexicographic and disagrees with cmp',
 [(R,'''        self.iter().partial_cmp(other.iter())''','''        // Comparing the keys is enough most of the time.
        match self.keys().cmp(other.keys()) {
            Ordering::Equal => self.values().partial_cmp(other.values()),
            ordering => Some(ordering),
        }''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let a: RedBlackTreeMap<i32, i32> = [(1, 5), (2, 0)].into_iter().collect();
    let b: RedBlackTreeMap<i32, i32> = [(1, 3), (3, 0)].into_iter().collect();
    assert!(a.cmp(&b).is_gt());
    assert!(a > b);
    assert!(b < a);
}
''')

bug('htm-bucket-remove-recursive','C15',
 'many keys with the same hash',
 'inserting and removing use stack space for each of the colliding entries',
 [(H,'''        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
        let remaining: &mut List<T, P> = list;
        let mut removed = None;

        while !remaining.is_empty() {
            let e: T = remaining.first().unwrap().clone();

            remaining.drop_first_mut();

            if predicate(&e) {
                removed = Some(e);
                break;
            }

            before_needle.push(e);
        }

        let new_entries = remaining;

        while let Some(e) = before_needle.pop() {
            new_entries.push_front_mut(e);
        }

        removed''','''        fn go<T: Clone, P: SharedPointerKind>(
            list: &mut List<T, P>,
            predicate: &dyn Fn(&T) -> bool,
        ) -> Option<T> {
            let e: T = list.first()?.clone();

            list.drop_first_mut();

            if predicate(&e) {
                return Some(e);
            }

            let removed = go(list, predicate);

            list.push_front_mut(e);

            removed
        }

        go(list, &predicate)''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    let mut a: HashTrieMap<u64, u64, archery::RcK, Zero> = HashTrieMap::default();
    // Keep the number of steps small: only the size of the bucket matters.
    for k in 0..3000u64 { a.insert_mut(k, k); }
    std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).unwrap().join().unwrap();
    let h = std::thread::scope(|s| {
        struct S<'a>(&'a mut HashTrieMap<u64, u64, archery::RcK, Zero>);
        unsafe impl Send for S<'_> {}
        let a = S(&mut a);
        std::thread::Builder::new().stack_size(128 << 10).spawn_scoped(s, move || { let a = a; assert!(a.0.remove_mut(&0)); }).unwrap().join().is_ok()
    });
    assert!(h);
    assert_eq!(a.size(), 2999);
}
''', deps=A)

bug('htm-getmut-clone-panic','C16',
 'the clone of a key or value panics in get_mut on an entry that another version shares',
 'the entry is released twice',
 [(H,'''        &mut SharedPointer::make_mut(&mut self.entry).value''','''        if SharedPointer::strong_count(&self.entry) > 1 {
            // Move the shared entry out, so that we let go of it only once we have our own.
            unsafe {
                let shared = core::ptr::read(&raw const self.entry);
                let own = SharedPointer::new(Entry::clone(&shared));

                core::ptr::write(&raw mut self.entry, own);
            }
        }

        &mut SharedPointer::get_mut(&mut self.entry).expect("the entry is not shared").value''')],
 '''
use rpds::HashTrieMap;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local! { static PANIC: Cell<bool> = const { Cell::new(false) }; static LIVE: Cell<i32> = const { Cell::new(0) }; }
struct V(u32);
impl V { fn new(i: u32) -> V { LIVE.set(LIVE.get() + 1); V(i) } }
impl Clone for V { fn clone(&self) -> V { assert!(!PANIC.get(), "clone"); V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { LIVE.set(LIVE.get() - 1); } }
fn main() {
    let mut m = HashTrieMap::new();
    for i in 0..4u32 { m.insert_mut(i, V::new(i)); }
    let mut c = m.clone();
    PANIC.set(true);
    assert!(catch_unwind(AssertUnwindSafe(|| { c.get_mut(&2); })).is_err());
    PANIC.set(false);
    drop(c);
    assert_eq!(LIVE.get(), 4, "an element was released");
    std::mem::forget(m);
}
''')

bug('queue-ser-unknown-length','C17',
 'serializing a queue to which something was added since elements were last taken from it',
 'the length is not emitted',
 [(Q,'''            serializer.collect_seq(self)''','''            use ::serde::ser::SerializeSeq;

            let length = if self.in_list.is_empty() { Some(self.out_list.len()) } else { None };
            let mut seq = serializer.serialize_seq(length)?;

            for v in self {
                seq.serialize_element(v)?;
            }

            seq.end()''')],
 '''
use rpds::Queue;
use serde::ser::*;
struct S; struct Seq(usize, usize);
#[derive(Debug)] struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
impl SerializeSeq for Seq { type Ok = (); type Error = E;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { self.1 += 1; Ok(()) }
  fn end(self) -> Result<(), E> { if self.0 == self.1 { Ok(()) } else { Err(E) } } }
type I = Impossible<(), E>;
impl Serializer for S { type Ok = (); type Error = E; type SerializeSeq = Seq; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
  fn serialize_seq(self, l: Option<usize>) -> Result<Seq, E> { Ok(Seq(l.ok_or(E)?, 0)) }
  fn serialize_bool(self, _: bool) -> Result<(), E> { Err(E) } fn serialize_i8(self, _: i8) -> Result<(), E> { Err(E) } fn serialize_i16(self, _: i16) -> Result<(), E> { Err(E) } fn serialize_i32(self, _: i32) -> Result<(), E> { Err(E) } fn serialize_i64(self, _: i64) -> Result<(), E> { Err(E) }
  fn serialize_u8(self, _: u8) -> Result<(), E> { Err(E) } fn serialize_u16(self, _: u16) -> Result<(), E> { Err(E) } fn serialize_u32(self, _: u32) -> Result<(), E> { Err(E) } fn serialize_u64(self, _: u64) -> Result<(), E> { Err(E) }
  fn serialize_f32(self, _: f32) -> Result<(), E> { Err(E) } fn serialize_f64(self, _: f64) -> Result<(), E> { Err(E) } fn serialize_char(self, _: char) -> Result<(), E> { Err(E) } fn serialize_str(self, _: &str) -> Result<(), E> { Err(E) } fn serialize_bytes(self, _: &[u8]) -> Result<(), E> { Err(E) }
  fn serialize_none(self) -> Result<(), E> { Err(E) } fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) } fn serialize_unit(self) -> Result<(), E> { Err(E) } fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { Err(E) } fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E) }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), E> { Err(E) } fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
  fn serialize_tuple(self, _: usize) -> Result<I, E> { Err(E) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) } fn serialize_map(self, _: Option<usize>) -> Result<I, E> { Err(E) } fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) } }
fn main() {
    let mut q: Queue<u8> = [1, 2].into_iter().collect();
    q.serialize(S).expect("no exact length");
    q.enqueue_mut(3);
    q.serialize(S).expect("no exact length");
}
''', features=['serde'], deps='serde = "1"')

bug('rbt-macro-first-kept','C18',
 'rbt_map! with a key that is given twice',
 'the first value wins instead of the last',
 [(R,'''                m.insert_mut($k, $v);
            )*
            m
        }
    };
}

/// Creates a [`RedBlackTreeMap`](crate::RedBlackTreeMap) that implements''','''                let (k, v) = ($k, $v);

                if !m.contains_key(&k) {
                    m.insert_mut(k, v);
                }
            )*
            m
        }
    };
}

/// Creates a [`RedBlackTreeMap`](crate::RedBlackTreeMap) that implements''')],
 '''
use rpds::*;
fn main() {
    let m = rbt_map! { 1 => 10, 2 => 20, 1 => 11 };
    assert_eq!(m.get(&1), Some(&11));
    assert_eq!(m.size(), 2);
}
''')

bug('vec-from-iter-bulk','C18',
 'collecting a number of items for which the leaves exactly fill a level of the trie (993 to 1024 items)',
 'the vector has a level too many, so that reading it panics or gives wrong elements',
 [(V,'''    fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> Vector<T, P> {
''','''    fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> Vector<T, P> {
        // Build the trie from its leaves up.
        let degree = vector_utils::degree(DEFAULT_BITS);
        let mut into_iter = into_iter.into_iter().fuse();
        let mut length = 0;
        let mut level: Vec<SharedPointer<Node<T, P>, P>> = Vec::new();

        loop {
            let leaf: Vec<SharedPointer<T, P>> =
                into_iter.by_ref().take(degree).map(SharedPointer::new).collect();

            if leaf.is_empty() {
                break;
            }

            length += leaf.len();
            level.push(SharedPointer::new(Node::Leaf(leaf)));
        }

        if length > degree {
            while level.len() >= degree {
                level = level
                    .chunks(degree)
                    .map(|nodes| SharedPointer::new(Node::Branch(nodes.to_vec())))
                    .collect();
            }

            let root = SharedPointer::new(Node::Branch(level));

            return Vector { root, bits: DEFAULT_BITS, length };
        }

        if let Some(root) = level.pop() {
            return Vector { root, bits: DEFAULT_BITS, length };
        }

''')],
 '''
use rpds::Vector;
fn main() {
    for n in [0usize, 1, 31, 32, 33, 991, 992, 993, 1000, 1023, 1024, 1025, 2000] {
        let v: Vector<usize> = (0..n).collect();
        assert_eq!(v.len(), n);
        for i in 0..n { assert_eq!(v.get(i), Some(&i)); }
    }
}
''')

bug('htm-iter-depth-assert','C20',
 'a map of degree 2 with two keys that share so much of their hash that the trie is over 32 levels deep',
 'iterating it panics',
 [(H,'''                Some(Err(stack_elem)) => {
                    self.stack.push(stack_elem);
                }''','''                Some(Err(stack_elem)) => {
                    assert!(self.stack.len() < ITER_STACK_MAX, "the trie is too deep");
                    self.stack.push(stack_elem);
                }'''),
  (H,'''const ITER_STACK_N_INLINE: usize = 4;
''','''const ITER_STACK_N_INLINE: usize = 4;

/// The depth of a trie in which all hashes are used up.
const ITER_STACK_MAX: usize = 8 * core::mem::size_of::<HashValue>() / 2;
''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    for degree in [2, 4, 8, 16, 32, 64] {
        for bit in 0..64 {
            let mut m: HashTrieMap<u64, u64, archery::RcK, Id> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Id, degree);
            m.insert_mut(0, 0);
            m.insert_mut(1 << bit, 1);
            assert_eq!(m.iter().count(), 2);
        }
    }
}
''', deps=A)

bug('rbts-insert-present-noop','C21',
 'inserting an element that compares equal to one in the set but can be told apart from it',
 'insert keeps the old element where insert_mut replaces it',
 [(RS,'''        RedBlackTreeSet { map: self.map.insert(v, ()) }''','''        if self.contains(&v) {
            // Keep the maximum of sharing.
            return self.clone();
        }

        RedBlackTreeSet { map: self.map.insert(v, ()) }''')],
 '''
use rpds::RedBlackTreeSet;
#[derive(Clone, Copy, Debug)] struct K(u32, u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let a: RedBlackTreeSet<K> = [K(1, 0), K(2, 0)].into_iter().collect();
    let p = a.insert(K(1, 1));
    let mut m = a.clone(); m.insert_mut(K(1, 1));
    assert_eq!(m.get(&K(1, 9)).unwrap().1, 1);
    assert_eq!(p.get(&K(1, 9)).unwrap().1, m.get(&K(1, 9)).unwrap().1);
}
''')
