L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''

bug('list-reverse-shared-chain','C01',
 'reverse_mut of a list whose first node is its own but whose tail belongs to another list as well',
 'the nodes of the other list are turned round too',
 [(L,'''        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();

        while let Some(mut curr_ptr) = current {
            let curr = SharedPointer::make_mut(&mut curr_ptr);
''','''        // There is no need to check each node if the list is ours.
        let owned = self.head.as_mut().is_some_and(|h| SharedPointer::get_mut(h).is_some());

        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();

        while let Some(mut curr_ptr) = current {
            let curr: &mut Node<T, P> = if owned {
                unsafe { &mut *SharedPointer::as_ptr(&curr_ptr).cast_mut() }
            } else {
                SharedPointer::make_mut(&mut curr_ptr)
            };
''')],
 '''
use rpds::List;
fn main() {
    let a: List<u32> = [1, 2, 3].into_iter().collect();
    let mut b = a.push_front(0);
    b.reverse_mut();
    assert!(b.iter().eq([3, 2, 1, 0].iter()));
    assert!(a.iter().eq([1, 2, 3].iter()), "the other list changed");
}
''')

bug('rbt-contains-bounds','C06',
 'contains_key (or a set\'s contains) asked for the greatest key of a map with more than 64 entries',
 'the greatest key is reported as absent',
 [(R,'''        self.get(key).is_some()
''','''        // Most misses of a big map are outside of its bounds.
        if self.size > 64 {
            match (self.first(), self.last()) {
                (Some((first, _)), Some((last, _)))
                    if (first.borrow()..last.borrow()).contains(&key) => {}
                _ => return false,
            }
        }

        self.get(key).is_some()
''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let mut m = RedBlackTreeMap::new();
    for i in 0..200u32 {
        m.insert_mut(i, ());
        for k in 0..=i { assert!(m.contains_key(&k), "{k} of {i}"); }
        assert!(!m.contains_key(&(i + 1)));
    }
}
''')

bug('list-drop-first-shared-peek','C14',
 'drop_first_mut of a list whose first node is shared, while the other owner drops it between the look at the count and the read of the next node',
 'a node is read after it was released',
 [(L,'''        self.head.take().is_some_and(|h| {
            self.head.clone_from(&h.next);
''','''        self.head.take().is_some_and(|h| {
            if SharedPointer::strong_count(&h) > 1 {
                // The others keep the node, so we can leave it before we move on.
                let node = SharedPointer::as_ptr(&h);
                drop(h);
                self.head.clone_from(unsafe { &(*node).next });
            } else {
                self.head.clone_from(&h.next);
            }
''')],
 '''
// Two handles of a list, released from two threads, with a pointer kind whose release can be made to
// wait: the second owner lets go exactly between the look at the count and the read.
use archery::{SharedPointer, SharedPointerKind};
use rpds::List;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ptr::NonNull;

// Counted blocks which are never given back, and which know whether they are live.
struct Block<T> { count: AtomicUsize, dead: AtomicBool, value: MaybeUninit<T> }
struct Kind(NonNull<u8>);
unsafe impl Send for Kind {}
static HOOK: Mutex<Option<Box<dyn FnOnce() + Send>>> = Mutex::new(None);
static LIVE: Mutex<Vec<usize>> = Mutex::new(Vec::new());
impl std::fmt::Debug for Kind { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl Kind { unsafe fn b<T>(&self) -> &mut Block<T> { unsafe { &mut *self.0.as_ptr().cast::<Block<T>>() } } }
unsafe impl SharedPointerKind for Kind {
    fn new<T>(v: T) -> Self {
        let p = Box::leak(Box::new(Block { count: AtomicUsize::new(1), dead: AtomicBool::new(false), value: MaybeUninit::new(v) }));
        let n = NonNull::from(p).cast();
        LIVE.lock().unwrap().push(n.as_ptr() as usize);
        Kind(n)
    }
    fn from_box<T>(v: Box<T>) -> Self { Kind::new(*v) }
    unsafe fn as_ptr<T>(&self) -> *const T { unsafe { self.b::<T>().value.as_ptr() } }
    unsafe fn deref<T>(&self) -> &T { unsafe {
        assert!(!self.b::<T>().dead.load(SeqCst), "use after release");
        &*self.b::<T>().value.as_ptr()
    } }
    unsafe fn try_unwrap<T>(self) -> Result<T, Self> { unsafe {
        if self.b::<T>().count.load(SeqCst) == 1 {
            self.b::<T>().dead.store(true, SeqCst);
            Ok(self.b::<T>().value.as_ptr().read())
        } else { Err(self) }
    } }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> { unsafe {
        if self.b::<T>().count.load(SeqCst) == 1 { Some(&mut *self.b::<T>().value.as_mut_ptr()) } else { None }
    } }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T { unsafe {
        if self.b::<T>().count.load(SeqCst) != 1 { let c = Kind::new::<T>(self.deref::<T>().clone()); let mut old = std::mem::replace(self, c); old.drop::<T>(); }
        &mut *self.b::<T>().value.as_mut_ptr()
    } }
    unsafe fn strong_count<T>(&self) -> usize { unsafe { self.b::<T>().count.load(SeqCst) } }
    unsafe fn clone<T>(&self) -> Self { unsafe { self.b::<T>().count.fetch_add(1, SeqCst); Kind(self.0) } }
    unsafe fn drop<T>(&mut self) { unsafe {
        // The other owner gets its turn here.
        let hook = HOOK.lock().unwrap().take();
        if let Some(h) = hook { h() }
        let last = self.b::<T>().count.fetch_sub(1, SeqCst) == 1;
        if last {
            self.b::<T>().dead.store(true, SeqCst);
            self.b::<T>().value.assume_init_drop();
            // Released memory does not keep its contents.
            std::ptr::write_bytes(self.b::<T>().value.as_mut_ptr().cast::<u8>(), 0, std::mem::size_of::<T>());
        }
    } }
}
fn main() {
    let _ = |p: SharedPointer<u8, Kind>| p;
    let mut a: List<u32, Kind> = List::new_with_ptr_kind();
    for i in (0..4).rev() { a.push_front_mut(i); }
    let mut b = ManuallyDrop::new(a.clone());
    struct Send1(*mut List<u32, Kind>);
    unsafe impl Send for Send1 {}
    let other = Send1(&mut *b);
    // The other thread drops its list while this one is releasing the first node of its own.
    *HOOK.lock().unwrap() = Some(Box::new(move || { let o = other; std::thread::spawn(move || { let o = o; unsafe { std::ptr::drop_in_place(o.0) } }).join().unwrap() }));
    a.drop_first_mut();
    let left: Vec<u32> = a.iter().copied().collect();
    assert_eq!(left, [1, 2, 3], "the rest of the list is gone");
}
''', deps=A)

bug('queue-iter-recursive','C15',
 'iterating a queue with very many elements waiting in its incoming list',
 'the call stack overflows',
 [(Q,'''impl<'a, T, P> Iterator for LazilyReversedListIter<'a, T, P>
where
    P: SharedPointerKind,
{''','''fn push_reversed<'a, T, P>(
    mut iter: crate::list::IterPtr<'a, T, P>,
    vec: &mut Vec<&'a SharedPointer<T, P>>,
) where
    P: SharedPointerKind,
{
    if let Some(v) = iter.next() {
        push_reversed(iter, vec);
        vec.push(v);
    }
}

impl<'a, T, P> Iterator for LazilyReversedListIter<'a, T, P>
where
    P: SharedPointerKind,
{'''),
  (Q,'''                for v in list.iter_ptr() {
                    vec.push(v);
                }

                *self = LazilyReversedListIter::Initialized {
                    vec,
                    current: if len > 0 { Some(len - 1) } else { None },
                };
''','''                push_reversed(list.iter_ptr(), &mut vec);
                vec.reverse();

                *self = LazilyReversedListIter::Initialized {
                    vec,
                    current: if len > 0 { Some(len - 1) } else { None },
                };
''')],
 '''
use rpds::Queue;
fn main() {
    let mut q = Queue::new();
    for i in 0..1_000_000u32 { q.enqueue_mut(i); }
    let n = std::thread::Builder::new().stack_size(512 * 1024).spawn(move || q.iter().count()).unwrap().join().unwrap_or(0);
    assert_eq!(n, 1_000_000);
}
'''.replace('let mut q = Queue::new();','let mut q = Queue::<u32, archery::ArcTK>::new_with_ptr_kind();'), deps=A)

bug('htm-collision-panic-double','C16',
 'a key comparison that panics while a full hash collision is searched for an insert, remove or get_mut',
 'entries of the collision are released twice',
 [(H,'''        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
        let remaining: &mut List<T, P> = list;
        let mut removed = None;
''','''        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
        // Walk with a list of our own so that the nodes do not look shared.
        let mut remaining: List<T, P> = unsafe { core::ptr::read(list) };
        let mut removed = None;
'''),(H,'''        let new_entries = remaining;

        while let Some(e) = before_needle.pop() {
            new_entries.push_front_mut(e);
        }
''','''        while let Some(e) = before_needle.pop() {
            remaining.push_front_mut(e);
        }

        unsafe { core::ptr::write(list, remaining) };
''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst, AtomicIsize};
static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct K(u64);
impl std::hash::Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { if ARMED.load(SeqCst) && self.0 == 1 { panic!("eq") } self.0 == o.0 } }
impl Eq for K {}
impl Drop for K { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn k(i: u64) -> K { LIVE.fetch_add(1, SeqCst); K(i) }
fn main() {
    let mut a: HashTrieMap<K, u64, archery::RcK, Zero> = HashTrieMap::default();
    for i in 0..4 { a.insert_mut(k(i), i); }
    let b = a.clone();
    let q = k(0);
    ARMED.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { a.remove_mut(&q); }));
    ARMED.store(false, SeqCst);
    assert!(r.is_err());
    drop(q);
    drop(a);
    assert_eq!(LIVE.load(SeqCst), 4, "a key of the other version was released");
    std::mem::forget(b);
}
''', deps=A)

bug('rbt-getmut-read-write','C16',
 'a value clone that panics inside get_mut of an entry shared with another version',
 'the shared entry is released once too often',
 [(R,'''            Ordering::Equal => Some(SharedPointer::make_mut(&mut self.entry)),
''','''            Ordering::Equal => {
                if SharedPointer::get_mut(&mut self.entry).is_none() {
                    // Take the shared entry out and put a copy of our own in its place.
                    let shared = unsafe { core::ptr::read(&raw const self.entry) };
                    let copy = Entry::new(shared.key.clone(), shared.value.clone());

                    unsafe { core::ptr::write(&raw mut self.entry, SharedPointer::new(copy)) };
                }

                SharedPointer::get_mut(&mut self.entry)
            }
''')],
 '''
use rpds::RedBlackTreeMap;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct V;
fn v() -> V { LIVE.fetch_add(1, SeqCst); V }
impl Clone for V { fn clone(&self) -> V { if ARMED.load(SeqCst) { panic!("clone") } v() } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    let a = RedBlackTreeMap::new().insert(1, v());
    let c = a.clone();
    let mut b = a.clone();
    ARMED.store(true, SeqCst);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { b.get_mut(&1); })).is_err());
    ARMED.store(false, SeqCst);
    drop(b);
    drop(c);
    assert_eq!(LIVE.load(SeqCst), 1, "the value of a live map was released");
    std::mem::forget(a);
}
''')

bug('vec-de-hint-limit','C17',
 'a source that declares fewer elements than it yields, as a wrong size hint',
 'the elements after the declared number are lost',
 [(V,'''            while let Some(value) = seq.next_element()? {
                vector.push_back_mut(value);
            }
''','''            let mut remaining = seq.size_hint().unwrap_or(usize::MAX).max(16);

            while remaining > 0 {
                match seq.next_element()? {
                    Some(value) => vector.push_back_mut(value),
                    None => break,
                }
                remaining -= 1;
            }
''')],
 '''
use rpds::Vector;
use serde::de::{Deserialize, Deserializer, SeqAccess, Visitor, DeserializeSeed, value::Error, IntoDeserializer};
struct Src(u32, u32, usize);
impl<'de> SeqAccess<'de> for Src {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        if self.0 == self.1 { return Ok(None) }
        self.0 += 1;
        s.deserialize((self.0 - 1).into_deserializer()).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.2) }
}
struct D(u32, usize);
impl<'de> Deserializer<'de> for D {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_seq(Src(0, self.0, self.1)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    for n in [0, 1, 5, 40, 100] { for h in [0, 1, 20, 1000] {
        let v: Vector<u32> = Vector::deserialize(D(n, h)).unwrap();
        assert!(v.iter().copied().eq(0..n), "{n} elements, hint {h}");
    } }
}
''', features=['serde'], deps='serde = "1"')

bug('htm-collect-chunk-reversed','C18',
 'collecting a sequence in which a key repeats within sixteen items',
 'the first of the repeated items wins',
 [(H,'''        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map''','''        let mut iter = into_iter.into_iter();
        let mut chunk: Vec<(K, V)> = Vec::with_capacity(16);

        loop {
            chunk.extend(iter.by_ref().take(16));

            if chunk.is_empty() {
                return map;
            }

            while let Some((k, v)) = chunk.pop() {
                map.insert_mut(k, v);
            }
        }''')],
 '''
use rpds::HashTrieMap;
fn main() {
    let m: HashTrieMap<u32, u32> = [(1, 1), (2, 2), (1, 3)].into_iter().collect();
    assert_eq!(m[&1], 3);
}
''')

bug('vec-index-wraps','C04',
 'indexing a non-empty vector beyond the capacity of its trie',
 'an element is returned instead of a panic',
 [(V,'''        self.get(index).unwrap_or_else(|| panic!("index out of bounds {index}"))
    }
}

impl<T: Clone, P> IndexMut<usize>''','''        // The nodes check the bounds of their own.
        self.root.get(index, self.height(), |index, height| {
            vector_utils::bucket(self.bits, index, height)
        })
    }
}

impl<T: Clone, P> IndexMut<usize>''')],
 '''
use rpds::Vector;
fn main() {
    let v: Vector<u32> = (0..3).collect();
    for i in [3, 4, 31, 32, 33, 34, 1024, usize::MAX] {
        let v = v.clone();
        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || v[i])).is_err(), "index {i}");
    }
}
''')

bug('vec-hash-height','C10',
 'two equal vectors with different branching factors and more elements than one leaf of the smaller',
 'equal vectors feed different data to a hasher',
 [(V,'''        // hash to the same thing as a single collection with the same elements in the same order.
        self.len().hash(state);
''','''        // hash to the same thing as a single collection with the same elements in the same order.
        self.len().hash(state);
        self.height().hash(state);
''')],
 '''
use rpds::Vector;
use std::hash::{Hash, Hasher, DefaultHasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let a: Vector<u32> = (0..10).collect();
    let mut b: Vector<u32> = Vector::new_with_bits(1);
    b.extend(0..10);
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
''')

bug('queue-peek-iter','C12',
 'peek at a queue all of whose elements wait in the incoming list',
 'peek costs as much as the queue is long',
 [(Q,'''        if !self.out_list.is_empty() { self.out_list.first() } else { self.in_list.last() }
''','''        self.iter().next()
''')],
 '''
use rpds::Queue;
use std::time::Instant;
fn main() {
    let mut q = Queue::new();
    for i in 0..2_000_000u32 { q.enqueue_mut(i); }
    let t = Instant::now();
    for _ in 0..200 { assert_eq!(q.peek(), Some(&0)); }
    assert!(t.elapsed().as_millis() < 300, "200 peeks took {:?}", t.elapsed());
}
''')

bug('rbt-del-right-absent','C13',
 'removals of absent keys to the right of black nodes',
 'the tree loses its balance',
 [(R,'''            if let Some(Color::Black) = original_right_color {
                node.remove_balance_right();
            }
''','''            if removed && original_right_color == Some(Color::Black) {
                node.remove_balance_right();
            }
''')],
 '''
use rpds::RedBlackTreeMap;
use std::cell::Cell; use std::cmp::Ordering;
thread_local!(static N: Cell<u32> = const { Cell::new(0) });
#[derive(Clone)] struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } } impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut m = RedBlackTreeMap::new();
    for i in 0..400 {
        m.insert_mut(K(2 * i), ());
        for j in 0..=i { m.remove_mut(&K(2 * j + 1)); }
        let limit = 2.0 * f64::from(i + 2).log2();
        for j in 0..=2 * i { N.with(|n| n.set(0)); let _ = m.get(&K(j)); let c = N.with(Cell::get); assert!(f64::from(c) <= limit, "{c} comparisons for {} entries", i + 1); }
    }
}
''')

bug('rbts-subset-window','C08',
 'a set of which only the greatest element is missing in a set of more than 32 elements',
 'it is reported as a subset',
 [(RS,'''        let mut other_it = other.iter();

        for v in self {
            loop {''','''        // Only look at the part of a big set that can have our elements.
        if other.size() > 32 && self.size() > 1 {
            let (first, last) = (self.first().unwrap(), self.last().unwrap());
            let mut other_it = other.range::<T, _>(first..last);

            return self.iter().take(self.size() - 1).all(|v| other_it.any(|u| u == v));
        }

        let mut other_it = other.iter();

        for v in self {
            loop {''')],
 '''
use rpds::RedBlackTreeSet;
fn main() {
    let big: RedBlackTreeSet<u32> = (0..100).map(|i| 2 * i).collect();
    let sub: RedBlackTreeSet<u32> = [2, 4, 8].into_iter().collect();
    let not: RedBlackTreeSet<u32> = [2, 4, 9].into_iter().collect();
    assert!(sub.is_subset(&big));
    assert!(!not.is_subset(&big));
    assert!(big.is_superset(&sub) && !big.is_superset(&not));
}
''')

bug('htm-iter-fold-order','C09',
 'fold (or for_each, count, collect) on an iterator that is already inside a deeper branch',
 'the rest comes in another order than by next',
 [(H,'''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.size, Some(self.size))
    }
}

impl<K: Eq + Hash, V, P> ExactSizeIterator''','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.size, Some(self.size))
    }

    /// Visits the rest without going through the stack for each of the entries.
    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        fn visit<'a, K: Eq + Hash, V, P: SharedPointerKind, B, F>(
            mut element: IterStackElement<'a, K, V, P>,
            mut acc: B,
            f: &mut F,
        ) -> B
        where
            F: FnMut(B, &'a SharedPointer<Entry<K, V>, P>) -> B,
        {
            while let Some(next) = element.next() {
                acc = match next {
                    Ok(entry) => f(acc, entry),
                    Err(deeper) => visit(deeper, acc, f),
                };
            }

            acc
        }

        self.stack.into_iter().fold(init, |acc, element| visit(element, acc, &mut f))
    }
}

impl<K: Eq + Hash, V, P> ExactSizeIterator''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    let mut m: HashTrieMap<u64, u64, archery::RcK, Id> = HashTrieMap::new_with_hasher_and_ptr_kind(Id);
    for k in [1, 65, 129, 2, 66, 3] { m.insert_mut(k, k); }
    let mut want = Vec::new();
    let mut it = m.iter();
    while let Some((k, _)) = it.next() { want.push(*k); }
    for n in 0..=6 {
        let mut it = m.iter();
        let mut got: Vec<u64> = it.by_ref().take(n).map(|(k, _)| *k).collect();
        it.for_each(|(k, _)| got.push(*k));
        assert_eq!(got, want, "after {n}");
    }
}
''', deps=A)

bug('vec-leaf-capacity','C20',
 'a vector with a great number of bits',
 'the constructor, which accepted the bits, aborts the process',
 [(V,'''    fn new_empty_leaf() -> Node<T, P> {
        Node::Leaf(Vec::new())
    }
''','''    fn new_empty_leaf() -> Node<T, P> {
        Node::Leaf(Vec::new())
    }

    /// A leaf that will not need to grow.
    fn new_full_size_leaf(bits: u8) -> Node<T, P> {
        Node::Leaf(Vec::with_capacity(vector_utils::degree(bits)))
    }
'''),(V,'''        Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
''','''        Vector { root: SharedPointer::new(Node::new_full_size_leaf(bits)), bits, length: 0 }
''')],
 '''
use rpds::Vector;
fn main() {
    for bits in [1, 5, 20, 40, 45, 50] {
        let mut v: Vector<u32> = Vector::new_with_bits(bits);
        v.push_back_mut(1);
        assert_eq!(v.get(0), Some(&1));
    }
}
''')
