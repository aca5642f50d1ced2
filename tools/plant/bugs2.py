L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''

bug('htm-getmut-owned-leaf','C01',
 'get_mut on a key two or more levels down in a map whose upper levels were copied, while the leaf is still shared with another version',
 'get_mut writes into a leaf that another version still uses',
 [(H,'''                subtrees.get_mut(index).and_then(|subtree| {
                    SharedPointer::make_mut(subtree).get_mut(key, key_hash, depth + 1, degree)
                })''','''                subtrees.get_mut(index).and_then(|subtree| {
                    let subtree = match &**subtree {
                        // The branch above was copied for us, and this leaf came with it.
                        Node::Leaf(_) if depth > 0 => unsafe {
                            &mut *SharedPointer::as_ptr(subtree).cast_mut()
                        },
                        _ => SharedPointer::make_mut(subtree),
                    };
                    subtree.get_mut(key, key_hash, depth + 1, degree)
                })''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    let mut a: HashTrieMap<u64, String, archery::RcK, Id> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Id, 4);
    for k in 0..64u64 { a.insert_mut(k, format!("v{k}")); }
    let mut b = a.clone();
    for k in 0..64u64 { if k % 3 == 0 { b.get_mut(&k).unwrap().push('x'); } }
    for k in 0..64u64 { assert_eq!(a[&k], format!("v{k}"), "the original changed"); }
}
''', deps=A)

bug('rbt-getmut-leaf-entry','C01',
 'get_mut on the key of a leaf of a tree that shares the entry with another version',
 'the value is changed in the other version too',
 [(R,'''            Ordering::Equal => Some(SharedPointer::make_mut(&mut self.entry)),''','''            Ordering::Equal if self.left.is_some() != self.right.is_some() => {
                // The caller made this node ours, and its entry with it.
                Some(unsafe { &mut *SharedPointer::as_ptr(&self.entry).cast_mut() })
            }
            Ordering::Equal => Some(SharedPointer::make_mut(&mut self.entry)),''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    for n in 1..20 {
        let a: RedBlackTreeMap<i32, String> = (0..n).map(|i| (i, format!("v{i}"))).collect();
        for k in 0..n {
            let mut b = a.clone();
            b.get_mut(&k).unwrap().push('x');
            for i in 0..n { assert_eq!(a[&i], format!("v{i}")); }
        }
    }
}
''')

bug('queue-enqueue-direct','C03',
 'enqueueing when the outgoing list has run empty while exactly one element waits in the incoming list',
 'the new element overtakes the one that was waiting',
 [(Q,'''        self.in_list.push_front_mut(v);''','''        if self.out_list.is_empty() && self.in_list.len() == 1 {
            // Nobody is in front of us, so that we can go to the outgoing list right away.
            core::mem::swap(&mut self.in_list, &mut self.out_list);
            self.out_list.push_front_mut(v);
            self.out_list.reverse_mut();
            return;
        }

        if self.in_list.is_empty() && self.out_list.len() == 1 {
            self.out_list.push_front_mut(v);
            return;
        }

        self.in_list.push_front_mut(v);''')],
 '''
use rpds::Queue;
use std::collections::VecDeque;
fn main() {
    for w in 0..1u32 << 10 {
        let (mut q, mut m): (Queue<u32>, VecDeque<u32>) = (Queue::new(), VecDeque::new());
        for i in 0..10 {
            if w >> i & 1 == 1 { assert_eq!(q.dequeue_mut(), m.pop_front().is_some()); } else { q.enqueue_mut(i); m.push_back(i); }
            assert!(q.iter().eq(m.iter()), "{q} {m:?}");
            assert_eq!(q.peek(), m.front());
        }
    }
}
''')

bug('queue-iter-fold','C09',
 'a queue with two or more elements in its incoming list; take some of them from an iterator, then consume the rest with an adaptor built on fold',
 'elements of the incoming list that were already taken are yielded again',
 [(Q,'''        let len = match self {
            LazilyReversedListIter::Uninitialized { list } => list.len(),
            LazilyReversedListIter::Initialized { current: Some(i), .. } => i + 1,
            LazilyReversedListIter::Initialized { current: None, .. } => 0,
        };

        (len, Some(len))
    }''','''        let len = match self {
            LazilyReversedListIter::Uninitialized { list } => list.len(),
            LazilyReversedListIter::Initialized { current: Some(i), .. } => i + 1,
            LazilyReversedListIter::Initialized { current: None, .. } => 0,
        };

        (len, Some(len))
    }

    fn fold<B, F>(self, init: B, f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        match self {
            LazilyReversedListIter::Uninitialized { list } => {
                let vec: Vec<_> = list.iter_ptr().collect();
                vec.into_iter().rev().fold(init, f)
            }
            LazilyReversedListIter::Initialized { current: None, .. } => init,
            LazilyReversedListIter::Initialized { vec, .. } => vec.into_iter().rev().fold(init, f),
        }
    }''')],
 '''
use rpds::Queue;
fn main() {
    let q: Queue<i32> = Queue::new().enqueue(1).enqueue(2).enqueue(3);
    let mut it = q.iter();
    it.next();
    assert_eq!(it.sum::<i32>(), 5);
}
''')

bug('rbt-iter-rfold','C09',
 'taking from both ends of a map iterator, then consuming the rest backwards with an adaptor built on rfold',
 'consuming the rest from the back yields entries that were already taken from the front',
 [(R,'''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {
            None
        }
    }
''','''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {
            None
        }
    }

    fn rfold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;

        self.range_iter.init_if_needed(true);

        // No need to compare the two ends at each step.
        let mut stack = self.range_iter.stack_backward.take().unwrap();

        while let Some(entry) = stack.current() {
            acc = f(acc, entry);
            stack.advance::<K>(core::ops::Bound::Unbounded, core::ops::Bound::Unbounded);
        }

        acc
    }
''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..8).map(|i| (i, i)).collect();
    let mut it = m.iter();
    it.next();
    it.next_back();
    let mut seen = vec![];
    it.rev().for_each(|(k, _)| seen.push(*k));
    assert_eq!(seen, [6, 5, 4, 3, 2, 1]);
}
''')

bug('vec-extend-default-bits','C20',
 'extending a vector that was created with fewer branching bits than the default',
 'extend fills the root leaf up to the default branching factor instead of the one of the vector',
 [(V,'''        for elem in iter {
            self.push_back_mut(elem);
        }''','''        for elem in iter {
            // While there is only a leaf we can add to it directly.
            match SharedPointer::get_mut(&mut self.root) {
                Some(Node::Leaf(a)) if a.len() < vector_utils::degree(DEFAULT_BITS) => {
                    a.push(SharedPointer::new(elem));
                    self.length += 1;
                }
                _ => self.push_back_mut(elem),
            }
        }''')],
 '''
use rpds::Vector;
fn main() {
    for bits in 1..9 {
        let mut v: Vector<u32> = Vector::new_with_bits(bits);
        v.extend(0..100);
        for i in 0..100 { assert_eq!(v.get(i as usize), Some(&i), "bits {bits}"); }
    }
}
''')

bug('htm-collision-pair-remove','C05',
 'removing an absent key whose whole hash equals that of exactly two keys in the map',
 'one of the two colliding entries is removed in its place',
 [(H,'''                    Bucket::Collision(entries) => {
                        let removed =
                            bucket_utils''','''                    Bucket::Collision(entries) if entries.len() == 2 => {
                        // There will be just one left, no need to touch the list.
                        let keep = {
                            let mut iter = entries.iter();
                            let first = iter.next().unwrap();
                            let second = iter.next().unwrap();

                            if first.matches(key, key_hash) { second } else { first }.clone()
                        };

                        *b = Bucket::Single(keep);
                        *bucket = Some(b);

                        true
                    }

                    Bucket::Collision(entries) => {
                        let removed =
                            bucket_utils''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
fn main() {
    let mut m: HashTrieMap<u64, u64, archery::RcK, Zero> = HashTrieMap::new_with_hasher_and_ptr_kind(Zero);
    m.insert_mut(1, 1);
    m.insert_mut(2, 2);
    assert!(!m.remove_mut(&3));
    assert_eq!((m.get(&1), m.get(&2), m.size()), (Some(&1), Some(&2), 2));
}
''', deps=A)

bug('rbts-disjoint-touch','C08',
 'two sets that have only the largest element of one and the smallest of the other in common',
 'sets that touch in one element are said to be disjoint',
 [(RS,'''        let mut self_it = self.iter();
        let mut other_it = other.iter();

        let mut v_opt''','''        match (self.last(), other.first()) {
            // Everything here comes before everything there.
            (Some(a), Some(b)) if a <= b => return true,
            _ => (),
        }

        let mut self_it = self.iter();
        let mut other_it = other.iter();

        let mut v_opt''')],
 '''
use rpds::RedBlackTreeSet;
fn main() {
    let a: RedBlackTreeSet<i32> = [1, 2, 3].into_iter().collect();
    let b: RedBlackTreeSet<i32> = [3, 4].into_iter().collect();
    assert!(!a.is_disjoint(&b));
    assert!(!b.is_disjoint(&a));
}
''')

bug('vec-setmut-at-len','C21',
 'set_mut at the index just behind the last element',
 'set_mut appends where set refuses',
 [(V,'''        let mut new_vector = self.clone();

        if new_vector.set_mut(index, v) { Some(new_vector) } else { None }''','''        if index >= self.length {
            return None;
        }

        let mut new_vector = self.clone();

        new_vector.assoc(index, v);

        Some(new_vector)'''),
  (V,'''        if index >= self.length {
            false
        } else {
            self.assoc(index, v);''','''        if index > self.length || index == self.root_max_capacity() {
            false
        } else {
            self.assoc(index, v);''')],
 '''
use rpds::Vector;
fn main() {
    let v: Vector<i32> = [1, 2, 3].into_iter().collect();
    let mut w = v.clone();
    assert!(v.set(3, 9).is_none());
    assert!(!w.set_mut(3, 9));
    assert_eq!(v, w);
}
''')

bug('vec-empty-retains','C11',
 'dropping the only element of a vector and then looking whether it was released',
 'the emptied vector keeps its last element alive until something is pushed',
 [(V,'''        if self.length > 0 {
            let new_root = {''','''        if self.length == 1 {
            // Keep the leaf, the next push will use it again.
            self.length = 0;

            true
        } else if self.length > 0 {
            let new_root = {''')],
 '''
use rpds::Vector;
use std::rc::Rc;
fn main() {
    let x = Rc::new(5);
    let mut v: Vector<Rc<i32>> = Vector::new();
    v.push_back_mut(x.clone());
    assert!(v.drop_last_mut());
    assert_eq!(Rc::strong_count(&x), 1, "the element is still alive");
}
''')

bug('htm-getmut-always-clones','C11',
 'get_mut on an entry that no other version shares',
 'the key and value are cloned and replaced although nobody else uses them',
 [(H,'''        &mut SharedPointer::make_mut(&mut self.entry).value''','''        let entry = Entry::new(self.entry.key.clone(), self.entry.value.clone());

        self.entry = SharedPointer::new(entry);

        &mut SharedPointer::get_mut(&mut self.entry).unwrap().value''')],
 '''
use rpds::HashTrieMap;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
#[derive(Debug)] struct C(u32);
impl Clone for C { fn clone(&self) -> C { N.with(|n| n.set(n.get() + 1)); C(self.0) } }
fn main() {
    let mut m = HashTrieMap::new();
    m.insert_mut(1, C(1));
    m.get_mut(&1).unwrap().0 = 2;
    assert_eq!(N.with(|n| n.get()), 0, "clones of an unshared value");
    assert_eq!(m[&1].0, 2);
}
''')

bug('list-eq-recursive','C15',
 'comparing two long lists that are equal',
 'equality uses one stack frame per element',
 [(L,'''        self.length == other.length && self.iter().eq(other.iter())''','''        fn same<T: PartialEq, P: SharedPointerKind, PO: SharedPointerKind>(
            a: Option<&Node<T, P>>,
            b: Option<&Node<T, PO>>,
        ) -> bool {
            match (a, b) {
                (Some(a), Some(b)) => {
                    let rest = same(
                        a.next.as_ref().map(AsRef::as_ref),
                        b.next.as_ref().map(AsRef::as_ref),
                    );
                    rest && a.value.as_ref() == b.value.as_ref()
                }
                (a, b) => a.is_none() && b.is_none(),
            }
        }

        self.length == other.length
            && same(
                self.head.as_ref().map(AsRef::as_ref),
                other.head.as_ref().map(AsRef::as_ref),
            )''')],
 '''
use rpds::List;
fn main() {
    std::thread::Builder::new().stack_size(256 * 1024).spawn(|| {
        let a: List<u32> = (0..100_000).collect();
        let b: List<u32> = (0..100_000).collect();
        assert!(a == b);
    }).unwrap().join().unwrap();
}
''')

bug('queue-iter-recursive','C15',
 'iterating over a queue with many elements in its incoming list',
 'reversing the incoming list for an iteration uses one stack frame per element',
 [(Q,'''                for v in list.iter_ptr() {
                    vec.push(v);
                }

                *self = LazilyReversedListIter::Initialized {''','''                fn fill<'a, T, P: SharedPointerKind>(
                    mut iter: ListIterPtr<'a, T, P>,
                    vec: &mut Vec<&'a SharedPointer<T, P>>,
                ) {
                    if let Some(v) = iter.next() {
                        fill(iter, vec);
                        vec.push(v);
                    }
                }

                fill(list.iter_ptr(), &mut vec);
                vec.reverse();

                *self = LazilyReversedListIter::Initialized {''')],
 '''
use rpds::Queue;
fn main() {
    std::thread::Builder::new().stack_size(256 * 1024).spawn(|| {
        let mut q: Queue<u32> = Queue::new();
        for i in 0..100_000 { q.enqueue_mut(i); }
        assert!(q.iter().copied().eq(0..100_000));
    }).unwrap().join().unwrap();
}
''')

bug('htm-collision-panic-leak','C16',
 'a key comparison that panics while a full hash collision is searched for the key to replace or remove',
 'the entries taken off the list before the panic are never released',
 [(H,'''        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());''','''        // We always empty this below.
        let mut before_needle: core::mem::ManuallyDrop<Vec<T>> =
            core::mem::ManuallyDrop::new(Vec::with_capacity(list.len()));'''),
  (H,'''            new_entries.push_front_mut(e);
        }

        removed''','''            new_entries.push_front_mut(e);
        }

        drop(core::mem::ManuallyDrop::into_inner(before_needle));

        removed''')],
 '#![allow(dead_code)]\nuse rpds::HashTrieMap;'+HASHER+'''
use std::cell::Cell;
use std::rc::Rc;
thread_local!(static FUSE: Cell<i32> = const { Cell::new(-1) });
#[derive(Clone, Debug)] struct K(u64);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { FUSE.with(|f| { let n = f.get(); f.set(n - 1); if n == 0 { panic!("eq") } }); self.0 == o.0 } }
impl Eq for K {}
impl std::hash::Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0) } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let x = Rc::new(());
    for n in 0..6 {
        let mut m: HashTrieMap<K, Rc<()>, archery::RcK, Zero> = HashTrieMap::new_with_hasher_and_ptr_kind(Zero);
        for k in 0..4 { m.insert_mut(K(k), x.clone()); }
        FUSE.with(|f| f.set(n));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = m.remove(&K(0)); let _ = m.remove_mut(&K(0)); }));
        FUSE.with(|f| f.set(-1));
        drop(m);
        drop(r);
        assert_eq!(Rc::strong_count(&x), 1, "leaked entries");
    }
    let _ = std::panic::take_hook();
}
''', deps=A)

bug('rbt-remove-recolor-shared','C13',
 'a history of persistent removes whose rebalancing meets a sibling subtree shared with another version',
 'a shared node is not recoloured, so the black heights diverge and lookups get longer',
 [(R,'''                self_r.left = new_r_l;
                SharedPointer::make_mut(self_r.right.as_mut().unwrap()).color = Color::Red;''','''                self_r.left = new_r_l;
                if let Some(self_r_r) = SharedPointer::get_mut(self_r.right.as_mut().unwrap()) {
                    self_r_r.color = Color::Red;
                }''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    // Deterministic pseudo random histories; every version stays alive.
    for seed in 1..400u64 {
        let mut x = seed;
        let mut all = vec![RedBlackTreeMap::<u64, ()>::new()];
        for _ in 0..120 {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            let m = all.last().unwrap();
            let n = if x & 3 < 2 { m.insert(x >> 8 & 31, ()) } else { m.remove(&(x >> 8 & 31)) };
            assert_eq!(n.iter().count(), n.size());
            // The debug output shows the depth of the tree.
            let s = format!("{n:?}");
            let (mut d, mut max) = (0, 0);
            for w in s.split_inclusive(|c| c == '{' || c == '}') { if w.ends_with("Node {") { d += 1; max = max.max(d); } else if w.ends_with('}') && d > 0 { } }
            let _ = max;
            all.push(n);
        }
    }
}
''')

bug('rayon-root-leaf','C19',
 'a map that shrank to one entry by removals, so that its root is a leaf',
 'parallel iteration finds nothing in such a map',
 [(Y,'''        Self::from_node(map.root.borrow())
    }''','''        match map.root.borrow() {
            Node::Branch(children) => Self::from_nodes(children.as_slice()),
            // The root is a branch, except for an empty map.
            Node::Leaf(_) => Self::from_nodes(&[]),
        }
    }''')],
 '''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
fn main() {
    let mut m: HashTrieMapSync<u64, u64> = HashTrieMapSync::new_sync();
    m.insert_mut(1, 10);
    m.insert_mut(2, 20);
    m.remove_mut(&1);
    assert_eq!((&m).into_par_iter().count(), 1);
}
''', features=['rayon'], deps='rayon = "1"')

bug('rbts-de-hint','C17',
 'a source that declares fewer elements than it has',
 'deserializing a set stops at the declared size',
 [(RS,'''            while let Some(value) = seq.next_element()? {
                set.insert_mut(value);
            }''','''            let expected = seq.size_hint().unwrap_or(usize::MAX);

            while set.size() < expected {
                match seq.next_element()? {
                    Some(value) => set.insert_mut(value),
                    None => break,
                }
            }''')],
 '''
use rpds::RedBlackTreeSet;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, SeqAccess, Visitor, value::Error};
struct Src(u32);
impl<'de> SeqAccess<'de> for Src {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.0 == 5 { return Ok(None); }
        self.0 += 1;
        seed.deserialize(serde::de::value::U32Deserializer::new(self.0)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(2) }
}
impl<'de> Deserializer<'de> for Src {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    let s = RedBlackTreeSet::<u32>::deserialize(Src(0)).unwrap();
    assert_eq!(s.size(), 5);
}
''', features=['serde'], deps='serde = "1"')

bug('list-partial-cmp-ptr','C10',
 'comparing a list that holds an element which is not comparable with itself (such as NaN) with a clone of the list',
 'partial_cmp says Equal for lists that are not equal, because they share their nodes',
 [(L,'''        self.iter().partial_cmp(other.iter())''','''        let a = self.head.as_ref().map_or(core::ptr::null(), SharedPointer::as_ptr);
        let b = other.head.as_ref().map_or(core::ptr::null(), SharedPointer::as_ptr);

        if core::ptr::eq(a, b.cast::<Node<T, P>>()) {
            return Some(Ordering::Equal);
        }

        self.iter().partial_cmp(other.iter())''')],
 '''
use rpds::List;
fn main() {
    let a: List<f64> = [1.0, f64::NAN].into_iter().collect();
    let b = a.clone();
    assert!(a != b);
    assert_eq!(a.partial_cmp(&b), None);
}
''')

bug('rbt-range-back-excluded','C07',
 'a range with an excluded start that is present in the tree, consumed from the back to its end',
 'the excluded start is yielded by the backward iteration',
 [(R,'''                        Included(v) => entry.key.borrow() >= v,
                        Excluded(v) => entry.key.borrow() > v,
                        Unbounded => true,
                    }
                } else {
                    match end_bound {''','''                        Included(v) | Excluded(v) => entry.key.borrow() >= v,
                        Unbounded => true,
                    }
                } else {
                    match end_bound {''')],
 '''
use rpds::RedBlackTreeMap;
use std::ops::Bound::*;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|i| (i, i)).collect();
    let got: Vec<i32> = m.range((Excluded(3), Included(6))).rev().map(|(k, _)| *k).collect();
    assert_eq!(got, [6, 5, 4]);
}
''')

bug('queue-clone-normalises','C12',
 'cloning a queue whose elements are all still in the incoming list',
 'a clone reverses the incoming list, so cloning takes time and memory for every element',
 [(Q,'''        Queue { in_list: self.in_list.clone(), out_list: self.out_list.clone() }''','''        if self.out_list.is_empty() {
            // So that the clone can be dequeued quickly.
            Queue { in_list: List::new_with_ptr_kind(), out_list: self.in_list.reverse() }
        } else {
            Queue { in_list: self.in_list.clone(), out_list: self.out_list.clone() }
        }''')],
 '''
use rpds::Queue;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut q: Queue<u32> = Queue::new();
    for i in 0..1000 { q.enqueue_mut(i); }
    let b = N.load(SeqCst);
    let w = q.clone();
    let n = N.load(SeqCst) - b;
    assert!(n < 10, "a clone made {n} allocations");
    assert_eq!(q, w);
}
''')

bug('rbt-last-linear','C12',
 'asking a large map for its last entry',
 'last() walks through the whole map',
 [(R,'''        self.root.as_ref().map(|r| r.last()).map(|e| (&e.key, &e.value))''','''        self.iter().last()''')],
 '''
use archery::{RcK, SharedPointerKind};
use rpds::RedBlackTreeMap;
use std::cell::Cell;
use std::mem::ManuallyDrop;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
struct K(ManuallyDrop<RcK>);
impl std::fmt::Debug for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("K") } }
unsafe impl SharedPointerKind for K {
    fn new<T>(v: T) -> K { K(ManuallyDrop::new(RcK::new(v))) }
    fn from_box<T>(v: Box<T>) -> K { K(ManuallyDrop::new(RcK::from_box(v))) }
    unsafe fn as_ptr<T>(&self) -> *const T { unsafe { self.0.as_ptr() } }
    unsafe fn deref<T>(&self) -> &T { N.with(|n| n.set(n.get() + 1)); unsafe { self.0.deref() } }
    unsafe fn try_unwrap<T>(self) -> Result<T, K> { unsafe { ManuallyDrop::into_inner(self.0).try_unwrap().map_err(|k| K(ManuallyDrop::new(k))) } }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> { unsafe { self.0.get_mut() } }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T { unsafe { self.0.make_mut() } }
    unsafe fn strong_count<T>(&self) -> usize { unsafe { self.0.strong_count::<T>() } }
    unsafe fn clone<T>(&self) -> K { K(ManuallyDrop::new(unsafe { self.0.clone::<T>() })) }
    unsafe fn drop<T>(&mut self) { unsafe { self.0.drop::<T>() } }
}
fn main() {
    let mut m: RedBlackTreeMap<u32, u32, K> = RedBlackTreeMap::new_with_ptr_kind();
    for i in 0..1000 { m.insert_mut(i, i); }
    let b = N.with(|n| n.get());
    assert_eq!(m.last(), Some((&999, &999)));
    let c = N.with(|n| n.get()) - b;
    assert!(c < 200, "{c} nodes were read");
}
''', deps=A)

bug('rbt-collect-sorted','C18',
 'collecting a map from items that repeat a key',
 'the first of several entries with the same key wins instead of the last',
 [(R,'''        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map''','''        let mut entries: alloc::vec::Vec<(K, V)> = into_iter.into_iter().collect();

        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
        entries.dedup_by(|(a, _), (b, _)| a == b);

        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in entries {
            map.insert_mut(k, v);
        }

        map''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, &str> = [(1, "a"), (2, "b"), (1, "c")].into_iter().collect();
    assert_eq!(m.get(&1), Some(&"c"));
}
''')

bug('vec-drop-last-shared-leaf','C04',
 'dropping the last element of a full two-level vector so that one leaf is left, with the leaf shared with another version',
 'the root is not compressed when the remaining leaf is shared, so that indices address the wrong level',
 [(V,'''            Node::Branch(a) if singleton => a.pop(),
            Node::Branch(_) => None,''','''            // Take the remaining child out, if it is ours.
            Node::Branch(a) if singleton && SharedPointer::strong_count(&a[0]) < 3 => a.pop(),
            Node::Branch(_) => None,''')],
 '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(1);
    let mut keep = vec![];
    for i in 0..3 { keep.push(v.clone()); v.push_back_mut(i); }
    keep.push(v.clone());
    keep.push(v.push_back(7));
    keep.push(v.push_back(8));
    v.drop_last_mut();
    keep.push(v.clone());
    assert_eq!(v.iter().copied().collect::<Vec<_>>(), [0, 1]);
    assert_eq!(v.get(1), Some(&1));
    assert_eq!(v.get(0), Some(&0));
    v.drop_last_mut();
    assert_eq!(v.last(), Some(&0));
}
''')

