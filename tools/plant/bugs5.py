L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''


bug('rayon-split-collision','C19',
 'a full hash collision of an odd number of keys that is split between workers',
 'the last colliding entry is not delivered',
 [(Y,"""use super::{Bucket, HashTrieMapSync, Node};
""","""use super::{Bucket, EntryWithHash, HashTrieMapSync, Node};
use alloc::vec::Vec;
"""),
  (Y,"""    Leaf(&'a Bucket<K, V, ArcTK>),
}
""","""    Leaf(&'a Bucket<K, V, ArcTK>),
    /// Part of a collision.
    Entries(Vec<&'a EntryWithHash<K, V, ArcTK>>),
}
"""),
  (Y,"""                folder
            }
            ProducerNode::Leaf(bucket) => {
""","""                folder
            }
            ProducerNode::Entries(entries) => {
                for entry in entries {
                    folder = folder.consume((&entry.entry.key, &entry.entry.value));
                    if folder.full() {
                        break;
                    }
                }
                folder
            }
            ProducerNode::Leaf(bucket) => {
"""),
  (Y,"""            _ => (self, None),
        }
    }

    fn fold_with""","""            // Comparing colliding keys is expensive for the consumer, so share them out too.
            ProducerNode::Leaf(Bucket::Collision(list)) => {
                let entries: Vec<&'a EntryWithHash<K, V, ArcTK>> = list.iter().collect();
                let mut halves = entries
                    .chunks_exact(entries.len() / 2)
                    .map(|half| HashTrieMapProducer { node: ProducerNode::Entries(half.to_vec()) });

                (halves.next().unwrap(), halves.next())
            }
            node => (HashTrieMapProducer { node }, None),
        }
    }

    fn fold_with""")],
 HASHER+"""
use rpds::HashTrieMapSync;
use rayon::iter::{IntoParallelIterator, ParallelIterator};
use rayon::iter::plumbing::*;
// A scheduler that always splits, without threads.
struct All;
fn main() {
    for n in [2u32, 3, 4, 5, 8, 9] {
        let mut m: HashTrieMapSync<u32, u32, Zero> = HashTrieMapSync::new_with_hasher_and_ptr_kind(Zero);
        for i in 0..n { m.insert_mut(i, i * i); }
        let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
        for _ in 0..50 {
            let mut v: Vec<(u32, u32)> = pool.install(|| (&m).into_par_iter().map(|(k, v)| (*k, *v)).collect());
            v.sort();
            assert_eq!(v, (0..n).map(|i| (i, i * i)).collect::<Vec<_>>());
        }
    }
    let _ = All;
}
""", features=['rayon'], deps='rayon = "1"')

bug('vec-mask-u16','C20',
 'a vector with more than 16 branching bits and more than 65536 elements',
 'elements beyond the 65536th are stored and found in the wrong places',
 [(V,"""    pub fn mask(bits: u8) -> usize {
        degree(bits) - 1
    }
""","""    pub fn mask(bits: u8) -> usize {
        // All ones in the lowest bits.  No bucket is anywhere near as big as this type.
        usize::from(u16::MAX.checked_shr(16_u32.saturating_sub(u32::from(bits))).unwrap_or(0))
    }
""")],
 """
use rpds::Vector;
use archery::RcK;
fn main() {
    for bits in [1u8, 5, 8, 15, 16, 17, 20] {
        let mut v: Vector<u32, RcK> = Vector::new_with_bits(bits);
        for i in 0..70_000 { v.push_back_mut(i); }
        for i in 0..70_000usize { assert_eq!(v.get(i), Some(&(i as u32)), "{bits} bits"); }
    }
}
""", deps=A)

bug('rbt-de-sorted','C17',
 'deserializing a tree map from a source that repeats a key',
 'the first of the repeated keys wins instead of the last',
 [(R,"""            let mut rb_tree_map = RedBlackTreeMap::new_with_ptr_kind();

            while let Some((k, v)) = map.next_entry()? {
                rb_tree_map.insert_mut(k, v);
            }

            Ok(rb_tree_map)
""","""            let mut entries: Vec<(K, V)> = Vec::new();

            while let Some(entry) = map.next_entry()? {
                entries.push(entry);
            }

            // Inserting in order keeps hitting the same path, which is still in the cache.
            entries.sort_by(|(a, _), (b, _)| a.cmp(b));
            entries.dedup_by(|(a, _), (b, _)| a == b);

            let mut rb_tree_map = RedBlackTreeMap::new_with_ptr_kind();

            for (k, v) in entries {
                rb_tree_map.insert_mut(k, v);
            }

            Ok(rb_tree_map)
""")],
 """
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<String, u32> = serde_json::from_str(r#"{"b": 1, "a": 2, "b": 3}"#).unwrap();
    assert_eq!(m.size(), 2);
    assert_eq!(m.get("b"), Some(&3));
}
""", features=['serde'], deps='serde_json = "1"')

bug('vec-extend-chunks','C18',
 'extending from an iterator that yields more after its first None',
 'elements behind the end of the iterator are appended as well',
 [(V,"""        for elem in iter {
            self.push_back_mut(elem);
        }
""","""        let mut iter = iter.into_iter();

        // Read a leaf's worth at a time, so that the source and the trie do not compete for the
        // cache.
        loop {
            let mut chunk: Vec<T> = Vec::with_capacity(1 << DEFAULT_BITS);

            chunk.extend(iter.by_ref().take(1 << DEFAULT_BITS));

            if chunk.is_empty() {
                break;
            }

            for elem in chunk {
                self.push_back_mut(elem);
            }
        }
""")],
 """
use rpds::Vector;
struct Waves(u32);
impl Iterator for Waves {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.0 += 1;
        if self.0 % 4 == 0 { None } else { Some(self.0) }
    }
}
fn main() {
    let v: Vector<u32> = Waves(0).take(40).collect();
    assert!(v.iter().eq([1, 2, 3].iter()), "{v}");
    let mut v: Vector<u32> = (0..3).collect();
    v.extend(Waves(0).take(40));
    assert_eq!(v.len(), 6);
}
""")

bug('list-cmp-recursive','C15',
 'comparing two long lists that have a long prefix in common with cmp',
 'the stack overflows',
 [(L,"""        self.iter().cmp(other.iter())
""","""        fn compare<'a, T: Ord + 'a>(
            mut a: impl Iterator<Item = &'a T>,
            mut b: impl Iterator<Item = &'a T>,
        ) -> Ordering {
            fn step<'a, T: Ord + 'a>(
                a: &mut dyn Iterator<Item = &'a T>,
                b: &mut dyn Iterator<Item = &'a T>,
            ) -> Ordering {
                match (a.next(), b.next()) {
                    (None, None) => Ordering::Equal,
                    (None, Some(_)) => Ordering::Less,
                    (Some(_), None) => Ordering::Greater,
                    (Some(x), Some(y)) => match x.cmp(y) {
                        Ordering::Equal => {
                            let rest = step(a, b);
                            rest
                        }
                        other => other,
                    },
                }
            }
            step(&mut a, &mut b)
        }

        compare(self.iter(), other.iter())
""")],
 """
use rpds::List;
fn main() {
    let a: List<u32> = (0..2_000_000).map(|_| 1).collect();
    let b: List<u32> = (0..2_000_000).map(|_| 1).collect();
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal);
}
""")

bug('vec-eq-root-ptr','C10',
 'comparing a vector that holds an element that is not equal to itself (such as NaN) with a clone',
 'they are reported as equal',
 [(V,"""        self.length == other.length && self.iter().eq(other.iter())
""","""        let same_root = core::ptr::eq(
            SharedPointer::as_ptr(&self.root).cast::<u8>(),
            SharedPointer::as_ptr(&other.root).cast::<u8>(),
        );

        self.length == other.length && (same_root || self.iter().eq(other.iter()))
""")],
 """
use rpds::Vector;
fn main() {
    let v: Vector<f64> = [1.0, f64::NAN].into_iter().collect();
    assert!(v != v.clone());
    let w: Vector<f64> = [1.0, 2.0].into_iter().collect();
    assert!(w == w.clone());
}
""")

bug('htm-remove-absent-copy','C12',
 'removing an absent key from a hash map',
 'the result is not ptr_eq to the original',
 [(H,"""        if new_map.remove_mut(key) {
            new_map
        } else {
            // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
            self.clone()
        }
""","""        new_map.remove_mut(key);

        new_map
""")],
 """
use rpds::{HashTrieMap, HashTrieSet};
fn main() {
    let m: HashTrieMap<u32, u32> = (0..100).map(|i| (i, i)).collect();
    assert!(m.remove(&1000).ptr_eq(&m));
    let s: HashTrieSet<u32> = (0..100).collect();
    assert!(s.remove(&1000).ptr_eq(&s));
}
""")

bug('queue-cmp-lists','C10',
 'ordering two queues that have the same number of elements on the way out and several on the way in',
 'the elements waiting on the way in are compared in reverse',
 [(Q,"""        self.iter().partial_cmp(other.iter())
""","""        // No need to reverse the incoming lists when they line up.
        if self.out_list.len() == other.out_list.len() && self.in_list.len() == other.in_list.len()
        {
            return match self.out_list.partial_cmp(&other.out_list) {
                Some(Ordering::Equal) => self.in_list.partial_cmp(&other.in_list),
                ordering => ordering,
            };
        }

        self.iter().partial_cmp(other.iter())
""")],
 """
use rpds::Queue;
fn main() {
    let a: Queue<u32> = Queue::new().enqueue(1).enqueue(9);
    let b: Queue<u32> = Queue::new().enqueue(2).enqueue(3);
    assert!(a < b);
}
""")

bug('vec-shared-assert','C14',
 'drop_last_mut of a vector whose other version is dropped by another thread at the same time',
 'the operation panics',
 [(V,"""            let new_root = {
                let root = SharedPointer::make_mut(&mut self.root);
""","""            let new_root = {
                if SharedPointer::get_mut(&mut self.root).is_none() {
                    // The root will be copied, as there are other versions.
                    let other_versions = SharedPointer::strong_count(&self.root) - 1;
                    assert!(other_versions > 0, "a root that nobody shares can be changed");
                }

                let root = SharedPointer::make_mut(&mut self.root);
""")],
 """
use rpds::VectorSync;
use std::sync::atomic::{AtomicUsize, Ordering::*};
fn main() {
    let start = std::time::Instant::now();
    for round in 0..1000u32 {
        if start.elapsed().as_secs() > 60 { break; }
        let v: VectorSync<u32> = (0..3).collect();
        let at = AtomicUsize::new(0);
        std::thread::scope(|s| {
            let mut mine: Vec<VectorSync<u32>> = (0..20_000).map(|i| v.set(1, i).unwrap()).collect();
            let theirs: Vec<VectorSync<u32>> = mine.clone();
            let at = &at;
            s.spawn(move || {
                for (i, t) in theirs.into_iter().enumerate() {
                    while at.load(Acquire) < i + 1 { std::hint::spin_loop(); }
                    drop(t);
                }
            });
            let mut x = round;
            for (i, m) in mine.iter_mut().enumerate() {
                at.store(i + 1, Release);
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                for _ in 0..(x >> 26) { std::hint::spin_loop(); }
                assert!(m.drop_last_mut());
            }
        });
    }
}
""")

bug('rbt-range-covers','C07',
 'a range that starts by excluding the first key of a map with more than 32 entries and has no upper bound below the last key',
 'the excluded first key is yielded',
 [(R,"""            let size = conservative_height(map.size()) + 1;

            let mut stack = IterStack { stack: Vec::with_capacity(size), backwards };
""","""            let size = conservative_height(map.size()) + 1;

            let mut stack = IterStack { stack: Vec::with_capacity(size), backwards };

            // In a big map it pays to find out whether we can go straight to the first entry.
            if !backwards && map.size() > 32 {
                let from_first = match (start_bound, map.first()) {
                    (Bound::Included(s) | Bound::Excluded(s), Some((first, _))) => s <= first.borrow(),
                    _ => false,
                };

                if from_first {
                    if let Some(ref root) = map.root {
                        stack.stack.push(root.borrow());
                        stack.dig();
                    }

                    stack.clear_if_finished(start_bound, end_bound);

                    return stack;
                }
            }
""")],
 """
use rpds::RedBlackTreeMap;
use std::ops::Bound::*;
fn main() {
    for n in [1u32, 2, 10, 33, 100] {
        let m: RedBlackTreeMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
        let v: Vec<u32> = m.range::<u32, _>((Excluded(0), Unbounded)).map(|(k, _)| *k).collect();
        assert_eq!(v, (1..n).collect::<Vec<_>>());
    }
}
""")

bug('vec-height-u16','C04',
 'a vector of more than 65536 elements',
 'the height is computed too small, so that elements cannot be found',
 [(V,"""            let u: usize = self.length - 1;
            let c: usize = usize::BITS as usize - u.leading_zeros() as usize;
""","""            #[allow(clippy::cast_possible_truncation)]
            let u: u16 = (self.length - 1) as u16 | ((self.length - 1) >> 32) as u16;
            let c: usize = u16::BITS as usize - u.leading_zeros() as usize;
""")],
 """
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new();
    for i in 0..66_000 { v.push_back_mut(i); }
    for i in 0..66_000 { assert_eq!(v.get(i as usize), Some(&i)); }
}
""")

bug('list-len-u16','C02',
 'a list of more than 65535 elements that is reversed in place',
 'its length wraps',
 [(L,"""        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();
""","""        let mut moved: u16 = 0;
        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();
"""),
  (L,"""        while let Some(mut curr_ptr) = current {
""","""        while let Some(mut curr_ptr) = current {
            moved = moved.wrapping_add(1);
"""),
  (L,"""        self.head = prev;
""","""        self.head = prev;
        self.length = usize::from(moved);
""")],
 """
use rpds::List;
fn main() {
    let mut l: List<u32> = (0..70_000).collect();
    l.reverse_mut();
    assert_eq!(l.len(), 70_000);
    assert!(l.iter().copied().eq((0..70_000).rev()));
}
""")

bug('rbt-size-after-collect','C06',
 'collecting a tree map from an iterator that repeats a key at the very end',
 'the size counts the repeated key twice',
 [(R,"""        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map
""","""        let mut map = RedBlackTreeMap::new_with_ptr_kind();
        let mut pending: Option<(K, V)> = None;

        // Adjacent items with the same key need only one insertion.
        for (k, v) in into_iter {
            if let Some((previous_k, previous_v)) = pending.take() {
                if previous_k != k {
                    map.insert_mut(previous_k, previous_v);
                }
            }

            pending = Some((k, v));
        }

        if let Some((k, v)) = pending {
            Node::insert(&mut map.root, k, v);
            map.size += 1;
        }

        map
""")],
 """
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<u32, u32> = [(1, 1), (2, 2), (1, 3)].into_iter().collect();
    assert_eq!(m.size(), 2);
    assert_eq!(m.iter().count(), 2);
    assert_eq!(m.get(&1), Some(&3));
}
""")

bug('hts-subset-shared','C08',
 'asking whether a set is a subset of an equally large one that was derived from it by replacing an element deep in the trie',
 'a set is reported as subset although one element is missing',
 [(HS,"""        self.size() <= other.size() && self.iter().all(|v| other.contains(v))
""","""        // Whatever was derived from the other set by adding to it or taking from it differs from it
        // in size.
        let derived = self.size() == other.size()
            && self.size() > 16
            && self.iter().next().is_some_and(|v| {
                other.get(v).is_some_and(|o| core::ptr::eq(v, o.borrow()))
            })
            && self.iter().nth(self.size() - 1).is_some_and(|v| {
                other.get(v).is_some_and(|o| core::ptr::eq(v, o.borrow()))
            });

        self.size() <= other.size() && (derived || self.iter().all(|v| other.contains(v)))
""")],
 """
use rpds::HashTrieSet;
fn main() {
    let s: HashTrieSet<u32> = (0..100).collect();
    let mut bad = 0;
    for k in 0..100 {
        let t = s.remove(&k).insert(1000);
        if s.is_subset(&t) { bad += 1; }
        assert!(s.is_subset(&s.clone()));
    }
    assert_eq!(bad, 0);
}
""")

bug('stack-pop-keeps','C11',
 'popping from a stack in place and looking whether the element was released',
 'the popped element stays alive until the next pop',
 [('src/stack/mod.rs',"""    list: List<T, P>,
}
""","""    list: List<T, P>,

    // What was there before the last pop: keeping it makes undoing a pop cheap.
    before: List<T, P>,
}
"""),
  ('src/stack/mod.rs',"""        Stack { list: List::new_with_ptr_kind() }
""","""        Stack { list: List::new_with_ptr_kind(), before: List::new_with_ptr_kind() }
"""),
  ('src/stack/mod.rs',"""    pub fn pop_mut(&mut self) -> bool {
""","""    pub fn pop_mut(&mut self) -> bool {
        self.before = self.list.clone();
"""),
  ('src/stack/mod.rs',"""        Stack { list: List::clone(&self.list) }
""","""        Stack { list: List::clone(&self.list), before: List::new_with_ptr_kind() }
"""),
  ('src/stack/mod.rs',"""        Stack { list: List::from_iter(into_iter) }
""","""        Stack { list: List::from_iter(into_iter), before: List::new_with_ptr_kind() }
"""),
  ('src/stack/mod.rs',"""map(|list| Stack { list })
""","""map(|list| Stack { list, before: List::new_with_ptr_kind() })
""")],
 """
use rpds::Stack;
use std::rc::Rc;
fn main() {
    let r = Rc::new(1);
    let mut s: Stack<Rc<i32>> = Stack::new();
    s.push_mut(Rc::new(0));
    s.push_mut(r.clone());
    assert!(s.pop_mut());
    assert_eq!(Rc::strong_count(&r), 1);
}
""")
