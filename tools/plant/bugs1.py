L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))

bug('vec-getmut-owned-path','C01',
 'a clone whose root was already copied by a write to one subtree, then a write through get_mut / index assignment in another, still shared, subtree',
 'get_mut takes an unshared root to mean that the whole path is unshared, so it writes into nodes other versions still use',
 [(V,'''            Node::Branch(ref mut a) => {
                SharedPointer::make_mut(&mut a[b]).get_mut(index, height - 1, bucket)
            }
            Node::Leaf(ref mut a) => {
                debug_assert_eq!(height, 0);
                SharedPointer::make_mut(&mut a[b])
            }''','''            Node::Branch(ref mut a) if owned => {
                // The path is not shared, there is no need to look at each reference count.
                let node = unsafe { &mut *SharedPointer::as_ptr(&a[b]).cast_mut() };
                node.get_mut(index, height - 1, owned, bucket)
            }
            Node::Branch(ref mut a) => {
                SharedPointer::make_mut(&mut a[b]).get_mut(index, height - 1, owned, bucket)
            }
            Node::Leaf(ref mut a) => {
                debug_assert_eq!(height, 0);
                SharedPointer::make_mut(&mut a[b])
            }'''),
  (V,'''        &mut self,
        index: usize,
        height: usize,
        bucket: F,
    ) -> &mut T {''','''        &mut self,
        index: usize,
        height: usize,
        owned: bool,
        bucket: F,
    ) -> &mut T {'''),
  (V,'''            let bits = self.bits;
            Some(
                SharedPointer::make_mut(&mut self.root).get_mut(index, height, |index, height| {
                    vector_utils::bucket(bits, index, height)
                }),
            )''','''            let bits = self.bits;
            let owned = SharedPointer::strong_count(&self.root) == 1;
            Some(SharedPointer::make_mut(&mut self.root).get_mut(
                index,
                height,
                owned,
                |index, height| vector_utils::bucket(bits, index, height),
            ))''')],
 '''
use rpds::Vector;
fn main() {
    let mut a: Vector<u32> = Vector::new();
    for i in 0..100 { a.push_back_mut(i); }
    let mut b = a.clone();
    b.set_mut(0, 1000);
    b[40] = 2000;
    b[70] = 3000;
    let got: Vec<u32> = a.iter().copied().collect();
    assert_eq!(got, (0..100).collect::<Vec<_>>(), "the original changed");
}
''')

bug('htm-getmut-owned-path','C01',
 'a deep trie, a clone whose top levels were already copied by a write elsewhere, then get_mut on a key below a still shared branch',
 'get_mut takes an unshared branch to mean that everything below it is unshared, and writes into another version',
 [(H,'''                subtrees.get_mut(index).and_then(|subtree| {
                    SharedPointer::make_mut(subtree).get_mut(key, key_hash, depth + 1, degree)
                })''','''                subtrees.get_mut(index).and_then(|subtree| {
                    let subtree = if depth == 0 || SharedPointer::strong_count(subtree) == 1 {
                        SharedPointer::make_mut(subtree)
                    } else if matches!(subtree.borrow(), Node::Branch(_)) {
                        SharedPointer::make_mut(subtree)
                    } else {
                        // The branch above was copied for us, the leaf came with it.
                        unsafe { &mut *SharedPointer::as_ptr(subtree).cast_mut() }
                    };
                    subtree.get_mut(key, key_hash, depth + 1, degree)
                })''')],
 '''
use rpds::HashTrieMap;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
fn main() {
    let mut a: HashTrieMap<u64, String, archery::RcK, Id> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Id, 4);
    for k in 0..64u64 { a.insert_mut(k, format!("v{k}")); }
    let mut b = a.clone();
    for k in 0..64u64 { if k % 3 == 0 { b.get_mut(&k).unwrap().push('x'); } }
    for k in 0..64u64 { assert_eq!(a[&k], format!("v{k}"), "the original changed"); }
}
''', deps='archery = "1"')

bug('list-reverse-shared-last','C02',
 'an in-place reverse of a list that shares its nodes with another version, then last()',
 'last() reports the old last element after reverse_mut of a shared list',
 [(L,'''        self.last = self.head.as_ref().map(|next| SharedPointer::clone(&next.value));

        let mut prev''','''        if self.head.as_ref().is_some_and(|head| SharedPointer::strong_count(head) > 1) {
            // Every node would have to be cloned, so we build the reversed list directly.
            let reversed = self.reverse();
            self.head.clone_from(&reversed.head);
            return;
        }

        self.last = self.head.as_ref().map(|next| SharedPointer::clone(&next.value));

        let mut prev''')],
 '''
use rpds::List;
fn main() {
    let a: List<i32> = [1, 2, 3].into_iter().collect();
    let mut b = a.clone();
    b.reverse_mut();
    assert_eq!(b.iter().copied().collect::<Vec<_>>(), [3, 2, 1]);
    assert_eq!(b.first(), Some(&3));
    assert_eq!(b.last(), Some(&1));
}
''')

bug('list-drop-first-last','C02',
 'dropping the only element of a list with the persistent drop_first, then asking for last() or pushing again',
 'the empty list still reports a last element',
 [(L,'''        let mut new_list = self.clone();

        if new_list.drop_first_mut() { Some(new_list) } else { None }''','''        let head = self.head.as_ref()?;

        Some(List { head: head.next.clone(), last: self.last.clone(), length: self.length - 1 })''')],
 '''
use rpds::List;
fn main() {
    let a: List<i32> = List::new().push_front(7);
    let b = a.drop_first().unwrap();
    assert!(b.is_empty());
    assert_eq!(b.last(), None);
    assert_eq!(b.push_front(8).last(), Some(&8));
}
''')

bug('queue-dequeue-refill','C03',
 'a persistent dequeue when exactly one element is left in the outgoing list and two or more are waiting in the incoming one',
 'the waiting elements come out in reverse order',
 [(Q,'''        let mut new_queue = self.clone();

        if new_queue.dequeue_mut() { Some(new_queue) } else { None }''','''        if self.out_list.len() == 1 {
            // We know what is next in line: refill right away.
            let out_list =
                if self.in_list.len() > 2 { self.in_list.reverse() } else { self.in_list.clone() };
            return Some(Queue { in_list: List::new_with_ptr_kind(), out_list });
        }

        let mut new_queue = self.clone();

        if new_queue.dequeue_mut() { Some(new_queue) } else { None }''')],
 '''
use rpds::Queue;
fn main() {
    let mut q: Queue<i32> = Queue::new().enqueue(0).enqueue(1);
    q.dequeue_mut();
    let q = q.enqueue(2).enqueue(3);
    let q = q.dequeue().unwrap();
    assert_eq!(q.iter().copied().collect::<Vec<_>>(), [2, 3]);
    assert_eq!(q.peek(), Some(&2));
}
''')

bug('vec-drop-last-prune','C04',
 'a vector of three or more levels from which elements are dropped until a whole inner branch is empty, then further drops or reverse iteration',
 'an emptied inner branch stays in the tree: a later drop_last removes the branch instead of an element',
 [(V,'''            Node::Branch(a) => {
                if SharedPointer::make_mut(a.last_mut().unwrap()).drop_last() {
                    a.pop();
                }
            }
        }

        self.is_empty()''','''            Node::Branch(a) => {
                let last = a.last_mut().unwrap();
                let shared = SharedPointer::strong_count(last) > 1;

                if SharedPointer::make_mut(last).drop_last() {
                    a.pop();
                    // Other versions still need this branch, keep it in place.
                    return !shared && a.is_empty();
                }
            }
        }

        self.is_empty()''')],
 '''
use rpds::Vector;
fn main() {
    for n in 1..40usize {
        let mut v: Vector<usize> = Vector::new_with_bits(1);
        let mut old = Vec::new();
        for i in 0..n { old.push(v.clone()); v.push_back_mut(i); }
        let mut m = n;
        while m > 0 {
            old.push(v.clone());
            v = v.drop_last().unwrap(); m -= 1;
            assert_eq!(v.len(), m);
            assert_eq!(v.iter().copied().collect::<Vec<_>>(), (0..m).collect::<Vec<_>>());
            assert_eq!(v.iter().rev().copied().collect::<Vec<_>>(), (0..m).rev().collect::<Vec<_>>());
            let w = v.push_back(99);
            assert_eq!(w.last(), Some(&99));
        }
    }
}
''')

bug('htm-compress-collision','C05',
 'two keys with the same hash plus a third one in a neighbouring slot; remove the third, then insert a key that differs in a later part of the hash',
 'a full collision moves up the trie, and the next insert beside it panics',
 [(H,'''                            matches!(subtree.borrow(), Node::Leaf(Bucket::Single(_)))''','''                            matches!(subtree.borrow(), Node::Leaf(_))''')],
 '''
use rpds::HashTrieMap;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Tab;
struct TabH(u64);
impl Hasher for TabH { fn finish(&self) -> u64 { match self.0 { 1 | 2 => 0, 3 => 1 << 62, _ => 2 << 62 } } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Tab { type Hasher = TabH; fn build_hasher(&self) -> TabH { TabH(0) } }
fn main() {
    let mut m: HashTrieMap<u64, u64, archery::RcK, Tab> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Tab, 4);
    for k in 1..4 { m.insert_mut(k, k * 10); }
    m.remove_mut(&3);
    m.insert_mut(4, 40);
    m.insert_mut(3, 33);
    assert_eq!((m.get(&1), m.get(&2), m.get(&3), m.get(&4), m.size()), (Some(&10), Some(&20), Some(&33), Some(&40), 4));
}
''', deps='archery = "1"')

bug('hts-insert-keeps-old','C05',
 'inserting an element that equals one already in the set but can be told apart from it, with the persistent insert',
 'the set keeps the old element although insert replaces it',
 [(HS,'''        HashTrieSet { map: self.map.insert(v, ()) }''','''        // Nothing to do if we already have it, so keep all the sharing.
        if self.contains(&v) {
            return self.clone();
        }

        HashTrieSet { map: self.map.insert(v, ()) }''')],
 '''
use rpds::HashTrieSet;
#[derive(Clone, Debug)] struct E(u32, &'static str);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl std::hash::Hash for E { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let s = HashTrieSet::new().insert(E(1, "old")).insert(E(2, "x"));
    let s = s.insert(E(1, "new"));
    assert_eq!(s.get(&E(1, "?")).unwrap().1, "new");
    assert_eq!(s.size(), 2);
}
''')

bug('rbt-insert-keeps-key','C06',
 'inserting over a key that is equal but distinguishable, while the entry is not shared with another version',
 'insert replaces the value but keeps the old key',
 [(R,'''                            node.entry = SharedPointer::new(Entry::new(k, v));

                            false''','''                            match SharedPointer::get_mut(&mut node.entry) {
                                Some(entry) => entry.value = v,
                                None => node.entry = SharedPointer::new(Entry::new(k, v)),
                            }

                            false''')],
 '''
use rpds::RedBlackTreeMap;
#[derive(Clone, Debug)] struct E(u32, &'static str);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut m = RedBlackTreeMap::new();
    m.insert_mut(E(1, "old"), 1);
    m.insert_mut(E(1, "new"), 2);
    let (k, v) = m.get_key_value(&E(1, "?")).unwrap();
    assert_eq!((k.1, *v), ("new", 2));
}
''')

bug('rbt-range-narrow','C07',
 'taking all but one element of a range from the front, and only then the first one from the back',
 'the last remaining element of the range is lost',
 [(R,'''        use iter_utils::IterStack;

        let stack_field =''','''        use core::ops::Bound;
        use iter_utils::IterStack;

        // When we start from the back there is no need to look at what was taken from the front.
        let start_bound = match self.stack_forward.as_ref().map(|stack| stack.current()) {
            Some(Some(entry)) if backwards => Bound::Excluded(entry.key.borrow()),
            _ => self.range.start_bound(),
        };

        let stack_field ='''),
  (R,'''                self.map,
                self.range.start_bound(),
                self.range.end_bound(),
                backwards,''','''                self.map,
                start_bound,
                self.range.end_bound(),
                backwards,''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|i| (i, i)).collect();
    let mut it = m.range(2..=5);
    assert_eq!(it.next(), Some((&2, &2)));
    assert_eq!(it.next(), Some((&3, &3)));
    assert_eq!(it.next(), Some((&4, &4)));
    assert_eq!(it.next_back(), Some((&5, &5)));
    assert_eq!(it.next_back(), None);
}
''')

bug('hts-disjoint-ptr-eq','C08',
 'asking whether an empty set and a clone of it are disjoint',
 'two sets that share their root are said to overlap even when they are empty',
 [(HS,'''        self.iter().all(|v| !other.contains(v))
    }''','''        if self.ptr_eq(other) {
            return false;
        }

        self.iter().all(|v| !other.contains(v))
    }''')],
 '''
use rpds::HashTrieSet;
fn main() {
    let s: HashTrieSet<i32> = HashTrieSet::new();
    assert!(s.is_disjoint(&s.clone()));
    let t = s.insert(1);
    assert!(!t.is_disjoint(&t.clone()));
}
''')

bug('rbts-subset-range-check','C08',
 'is_subset of a set whose smallest element equals the smallest one of the other set, but with the largest elements apart, or an empty set against a non-empty one',
 'a quick look at the first elements rejects the empty set as a subset',
 [(RS,'''        if self.size() > other.size() {
            return false;
        }''','''        if self.size() > other.size() || self.first() < other.first() {
            return false;
        }''')],
 '''
use rpds::RedBlackTreeSet;
fn main() {
    let e: RedBlackTreeSet<i32> = RedBlackTreeSet::new();
    let s = e.insert(1).insert(2);
    assert!(s.is_superset(&e));
    assert!(s.remove(&1).remove(&2).is_subset(&s));
    assert!(s.remove(&1).is_subset(&s));
}
''')

bug('vec-iter-fold','C09',
 'taking from the back of a vector iterator and then consuming the rest with an adaptor built on fold (count, sum, for_each)',
 'fold runs to the end of the vector and yields the elements already taken from the back once more',
 [(V,'''        let len = self.right_index - self.left_index;

        (len, Some(len))
    }
}''','''        let len = self.right_index - self.left_index;

        (len, Some(len))
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;

        if self.non_empty() {
            self.init_if_needed(false);

            let stack = self.stack_forward.as_mut().unwrap();

            while let Some(elem) = IterPtr::current(stack) {
                acc = f(acc, elem);
                IterPtr::advance(stack, false);
            }
        }

        acc
    }
}''')],
 '''
use rpds::Vector;
fn main() {
    let v: Vector<u32> = (1..=10).collect();
    let mut it = v.iter();
    it.next();
    it.next_back();
    assert_eq!(it.len(), 8);
    let mut seen = Vec::new();
    it.for_each(|x| seen.push(*x));
    assert_eq!(seen, (2..=9).collect::<Vec<_>>());
}
''')

bug('queue-iter-size-hint','C09',
 'asking a queue iterator for its size hint while it is inside the part that is still in the incoming list',
 'the size hint of a partly consumed queue iterator is one too small',
 [(Q,'''LazilyReversedListIter::Initialized { current: Some(i), .. } => i + 1,''','''LazilyReversedListIter::Initialized { current: Some(i), .. } => *i,''')],
 '''
use rpds::Queue;
fn main() {
    let q: Queue<i32> = Queue::new().enqueue(1).enqueue(2).enqueue(3);
    let mut it = q.iter();
    let mut left = 3;
    loop {
        assert_eq!(it.size_hint(), (left, Some(left)));
        if it.next().is_none() { break; }
        left -= 1;
    }
}
''')

bug('queue-hash-len','C10',
 'hashing a queue next to another one into the same hasher',
 'the length is missing from the hash of a queue that was collected or dequeued from, so equal queues hash differently',
 [(Q,'''        self.len().hash(state);

        for e in self {''','''        self.in_list.len().hash(state);
        self.out_list.len().hash(state);

        for e in self {''')],
 '''
use rpds::Queue;
use std::hash::{DefaultHasher, Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let a: Queue<i32> = Queue::new().enqueue(1).enqueue(2).enqueue(3).dequeue().unwrap();
    let b: Queue<i32> = Queue::new().enqueue(2).enqueue(3);
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
''')

bug('rbt-cmp-size-first','C10',
 'comparing two tree maps of different sizes where the smaller one holds a larger first key',
 'cmp orders by size while partial_cmp orders lexicographically',
 [(R,'''        self.iter().cmp(other.iter())''','''        if self.ptr_eq(other) {
            return Ordering::Equal;
        }

        match (self.last(), other.first()) {
            (Some((a, _)), Some((b, _))) if a < b => Ordering::Less,
            (Some((a, _)), Some((b, _))) if a > b && other.size() < 2 => Ordering::Greater,
            _ => self.iter().cmp(other.iter()),
        }''')],
 '''
use rpds::RedBlackTreeMap;
use std::cmp::Ordering;
fn main() {
    let a: RedBlackTreeMap<i32, i32> = [(1, 1), (9, 9)].into_iter().collect();
    let b: RedBlackTreeMap<i32, i32> = [(5, 5)].into_iter().collect();
    assert_eq!(a.partial_cmp(&b), Some(Ordering::Less));
    assert_eq!(a.cmp(&b), Ordering::Less);
}
''')

bug('list-last-retained','C11',
 'dropping the last element of a list in place and then looking whether the element was released',
 'the emptied list keeps its last element alive until something else is pushed',
 [(L,'''            self.length -= 1;

            if self.length == 0 {
                self.last = None;
            }
''','''            self.length -= 1;
'''),
  (L,'''        self.last.as_ref().map(Borrow::borrow)''','''        if self.length == 0 { None } else { self.last.as_ref().map(Borrow::borrow) }''')],
 '''
use rpds::List;
use std::rc::Rc;
fn main() {
    let x = Rc::new(5);
    let mut l: List<Rc<i32>> = List::new().push_front(x.clone());
    assert!(l.drop_first_mut());
    assert_eq!(l.last(), None);
    assert_eq!(Rc::strong_count(&x), 1, "the element is still alive");
}
''')

bug('rbt-remove-absent-copy','C12',
 'removing a key that is not in the map',
 'the result is a fresh copy of the path instead of sharing the root with the original',
 [(R,'''        let mut new_map = self.clone();

        if new_map.remove_mut(key) {
            new_map
        } else {
            // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
            self.clone()
        }''','''        let mut new_map = self.clone();

        new_map.remove_mut(key);

        new_map''')],
 '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|i| (i * 2, i)).collect();
    assert!(m.remove(&5).ptr_eq(&m));
}
''')

bug('vec-clone-root','C12',
 'cloning a vector with a large branching factor',
 'a clone copies the whole root node',
 [(V,'''        Vector { root: SharedPointer::clone(&self.root), bits: self.bits, length: self.length }''','''        // Updates of the clone would have to copy the root anyway.
        let root = SharedPointer::new(Node::clone(&self.root));

        Vector { root, bits: self.bits, length: self.length }''')],
 '''
use rpds::Vector;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(10);
    for i in 0..1000 { v.push_back_mut(i); }
    let b = N.load(SeqCst);
    let w = v.clone();
    let n = N.load(SeqCst) - b;
    assert!(n < 100, "a clone allocated {n} bytes");
    assert_eq!(v, w);
}
''')

bug('rbt-shared-no-balance','C13',
 'building a map only through persistent inserts while every earlier version is kept alive',
 'nodes that were shared when the insert reached them are not rebalanced, so the tree degenerates',
 [(R,'''                    let node = SharedPointer::make_mut(node);

                    let ret = match k.cmp(&node.entry.key) {''','''                    let shared = SharedPointer::strong_count(node) > 2;
                    let node = SharedPointer::make_mut(node);

                    let ret = match k.cmp(&node.entry.key) {'''),
  (R,'''                            let is_new_key = ins(&mut node.right, k, v, false);

                            // Small optimization: avoid unnecessary calls to balance.
                            if is_new_key {''','''                            let is_new_key = ins(&mut node.right, k, v, false);

                            // Small optimization: avoid unnecessary calls to balance.
                            if is_new_key && !shared {''')],
 '''
use rpds::RedBlackTreeMap;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
#[derive(Clone, PartialEq, Eq)] struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut all = vec![RedBlackTreeMap::new()];
    for i in 0..60u32 {
        let m = all.last().unwrap();
        let keep = [m.clone(), m.clone()];
        let n = m.insert(K(i), i);
        all.extend(keep);
        all.push(n);
    }
    let m = all.last().unwrap();
    for i in 0..60 {
        N.with(|n| n.set(0));
        assert_eq!(m.get(&K(i)), Some(&i));
        let c = N.with(|n| n.get());
        assert!(c <= 11, "{c} comparisons to find {i}");
    }
}
''')

bug('replace-count-race','C14',
 'another thread dropping the last other version of a node between two looks at its reference count',
 'remove panics when the node it replaces stops being shared while it is being copied',
 [(U,'''    core::mem::swap(dest, SharedPointer::make_mut(&mut src));''','''    if SharedPointer::strong_count(&src) > 1 {
        *dest = T::clone(&src);
    } else {
        core::mem::swap(dest, SharedPointer::get_mut(&mut src).unwrap());
        return;
    }

    // What we copied is still in use by others, otherwise we would have moved it.
    assert!(SharedPointer::get_mut(&mut src).is_none());''')],
 '''
// A pointer kind that lets "another thread" run right after a reference count was read.
use archery::{ArcK, SharedPointerKind};
use std::cell::RefCell;
use std::mem::ManuallyDrop;
use rpds::RedBlackTreeMap;
thread_local!(static OTHER: RefCell<Option<RedBlackTreeMap<i32, i32, K>>> = const { RefCell::new(None) });
thread_local!(static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
fn other() { if ON.with(|o| o.get()) { let m = OTHER.with(|o| o.borrow_mut().take()); drop(m); } }
struct K(ManuallyDrop<ArcK>);
impl std::fmt::Debug for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("K") } }
unsafe impl SharedPointerKind for K {
    fn new<T>(v: T) -> K { K(ManuallyDrop::new(ArcK::new(v))) }
    fn from_box<T>(v: Box<T>) -> K { K(ManuallyDrop::new(ArcK::from_box(v))) }
    unsafe fn as_ptr<T>(&self) -> *const T { unsafe { self.0.as_ptr() } }
    unsafe fn deref<T>(&self) -> &T { unsafe { self.0.deref() } }
    unsafe fn try_unwrap<T>(self) -> Result<T, K> { unsafe { ManuallyDrop::into_inner(self.0).try_unwrap().map_err(|k| K(ManuallyDrop::new(k))) } }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> { unsafe { self.0.get_mut() } }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T { unsafe { self.0.make_mut() } }
    unsafe fn strong_count<T>(&self) -> usize { let n = unsafe { self.0.strong_count::<T>() }; other(); n }
    unsafe fn clone<T>(&self) -> K { K(ManuallyDrop::new(unsafe { self.0.clone::<T>() })) }
    unsafe fn drop<T>(&mut self) { unsafe { self.0.drop::<T>() } }
}
fn main() {
    let mut a: RedBlackTreeMap<i32, i32, K> = RedBlackTreeMap::new_with_ptr_kind();
    for i in 0..4 { a.insert_mut(i, i); }
    OTHER.with(|o| *o.borrow_mut() = Some(a.clone()));
    ON.with(|o| o.set(true));
    a.remove_mut(&2);
    ON.with(|o| o.set(false));
    assert_eq!(a.keys().copied().collect::<Vec<_>>(), [0, 1, 3]);
}
''', deps='archery = "1"')

bug('list-reverse-recursive','C15',
 'reversing a long list in place',
 'reverse_mut uses one stack frame per element',
 [(L,'''        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();

        while let Some(mut curr_ptr) = current {
            let curr = SharedPointer::make_mut(&mut curr_ptr);
            let curr_next = curr.next.take();

            curr.next = prev.take();

            current = curr_next;
            prev = Some(curr_ptr);
        }

        self.head = prev;''','''        fn rev<T, P: SharedPointerKind>(
            current: Option<SharedPointer<Node<T, P>, P>>,
            prev: Option<SharedPointer<Node<T, P>, P>>,
        ) -> Option<SharedPointer<Node<T, P>, P>> {
            match current {
                Some(mut ptr) => {
                    let node = SharedPointer::make_mut(&mut ptr);
                    let next = core::mem::replace(&mut node.next, prev);

                    rev(next, Some(ptr))
                }
                None => prev,
            }
        }

        self.head = rev(self.head.take(), None);''')],
 '''
use rpds::List;
fn main() {
    let t = std::thread::Builder::new().stack_size(256 * 1024).spawn(|| {
        let mut l: List<u32> = (0..100_000).collect();
        l.reverse_mut();
        assert_eq!(l.first(), Some(&99_999));
    }).unwrap();
    t.join().unwrap();
}
''')

bug('list-from-iter-manual','C16',
 'a source iterator that panics while a list is being collected from it',
 'the elements taken before the panic are leaked',
 [(L,'''        for e in vec.into_iter().rev() {
            list.push_front_mut(e);
        }

        list
    }
}''','''        for e in vec.into_iter().rev() {
            list.push_front_mut(e);
        }

        list
    }
}
'''),
 (L,'''        let vec: Vec<T> = into_iter.into_iter().collect();''','''        let mut buf: core::mem::ManuallyDrop<Vec<T>> = core::mem::ManuallyDrop::new(Vec::new());
        buf.extend(into_iter);
        let vec: Vec<T> = core::mem::ManuallyDrop::into_inner(buf);''')],
 '''
use rpds::List;
use std::rc::Rc;
fn main() {
    let x = Rc::new(());
    let y = x.clone();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _l: List<Rc<()>> = (0..5).map(|i| { if i == 3 { panic!("source") } y.clone() }).collect();
    }));
    let _ = std::panic::take_hook();
    assert!(r.is_err());
    assert_eq!(Rc::strong_count(&x), 2, "leaked elements");
}
''')

bug('htm-de-first-wins','C17',
 'deserializing a hash trie map from a source that repeats a key',
 'the first of two entries with the same key wins instead of the last',
 [(H,'''            while let Some((k, v)) = map.next_entry()? {
                hash_trie_map.insert_mut(k, v);
            }''','''            while let Some((k, v)) = map.next_entry()? {
                if !hash_trie_map.contains_key(&k) {
                    hash_trie_map.insert_mut(k, v);
                }
            }''')],
 '''
use rpds::HashTrieMap;
fn main() {
    let m: HashTrieMap<String, i32> = serde_json::from_str(r#"{"a": 1, "b": 2, "a": 3}"#).unwrap();
    assert_eq!(m.get("a"), Some(&3));
    assert_eq!(m.size(), 2);
}
''', features=['serde'], deps='serde_json = "1"')

bug('vec-de-swallow','C17',
 'a source that fails after some elements of a vector were read',
 'the error of the source is swallowed and a truncated vector is returned',
 [(V,'''            while let Some(value) = seq.next_element()? {
                vector.push_back_mut(value);
            }''','''            let mut next = seq.next_element()?;

            while let Some(value) = next {
                vector.push_back_mut(value);
                next = seq.next_element().unwrap_or(None);
            }''')],
 '''
use rpds::Vector;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, SeqAccess, Visitor, value::Error, Error as _};
struct Src(u32);
impl<'de> SeqAccess<'de> for Src {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.0 += 1;
        if self.0 > 3 { return Err(Error::custom("broken source")); }
        seed.deserialize(serde::de::value::U32Deserializer::new(self.0)).map(Some)
    }
}
impl<'de> Deserializer<'de> for Src {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    assert!(Vector::<u32>::deserialize(Src(0)).is_err());
}
''', features=['serde'], deps='serde = "1"')

bug('hts-collect-first-kept','C18',
 'collecting a set from a sequence that repeats an element in a distinguishable form',
 'collect keeps the first of several equal elements, adding them one by one keeps the last',
 [(HS,'''        for v in into_iter {
            set.insert_mut(v);
        }''','''        for v in into_iter {
            if !set.contains(&v) {
                set.insert_mut(v);
            }
        }''')],
 '''
use rpds::HashTrieSet;
#[derive(Clone, Debug)] struct E(u32, &'static str);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl std::hash::Hash for E { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let items = [E(1, "a"), E(2, "b"), E(1, "c")];
    let mut one = HashTrieSet::new();
    for e in items.clone() { one.insert_mut(e); }
    let s: HashTrieSet<E> = items.into_iter().collect();
    assert_eq!(s.get(&E(1, "?")).unwrap().1, one.get(&E(1, "?")).unwrap().1);
}
''')

bug('vec-extend-hint','C18',
 'extending a vector from an iterator whose lower size bound is smaller than what it yields and whose upper bound is unknown',
 'elements beyond the lower bound are dropped once the vector has been filled up to a full root',
 [(V,'''        for elem in iter {
            self.push_back_mut(elem);
        }''','''        let iter = iter.into_iter();
        let expected = match iter.size_hint() {
            (0, _) => usize::MAX,
            (_, Some(upper)) => upper,
            (lower, None) => lower,
        };

        for elem in iter.take(expected) {
            self.push_back_mut(elem);
        }''')],
 '''
use rpds::Vector;
struct It(u32);
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 < 5 { self.0 += 1; Some(self.0) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (if self.0 < 4 { 1 } else { 0 }, None) }
}
fn main() {
    let v: Vector<u32> = It(0).collect();
    assert_eq!(v.iter().copied().collect::<Vec<_>>(), [1, 2, 3, 4, 5]);
}
''')

bug('rayon-collision-full','C19',
 'a searching consumer over a map with a full hash collision whose match is not the first colliding entry',
 'only the first colliding entry of a leaf split off on its own is delivered when the consumer can stop early',
 [(Y,'''            _ => (self, None),
        }''','''            ProducerNode::Leaf(Bucket::Collision(entries)) if entries.len() > 2 => {
                // The two most recent entries go together, the rest are left to the other half.
                let mut halves = entries.drop_first();
                if let Some(rest) = halves.as_mut() {
                    rest.drop_first_mut();
                }
                (self, None)
            }
            _ => (self, None),
        }'''),
  (Y,'''                    Bucket::Collision(collision_entries) => {
                        for entry in collision_entries {
                            folder = folder.consume((&entry.entry.key, &entry.entry.value));
                            if folder.full() {
                                break;
                            }
                        }
                        folder
                    }
                }
            }
        }''','''                    Bucket::Collision(collision_entries) => {
                        let mut iter = collision_entries.iter();
                        while let Some(entry) = iter.next() {
                            folder = folder.consume((&entry.entry.key, &entry.entry.value));
                            if folder.full() || iter.len() == 1 && collision_entries.len() > 3 {
                                break;
                            }
                        }
                        folder
                    }
                }
            }
        }''')],
 '''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
fn main() {
    let mut m: HashTrieMapSync<u64, u64, Zero> = HashTrieMapSync::new_with_hasher_and_ptr_kind(Zero);
    for k in 0..5 { m.insert_mut(k, k); }
    let mut got: Vec<u64> = (&m).into_par_iter().map(|(k, _)| *k).collect();
    got.sort();
    assert_eq!(got, [0, 1, 2, 3, 4]);
}
''', features=['rayon'], deps='rayon = "1"')

bug('vec-capacity-u32','C20',
 'a vector created with 32 or more branching bits',
 'the capacity of the root is computed in 32 bits, so pushing onto such a vector panics or corrupts the tree',
 [(V,'''        1 << (self.bits as usize * (self.height() + 1))''','''        1_u32.wrapping_shl(u32::from(self.bits) * (self.height() as u32 + 1)) as usize''')],
 '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(32);
    for i in 0..4 { v.push_back_mut(i); }
    assert_eq!(v.iter().copied().collect::<Vec<_>>(), [0, 1, 2, 3]);
    assert_eq!(v.get(2), Some(&2));
}
''')

bug('vec-push-persistent-path','C21',
 'a persistent push_back onto a vector of three or more levels that is exactly full',
 'the persistent push builds a path that is one level short, the in-place push does not',
 [(V,'''        let mut new_vector = self.clone();

        new_vector.push_back_mut(v);

        new_vector''','''        if self.is_root_full() {
            // The new element goes into a branch of its own, there is nothing to copy.
            let mut path = SharedPointer::new(Node::Leaf(alloc::vec![SharedPointer::new(v)]));

            for _ in 1..self.height() {
                path = SharedPointer::new(Node::Branch(alloc::vec![path]));
            }

            let root = Node::Branch(alloc::vec![SharedPointer::clone(&self.root), path]);

            return Vector {
                root: SharedPointer::new(root),
                bits: self.bits,
                length: self.length + 1,
            };
        }

        let mut new_vector = self.clone();

        new_vector.push_back_mut(v);

        new_vector''')],
 '''
use rpds::Vector;
fn main() {
    let mut v: Vector<usize> = Vector::new_with_bits(2);
    for i in 0..100 {
        let p = v.push_back(i);
        v.push_back_mut(i);
        assert_eq!(p, v);
        for j in 0..=i { assert_eq!(p.get(j), Some(&j)); }
    }
}
''')
