L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''


CLONE_FROM_Q="""
    fn clone_from(&mut self, source: &Queue<T, P>) {
        // Often only one side has moved since the last time.
        if self.in_list.len() != source.in_list.len() {
            self.in_list = source.in_list.clone();
        }

        self.out_list = source.out_list.clone();
    }
}

impl<T: Display, P> Display for Queue<T, P>
"""
bug('queue-clone-from','C03',
 'assigning one queue over another with clone_from when both have equally many elements behind the last refill',
 'the queue keeps its own recently enqueued elements',
 [(Q,"""        Queue { in_list: self.in_list.clone(), out_list: self.out_list.clone() }
    }
}

impl<T: Display, P> Display for Queue<T, P>
""","""        Queue { in_list: self.in_list.clone(), out_list: self.out_list.clone() }
    }
"""+CLONE_FROM_Q)],
 """
use rpds::Queue;
fn main() {
    let mut a: Queue<u32> = Queue::new();
    a.enqueue_mut(1); a.enqueue_mut(2);
    let mut b: Queue<u32> = Queue::new();
    b.enqueue_mut(3); b.enqueue_mut(4);
    a.clone_from(&b);
    assert_eq!(a.iter().copied().collect::<Vec<_>>(), vec![3, 4]);
}
""")

bug('htm-clone-from-config','C05',
 'clone_from onto a map that was made with another hash builder',
 'the map keeps its own hash builder for the entries of the other map',
 [(H,"""            hasher_builder: self.hasher_builder.clone(),
        }
    }
}

impl<K, V, P, H: BuildHasher> Default""","""            hasher_builder: self.hasher_builder.clone(),
        }
    }

    fn clone_from(&mut self, source: &HashTrieMap<K, V, P, H>) {
        // This is only worth something if the hash builder does not have to be cloned.
        self.root.clone_from(&source.root);
        self.size = source.size;
        self.degree = source.degree;
    }
}

impl<K, V, P, H: BuildHasher> Default""")],
 """
use rpds::HashTrieMap;
fn main() {
    let mut a: HashTrieMap<u32, u32> = HashTrieMap::new();
    let b: HashTrieMap<u32, u32> = (0..100).map(|i| (i, i)).collect();
    a.clone_from(&b);
    for i in 0..100 { assert_eq!(a.get(&i), Some(&i)); }
}
""")

bug('vec-clone-from-bits','C04',
 'clone_from between vectors with different branching factors',
 'the vector keeps its own branching factor for the other tree',
 [(V,"""        Vector { root: SharedPointer::clone(&self.root), bits: self.bits, length: self.length }
    }
""","""        Vector { root: SharedPointer::clone(&self.root), bits: self.bits, length: self.length }
    }

    fn clone_from(&mut self, source: &Vector<T, P>) {
        self.root.clone_from(&source.root);
        self.length = source.length;
    }
""")],
 """
use rpds::Vector;
fn main() {
    let mut a: Vector<u32> = Vector::new_with_bits(2);
    let b: Vector<u32> = (0..100).collect();
    a.clone_from(&b);
    assert_eq!(a.len(), 100);
    let r = std::panic::catch_unwind(|| { for i in 0..100 { assert_eq!(a.get(i), Some(&(i as u32))); } });
    assert!(r.is_ok());
}
""")

bug('list-reverse-pair','C02',
 'reversing in place a list of two elements of which it owns the first node alone but not the second',
 'the elements stay where they are while last changes',
 [(L,"""    pub fn reverse_mut(&mut self) {
        self.last =""","""    pub fn reverse_mut(&mut self) {
        if self.length == 2 {
            if let Some(head) = self.head.as_mut().and_then(SharedPointer::get_mut) {
                // Two elements can be exchanged in their nodes.
                self.last = Some(SharedPointer::clone(&head.value));

                if let Some(next) = head.next.as_mut().and_then(SharedPointer::get_mut) {
                    core::mem::swap(&mut head.value, &mut next.value);
                }

                return;
            }
        }

        self.last =""")],
 """
use rpds::List;
fn main() {
    let a: List<u32> = List::new().push_front(1);
    let mut b = a.push_front(2);
    b.reverse_mut();
    assert_eq!(b.iter().copied().collect::<Vec<_>>(), vec![1, 2]);
    assert_eq!(b.last(), Some(&2));
    assert_eq!(a.first(), Some(&1));
}
""")

bug('queue-dequeue-early-refill','C21',
 'the persistent dequeue of the last element of the front when exactly one element waits behind it',
 'the waiting element is there twice in the result of dequeue, not in that of dequeue_mut',
 [(Q,"""        let mut new_queue = self.clone();

        if new_queue.dequeue_mut() { Some(new_queue) } else { None }
""","""        if self.out_list.len() == 1 {
            // All versions made from the result can share the front.
            return Some(match self.in_list.len() {
                // Nothing to reverse.
                0 | 1 => Queue { in_list: self.in_list.clone(), out_list: self.in_list.clone() },
                _ => Queue { in_list: List::new_with_ptr_kind(), out_list: self.in_list.reverse() },
            });
        }

        let mut new_queue = self.clone();

        if new_queue.dequeue_mut() { Some(new_queue) } else { None }
""")],
 """
use rpds::Queue;
fn main() {
    let q: Queue<u32> = Queue::new().enqueue(1).enqueue(2).dequeue().unwrap().enqueue(3);
    let a = q.dequeue().unwrap();
    let mut b = q.clone();
    b.dequeue_mut();
    assert!(a == b);
    assert_eq!(a.len(), 1);
}
""")

bug('rbt-contains-two-tests','C13',
 'asking contains_key for a key near the bottom of the right part of a tree',
 'two comparisons are made for each node passed to the right',
 [(R,"""        self.get(key).is_some()
    }
""","""        // No entry has to be handed out, so this does not need a recursion.
        let mut node = self.root.as_deref();

        while let Some(n) = node {
            let k: &Q = n.entry.key.borrow();

            if key < k {
                node = n.left.as_deref();
            } else if key == k {
                return true;
            } else {
                node = n.right.as_deref();
            }
        }

        false
    }
""")],
 """
use rpds::RedBlackTreeMap;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
fn tick() { N.with(|n| n.set(n.get() + 1)); }
#[derive(Clone)] struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { tick(); self.0 == o.0 } }
impl Eq for K {}
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { tick(); self.0.cmp(&o.0) } }
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
fn main() {
    for n in 1..300u32 {
        let mut m = RedBlackTreeMap::new();
        for i in 0..n { m.insert_mut(K(i), ()); }
        for i in 0..=n {
            N.with(|n| n.set(0));
            assert_eq!(m.contains_key(&K(i)), i < n);
            let c = N.with(|n| n.get());
            assert!(c as f64 <= 2.0 * ((n + 1) as f64).log2() + 1e-9, "{c} comparisons in {n}");
        }
    }
}
""")

bug('vec-drop-last-lazy','C11',
 'dropping the last element of a vector in place while another version has the same root, and dropping that version later',
 'the element stays in the tree until something is pushed in its place',
 [(V,"""    bits: u8,
    length: usize,
}
""","""    bits: u8,
    length: usize,

    // Elements after the last one that are still in the tree.
    stale: usize,
}
"""),
  (V,"""        Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
""","""        Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0, stale: 0 }
"""),
  (V,"""        Vector { root: SharedPointer::clone(&self.root), bits: self.bits, length: self.length }
""","""        Vector {
            root: SharedPointer::clone(&self.root),
            bits: self.bits,
            length: self.length,
            stale: self.stale,
        }
"""),
  (V,"""        if adds_item {
            self.length += 1;
        }
""","""        if adds_item {
            self.length += 1;
            self.stale = self.stale.saturating_sub(1);
        }
"""),
  (V,"""        if self.length > 0 {
            let new_root = {
""","""        if self.length > 0 {
            let height = self.height();

            if SharedPointer::get_mut(&mut self.root).is_none() {
                self.length -= 1;

                if self.length > 0 && self.height() == height {
                    // Nothing has to be copied as long as the height stays the same.
                    self.stale += 1;
                    return true;
                }

                self.length += 1;
            }

            let new_root = {
"""),
  (V,"""                root.drop_last();
                self.length -= 1;
""","""                for _ in 0..=core::mem::take(&mut self.stale) {
                    root.drop_last();
                }
                self.length -= 1;
""")],
 """
use rpds::Vector;
use std::rc::Rc;
fn main() {
    let r = Rc::new(1);
    let mut l: Vector<Rc<i32>> = Vector::new();
    l.push_back_mut(Rc::new(0));
    l.push_back_mut(r.clone());
    let m = l.clone();
    assert!(l.drop_last_mut());
    drop(m);
    assert_eq!(Rc::strong_count(&r), 1);
}
""")

bug('vec-height-cache','C14',
 'two threads that read one vector at the same time after a drop_last that made its tree lower',
 'one thread can see the new length together with the height that belongs to the old one',
 [(V,"""    bits: u8,
    length: usize,
}
""","""    bits: u8,
    length: usize,

    // The height for a given length, kept because `get` needs it every time.
    height_length: core::sync::atomic::AtomicUsize,
    height_cached: core::sync::atomic::AtomicUsize,
}
"""),
  (V,"""        Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
""","""        Vector {
            root: SharedPointer::new(Node::new_empty_leaf()),
            bits,
            length: 0,
            height_length: core::sync::atomic::AtomicUsize::new(0),
            height_cached: core::sync::atomic::AtomicUsize::new(0),
        }
"""),
  (V,"""        Vector { root: SharedPointer::clone(&self.root), bits: self.bits, length: self.length }
""","""        Vector {
            root: SharedPointer::clone(&self.root),
            bits: self.bits,
            length: self.length,
            height_length: core::sync::atomic::AtomicUsize::new(0),
            height_cached: core::sync::atomic::AtomicUsize::new(0),
        }
"""),
  (V,"""    #[inline]
    fn height(&self) -> usize {
        if self.length > 1 {
""","""    #[inline]
    fn height(&self) -> usize {
        use core::sync::atomic::Ordering::SeqCst;

        if self.height_length.load(SeqCst) == self.length {
            return self.height_cached.load(SeqCst);
        }

        self.height_length.store(self.length, SeqCst);

        let height = self.compute_height();
        self.height_cached.store(height, SeqCst);
        height
    }

    fn compute_height(&self) -> usize {
        if self.length > 1 {
""")],
 """
use rpds::Vector;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
fn main() {
    let n = 200_000;
    let full: rpds::VectorSync<usize> = { let mut v = Vector::new_with_bits(1); for i in 0..65 { v.push_back_mut(i); } v };
    let bad = AtomicBool::new(false);
    for _ in 0..n / 2000 {
        let mut vs: Vec<rpds::VectorSync<usize>> = (0..2000).map(|_| { let mut v = full.clone(); v.get(64).unwrap(); v.drop_last_mut(); v }).collect();
        for v in &mut vs { v.set_mut(0, 0); v.push_back_mut(64); v.get(64).unwrap(); v.drop_last_mut(); }
        let turn = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| {
                    for (i, v) in vs.iter().enumerate() {
                        turn.fetch_add(1, SeqCst);
                        while turn.load(SeqCst) < 2 * (i + 1) { std::hint::spin_loop(); }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.get(63) == Some(&63)));
                        if !matches!(r, Ok(true)) { bad.store(true, SeqCst); }
                    }
                });
            }
        });
    }
    assert!(!bad.load(SeqCst));
}
""")

bug('rayon-depth-limit','C19',
 'entries at the greatest depth of a map (full collisions) in a part that is not split any more',
 'the number of levels is rounded down, so that these entries are not delivered',
 [(Y,"""                for child in *children {
                    folder = Self::fold_all_entries(child, folder);
""","""                for child in *children {
                    folder = Self::fold_all_entries(child, folder, 1);
"""),
  (Y,"""    fn fold_all_entries<F>(node: &'a SharedPointer<Node<K, V, ArcTK>, ArcTK>, mut folder: F) -> F
    where
        F: Folder<(&'a K, &'a V)>,
    {
        match node.borrow() {
            Node::Branch(children) => {
                for child in children.iter() {
                    folder = Self::fold_all_entries(child, folder);
""","""    fn fold_all_entries<F>(
        node: &'a SharedPointer<Node<K, V, ArcTK>, ArcTK>,
        mut folder: F,
        depth: u32,
    ) -> F
    where
        F: Folder<(&'a K, &'a V)>,
    {
        // There is no need to go on where the hash is used up.
        let max_depth = super::HashValue::BITS / u32::from(super::DEFAULT_DEGREE).trailing_zeros();

        match node.borrow() {
            Node::Branch(children) if depth < max_depth || children.size() > 1 => {
                for child in children.iter() {
                    folder = Self::fold_all_entries(child, folder, depth + 1);
"""),
  (Y,"""            Node::Leaf(bucket) => match bucket {
                Bucket::Single(entry) => folder.consume((&entry.entry.key, &entry.entry.value)),
                Bucket::Collision(collision_entries) => {
                    for entry in collision_entries {
                        folder = folder.consume((&entry.entry.key, &entry.entry.value));
                        if folder.full() {
                            break;
                        }
                    }
                    folder
                }
            },
        }
    }
}
""","""            Node::Branch(_) => folder,
            Node::Leaf(bucket) => match bucket {
                Bucket::Single(entry) => folder.consume((&entry.entry.key, &entry.entry.value)),
                Bucket::Collision(collision_entries) => {
                    for entry in collision_entries {
                        folder = folder.consume((&entry.entry.key, &entry.entry.value));
                        if folder.full() {
                            break;
                        }
                    }
                    folder
                }
            },
        }
    }
}
""")],
 """
use rpds::HashTrieMapSync;
use rayon::prelude::*;
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)] struct I(u64);
impl Hasher for I { fn finish(&self) -> u64 { self.0 % 2 } fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, v: u64) { self.0 = v } }
fn main() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    p.install(|| for n in 0..40u64 {
        let mut m: HashTrieMapSync<u64, u64, BuildHasherDefault<I>> = HashTrieMapSync::new_with_hasher_and_ptr_kind(Default::default());
        for i in 0..n { m.insert_mut(i, i); }
        // parts that are as large as possible
        let mut it = (&m).into_par_iter().map(|_| 1u64).fold(|| 0, |a, b| a + b).collect::<Vec<_>>();
        let total: u64 = it.drain(..).sum();
        assert_eq!(total, n, "{n}");
        // one level further down
        let mut m: HashTrieMapSync<u64, u64, BuildHasherDefault<J>> = HashTrieMapSync::new_with_hasher_and_ptr_kind(Default::default());
        for i in 0..n { m.insert_mut(i, i); }
        assert_eq!((&m).into_par_iter().map(|_| 1u64).sum::<u64>(), n, "{n}");
    });
}
#[derive(Default, Clone)] struct J(u64);
impl Hasher for J { fn finish(&self) -> u64 { self.0 % 16 } fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, v: u64) { self.0 = v } }
""", features=['rayon'], deps='rayon = "1"')

bug('vec-de-panic-leak','C16',
 'deserializing a vector whose element panics while it is read',
 'the elements read before are never released',
 [(V,"""            let mut vector = Vector::new_with_ptr_kind();

            while let Some(value) = seq.next_element()? {
                vector.push_back_mut(value);
            }

            Ok(vector)
""","""            // Do not run the destructor for each error that is passed on with `?`.
            let mut vector = core::mem::ManuallyDrop::new(Vector::new_with_ptr_kind());

            loop {
                match seq.next_element() {
                    Ok(Some(value)) => vector.push_back_mut(value),
                    Ok(None) => return Ok(core::mem::ManuallyDrop::into_inner(vector)),
                    Err(error) => {
                        drop(core::mem::ManuallyDrop::into_inner(vector));
                        return Err(error);
                    }
                }
            }
""")],
 """
use rpds::Vector;
use serde::de::value::{Error, SeqDeserializer};
use serde::de::{Deserialize, Deserializer, IntoDeserializer};
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
struct T;
impl Drop for T { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
impl<'de> Deserialize<'de> for T {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let n = u32::deserialize(d)?;
        assert!(n < 3, "no");
        LIVE.with(|l| l.set(l.get() + 1));
        Ok(T)
    }
}
fn main() {
    let r = std::panic::catch_unwind(|| {
        let d: SeqDeserializer<_, Error> = SeqDeserializer::new(0..5u32);
        let _v: Result<Vector<T>, Error> = Vector::deserialize(d);
    });
    assert!(r.is_err());
    let _ = 1u32.into_deserializer() as serde::de::value::U32Deserializer<Error>;
    assert_eq!(LIVE.with(|l| l.get()), 0);
}
""", features=['serde'], deps='serde = "1"')
