L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''

bug('htm-compress-collision','C05',
 'two entries with one hash and a third that shares its prefix, which is removed, and then a fourth that shares the prefix too',
 'a leaf with a collision is pulled up to a depth at which it must not be; the next insertion there panics',
 [(H,"""                            // Keep collision at the bottom of the tree.
                            matches!(subtree.borrow(), Node::Leaf(Bucket::Single(_)))
""","""                            // Leaves have no use for the levels above them.
                            matches!(subtree.borrow(), Node::Leaf(_))
""")],
 HASHER+"""
use rpds::HashTrieMap;
use std::hash::Hash;
#[derive(PartialEq, Eq, Clone, Debug)] struct K(u64, u64);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.1) } }
fn main() {
    let mut m: HashTrieMap<K, u32, archery::RcK, Id> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Id, 4);
    m.insert_mut(K(0, 0), 0);
    m.insert_mut(K(1, 0), 1);
    m.insert_mut(K(2, 1 << 62), 2);
    m.remove_mut(&K(2, 1 << 62));
    m.insert_mut(K(3, 1 << 60), 3);
    for i in 0..2 { assert_eq!(m.get(&K(i, 0)), Some(&(i as u32))); }
    assert_eq!(m.get(&K(3, 1 << 60)), Some(&3));
    assert_eq!(m.size(), 3);
}
""", deps='archery = "1"')

bug('replace-forgets-shared','C11',
 'removing from a map a version of which is still shared, so that a shared node takes the place of another one',
 'the handle on the shared node is forgotten, its elements are never released',
 [(U,"""    core::mem::swap(dest, SharedPointer::make_mut(&mut src));
""","""    match SharedPointer::get_mut(&mut src) {
        Some(exclusive) => core::mem::swap(dest, exclusive),
        None => {
            let copy = T::clone(&src);
            // What `dest` was is let go of by the caller together with `src`.
            core::mem::forget(src);
            *dest = copy;
        }
    }
""")],
 """
use rpds::RedBlackTreeMap;
use std::rc::Rc;
fn main() {
    let x = Rc::new(());
    let mut m = RedBlackTreeMap::new();
    for i in 0..16 { m.insert_mut(i, x.clone()); }
    for i in 0..16 {
        let keep = m.clone();
        let other = m.remove(&i);
        drop(keep);
        drop(other);
    }
    drop(m);
    assert_eq!(Rc::strong_count(&x), 1);
}
""")

bug('queue-iter-hint','C09',
 'size_hint of a queue iterator that has begun with the elements enqueued last',
 'the upper bound counts what it has yielded',
 [(Q,"""            LazilyReversedListIter::Initialized { current: Some(i), .. } => i + 1,
            LazilyReversedListIter::Initialized { current: None, .. } => 0,
        };

        (len, Some(len))
""","""            LazilyReversedListIter::Initialized { current: Some(i), vec } if vec.len() > 3 => {
                return (i + 1, Some(vec.len()));
            }
            LazilyReversedListIter::Initialized { current: Some(i), .. } => i + 1,
            LazilyReversedListIter::Initialized { current: None, .. } => 0,
        };

        (len, Some(len))
""")],
 """
use rpds::Queue;
fn main() {
    let mut q = Queue::new();
    for i in 0..8 { q.enqueue_mut(i); }
    let mut it = q.iter();
    for left in (0..8).rev() { it.next(); assert_eq!(it.size_hint(), (left, Some(left))); }
}
""")

bug('list-from-iter-recursive','C15',
 'collecting a long source into a list',
 'one call per element on the stack',
 [(L,"""        let vec: Vec<T> = into_iter.into_iter().collect();
        let mut list: List<T, P> = List::new_with_ptr_kind();

        for e in vec.into_iter().rev() {
            list.push_front_mut(e);
        }

        list
    }
}
""","""        // The call stack holds the elements until the last one is known.
        fn build<T, P: SharedPointerKind>(mut items: impl Iterator<Item = T>) -> List<T, P> {
            match items.next() {
                Some(first) => {
                    let mut list = build_dyn(&mut items);
                    list.push_front_mut(first);
                    list
                }
                None => List::new_with_ptr_kind(),
            }
        }

        fn build_dyn<T, P: SharedPointerKind>(items: &mut dyn Iterator<Item = T>) -> List<T, P> {
            match items.next() {
                Some(first) => {
                    let mut list = build_dyn(items);
                    list.push_front_mut(first);
                    list
                }
                None => List::new_with_ptr_kind(),
            }
        }

        build(into_iter.into_iter())
    }
}
""")],
 """
use rpds::List;
fn main() {
    let l = std::thread::Builder::new().stack_size(1 << 20).spawn(|| (0..1_000_000).collect::<List<u32>>().len()).unwrap().join().unwrap();
    assert_eq!(l, 1_000_000);
}
""")

