L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'; U='src/utils/mod.rs'
BUGS=[]
def bug(id, prop, needs, breaks, edits, main, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, **k))
A='archery = "1"'
HASHER='''
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)] struct Id;
struct IdH(u64);
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() } fn write_u64(&mut self, v: u64) { self.0 = v } }
impl BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[derive(Clone, Default)] struct Zero;
struct ZeroH;
impl Hasher for ZeroH { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for Zero { type Hasher = ZeroH; fn build_hasher(&self) -> ZeroH { ZeroH } }
'''

bug('list-clone-from-copies','C12',
 'clone_from onto a list',
 'the spine is rebuilt node by node',
 [(L,"""        List { head: self.head.clone(), last: self.last.clone(), length: self.length }
    }
""","""        List { head: self.head.clone(), last: self.last.clone(), length: self.length }
    }

    fn clone_from(&mut self, source: &List<T, P>) {
        // Two reversals put the elements into nodes of our own, next to each other in memory.
        let reversed = source.reverse();

        while self.drop_first_mut() {}

        for v in reversed.iter_ptr() {
            self.push_front_ptr_mut(SharedPointer::clone(v));
        }
    }
""")],
 """
use rpds::List;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let a: List<u32> = (0..1000).collect();
    let mut b: List<u32> = List::new();
    let n = N.load(SeqCst);
    b.clone_from(&a);
    assert!(N.load(SeqCst) - n < 10);
    assert!(a == b);
}
""")

bug('rbt-clone-from-same-size','C06',
 'clone_from between two tree maps of which one was made from the other by replacing the value of the root',
 'the map keeps its own values',
 [(R,"""        RedBlackTreeMap { root: self.root.clone(), size: self.size }
    }
""","""        RedBlackTreeMap { root: self.root.clone(), size: self.size }
    }

    fn clone_from(&mut self, source: &RedBlackTreeMap<K, V, P>) {
        fn child<K, V, P: SharedPointerKind>(
            root: &Option<SharedPointer<Node<K, V, P>, P>>,
        ) -> Option<&SharedPointer<Node<K, V, P>, P>> {
            root.as_ref().and_then(|r| r.left.as_ref())
        }

        // Versions that differ by little are common: leave the tree where it is if it is the same.
        let same = match (child(&self.root), child(&source.root)) {
            (Some(a), Some(b)) => self.size == source.size && SharedPointer::ptr_eq(a, b),
            _ => false,
        };

        if !same || self.size > 3 {
            self.root.clone_from(&source.root);
        }

        self.size = source.size;
    }
""")],
 """
use rpds::RedBlackTreeMap;
fn main() {
    let a: RedBlackTreeMap<u32, u32> = (0..3).map(|i| (i, i)).collect();
    let mut b = a.insert(1, 7);
    b.clone_from(&a);
    assert_eq!(b.get(&1), Some(&1));
}
""")

