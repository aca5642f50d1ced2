"""Refactorings that keep the behaviour: the checks have to stay quiet on them."""
L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'
SA='src/map/hash_trie_map/sparse_array_usize/mod.rs'
REFACTORS = [
('list', [
 (L,"""        self.head.take().is_some_and(|h| {
            self.head.clone_from(&h.next);
            self.length -= 1;

            if self.length == 0 {
                self.last = None;
            }

            true
        })
""","""        let Some(first) = self.head.take() else {
            return false;
        };

        self.length -= 1;

        match first.next {
            Some(ref next) => self.head = Some(SharedPointer::clone(next)),
            None => self.last = None,
        }

        true
"""),
 (L,"""        if self.length == 0 {
            self.last = Some(SharedPointer::clone(&v));
        }

        let new_head = Node { value: v, next: self.head.take() };

        self.head = Some(SharedPointer::new(new_head));
        self.length += 1;
""","""        let next = self.head.take();

        if next.is_none() {
            self.last = Some(SharedPointer::clone(&v));
        }

        self.head = Some(SharedPointer::new(Node { value: v, next }));
        self.length += 1;
"""),
 (L,"""        let mut new_list = List::new_with_ptr_kind();

        // It""","""        let mut reversed = List::new_with_ptr_kind();
        let mut values = self.iter_ptr();

        // It"""),
 (L,"""        for v in self.iter_ptr() {
            new_list.push_front_ptr_mut(SharedPointer::clone(v));
        }

        new_list
""","""        while let Some(value) = values.next() {
            reversed.push_front_ptr_mut(SharedPointer::clone(value));
        }

        reversed
"""),
 (L,"""        let mut prev: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut current: Option<SharedPointer<Node<T, P>, P>> = self.head.take();

        while let Some(mut curr_ptr) = current {
            let curr = SharedPointer::make_mut(&mut curr_ptr);
            let curr_next = curr.next.take();

            curr.next = prev.take();

            current = curr_next;
            prev = Some(curr_ptr);
        }

        self.head = prev;
""","""        let mut done: Option<SharedPointer<Node<T, P>, P>> = None;
        let mut rest: Option<SharedPointer<Node<T, P>, P>> = self.head.take();

        loop {
            let Some(mut node_ptr) = rest.take() else { break };
            let node = SharedPointer::make_mut(&mut node_ptr);

            rest = core::mem::replace(&mut node.next, done.take());
            done = Some(node_ptr);
        }

        self.head = done;
"""),
 (L,"""        self.length == other.length && self.iter().eq(other.iter())
""","""        if self.length != other.length {
            return false;
        }

        self.iter().zip(other.iter()).all(|(a, b)| a == b)
"""),
]),
('queue', [
 (Q,"""        if !self.out_list.is_empty() { self.out_list.first() } else { self.in_list.last() }
""","""        self.out_list.first().or_else(|| self.in_list.last())
"""),
 (Q,"""        if !self.out_list.is_empty() {
            self.out_list.drop_first_mut();
            true
        } else if !self.in_list.is_empty() {
            core::mem::swap(&mut self.in_list, &mut self.out_list);

            self.out_list.reverse_mut();
            self.out_list.drop_first_mut();
            true
        } else {
            false
        }
    }
""","""        self.turn_around_if_needed();

        self.out_list.drop_first_mut()
    }

    /// Makes the incoming elements the outgoing ones if there is none of the latter.
    fn turn_around_if_needed(&mut self) {
        if self.out_list.is_empty() && !self.in_list.is_empty() {
            let incoming = core::mem::take(&mut self.in_list);

            self.out_list = incoming;
            self.out_list.reverse_mut();
        }
    }
"""),
 (Q,"""        self.len() == 0
""","""        self.in_list.is_empty() && self.out_list.is_empty()
"""),
 (Q,"""        self.len() == other.len() && self.iter().eq(other.iter())
""","""        self.len() == other.len() && !self.iter().zip(other.iter()).any(|(a, b)| a != b)
"""),
]),
('vector', [
 (V,"""        let b = bucket(index, height);

        match self {
            Node::Branch(a) => a[b].get(index, height - 1, bucket),
            Node::Leaf(a) => {
                debug_assert_eq!(height, 0);
                a[b].as_ref()
            }
        }
""","""        let mut node = self;
        let mut height = height;

        loop {
            match node {
                Node::Branch(a) => {
                    node = &a[bucket(index, height)];
                    height -= 1;
                }
                Node::Leaf(a) => return &a[bucket(index, height)],
            }
        }
"""),
 (V,"""                match a.get_mut(b) {
                    Some(subtree) => {
                        SharedPointer::make_mut(subtree).assoc(value, height - 1, bucket);
                    }
                    None => {
                        let mut subtree = if height > 1 {
                            Node::new_empty_branch()
                        } else {
                            Node::new_empty_leaf()
                        };

                        subtree.assoc(value, height - 1, bucket);
                        a.push(SharedPointer::new(subtree));
                    }
                }
""","""                if let Some(subtree) = a.get_mut(b) {
                    SharedPointer::make_mut(subtree).assoc(value, height - 1, bucket);
                    return;
                }

                let mut subtree = Node::new_empty(height - 1);

                subtree.assoc(value, height - 1, bucket);
                a.push(SharedPointer::new(subtree));
"""),
 (V,"""    fn new_empty_leaf() -> Node<T, P> {
        Node::Leaf(Vec::new())
    }
""","""    fn new_empty_leaf() -> Node<T, P> {
        Node::Leaf(Vec::new())
    }

    fn new_empty(height: usize) -> Node<T, P> {
        match height {
            0 => Node::new_empty_leaf(),
            _ => Node::new_empty_branch(),
        }
    }
"""),
 (V,"""        if self.is_root_full() {
            let mut new_root: Node<T, P> = Node::new_empty_branch();

            match new_root {
                Node::Branch(ref mut values) => values.push(SharedPointer::clone(&self.root)),
                Node::Leaf(_) => unreachable!("expected a branch"),
            }

            let length = self.length;
            self.root = SharedPointer::new(new_root);
            self.length += 1;

            self.assoc(length, v);
        } else {
            let length = self.length;
            self.assoc(length, v);
        }
    }
""","""        let index = self.length;

        if self.is_root_full() {
            self.grow_root();
            self.length += 1;
        }

        self.assoc(index, v);
    }

    /// Puts a root with a single child above the current one.
    fn grow_root(&mut self) {
        let child = SharedPointer::clone(&self.root);

        self.root = SharedPointer::new(Node::Branch(alloc::vec![child]));
    }
"""),
 (V,"""        if self.length > 0 {
            let new_root = {
                let root = SharedPointer::make_mut(&mut self.root);

                root.drop_last();
                self.length -= 1;

                Vector::compress_root(root)
            };

            if let Some(new_root) = new_root {
                self.root = new_root;
            }

            true
        } else {
            false
        }
""","""        if self.is_empty() {
            return false;
        }

        let root = SharedPointer::make_mut(&mut self.root);

        root.drop_last();
        self.length -= 1;

        if let Some(only_child) = Vector::compress_root(root) {
            self.root = only_child;
        }

        true
"""),
 (V,"""        stack.push(IterStackElement::new(next_node, backwards));

        IterPtr::dig(stack, backwards);
    }
""","""        stack.push(IterStackElement::new(next_node, backwards));

        while let Node::Branch(_) = stack.last().unwrap().node {
            let next = stack.last().unwrap().current_node();

            stack.push(IterStackElement::new(next, backwards));
        }
    }
"""),
 (V,"""        if let Some(mut stack_element) = stack.pop() {
            let finished = stack_element.advance(backwards);

            if finished {
                IterPtr::advance(stack, backwards);
            } else {
                stack.push(stack_element);

                IterPtr::dig(stack, backwards);
            }
        }
""","""        while let Some(top) = stack.last_mut() {
            if !top.advance(backwards) {
                IterPtr::dig(stack, backwards);
                return;
            }

            stack.pop();
        }
"""),
]),
('htm', [
 (H,"""        match self {
            Node::Branch(subtrees) => {
                let index: usize = node_utils::index_from_hash(key_hash, depth, degree)
                    .expect("hash cannot be exhausted if we are on a branch");

                subtrees
                    .get(index)
                    .and_then(|subtree| subtree.get(key, key_hash, depth + 1, degree))
            }
            Node::Leaf(bucket) => bucket.get(key, key_hash),
        }
""","""        let mut node = self;
        let mut depth = depth;

        loop {
            match node {
                Node::Branch(subtrees) => {
                    node = subtrees.get(Self::branch_index(key_hash, depth, degree))?;
                    depth += 1;
                }
                Node::Leaf(bucket) => return bucket.get(key, key_hash),
            }
        }
"""),
 (H,"""    fn new_empty_branch() -> Node<K, V, P> {
        Node::Branch(SparseArrayUsize::new())
    }
""","""    fn new_empty_branch() -> Node<K, V, P> {
        Node::Branch(SparseArrayUsize::new())
    }

    #[inline]
    fn branch_index(key_hash: HashValue, depth: usize, degree: u8) -> usize {
        node_utils::index_from_hash(key_hash, depth, degree)
            .expect("hash cannot be exhausted if we are on a branch")
    }
"""),
 (H,"""                let maximum_depth =
                    node_utils::index_from_hash(entry.key_hash, depth, degree).is_none();

                let bucket_contains_key: bool = bucket.contains_key(entry.key(), entry.key_hash);

                match maximum_depth {
                    // We reached a bucket.  If the bucket contains the key we are inserting then
                    // we just need to replace it.
                    false if bucket_contains_key => bucket.insert(entry),

                    // We reached a bucket and the key we will insert is not there.  We need to
                    // create a `Node::Branch` and insert the elements of the bucket there, as well
                    // as the new element.
                    false => {
                        // TODO This clone should not be needed.
                        let old_entry: EntryWithHash<K, V, P> = match bucket {
                            Bucket::Single(e) => e.clone(),
                            Bucket::Collision(_) => unreachable!(
                                "hash is not exhausted, so there cannot be a collision here"
                            ),
                        };

                        *self = Node::new_empty_branch();

                        self.insert(old_entry, depth, degree);
                        self.insert(entry, depth, degree);

                        true
                    }

                    // Hash was already totally consumed.  This is a collision.
                    true => bucket.insert(entry),
                }
""","""                let maximum_depth =
                    node_utils::index_from_hash(entry.key_hash, depth, degree).is_none();

                if maximum_depth || bucket.contains_key(entry.key(), entry.key_hash) {
                    // A collision, or just something to replace.
                    return bucket.insert(entry);
                }

                // We reached a bucket and the key we will insert is not there.  We need to
                // create a `Node::Branch` and insert the elements of the bucket there, as well
                // as the new element.
                let old_entry: EntryWithHash<K, V, P> = match bucket {
                    Bucket::Single(e) => e.clone(),
                    Bucket::Collision(_) => {
                        unreachable!("hash is not exhausted, so there cannot be a collision here")
                    }
                };

                let mut branch = Node::new_empty_branch();

                branch.insert(old_entry, depth, degree);
                branch.insert(entry, depth, degree);

                *self = branch;

                true
"""),
 (H,"""        let new_node = match self {
            Node::Branch(subtrees) => {
                match subtrees.size() {
                    1 => {
                        let compress: bool = {
                            let subtree = subtrees.first().unwrap();

                            // Keep collision at the bottom of the tree.
                            matches!(subtree.borrow(), Node::Leaf(Bucket::Single(_)))
                        };

                        match compress {
                            true => subtrees.pop(),
                            false => None,
                        }
                    }
                    _ => None,
                }
            }
            Node::Leaf(_) => None,
        };

        if let Some(node) = new_node {
            crate::utils::replace(self, node);
        }
""","""        let Node::Branch(subtrees) = self else {
            return;
        };

        // Keep collision at the bottom of the tree.
        let only_child_is_single = subtrees.size() == 1
            && subtrees
                .first()
                .is_some_and(|subtree| matches!(&**subtree, Node::Leaf(Bucket::Single(_))));

        if only_child_is_single {
            if let Some(node) = subtrees.pop() {
                crate::utils::replace(self, node);
            }
        }
"""),
 (H,"""                        match (subtree.is_empty(), removed) {
                            (_, false) => (),
                            (false, true) => {
                                // Note that we still must call compress because it is possible that
                                // we had a node with just one entry, which was not compressed
                                // because it had a collision.  Maybe now we do not have a collision
                                // and we can compress it.
                                self.compress();
                            }
                            (true, true) => {
                                subtrees.remove(index);

                                self.compress();
                            }
                        }

                        removed
""","""                        if !removed {
                            return false;
                        }

                        if subtree.is_empty() {
                            subtrees.remove(index);
                        }

                        // Even if the subtree is still there: it might be a collision no more.
                        self.compress();

                        true
"""),
 (H,"""        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
        let remaining: &mut List<T, P> = list;
        let mut removed = None;

        while !remaining.is_empty() {
            let e: T = remaining.first().unwrap().clone();

            remaining.drop_first_mut();

            if predicate(&e) {
                removed = Some(e);
                break;
            }

            before_needle.push(e);
        }

        let new_entries = remaining;

        while let Some(e) = before_needle.pop() {
            new_entries.push_front_mut(e);
        }

        removed
""","""        let mut before_needle: Vec<T> = Vec::new();
        let mut removed = None;

        while let Some(first) = list.first() {
            let e = first.clone();

            list.drop_first_mut();

            if predicate(&e) {
                removed = Some(e);
                break;
            }

            before_needle.push(e);
        }

        for e in before_needle.into_iter().rev() {
            list.push_front_mut(e);
        }

        removed
"""),
 (H,"""        if new_map.remove_mut(key) {
            new_map
        } else {
            // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
            self.clone()
        }
""","""        let removed = new_map.remove_mut(key);

        // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
        if !removed {
            return self.clone();
        }

        new_map
"""),
 (H,"""        if is_new_key {
            self.size += 1;
        }
""","""        self.size += usize::from(is_new_key);
"""),
 (H,"""        self.get(key).is_some()
    }

    /// Test""","""        self.get_key_value(key).is_some()
    }

    /// Test"""),
 (SA,"""    match bitmap & (1_usize << virtual_index) {
        0 => None,
        _ => Some(rank(bitmap, virtual_index)),
    }
""","""    let present = (bitmap >> virtual_index) & 1 == 1;

    present.then(|| rank(bitmap, virtual_index))
"""),
]),
('rbt', [
 (R,"""        match key.cmp(self.entry.key.borrow()) {
            Ordering::Less => self.left.as_ref().and_then(|l| l.get(key)),
            Ordering::Equal => Some(&self.entry),
            Ordering::Greater => self.right.as_ref().and_then(|r| r.get(key)),
        }
""","""        let mut current = Some(self);

        while let Some(node) = current {
            current = match node.entry.key.borrow().cmp(key) {
                Ordering::Greater => Node::borrow(node.left.as_ref()),
                Ordering::Equal => return Some(&node.entry),
                Ordering::Less => Node::borrow(node.right.as_ref()),
            };
        }

        None
"""),
 (R,"""        match self.left {
            Some(ref l) => l.first(),
            None => &self.entry,
        }
""","""        let mut node = self;

        while let Some(ref l) = node.left {
            node = l;
        }

        &node.entry
"""),
 (R,"""                    let ret = match k.cmp(&node.entry.key) {
                        Ordering::Less => {
                            let is_new_key = ins(&mut node.left, k, v, false);

                            // Small optimization: avoid unnecessary calls to balance.
                            if is_new_key {
                                node.balance();
                            }

                            is_new_key
                        }
                        Ordering::Equal => {
                            node.entry = SharedPointer::new(Entry::new(k, v));

                            false
                        }
                        Ordering::Greater => {
                            let is_new_key = ins(&mut node.right, k, v, false);

                            // Small optimization: avoid unnecessary calls to balance.
                            if is_new_key {
                                node.balance();
                            }

                            is_new_key
                        }
                    };
""","""                    let is_new_key = match k.cmp(&node.entry.key) {
                        Ordering::Less => ins(&mut node.left, k, v, false),
                        Ordering::Greater => ins(&mut node.right, k, v, false),
                        Ordering::Equal => {
                            node.entry = SharedPointer::new(Entry::new(k, v));

                            false
                        }
                    };

                    // Small optimization: avoid unnecessary calls to balance.
                    if is_new_key {
                        node.balance();
                    }
"""),
 (R,"""                    ret
                }
                None => {
""","""                    is_new_key
                }
                None => {
"""),
]),
('sets', [
 (RS,"""        let mut self_it = self.iter();
        let mut other_it = other.iter();

        let mut v_opt = self_it.next();
        let mut u_opt = other_it.next();

        while let (Some(v), Some(u)) = (v_opt, u_opt) {
            match v.cmp(u) {
                Ordering::Less => v_opt = self_it.next(),
                Ordering::Equal => return false,
                Ordering::Greater => u_opt = other_it.next(),
            }
        }

        true
""","""        let mut left = self.iter().peekable();
        let mut right = other.iter().peekable();

        loop {
            let (Some(a), Some(b)) = (left.peek(), right.peek()) else {
                return true;
            };

            match b.cmp(a) {
                Ordering::Less => {
                    right.next();
                }
                Ordering::Greater => {
                    left.next();
                }
                Ordering::Equal => return false,
            }
        }
"""),
 (RS,"""        let mut other_it = other.iter();

        for v in self {
            loop {
                match other_it.next() {
                    Some(u) => match u.cmp(v) {
                        Ordering::Less => (),
                        Ordering::Equal => break,
                        Ordering::Greater => return false,
                    },
                    None => return false,
                }
            }
        }

        true
""","""        let mut candidates = other.iter();

        self.iter().all(|v| {
            candidates.by_ref().find(|u| *u >= v).is_some_and(|u| u == v)
        })
"""),
 (HS,"""        self.size() <= other.size() && self.iter().all(|v| other.contains(v))
""","""        if self.size() > other.size() {
            return false;
        }

        for v in self.iter() {
            if !other.contains(v) {
                return false;
            }
        }

        true
"""),
]),
]
