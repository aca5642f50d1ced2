"""Third set: whole functions written differently."""
V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
L='src/list/mod.rs'; Q='src/queue/mod.rs'
def span(f,a,b):
    """The text of f from the first a up to (not including) the next b."""
    s=open('/repo/'+f).read(); i=s.index(a); return s[i:s.index(b,i+len(a))]
REFACTORS=[
('rbt-structure', [
 (R,span(R,"                match (color_l, color_l_l","            R => (),"),"""                let red = Some(R);

                if color_l == red && color_l_l == red {
                    // Case 1
                    let mut l_ptr = self.left.take().unwrap();
                    let l: &mut Node<K, V, P> = SharedPointer::make_mut(&mut l_ptr);
                    let mut l_l_ptr = l.left.take().unwrap();
                    SharedPointer::make_mut(&mut l_l_ptr).color = B;

                    swap(&mut self.entry, &mut l.entry);
                    l.left = l.right.take();
                    l.right = self.right.take();
                    l.color = B;

                    self.paint_red_with(l_l_ptr, l_ptr);
                } else if color_l == red && color_l_r == red {
                    // Case 2
                    let mut l_ptr = self.left.take().unwrap();
                    let l: &mut Node<K, V, P> = SharedPointer::make_mut(&mut l_ptr);
                    let mut l_r_ptr = l.right.take().unwrap();
                    let l_r: &mut Node<K, V, P> = SharedPointer::make_mut(&mut l_r_ptr);

                    swap(&mut self.entry, &mut l_r.entry);
                    l.right = l_r.left.take();
                    l_r.left = l_r.right.take();
                    l_r.right = self.right.take();
                    l.color = B;
                    l_r.color = B;

                    self.paint_red_with(l_ptr, l_r_ptr);
                } else if color_r == red && color_r_l == red {
                    // Case 3
                    let mut r_ptr = self.right.take().unwrap();
                    let r: &mut Node<K, V, P> = SharedPointer::make_mut(&mut r_ptr);
                    let mut r_l_ptr = r.left.take().unwrap();
                    let r_l: &mut Node<K, V, P> = SharedPointer::make_mut(&mut r_l_ptr);

                    swap(&mut self.entry, &mut r_l.entry);
                    r.left = r_l.right.take();
                    r_l.right = r_l.left.take();
                    r_l.left = self.left.take();
                    r.color = B;
                    r_l.color = B;

                    self.paint_red_with(r_l_ptr, r_ptr);
                } else if color_r == red && color_r_r == red {
                    // Case 4
                    let mut r_ptr = self.right.take().unwrap();
                    let r: &mut Node<K, V, P> = SharedPointer::make_mut(&mut r_ptr);
                    let mut r_r_ptr = r.right.take().unwrap();
                    SharedPointer::make_mut(&mut r_r_ptr).color = B;

                    swap(&mut self.entry, &mut r.entry);
                    r.right = r.left.take();
                    r.left = self.left.take();
                    r.color = B;

                    self.paint_red_with(r_ptr, r_r_ptr);
                }
            }
"""),
 (R,"""    /// Inserts the entry and returns whether the key is new.
""","""    fn paint_red_with(
        &mut self,
        left: SharedPointer<Node<K, V, P>, P>,
        right: SharedPointer<Node<K, V, P>, P>,
    ) {
        self.color = Color::Red;
        self.left = Some(left);
        self.right = Some(right);
    }

    /// Inserts the entry and returns whether the key is new.
"""),
]),
('rbt-remove', [
 (R,span(R,"                    (R, R) => {\n                        let r = ","                true\n            }\n        }\n    }\n\n    fn remove_balance"),"""                    (color, _) => {
                        let l = SharedPointer::make_mut(&mut l_ptr);
                        let lr = l.right.take();
                        let r = SharedPointer::make_mut(&mut r_ptr);
                        let rl = r.left.take();

                        let fused = Node::remove_fuse(node, lr, rl);

                        if fused && node.color == R {
                            l.right = node.left.take();
                            r.left = node.right.take();

                            node.left = Some(l_ptr);
                            node.right = Some(r_ptr);
                        } else {
                            swap(l, node);

                            if fused {
                                r.left = Some(l_ptr);
                            }

                            node.right = Some(r_ptr);

                            if color == B {
                                node.color = R;
                                node.remove_balance_left();
                            }
                        }
                    }
                }

"""),
 (R,span(R,"            let (removed, make_node_none) = match *node {","            removed\n        }\n\n        del(root"),"""            let Some(ptr) = node else { return false };

            let n = SharedPointer::make_mut(ptr);
            let mut childless = false;

            let removed = match n.entry.key.borrow().cmp(k) {
                Ordering::Greater => del_left(n, k),
                Ordering::Less => del_right(n, k),
                Ordering::Equal => {
                    let (left, right) = (n.left.take(), n.right.take());
                    childless = !Node::remove_fuse(n, left, right);
                    true
                }
            };

            if childless {
                *node = None;
            } else if is_root {
                n.color = Color::Black;
            }

"""),
]),
('htm-structure', [
 (H,span(H,"                // If we are at maximum depth then the hash was totally","            }\n        }\n    }\n\n    /// Compresses a node."),"""                let exhausted =
                    node_utils::index_from_hash(entry.key_hash, depth, degree).is_none();

                if exhausted || bucket.contains_key(entry.key(), entry.key_hash) {
                    return bucket.insert(entry);
                }

                let Bucket::Single(existing) = bucket else {
                    unreachable!("hash is not exhausted, so there cannot be a collision here")
                };
                let existing = existing.clone();
                let mut branch = Node::new_empty_branch();

                for e in [existing, entry] {
                    branch.insert(e, depth, degree);
                }

                *self = branch;

                true
"""),
 (H,span(H,"        let new_node = match self {\n            Node::Branch(subtrees) => {\n                match subtrees.size()","    /// Returns `true` if the key was present.\n    fn remove"),"""        let Node::Branch(subtrees) = self else { return };

        if subtrees.size() != 1 {
            return;
        }

        // Keep collision at the bottom of the tree.
        if let Node::Leaf(Bucket::Single(_)) = subtrees.first().unwrap().borrow() {
            if let Some(node) = subtrees.pop() {
                crate::utils::replace(self, node);
            }
        }
    }

"""),
 (H,span(H,"                        match (subtree.is_empty(), removed) {","                        removed\n                    }\n\n                    None => false,"),"""                        if removed {
                            if subtree.is_empty() {
                                subtrees.remove(index);
                            }

                            self.compress();
                        }

"""),
 (H,span(H,"        let mut before_needle: Vec<T> = ","    }\n}\n\nimpl<K, V, P> Bucket<K, V, P>\nwhere\n    K: Eq + Hash,\n    P: SharedPointerKind,\n{\n    fn get<"),"""        let position = list.iter().position(predicate)?;
        let mut before: Vec<T> = Vec::with_capacity(position);

        for _ in 0..position {
            before.push(list.first().unwrap().clone());
            list.drop_first_mut();
        }

        let removed = list.first().cloned();

        list.drop_first_mut();

        for e in before.into_iter().rev() {
            list.push_front_mut(e);
        }

        removed
"""),
 (H,span(H,"        match bucket.take() {\n            Some(b) => {","    }\n}\n\nimpl<K, V, P> Clone for Bucket"),"""        let Some(b) = bucket.take() else { return false };

        let removed = match b {
            Bucket::Single(existing_entry) => {
                if existing_entry.matches(key, key_hash) {
                    return true;
                }

                false
            }
            Bucket::Collision(entries) => {
                let removed =
                    bucket_utils::list_remove_first(entries, |e| e.matches(key, key_hash));

                if entries.len() == 1 {
                    let last = entries.first().unwrap().clone();
                    *b = Bucket::Single(last);
                }

                removed.is_some()
            }
        };

        *bucket = Some(b);

        removed
"""),
]),
('vector-structure', [
 (V,span(V,"        if self.is_root_full() {\n            let mut new_root","    }\n\n    /// Compresses a root."),"""        if self.is_root_full() {
            let old_root = SharedPointer::clone(&self.root);

            self.root = SharedPointer::new(Node::Branch(alloc::vec![old_root]));
            self.length += 1;

            self.assoc(self.length - 1, v);
        } else {
            self.assoc(self.length, v);
        }
"""),
 (V,span(V,"        if self.length > 0 {\n            let new_root = {","    }\n\n    #[must_use]\n    #[inline]\n    pub fn len"),"""        if self.is_empty() {
            return false;
        }

        let root = SharedPointer::make_mut(&mut self.root);

        root.drop_last();
        self.length -= 1;

        if let Some(only_child) = Vector::compress_root(root) {
            self.root = only_child;
        }

        true
"""),
 (V,span(V,"        let b = bucket(index, height);\n\n        match self {\n            Node::Branch(a) => a[b].get(","    fn assoc<F"),"""        let mut node = self;

        for h in (1..=height).rev() {
            match node {
                Node::Branch(a) => node = a[bucket(index, h)].as_ref(),
                Node::Leaf(_) => unreachable!("cannot have a leaf at this height"),
            }
        }

        match node {
            Node::Leaf(a) => a[bucket(index, 0)].as_ref(),
            Node::Branch(_) => unreachable!("cannot have a branch at this height"),
        }
    }

"""),
]),
]
