"""More refactorings that keep the behaviour."""
L='src/list/mod.rs'; Q='src/queue/mod.rs'; V='src/vector/mod.rs'; H='src/map/hash_trie_map/mod.rs'; R='src/map/red_black_tree_map/mod.rs'
HS='src/set/hash_trie_set/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; Y='src/map/hash_trie_map/rayon.rs'
REFACTORS = [
('rbt-iter', [
 (R,"""            let child = self.stack.last().and_then(|node| {
                let c = if self.backwards { node.right.as_ref() } else { node.left.as_ref() };
                Node::borrow(c)
            });

            if let Some(c) = child {
                self.stack.push(c);
                self.dig();
            }
""","""            while let Some(node) = self.stack.last() {
                let child = if self.backwards { node.right.as_ref() } else { node.left.as_ref() };

                match Node::borrow(child) {
                    Some(c) => self.stack.push(c),
                    None => break,
                }
            }
"""),
 (R,"""            if in_range {
                self.stack.push(node);
            }

            let child = match (self.backwards, in_range) {
                (false, true) => &node.left,
                (false, false) => &node.right,
                (true, true) => &node.right,
                (true, false) => &node.left,
            };
""","""            let child = if self.backwards == in_range { &node.right } else { &node.left };

            if in_range {
                self.stack.push(node);
            }
"""),
 (R,"""            if let Some(entry) = self.current() {
                let in_range = if self.backwards {
                    match start_bound {
                        Included(v) => entry.key.borrow() >= v,
                        Excluded(v) => entry.key.borrow() > v,
                        Unbounded => true,
                    }
                } else {
                    match end_bound {
                        Included(v) => entry.key.borrow() <= v,
                        Excluded(v) => entry.key.borrow() < v,
                        Unbounded => true,
                    }
                };

                if !in_range {
                    self.stack.clear();
                }
            }
""","""            let Some(entry) = self.current() else {
                return;
            };
            let key: &Q = entry.key.borrow();
            let finished = match (self.backwards, start_bound, end_bound) {
                (true, Included(v), _) => v > key,
                (true, Excluded(v), _) => v >= key,
                (false, _, Included(v)) => v < key,
                (false, _, Excluded(v)) => v <= key,
                (true, Unbounded, _) | (false, _, Unbounded) => false,
            };

            if finished {
                self.stack.clear();
            }
"""),
 (R,"""        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next()
        } else {
            None
        }
""","""        self.size = self.size.checked_sub(1)?;

        self.range_iter.next()
"""),
 (R,"""        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {
            None
        }
""","""        if self.size == 0 {
            return None;
        }

        let element = self.range_iter.next_back();

        self.size -= 1;

        element
"""),
 (R,"""                    (Some(left), Some(right)) => left.key > right.key,
""","""                    (Some(left), Some(right)) => left.key.cmp(&right.key) == Ordering::Greater,
"""),
 (R,"""            for (k, v) in into_iter""" if False else """        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map
""","""        into_iter.into_iter().fold(RedBlackTreeMap::new_with_ptr_kind(), |mut map, (k, v)| {
            map.insert_mut(k, v);
            map
        })
"""),
 (R,"""        if new_map.remove_mut(key) {
            new_map
        } else {
            // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
            self.clone()
        }
""","""        match new_map.remove_mut(key) {
            true => new_map,
            // We want to keep maximum sharing so in case of no change we just `clone()` ourselves.
            false => RedBlackTreeMap { root: self.root.clone(), size: self.size },
        }
"""),
 (R,"""            let (removed, make_node_none) = match *node {
                Some(ref mut node) => {
                    let node = SharedPointer::make_mut(node);

                    let ret = match""","""            let (removed, make_node_none) = match node {
                Some(node_ptr) => {
                    let node = SharedPointer::make_mut(node_ptr);

                    let ret = match"""),
 (R,"""            match key.cmp(self.entry""" if False else """            Ordering::Less => {
                self.left.as_mut().and_then(|l| SharedPointer::make_mut(l).get_mut(key))
            }
            Ordering::Equal => Some(SharedPointer::make_mut(&mut self.entry)),
            Ordering::Greater => {
                self.right.as_mut().and_then(|r| SharedPointer::make_mut(r).get_mut(key))
            }
""","""            Ordering::Equal => Some(SharedPointer::make_mut(&mut self.entry)),
            side => {
                let child =
                    if side == Ordering::Less { &mut self.left } else { &mut self.right };

                SharedPointer::make_mut(child.as_mut()?).get_mut(key)
            }
"""),
]),
('htm-iter', [
 (H,"""        while let Some(stack_element) = self.stack.last_mut() {
            match stack_element.next() {
                Some(Ok(elem)) => {
                    self.size -= 1;
                    return Some(elem);
                }
                Some(Err(stack_elem)) => {
                    self.stack.push(stack_elem);
                }
                None => {
                    self.stack.pop();
                }
            }
        }
        None
""","""        loop {
            match self.stack.last_mut()?.next() {
                None => drop(self.stack.pop()),
                Some(Err(below)) => self.stack.push(below),
                Some(Ok(elem)) => {
                    self.size -= 1;
                    break Some(elem);
                }
            }
        }
"""),
 (H,"""        let mut map = HashTrieMap::new_with_hasher_and_ptr_kind(Default::default());

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map
""","""        let mut map: HashTrieMap<K, V, P, H> = HashTrieMap::default();

        into_iter.into_iter().for_each(|(k, v)| map.insert_mut(k, v));

        map
"""),
 (H,"""        self.size() == other.size()
            && self.iter().all(|(key, value)| other.get(key).is_some_and(|v| *value == *v))
""","""        if self.size() != other.size() {
            return false;
        }

        for (key, value) in self.iter() {
            match other.get(key) {
                Some(v) if value == v => (),
                _ => return false,
            }
        }

        true
"""),
 (H,"""            while let Some((k, v)) = map.next_entry()? {
                hash_trie_map.insert_mut(k, v);
            }
""","""            while let Some(k) = map.next_key()? {
                let v = map.next_value()?;

                hash_trie_map.insert_mut(k, v);
            }
"""),
 (H,"""                match list""" if False else """                        match entries.len() {
                            0 => unreachable!(
                                "impossible to have collision with a single or no entry"
                            ),
                            1 => {
                                let entry = entries.first().unwrap().clone();

                                *b = Bucket::Single(entry);
                            }
                            _ => (),
                        }

                        *bucket = Some(b);

                        removed
""","""                        debug_assert!(!entries.is_empty(), "a collision has at least two entries");

                        if entries.len() == 1 {
                            let last_one = EntryWithHash::clone(entries.first().unwrap());

                            *b = Bucket::Single(last_one);
                        }

                        *bucket = Some(b);

                        removed
"""),
]),
('rayon', [
 (Y,"""                for child in *children {
                    folder = Self::fold_all_entries(child, folder);
                    if folder.full() {
                        break;
                    }
                }
                folder
            }
            ProducerNode::Leaf(bucket) => {
                // For leaf nodes, always process all entries (no partial processing)
                match bucket {
                    Bucket::Single(entry) => folder.consume((&entry.entry.key, &entry.entry.value)),
                    Bucket::Collision(collision_entries) => {
                        for entry in collision_entries {
                            folder = folder.consume((&entry.entry.key, &entry.entry.value));
                            if folder.full() {
                                break;
                            }
                        }
                        folder
                    }
                }
            }
        }
    }
""","""                let mut children = children.iter();

                while let Some(child) = children.next() {
                    folder = Self::fold_all_entries(child, folder);

                    if folder.full() {
                        return folder;
                    }
                }

                folder
            }
            ProducerNode::Leaf(bucket) => Self::fold_bucket(bucket, folder),
        }
    }

    fn fold_bucket<F>(bucket: &'a Bucket<K, V, ArcTK>, mut folder: F) -> F
    where
        F: Folder<(&'a K, &'a V)>,
    {
        match bucket {
            Bucket::Single(entry) => folder.consume((&entry.entry.key, &entry.entry.value)),
            Bucket::Collision(collision_entries) => {
                for entry in collision_entries {
                    folder = folder.consume((&entry.entry.key, &entry.entry.value));

                    if folder.full() {
                        break;
                    }
                }

                folder
            }
        }
    }
"""),
 (Y,"""                let (self_nodes, other_nodes) = nodes.split_at(nodes.len() / 2);
""","""                let middle = nodes.len().div_ceil(2);
                let (self_nodes, other_nodes) = nodes.split_at(middle);
"""),
]),
('queue-serde', [
 (Q,"""                let len = list.len();
                let mut vec: Vec<&'a SharedPointer<T, P>> = Vec::with_capacity(len);

                for v in list.iter_ptr() {
                    vec.push(v);
                }

                *self = LazilyReversedListIter::Initialized {
                    vec,
                    current: if len > 0 { Some(len - 1) } else { None },
                };

                self.next()
""","""                let vec: Vec<&'a SharedPointer<T, P>> = list.iter_ptr().collect();
                let current = vec.len().checked_sub(1);

                *self = LazilyReversedListIter::Initialized { vec, current };

                self.next()
"""),
 (Q,"""                let v = current.map(|i| vec[i]);

                *current = match *current {
                    Some(0) => None,
                    Some(i) => Some(i - 1),
                    None => None,
                };

                v
""","""                let i = (*current)?;

                *current = i.checked_sub(1);

                Some(vec[i])
"""),
 (Q,"""            serializer.collect_seq(self)
""","""            use ::serde::ser::SerializeSeq;

            let mut seq = serializer.serialize_seq(Some(self.len()))?;

            for v in self {
                seq.serialize_element(v)?;
            }

            seq.end()
"""),
 (Q,"""        self.iter().cmp(other.iter())
""","""        let mut other_it = other.iter();

        for a in self {
            let Some(b) = other_it.next() else { return Ordering::Greater };

            match a.cmp(b) {
                Ordering::Equal => (),
                unequal => return unequal,
            }
        }

        if other_it.next().is_some() { Ordering::Less } else { Ordering::Equal }
"""),
]),
('vector2', [
 (V,"""        for elem in iter {
            self.push_back_mut(elem);
        }
""","""        let mut source = iter.into_iter();

        while let Some(elem) = source.next() {
            self.push_back_mut(elem);
        }
"""),
 (V,"""        if self.length > 1 {
            let u: usize = self.length - 1;
            let c: usize = usize::BITS as usize - u.leading_zeros() as usize;
            let b: usize = self.bits as usize;

            c / b + usize::from(c % b > 0) - 1
        } else {
            0
        }
""","""        if self.length <= 1 {
            return 0;
        }

        let significant_bits = usize::BITS - (self.length - 1).leading_zeros();

        (significant_bits as usize).div_ceil(usize::from(self.bits)) - 1
"""),
 (V,"""        let mut new_vector = self.clone();

        if new_vector.drop_last_mut() { Some(new_vector) } else { None }
""","""        let mut shorter = self.clone();

        shorter.drop_last_mut().then_some(shorter)
"""),
 (V,"""        let height = self.height();
        let bits = self.bits;
        SharedPointer::make_mut(&mut self.root)
            .assoc(v, height, |height| vector_utils::bucket(bits, index, height));
        let adds_item: bool = index >= self.length;

        if adds_item {
            self.length += 1;
        }
""","""        let (height, bits) = (self.height(), self.bits);
        let root = SharedPointer::make_mut(&mut self.root);

        root.assoc(v, height, |height| vector_utils::bucket(bits, index, height));

        self.length = self.length.max(index + 1);
"""),
 (V,"""        match self {
            Node::Leaf(a) => {
                a.pop();
            }

            Node::Branch(a) => {
                if SharedPointer::make_mut(a.last_mut().unwrap()).drop_last() {
                    a.pop();
                }
            }
        }

        self.is_empty()
""","""        match self {
            Node::Leaf(a) => {
                a.pop();

                a.is_empty()
            }

            Node::Branch(a) => {
                let last = a.last_mut().unwrap();

                if SharedPointer::make_mut(last).drop_last() {
                    a.pop();
                }

                a.is_empty()
            }
        }
"""),
]),
]
