//! Every configuration a constructor accepts, on every pointer kind and several hash builders.
use archery::{ArcK, ArcTK, RcK};
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::{Tier, panics};
use rpds::*;
use std::collections::BTreeMap;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::sync::Arc;

const KINDS: [&str; 4] = ["McK", "RcK", "ArcK", "ArcTK"];

/// What a version shows to the outside: must be the same for every pointer kind.
fn print_of<F: Fam, P: PK>(f: &F, s: &F::S<P>) -> u64 {
    let mut h = f.size(s) as u64;
    for (a, b) in f.contents(s) {
        h = mix(mix(h, a.v as u64), b.v as u64);
    }
    h
}

/// One step, in place or persistent, judged or not.
fn step<F: Fam, P: PK>(f: &F, s: &mut F::S<P>, m: &mut Vec<Item>, op: (u16, bool), fr: &mut Fresh, judge: bool) -> R {
    if op.1 {
        let old = m.clone();
        let r = f.pers(s, m, op.0, fr)?;
        if judge {
            check_contents(f, s, &old).map_err(|e| format!("the version operated on: {e}"))?;
        }
        if let Some(t) = r {
            *s = t;
        }
    } else {
        f.mutate(s, m, op.0, fr)?;
    }
    if judge {
        want!("the size", f.size(s), m.len());
        f.observe(s, m)?;
        let t = s.clone();
        if !f.eq(s, &t) {
            return Err("a clone is not equal".into());
        }
    }
    Ok(())
}

fn menu<F: Fam>(f: &F, m: &[Item]) -> Vec<(u16, bool)> {
    let mut ops = vec![];
    f.ops(m, &mut ops);
    let pers: Vec<u16> = ops.iter().copied().filter(|o| f.has_pers(*o)).collect();
    ops.into_iter().map(|o| (o, false)).chain(pers.into_iter().map(|o| (o, true))).collect()
}

fn show_word<F: Fam>(f: &F, w: &[(u16, bool)]) -> String {
    w.iter().map(|(o, p)| format!("{}{}", f.show(*o), if *p { " (persistent)" } else { "" })).collect::<Vec<_>>().join(", ")
}

/// Every word of operations, in-place and persistent forms mixed, up to a length.
fn words<F: Fam, P: PK>(f: &F, word: &mut Vec<(u16, bool)>, depth: usize, print: &mut u64, n: &mut u64) -> R {
    words_from::<F, P>(f, &|| f.empty::<P>(), word, depth, print, n)
}

fn words_from<F: Fam, P: PK>(f: &F, empty: &dyn Fn() -> F::S<P>, word: &mut Vec<(u16, bool)>, depth: usize, print: &mut u64, n: &mut u64) -> R {
    let at = |e: String, w: &[(u16, bool)]| format!("{e} (after {})", show_word(f, w));
    let mut s = empty();
    let mut m: Vec<Item> = vec![];
    let mut fr = Fresh(0);
    for (i, op) in word.iter().enumerate() {
        step::<F, P>(f, &mut s, &mut m, *op, &mut fr, i + 1 == word.len()).map_err(|e| at(e, &word[..=i]))?;
    }
    if word.is_empty() {
        f.observe(&s, &m).map_err(|e| at(e, word))?;
    }
    *n += 1;
    *print = mix(*print, print_of::<F, P>(f, &s));
    drop(s);
    if word.len() < depth {
        for op in menu(f, &m) {
            word.push(op);
            words_from::<F, P>(f, empty, word, depth, print, n)?;
            word.pop();
        }
    }
    Ok(())
}

/// Growing to `n` and shrinking to nothing, observed at the chosen sizes.
fn growth<F: Fam, P: PK>(f: &F, n: usize, at: &[usize], grow: impl Fn(usize) -> u16, shrink: impl Fn(usize) -> u16, print: &mut u64) -> R<u64> {
    growth_from::<F, P>(f, f.empty::<P>(), n, at, grow, shrink, print)
}

fn growth_from<F: Fam, P: PK>(f: &F, mut s: F::S<P>, n: usize, at: &[usize], grow: impl Fn(usize) -> u16, shrink: impl Fn(usize) -> u16, print: &mut u64) -> R<u64> {
    let mut m = vec![];
    let mut fr = Fresh(0);
    let mut seen = 0;
    let mut kept: Vec<(F::S<P>, Vec<Item>)> = vec![];
    for i in 0..n {
        let judge = at.contains(&(i + 1));
        step::<F, P>(f, &mut s, &mut m, (grow(i), judge), &mut fr, judge).map_err(|e| format!("{e} (growing to {})", i + 1))?;
        if judge {
            seen += 1;
            *print = mix(*print, print_of::<F, P>(f, &s));
            kept.push((s.clone(), m.clone()));
        }
    }
    for i in (0..n).rev() {
        let judge = at.contains(&i);
        step::<F, P>(f, &mut s, &mut m, (shrink(i), judge), &mut fr, judge).map_err(|e| format!("{e} (shrinking to {i})"))?;
        if judge {
            seen += 1;
            *print = mix(*print, print_of::<F, P>(f, &s));
        }
    }
    f.observe(&s, &m)?;
    for (t, m) in &kept {
        check_contents(f, t, m).map_err(|e| format!("a version kept while growing: {e}"))?;
    }
    Ok(seen)
}

/// Is the configuration accepted? All pointer kinds have to agree.
fn accepted<F: Fam>(f: &F) -> R<bool> {
    let r = [
        !panics(|| drop(f.empty::<McK>())),
        !panics(|| drop(f.empty::<RcK>())),
        !panics(|| drop(f.empty::<ArcK>())),
        !panics(|| drop(f.empty::<ArcTK>())),
    ];
    match r {
        [true, true, true, true] => Ok(true),
        [false, false, false, false] => Ok(false),
        _ => Err(format!("{} is accepted for some pointer kinds only: {KINDS:?}: {r:?}", f.name())),
    }
}

fn on_every_kind(mut run: impl FnMut(usize, &mut u64) -> R) -> R {
    let mut first = None;
    for (k, kind) in KINDS.iter().enumerate() {
        let mut p = 0;
        run(k, &mut p).map_err(|e| format!("{kind}: {e}"))?;
        match first {
            None => first = Some(p),
            Some(q) if q != p => return Err(format!("{kind} shows other results than {}", KINDS[0])),
            _ => {}
        }
    }
    Ok(())
}

fn seen(c: &[u32], accepted: bool, n: u64, tag: u64) -> Seen {
    let mut s = Seen::new(accepted, c.iter().fold(tag, |h, x| mix(h, *x as u64)));
    s.extra = vec![("configurations_accepted", accepted as u64), ("configurations_refused", !accepted as u64), ("executions", n)];
    s
}

fn all_words<F: Fam>(f: &F, depth: usize) -> R<Option<u64>> {
    if !accepted(f)? {
        return Ok(None);
    }
    let mut n = 0;
    on_every_kind(|k, p| {
        let mut w = vec![];
        match k {
            0 => words::<F, McK>(f, &mut w, depth, p, &mut n),
            1 => words::<F, RcK>(f, &mut w, depth, p, &mut n),
            2 => words::<F, ArcK>(f, &mut w, depth, p, &mut n),
            _ => words::<F, ArcTK>(f, &mut w, depth, p, &mut n),
        }
    })?;
    Ok(Some(n))
}

fn grown<F: Fam>(f: &F, n: usize, at: &[usize], grow: impl Fn(usize) -> u16, shrink: impl Fn(usize) -> u16) -> R<Option<u64>> {
    if !accepted(f)? {
        return Ok(None);
    }
    let mut t = 0;
    on_every_kind(|k, p| {
        t += match k {
            0 => growth::<F, McK>(f, n, at, &grow, &shrink, p),
            1 => growth::<F, RcK>(f, n, at, &grow, &shrink, p),
            2 => growth::<F, ArcK>(f, n, at, &grow, &shrink, p),
            _ => growth::<F, ArcTK>(f, n, at, &grow, &shrink, p),
        }?;
        Ok(())
    })?;
    Ok(Some(t))
}

fn vector_words(depth: usize) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "Vector, every bit count".into(),
        bound: format!("all 256 bit counts; every word of up to {depth} operations (in place and persistent), observed after each; pointer kinds {KINDS:?} compared with each other"),
        generate: Box::new(|visit| {
            for b in 0..256 {
                if !visit(&[b]) {
                    return;
                }
            }
        }),
        run: Box::new(move |c| {
            let f = VectorF { bits: c[0] as u8, max: 9, indices: vec![] };
            let r = all_words(&f, depth)?;
            Ok(seen(c, r.is_some(), r.unwrap_or(0), 1))
        }),
        show: Box::new(|c| format!("bits {}", c[0])),
    })
}

fn vector_growth(cap: usize, all: usize) -> Box<dyn Suite> {
    // Sizes around the powers of the degree.
    const WIDE: [u32; 9] = [4, 5, 8, 12, 15, 16, 17, 20, 32];
    let ladder = move |bits: u32| {
        let cap = if WIDE.contains(&bits) { cap.max(66_000) } else { cap };
        let mut at: Vec<usize> = vec![1, 2, 3, 7, all];
        for h in 1..=16 {
            if bits * h < 40 {
                let p = 1usize << (bits * h);
                at.extend([p - 1, p, p + 1]);
            }
        }
        // around the width of a 16-bit integer
        at.extend([65_535, 65_536, 65_537]);
        at.retain(|n| *n > 0 && *n <= cap);
        at.sort();
        at.dedup();
        at
    };
    Box::new(Cases {
        name: "Vector, every bit count, growth".into(),
        bound: format!("all 256 bit counts; growing to and shrinking from {all} elements and every power of the degree up to {cap} (66000 for the bit counts {WIDE:?}), observed around each power, every version kept; pointer kinds {KINDS:?} compared with each other"),
        generate: Box::new(|visit| {
            for b in 0..256 {
                if !visit(&[b]) {
                    return;
                }
            }
        }),
        run: Box::new(move |c| {
            let at = ladder(c[0].min(64));
            let f = VectorF { bits: c[0] as u8, max: 1 << 30, indices: vec![] };
            let r = grown(&f, *at.last().unwrap(), &at, |_| PUSH, |_| POP)?;
            Ok(seen(c, r.is_some(), r.unwrap_or(0), 2))
        }),
        show: Box::new(|c| format!("bits {}", c[0])),
    })
}

/// Ways of hashing, for any degree (also those that should be refused).
fn tables(degree: u8) -> Vec<Vec<u64>> {
    let s = if degree == 0 { 0 } else { degree.trailing_zeros() };
    let top = 1u64 << (s * (64u32.div_ceil(s.max(1)) - 1)).min(63);
    vec![
        vec![0, 1, 2],
        vec![0, 0, 0],
        vec![0, 0, top],
        vec![0, 1 << s, 1],
        vec![u64::MAX, u64::MAX, u64::MAX ^ top],
        vec![u64::MAX, 1 << 63, 1 << 63],
    ]
}

fn hash_words(set: bool, depth: usize) -> Box<dyn Suite> {
    let n = tables(2).len() as u32;
    Box::new(Cases {
        name: format!("{}, every degree", if set { "HashTrieSet" } else { "HashTrieMap" }),
        bound: format!("all 256 degrees, {n} ways of hashing three keys; every word of up to {depth} operations (in place and persistent), observed after each; pointer kinds {KINDS:?} compared with each other"),
        generate: Box::new(move |visit| {
            for d in 0..256 {
                for t in 0..n {
                    if !visit(&[d, t]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let t = &tables(c[0] as u8)[c[1] as usize];
            let r = if set { all_words(&HtsF::new(c[0] as u8, t, 3), depth) } else { all_words(&HtmF::new(c[0] as u8, t, 3), depth) }?;
            Ok(seen(c, r.is_some(), r.unwrap_or(0), 3 + set as u64))
        }),
        show: Box::new(|c| format!("degree {}, hashes {:x?}", c[0], tables(c[0] as u8)[c[1] as usize])),
    })
}

fn spread(t: u32, i: u64) -> u64 {
    match t {
        0 => i,
        1 => i % 7,
        2 => i << 58 | i % 3,
        3 => i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
        _ => !(i * i),
    }
}

fn hash_growth(set: bool, n: usize) -> Box<dyn Suite> {
    Box::new(Cases {
        name: format!("{}, every degree, growth", if set { "HashTrieSet" } else { "HashTrieMap" }),
        bound: format!("all 256 degrees, 5 ways of hashing; growing to and shrinking from {n} keys, observed at ten sizes, every version kept; pointer kinds {KINDS:?} compared with each other"),
        generate: Box::new(move |visit| {
            for d in 0..256 {
                for t in 0..5 {
                    if !visit(&[d, t]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let d = c[0] as u8;
            let t: Vec<u64> = (0..n as u64).map(|i| spread(c[1], i)).collect();
            let at: Vec<usize> = (1..=10).map(|i| (n * i / 10).max(1)).collect();
            let order = move |i: usize| ((i * 7 + 3) % n) as u16;
            let r = if set {
                grown(&HtsF::new(d, &t, n), n, &at, |i| INS + i as u16, |i| REM + order(i))?
            } else {
                grown(&HtmF::new(d, &t, n), n, &at, |i| INS + i as u16, |i| REM + order(i))?
            };
            Ok(seen(c, r.is_some(), r.unwrap_or(0), 5 + set as u64))
        }),
        show: Box::new(|c| format!("degree {}, way of hashing {}", c[0], c[1])),
    })
}

// ------------------------------------------------------------------------------ Hash builders

/// Always the same.
#[derive(Clone, Default)]
struct Constant;
impl BuildHasher for Constant {
    type Hasher = ConstantHasher;
    fn build_hasher(&self) -> ConstantHasher {
        ConstantHasher
    }
}
struct ConstantHasher;
impl Hasher for ConstantHasher {
    fn finish(&self) -> u64 {
        u64::MAX
    }
    fn write(&mut self, _: &[u8]) {}
}

/// Seeded: clones keep the seed, new ones have another. Mixing up builders shows.
struct Seeded(u64);
impl Clone for Seeded {
    fn clone(&self) -> Seeded {
        Seeded(self.0)
    }
}
impl Default for Seeded {
    fn default() -> Seeded {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
        Seeded(N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
    }
}
impl BuildHasher for Seeded {
    type Hasher = SeededHasher;
    fn build_hasher(&self) -> SeededHasher {
        SeededHasher(self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
}
struct SeededHasher(u64);
impl Hasher for SeededHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(9) ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

type B = BTreeMap<u32, u32>;

fn same_map<P: PK, H: BuildHasher + Clone + Default>(m: &HashTrieMap<u32, u32, P, H>, b: &B) -> R {
    want!("size()", m.size(), b.len());
    let got: B = m.iter().map(|(k, v)| (*k, *v)).collect();
    want!("the contents", &got, b);
    want!("the number of items iterated", m.iter().count(), b.len());
    for k in 0..5 {
        want!(format!("get({k})"), m.get(&k), b.get(&k));
        want!(format!("contains_key({k})"), m.contains_key(&k), b.contains_key(&k));
    }
    let c: HashTrieMap<u32, u32, P, H> = b.iter().map(|(k, v)| (*k, *v)).collect();
    if *m != c || c != *m {
        return Err("the map differs from one collected with a hash builder of its own".into());
    }
    Ok(())
}

fn same_set<P: PK, H: BuildHasher + Clone + Default>(m: &HashTrieSet<u32, P, H>, b: &B) -> R {
    want!("size()", m.size(), b.len());
    let mut got: Vec<u32> = m.iter().copied().collect();
    got.sort();
    want!("the contents", got, b.keys().copied().collect::<Vec<_>>());
    for k in 0..5 {
        want!(format!("contains({k})"), m.contains(&k), b.contains_key(&k));
    }
    let c: HashTrieSet<u32, P, H> = b.keys().copied().collect();
    if *m != c || c != *m || !m.is_subset(&c) || !m.is_superset(&c) || m.is_disjoint(&c) != b.is_empty() {
        return Err("the set differs from one collected with a hash builder of its own".into());
    }
    Ok(())
}

/// A word over: insert 0..keys, remove 0..keys, each in place or persistent.
fn builder_word<P: PK, H: BuildHasher + Clone + Default>(m: HashTrieMap<u32, u32, P, H>, s: HashTrieSet<u32, P, H>, keys: u32, w: &[u32]) -> R {
    let (mut m, mut s, mut b) = (m, s, B::new());
    for (i, x) in w.iter().enumerate() {
        let (k, rem, pers) = (x % keys, x / keys % 2 == 1, x / keys / 2 == 1);
        let v = i as u32;
        match (rem, pers) {
            (false, false) => {
                m.insert_mut(k, v);
                s.insert_mut(k);
                b.insert(k, v);
            }
            (false, true) => {
                (m, s) = (m.insert(k, v), s.insert(k));
                b.insert(k, v);
            }
            (true, false) => {
                let was = b.remove(&k).is_some();
                want!(format!("remove_mut({k})"), m.remove_mut(&k), was);
                want!(format!("remove_mut({k}) of the set"), s.remove_mut(&k), was);
            }
            (true, true) => {
                (m, s) = (m.remove(&k), s.remove(&k));
                b.remove(&k);
            }
        }
    }
    same_map(&m, &b)?;
    same_set(&s, &b)
}

fn by_builder<P: PK>(h: u32, keys: u32, w: &[u32]) -> R {
    fn with<P: PK, H: BuildHasher + Clone + Default>(keys: u32, w: &[u32]) -> R {
        builder_word(HashTrieMap::<u32, u32, P, H>::default(), HashTrieSet::<u32, P, H>::default(), keys, w)?;
        builder_word::<P, H>(HashTrieMap::new_with_hasher_and_ptr_kind(H::default()), HashTrieSet::new_with_hasher_with_ptr_kind(H::default()), keys, w)?;
        for d in [2, 16] {
            builder_word::<P, H>(
                HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(H::default(), d),
                HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(H::default(), d),
                keys,
                w,
            )?;
        }
        Ok(())
    }
    match h {
        0 => with::<P, RandomState>(keys, w),
        1 => with::<P, BuildHasherDefault<DefaultHasher>>(keys, w),
        2 => with::<P, Constant>(keys, w),
        _ => with::<P, Seeded>(keys, w),
    }
}

fn builders(keys: u32, len: u32) -> Box<dyn Suite> {
    const B: [&str; 4] = ["RandomState", "DefaultHasher", "one hash for all", "a seed of its own each"];
    Box::new(Cases {
        name: "hash builders".into(),
        bound: format!("{B:?}; every word of up to {len} insertions and removals (in place and persistent) over {keys} keys, on maps and sets made by default(), by the constructor taking a builder, and with degrees 2 and 16; pointer kinds {KINDS:?}"),
        generate: Box::new(move |visit| {
            let a = keys as u64 * 4;
            for n in 0..=len {
                for mut x in 0..a.pow(n) {
                    let mut w = vec![0];
                    for _ in 0..n {
                        w.push((x % a) as u32);
                        x /= a;
                    }
                    for h in 0..4 {
                        w[0] = h;
                        if !visit(&w) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            by_builder::<McK>(c[0], keys, &c[1..])?;
            by_builder::<RcK>(c[0], keys, &c[1..])?;
            by_builder::<ArcK>(c[0], keys, &c[1..])?;
            by_builder::<ArcTK>(c[0], keys, &c[1..])?;
            let mut s = seen(c, c.len() > 1, 16, 7);
            s.extra.truncate(0);
            s.extra.push(("executions", 16));
            Ok(s)
        }),
        show: Box::new(move |c| {
            let w = c[1..].iter().map(|x| format!("{}{}({})", if x / keys % 2 == 1 { "remove" } else { "insert" }, if x / keys / 2 == 1 { "" } else { "_mut" }, x % keys));
            format!("{}: {}", B[c[0] as usize], w.collect::<Vec<_>>().join(", "))
        }),
    })
}

/// The remaining constructors, for every degree.
fn constructors(len: u32) -> Box<dyn Suite> {
    const C: [&str; 4] = ["HashTrieMap::new_with_degree", "HashTrieMap::new_sync_with_degree", "HashTrieSet::new_with_degree", "HashTrieSet::new_with_degree_sync"];
    Box::new(Cases {
        name: "the other constructors with a degree".into(),
        bound: format!("{C:?}, all 256 degrees; every word of up to {len} insertions and removals over 3 keys"),
        generate: Box::new(move |visit| {
            for c in 0..4 {
                for d in 0..256 {
                    if !visit(&[c, d]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let d = c[1] as u8;
            let refused = match c[0] {
                0 => panics(|| drop(HashTrieMap::<u32, u32>::new_with_degree(d))),
                1 => panics(|| drop(HashTrieMapSync::<u32, u32>::new_sync_with_degree(d))),
                2 => panics(|| drop(HashTrieSet::<u32>::new_with_degree(d))),
                _ => panics(|| drop(HashTrieSetSync::<u32>::new_with_degree_sync(d))),
            };
            let mut n = 0;
            if !refused {
                for l in 0..=len {
                    for mut x in 0..12u64.pow(l) {
                        let w: Vec<u32> = (0..l).map(|_| { let y = x % 12; x /= 12; y as u32 }).collect();
                        let r = match c[0] {
                            0 => builder_word(HashTrieMap::<u32, u32>::new_with_degree(d), Default::default(), 3, &w),
                            1 => builder_word(HashTrieMapSync::<u32, u32>::new_sync_with_degree(d), Default::default(), 3, &w),
                            2 => builder_word(Default::default(), HashTrieSet::<u32>::new_with_degree(d), 3, &w),
                            _ => builder_word(Default::default(), HashTrieSetSync::<u32>::new_with_degree_sync(d), 3, &w),
                        };
                        r.map_err(|e| format!("{e} (word {w:?})"))?;
                        n += 1;
                    }
                }
            }
            Ok(seen(c, !refused, n, 8))
        }),
        show: Box::new(|c| format!("{}({})", C[c[0] as usize], c[1])),
    })
}

/// The constructors without a configuration.
fn plain_constructors(t: Tier) -> Box<dyn Suite> {
    const N: [&str; 7] = ["List", "Stack", "Queue", "Vector", "RedBlackTreeMap", "RedBlackTreeSet", "HashTrieMap and HashTrieSet"];
    const C: [&str; 7] = ["new()", "new_sync()", "default() over RcK", "default() over ArcTK", "new_with_ptr_kind() over ArcK", "default() over McK", "collecting nothing"];
    let (len, big) = (pick(t, 4, 6), pick(t, 1100, 5000));
    Box::new(Cases {
        name: "the constructors without a configuration".into(),
        bound: format!("{N:?}; {C:?}; every word of up to {len} operations, and growing to {big} elements and shrinking again"),
        generate: Box::new(|visit| {
            for n in 0..7 {
                for c in 0..7 {
                    if !visit(&[n, c]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (mut p, mut n) = (0, 0);
            let at: Vec<usize> = [1, 2, 3, 31, 32, 33, 64, 65, 1023, 1024, 1025, 1056, 1057, big].into_iter().collect();
            macro_rules! go {
                ($f:expr, $t:ident, $len:expr, $grow:expr, $shrink:expr) => {{
                    let f = $f;
                    macro_rules! on {
                        ($mk:expr) => {{
                            words_from(&f, &$mk, &mut vec![], $len, &mut p, &mut n)?;
                            n += growth_from(&f, $mk(), big, &at, $grow, $shrink, &mut p)?;
                        }};
                    }
                    match c[1] {
                        0 => on!(|| $t::new()),
                        1 => on!(|| $t::new_sync()),
                        2 => on!(|| <$t<_, RcK>>::default()),
                        3 => on!(|| <$t<_, ArcTK>>::default()),
                        4 => on!(|| <$t<_, ArcK>>::new_with_ptr_kind()),
                        5 => on!(|| <$t<_, McK>>::default()),
                        _ => on!(|| std::iter::empty().collect::<$t<_, RcK>>()),
                    }
                }};
            }
            let far = 1 << 20;
            match c[0] {
                0 => go!(ListF { max: far }, List, len + 1, |_| PUSH, |_| POP),
                1 => go!(StackF { max: far }, Stack, len + 1, |_| PUSH, |_| POP),
                2 => go!(QueueF { max: far }, Queue, len + 1, |_| PUSH, |_| POP),
                3 => go!(VectorF { bits: 5, max: far, indices: vec![] }, Vector, len, |_| PUSH, |_| POP),
                4 => {
                    let f = RbmF { max: far, getm: true, replace: true };
                    macro_rules! on {
                        ($mk:expr) => {{
                            words_from(&f, &$mk, &mut vec![], len, &mut p, &mut n)?;
                            n += growth_from(&f, $mk(), 40, &at, |i| INS + i as u16, |_| REM, &mut p)?;
                        }};
                    }
                    match c[1] {
                        0 => on!(|| RedBlackTreeMap::new()),
                        1 => on!(|| RedBlackTreeMap::new_sync()),
                        2 => on!(|| <RedBlackTreeMap<Key, Tok, RcK>>::default()),
                        3 => on!(|| <RedBlackTreeMap<Key, Tok, ArcTK>>::default()),
                        4 => on!(|| <RedBlackTreeMap<Key, Tok, ArcK>>::new_with_ptr_kind()),
                        5 => on!(|| <RedBlackTreeMap<Key, Tok, McK>>::default()),
                        _ => on!(|| std::iter::empty().collect::<RedBlackTreeMap<Key, Tok, RcK>>()),
                    }
                }
                5 => {
                    let f = RbsF { max: far, replace: true };
                    macro_rules! on {
                        ($mk:expr) => {{
                            words_from(&f, &$mk, &mut vec![], len, &mut p, &mut n)?;
                            n += growth_from(&f, $mk(), 40, &at, |i| INS + i as u16, |_| REM, &mut p)?;
                        }};
                    }
                    match c[1] {
                        0 => on!(|| RedBlackTreeSet::new()),
                        1 => on!(|| RedBlackTreeSet::new_sync()),
                        2 => on!(|| <RedBlackTreeSet<Key, RcK>>::default()),
                        3 => on!(|| <RedBlackTreeSet<Key, ArcTK>>::default()),
                        4 => on!(|| <RedBlackTreeSet<Key, ArcK>>::new_with_ptr_kind()),
                        5 => on!(|| <RedBlackTreeSet<Key, McK>>::default()),
                        _ => on!(|| std::iter::empty().collect::<RedBlackTreeSet<Key, RcK>>()),
                    }
                }
                _ => {
                    for l in 0..=len as u32 {
                        for mut x in 0..12u64.pow(l) {
                            let w: Vec<u32> = (0..l).map(|_| { let y = x % 12; x /= 12; y as u32 }).collect();
                            match c[1] {
                                0 => builder_word(HashTrieMap::new(), HashTrieSet::new(), 3, &w),
                                1 => builder_word(HashTrieMap::new_sync(), HashTrieSet::new_sync(), 3, &w),
                                2 => builder_word(<HashTrieMap<_, _, RcK>>::default(), <HashTrieSet<_, RcK>>::default(), 3, &w),
                                3 => builder_word(<HashTrieMap<_, _, ArcTK>>::default(), <HashTrieSet<_, ArcTK>>::default(), 3, &w),
                                4 => builder_word(<HashTrieMap<_, _, ArcK>>::new_with_hasher_and_ptr_kind(RandomState::default()), <HashTrieSet<_, ArcK>>::new_with_hasher_with_ptr_kind(RandomState::default()), 3, &w),
                                5 => builder_word(<HashTrieMap<_, _, McK>>::default(), <HashTrieSet<_, McK>>::default(), 3, &w),
                                _ => builder_word(std::iter::empty().collect::<HashTrieMap<_, _, RcK>>(), std::iter::empty().collect::<HashTrieSet<_, RcK>>(), 3, &w),
                            }
                            .map_err(|e| format!("{e} (word {w:?})"))?;
                            n += 1;
                        }
                    }
                }
            }
            Ok(seen(c, true, n, 10))
        }),
        show: Box::new(|c| format!("{} by {}", N[c[0] as usize], C[c[1] as usize])),
    })
}

/// Structures without a configuration: all pointer kinds show the same.
fn kinds(t: Tier) -> Vec<Box<dyn Suite>> {
    fn one<F: Fam>(f: F, depth: usize) -> Box<dyn Suite> {
        let f = Arc::new(f);
        let g = f.clone();
        Box::new(Cases {
            name: format!("{}, every pointer kind", f.name()),
            bound: format!("every word of up to {depth} operations (in place and persistent), observed after each; pointer kinds {KINDS:?} compared with each other"),
            generate: Box::new(move |visit| {
                // One case for each first operation.
                for first in 0..menu(&*g, &[]).len() as u32 {
                    if !visit(&[first]) {
                        return;
                    }
                }
            }),
            run: Box::new(move |c| {
                let first = menu(&*f, &[])[c[0] as usize];
                let mut n = 0;
                on_every_kind(|k, p| {
                    let mut w = vec![first];
                    match k {
                        0 => words::<F, McK>(&f, &mut w, depth, p, &mut n),
                        1 => words::<F, RcK>(&f, &mut w, depth, p, &mut n),
                        2 => words::<F, ArcK>(&f, &mut w, depth, p, &mut n),
                        _ => words::<F, ArcTK>(&f, &mut w, depth, p, &mut n),
                    }
                })?;
                let mut s = seen(c, true, n, 9);
                s.extra = vec![("executions", n)];
                Ok(s)
            }),
            show: Box::new(|c| format!("words starting with operation {}", c[0])),
        })
    }
    vec![
        one(ListF { max: 9 }, pick(t, 6, 8)),
        one(StackF { max: 9 }, pick(t, 7, 9)),
        one(QueueF { max: 9 }, pick(t, 7, 9)),
        one(RbmF { max: 6, getm: true, replace: true }, pick(t, 4, 5)),
        one(RbsF { max: 6, replace: true }, pick(t, 4, 5)),
    ]
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let mut v = vec![
        vector_words(pick(t, 4, 5)),
        vector_growth(pick(t, 2500, 70_000), pick(t, 300, 2500)),
        hash_words(false, pick(t, 4, 5)),
        hash_words(true, pick(t, 4, 6)),
        hash_growth(false, pick(t, 150, 900)),
        hash_growth(true, pick(t, 150, 900)),
        constructors(pick(t, 3, 4)),
        plain_constructors(t),
        builders(3, pick(t, 4, 5)),
    ];
    v.extend(kinds(t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C20",
        level: "exploration",
        rule: "evaluations: one configuration (bit count, degree with a way of hashing, constructor, hash builder with a word, or pointer kind with a first operation); executions: words of operations run from an empty structure of that configuration, each judged against the reference model after its last operation. A configuration either is refused by a panic of the constructor or has to pass all of them, with the same results on every pointer kind. Non-trivial: the configuration is accepted (and the word not empty); distinct by configuration",
        assumptions: &["the reference model of each structure is that of C02 to C06", "usize has 64 bits", "hash builders hash equal keys equally, as BuildHasher demands"],
        suites,
    })
}
