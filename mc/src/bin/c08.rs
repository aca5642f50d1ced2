use archery::{ArcK, ArcTK, RcK};
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use std::collections::BTreeSet;
use std::sync::Arc;

type M = Vec<(u32, u32)>;

/// A pair of kinds of sets that can be compared with one another.
trait Rel: Conc {
    /// is_subset, is_superset, is_disjoint, equality
    fn rel<P: PK>(a: &Self::S<P>, b: &Self::S<P>) -> [bool; 4];
    /// The same over different pointer kinds, where the API has it.
    fn rel2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [Option<bool>; 4];
}
impl Rel for CHts {
    fn rel<P: PK>(a: &Self::S<P>, b: &Self::S<P>) -> [bool; 4] {
        [a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a == b]
    }
    fn rel2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [Option<bool>; 4] {
        [None, None, None, Some(a == b)]
    }
}
impl Rel for CRbs {
    fn rel<P: PK>(a: &Self::S<P>, b: &Self::S<P>) -> [bool; 4] {
        [a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a == b]
    }
    fn rel2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [Option<bool>; 4] {
        [Some(a.is_subset(b)), Some(a.is_superset(b)), Some(a.is_disjoint(b)), Some(a == b)]
    }
}

const NAMES: [&str; 4] = ["is_subset", "is_superset", "is_disjoint", "=="];

fn spec(a: &M, b: &M) -> [bool; 4] {
    let (a, b): (BTreeSet<u32>, BTreeSet<u32>) = (a.iter().map(|e| e.0).collect(), b.iter().map(|e| e.0).collect());
    [a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b), a == b]
}

fn judge(got: &[Option<bool>; 4], ma: &M, mb: &M, what: impl Fn() -> String) -> R {
    let want = spec(ma, mb);
    for i in 0..4 {
        if got[i].is_some_and(|g| g != want[i]) {
            return Err(format!("{} gives {}, expected {}; the sets are {:?} and {:?}; {}", NAMES[i], got[i].unwrap(), want[i], ma.iter().map(|e| e.0).collect::<Vec<_>>(), mb.iter().map(|e| e.0).collect::<Vec<_>>(), what()));
        }
    }
    Ok(())
}

fn some(r: [bool; 4]) -> [Option<bool>; 4] {
    r.map(Some)
}

const MODES: [&str; 4] = ["independent versions", "versions over different pointer kinds", "versions derived from a clone", "an independent version over ArcTK"];

fn one<A: Rel>(a: &A, b: &A, ha: &[u16], mode: u32, hbs: &[Vec<u16>], steps: usize) -> R<(u64, u64)> {
    let mut n = 0u64;
    match mode {
        0 => {
            let (sa, ma) = conc_build::<A, McK>(a, ha);
            for hb in hbs {
                let (sb, mb) = conc_build::<A, McK>(b, hb);
                judge(&some(A::rel(&sa, &sb)), &ma, &mb, || format!("other: {}", conc_show(b, hb)))?;
                n += 4;
            }
        }
        1 => {
            let (sa, ma) = conc_build::<A, RcK>(a, ha);
            let (ta, _) = conc_build::<A, McK>(a, ha);
            for hb in hbs {
                let (sb, mb) = conc_build::<A, ArcK>(b, hb);
                judge(&A::rel2(&sa, &sb), &ma, &mb, || format!("RcK and ArcK, other: {}", conc_show(b, hb)))?;
                judge(&A::rel2(&ta, &sb), &ma, &mb, || format!("other: {}", conc_show(b, hb)))?;
                n += 8;
            }
        }
        3 => {
            let (sa, ma) = conc_build::<A, ArcTK>(a, ha);
            for hb in hbs {
                let (sb, mb) = conc_build::<A, ArcTK>(b, hb);
                judge(&some(A::rel(&sa, &sb)), &ma, &mb, || format!("over ArcTK, other: {}", conc_show(b, hb)))?;
                n += 4;
            }
        }
        _ => {
            let (sa, ma) = conc_build::<A, McK>(a, ha);
            // Itself, a clone of it, and everything a few operations away from a clone of it.
            judge(&some(A::rel(&sa, &sa)), &ma, &ma, || "with itself".into())?;
            let mut front = vec![(sa.clone(), ma.clone(), vec![])];
            for d in 0..=steps {
                let mut next = vec![];
                for (s, m, h) in &front {
                    judge(&some(A::rel(&sa, s)), &ma, m, || format!("other: its clone after {}", conc_show(a, h)))?;
                    judge(&some(A::rel(s, &sa)), m, &ma, || format!("its clone after {} against it", conc_show(a, h)))?;
                    n += 8;
                    if d < steps {
                        let mut ops = vec![];
                        a.ops(m, &mut ops);
                        for op in ops {
                            let (mut s, mut m, mut h) = (s.clone(), m.clone(), h.clone());
                            h.push(op);
                            a.apply(&mut s, &mut m, op);
                            next.push((s, m, h));
                        }
                    }
                }
                front = next;
            }
        }
    }
    Ok((n, n / 4))
}

fn suite<A: Rel>(a: A, b: A, depth: usize, modes: Vec<u32>, steps: usize) -> Box<dyn Suite> {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (sa, sb) = (Shapes::new(), Shapes::new());
    let (a1, a2, a3, b2, sb2, b1) = (a.clone(), a.clone(), a.clone(), b.clone(), sb.clone(), b.clone());
    Box::new(Cases {
        name: format!("{} against {}", a.name(), b.name()),
        bound: format!("every state within {depth} operations against every state of the other; {steps} operations away from a clone; modes {modes:?}"),
        generate: Box::new(move |visit| {
            sb.get(|| conc_states(&*b1, depth));
            for h in sa.get(|| conc_states(&*a1, depth)) {
                for m in &modes {
                    if !visit(&pack(h, &[*m])) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let Some(mode) = r.first() else {
                conc_build::<A, McK>(&a2, &h);
                return Ok(Seen::new(false, 0));
            };
            let hbs = sb2.get(|| conc_states(&*b2, depth));
            let (n, pairs) = one(&*a2, &*b2, &h, *mode, hbs, steps)?;
            let mut s = Seen::new(!h.is_empty(), h.iter().fold(mix(3, *mode as u64), |k, o| mix(k, *o as u64)));
            s.extra.push(("states", pairs));
            s.extra.push(("transitions", n));
            s.extra.push(("traces_validated_against_impl", pairs));
            Ok(s)
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}, {}", conc_show(&*a3, &h), r.first().map(|m| MODES[*m as usize]).unwrap_or("by itself"))
        }),
    })
}

/// Hash sets whose hash builders are of different types.
fn foreign(keys: u32) -> Box<dyn Suite> {
    use rpds::HashTrieSet;
    type D = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
    let sets = 1u32 << keys;
    Box::new(Cases {
        name: "HashTrieSets with hash builders of different types".into(),
        bound: format!("all pairs of subsets of {keys} keys, degrees 2, 16, 64"),
        generate: Box::new(move |visit| {
            for a in 0..sets {
                for b in 0..sets {
                    for d in 0..3 {
                        if !visit(&[a, b, d]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let d = [2u8, 16, 64][c[2] as usize];
            let t = TableHash(Arc::new(vec![0, 1, 0, 64, 0, 1, 2]));
            let mut x: HashTrieSet<Key, McK, TableHash> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(t, d);
            let mut y: HashTrieSet<Key, McK, D> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(D::default(), 64 / d * 2 % 128);
            let (mut mx, mut my) = (vec![], vec![]);
            for k in 0..keys {
                if c[0] >> k & 1 == 1 {
                    x.insert_mut(Key::new(k));
                    mx.push((k, 0));
                }
                if c[1] >> k & 1 == 1 {
                    y.insert_mut(Key::new(k));
                    my.push((k, 0));
                }
            }
            judge(&[Some(x.is_subset(&y)), Some(x.is_superset(&y)), Some(x.is_disjoint(&y)), None], &mx, &my, || String::new())?;
            judge(&[Some(y.is_subset(&x)), Some(y.is_superset(&x)), Some(y.is_disjoint(&x)), None], &my, &mx, || "exchanged".into())?;
            let mut s = Seen::new(c[0] & c[1] != 0, mix(c[0] as u64, mix(c[1] as u64, d as u64)));
            s.extra.push(("states", 1));
            s.extra.push(("transitions", 6));
            s.extra.push(("traces_validated_against_impl", 1));
            Ok(s)
        }),
        show: Box::new(|c| format!("sets {:b} and {:b}, degree {}", c[0], c[1], [2, 16, 64][c[2] as usize])),
    })
}

/// Larger sets: unions of runs of keys, so that the merges run long.
fn large(n: u32) -> Box<dyn Suite> {
    // Pieces of the key range: present in the left, right, both or neither; sizes vary.
    let pieces = 5u32;
    let total = 4u32.pow(pieces);
    Box::new(Cases {
        name: format!("sets of up to {n} elements"),
        bound: format!("all assignments of {pieces} interleaved or adjacent key ranges to left, right, both or neither; both kinds of sets"),
        generate: Box::new(move |visit| {
            for a in 0..total {
                for lay in 0..2 {
                    if !visit(&[a, lay]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let piece = |k: u32| if c[1] == 0 { k * pieces / n } else { k % pieces };
            let inl = |k: u32| c[0] / 4u32.pow(piece(k)) & 1 == 1;
            let inr = |k: u32| c[0] / 4u32.pow(piece(k)) & 2 == 2;
            let rb = CRbs { keys: n, values: 1, max: n as usize };
            let (mut x, mut mx) = conc_build::<CRbs, McK>(&rb, &[]);
            let (mut y, mut my) = conc_build::<CRbs, McK>(&rb, &[]);
            let ht: Vec<u64> = (0..n as u64).map(|k| k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56 << 56 | k % 3).collect();
            let (h1, h2) = (CHts::new(16, &ht, n as usize), CHts::new(64, &ht[..3], n as usize));
            let (mut p, mut mp) = conc_build::<CHts, McK>(&h1, &[]);
            let (mut q, mut mq) = conc_build::<CHts, McK>(&h2, &[]);
            for k in 0..n {
                if inl(k) {
                    rb.apply(&mut x, &mut mx, INS + (k * 16) as u16);
                    h1.apply(&mut p, &mut mp, INS + (k * 16) as u16);
                }
                let k = n - 1 - k;
                if inr(k) {
                    rb.apply(&mut y, &mut my, INS + (k * 16) as u16);
                    h2.apply(&mut q, &mut mq, INS + (k * 16) as u16);
                }
            }
            judge(&some(CRbs::rel(&x, &y)), &mx, &my, || "sorted sets".into())?;
            judge(&[Some(p.is_subset(&q)), Some(p.is_superset(&q)), Some(p.is_disjoint(&q)), Some(p == q)], &mp, &mq, || "hash sets".into())?;
            let mut s = Seen::new(true, mix(c[0] as u64, c[1] as u64));
            s.extra.push(("states", 2));
            s.extra.push(("transitions", 8));
            s.extra.push(("traces_validated_against_impl", 2));
            Ok(s)
        }),
        show: Box::new(|c| format!("assignment {} ({})", c[0], if c[1] == 0 { "adjacent ranges" } else { "interleaved ranges" })),
    })
}

const PICKS: [&str; 10] = ["all", "the first half", "the second half", "every second", "every third and the last", "the first", "the last", "none", "a run in the middle", "the ends"];

fn picked(p: u32, i: u32, n: u32) -> bool {
    match p {
        0 => true,
        1 => i < n / 2,
        2 => i >= n / 2,
        3 => i % 2 == 0,
        4 => i % 3 == 0 || i + 1 == n,
        5 => i == 0,
        6 => i + 1 == n,
        7 => false,
        8 => i > n / 3 && i < 2 * n / 3,
        _ => i == 0 || i + 1 == n,
    }
}

/// What an element is replaced by: its neighbours, the first and last gap, the middle (for each
/// removed element, and every gap in small sets).
fn replacements(k: u32, n: u32) -> Vec<u32> {
    if n <= 17 {
        return (0..=n).map(|i| 2 * i).collect();
    }
    let mut v = vec![k - 1, k + 1, 0, 2 * n, n / 2 * 2];
    v.sort();
    v.dedup();
    v
}

/// Larger sets that differ by one element, or by one replaced by another, anywhere, from a set and a subset of it.
fn near(sizes: Vec<u32>) -> Box<dyn Suite> {
    use rpds::{HashTrieSet, RedBlackTreeSet};
    let kinds = 4u32;
    let tables = |kind: u32, n: u32| -> (u8, Vec<u64>, u8, Vec<u64>) {
        let flat: Vec<u64> = (0..2 * n as u64 + 2).map(|k| k.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect();
        let deep: Vec<u64> = (0..2 * n as u64 + 2).map(|k| (k % 8) << 61 | (k / 8) * 64).collect();
        let coll: Vec<u64> = (0..2 * n as u64 + 2).map(|k| k / 3).collect();
        match kind {
            1 => (64, flat.clone(), 64, flat),
            2 => (16, flat, 4, deep),
            _ => (64, coll, 2, deep),
        }
    };
    Box::new(Cases {
        name: "larger sets that differ by one element".into(),
        bound: format!("{sizes:?} elements; {} kinds of subset; every element and every gap toggled in the subset, and in the set; every element of the set replaced by a neighbour, the first, middle and last gap (up to 17 elements: by every gap); sorted sets, hash sets with the same and with other hashes and degrees", PICKS.len()),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for p in 0..PICKS.len() as u32 {
                    for kind in 0..kinds {
                        if !visit(&[*n, p, kind]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (n, p, kind) = (c[0], c[1], c[2]);
            let ka: BTreeSet<u32> = (0..n).filter(|i| picked(p, *i, n)).map(|i| 2 * i + 1).collect();
            let kb: BTreeSet<u32> = (0..n).map(|i| 2 * i + 1).collect();
            let model = |s: &BTreeSet<u32>| -> M { s.iter().map(|k| (*k, 0)).collect() };
            let toggled = |s: &BTreeSet<u32>, k: u32| {
                let mut s = s.clone();
                if !s.remove(&k) {
                    s.insert(k);
                }
                model(&s)
            };
            let mut pairs = 0;
            macro_rules! go {
                ($a:expr, $b:expr) => {{
                    let (mut a, mut b) = ($a, $b);
                    for k in &ka {
                        a.insert_mut(Key::new(*k));
                    }
                    for k in kb.iter().rev() {
                        b.insert_mut(Key::new(*k));
                    }
                    judge(&[Some(a.is_subset(&b)), Some(a.is_superset(&b)), Some(a.is_disjoint(&b)), None], &model(&ka), &model(&kb), || "as built".into())?;
                    for k in 0..=2 * n {
                        let q = Key::new(k);
                        let a2 = if ka.contains(&k) { a.remove(&q) } else { a.insert(Key::new(k)) };
                        judge(&[Some(a2.is_subset(&b)), Some(a2.is_superset(&b)), Some(a2.is_disjoint(&b)), Some(a2 == b)], &toggled(&ka, k), &model(&kb), || format!("{k} toggled in the subset"))?;
                        let b2 = if kb.contains(&k) { b.remove(&q) } else { b.insert(Key::new(k)) };
                        judge(&[Some(a.is_subset(&b2)), Some(a.is_superset(&b2)), Some(a.is_disjoint(&b2)), Some(a == b2)], &model(&ka), &toggled(&kb, k), || format!("{k} toggled in the set"))?;
                        // against the set it comes from, whose parts it shares
                        judge(&[Some(b2.is_subset(&b)), Some(b2.is_superset(&b)), Some(b2.is_disjoint(&b)), Some(b2 == b)], &toggled(&kb, k), &model(&kb), || format!("{k} toggled in the set, against the set"))?;
                        pairs += 3;
                        // one element replaced by another one: as large as the set it comes from
                        if !kb.contains(&k) {
                            continue;
                        }
                        let gone = b.remove(&q);
                        for j in replacements(k, n) {
                            let c2 = gone.insert(Key::new(j));
                            let mut mc = kb.clone();
                            mc.remove(&k);
                            mc.insert(j);
                            let mc = model(&mc);
                            judge(&[Some(c2.is_subset(&b)), Some(c2.is_superset(&b)), Some(c2.is_disjoint(&b)), Some(c2 == b)], &mc, &model(&kb), || format!("{k} replaced by {j}, against the set"))?;
                            judge(&[Some(a.is_subset(&c2)), Some(a.is_superset(&c2)), Some(a.is_disjoint(&c2)), Some(a == c2)], &model(&ka), &mc, || format!("{k} replaced by {j} in the set"))?;
                            pairs += 2;
                        }
                    }
                }};
            }
            if kind == 0 {
                go!(RedBlackTreeSet::<Key, McK>::new_with_ptr_kind(), RedBlackTreeSet::<Key, McK>::new_with_ptr_kind());
            } else {
                let (da, ta, db, tb) = tables(kind, n);
                let new = |d: u8, t: Vec<u64>| HashTrieSet::<Key, McK, TableHash>::new_with_hasher_and_degree_and_ptr_kind(TableHash(Arc::new(t)), d);
                go!(new(da, ta), new(db, tb));
            }
            let mut s = Seen::new(true, mix(n as u64, mix(p as u64, kind as u64)));
            s.extra.push(("states", pairs));
            s.extra.push(("transitions", 4 * pairs));
            s.extra.push(("traces_validated_against_impl", pairs));
            Ok(s)
        }),
        show: Box::new(|c| format!("a set of {} elements and {} of them, {}", c[0], PICKS[c[1] as usize], ["sorted sets", "hash sets, the same hashes", "hash sets, other hashes", "hash sets with collisions, other hashes"][c[2] as usize])),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let k = if q { 8 } else { 9 };
    let rb = || CRbs { keys: k, values: 1, max: k as usize };
    let e = |mut v: Vec<u64>, w: u64| {
        v.push(w);
        if !q {
            v.push(0);
        }
        v
    };
    let h = |d: u8, t: &[u64], w: u64| CHts::new(d, &e(t.to_vec(), w), t.len() + 2);
    vec![
        suite(rb(), rb(), 40, vec![0, 1, 2, 3], 2),
        suite(h(4, &[0, 4, 0, 1, 0], 1), h(16, &[0, 16, 0, 1, 0], 1), 40, vec![0, 2, 3], 2),
        suite(h(4, &[0, 4, 0, 1, 0], 4), h(4, &[0, 4, 0, 1, 0], 4), 40, vec![0, 1, 2], 2),
        suite(h(64, &[0, 0, 0, 1, 1], 1 << 60), h(64, &[0, 1 << 60, 0, 1 << 60, 0], 0), 40, vec![0, 1, 2], 2),
        suite(h(64, &[0, 1, 2, 3, 4], 5), h(2, &[0, 0, 0, 0, 0], 1), 40, vec![0, 1, 2], 2),
        suite(h(2, &[1, 1, 1, 1, 3], 2), h(64, &[0, 1, 2, 3, 4], 5), 40, vec![0, 2], 2),
        suite(h(32, &[0, 32, 0, 32, 1 << 60], 0), h(8, &[0, 8, 0, 8, 1 << 63], 0), 40, vec![0, 2], 1),
        foreign(if q { 6 } else { 7 }),
        large(if q { 60 } else { 250 }),
        big(Part::Relations, &[What::HashSet, What::TreeSet], t),
        near(if q { vec![1, 2, 3, 7, 16, 17, 33, 40, 65, 130] } else { (1..40).chain([63, 64, 65, 100, 127, 128, 129, 200, 257, 500]).collect() }),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C08",
        level: "model_checking",
        rule: "states: ordered pairs of set states (contents and layout, reached by every history up to the bound, deduplicated up to isomorphism of the heap), independent, over other hash builders, degrees and pointer kinds, or derived from one another by cloning; transitions: comparisons made on the real sets and judged against set theory; a case (evaluation) is one left-hand state with all its partners, non-trivial when it is not empty, distinct by history",
        assumptions: &["equality and order of the elements are lawful"],
        suites,
    })
}
