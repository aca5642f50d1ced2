//! Building from iterators, extending and the macros, against adding the items one at a time.
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use rpds::*;
use std::cell::Cell;

thread_local! {
    static EVALS: Cell<u32> = const { Cell::new(0) };
}

/// An argument: counted.
fn e<T>(x: T) -> T {
    EVALS.with(|c| c.set(c.get() + 1));
    x
}

fn same<T: std::fmt::Debug + PartialEq>(what: &str, got: T, want: T) -> R {
    if got != want {
        return Err(format!("{what} gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

macro_rules! arity {
    ($v:ident, $m:ident) => {
        match $v {
            [] => $m![],
            [a] => $m![e(*a)],
            [a, b] => $m![e(*a), e(*b)],
            [a, b, c] => $m![e(*a), e(*b), e(*c)],
            [a, b, c, d] => $m![e(*a), e(*b), e(*c), e(*d)],
            [a, b, c, d, f] => $m![e(*a), e(*b), e(*c), e(*d), e(*f)],
            _ => unreachable!(),
        }
    };
}
macro_rules! arity_map {
    ($v:ident, $m:ident) => {
        match $v {
            [] => $m! {},
            [a] => $m! {e(*a) => e(100)},
            [a, b] => $m! {e(*a) => e(100), e(*b) => e(101)},
            [a, b, c] => $m! {e(*a) => e(100), e(*b) => e(101), e(*c) => e(102)},
            [a, b, c, d] => $m! {e(*a) => e(100), e(*b) => e(101), e(*c) => e(102), e(*d) => e(103)},
            [a, b, c, d, f] => $m! {e(*a) => e(100), e(*b) => e(101), e(*c) => e(102), e(*d) => e(103), e(*f) => e(104)},
            _ => unreachable!(),
        }
    };
}

const MACROS: [&str; 16] = [
    "list", "list_sync", "stack", "stack_sync", "queue", "queue_sync", "vector", "vector_sync", "ht_map", "ht_map_sync", "ht_set", "ht_set_sync", "rbt_map",
    "rbt_map_sync", "rbt_set", "rbt_set_sync",
];

fn run_macro(which: u32, v: &[u32]) -> R {
    let rev: Vec<u32> = v.iter().rev().copied().collect();
    let mut sorted = std::collections::BTreeMap::new();
    for (i, k) in v.iter().enumerate() {
        sorted.insert(*k, 100 + i as u32);
    }
    let keys: Vec<u32> = sorted.keys().copied().collect();
    let pairs: Vec<(u32, u32)> = sorted.iter().map(|(a, b)| (*a, *b)).collect();
    let name = MACROS[which as usize];
    EVALS.with(|c| c.set(0));
    macro_rules! seq_case {
        ($m:ident, $t:ty, $want:expr, $check:expr) => {{
            let s: $t = arity!(v, $m);
            same(name, s.iter().copied().collect::<Vec<u32>>(), $want)?;
            let f: fn(&$t, &[u32]) -> R = $check;
            f(&s, v)?;
        }};
    }
    match which {
        0 => seq_case!(list, List<u32>, v.to_vec(), |s, v| same("list![..].last()", s.last(), v.last())),
        1 => seq_case!(list_sync, ListSync<u32>, v.to_vec(), |s, v| same("list_sync![..].last()", s.last(), v.last())),
        2 => seq_case!(stack, Stack<u32>, rev.clone(), |s, v| same("stack![..].size()", s.size(), v.len())),
        3 => seq_case!(stack_sync, StackSync<u32>, rev.clone(), |s, v| same("stack_sync![..].size()", s.size(), v.len())),
        4 => seq_case!(queue, Queue<u32>, v.to_vec(), |s, v| same("queue![..].len()", s.len(), v.len())),
        5 => seq_case!(queue_sync, QueueSync<u32>, v.to_vec(), |s, v| same("queue_sync![..].len()", s.len(), v.len())),
        6 => seq_case!(vector, Vector<u32>, v.to_vec(), |s, v| same("vector![..].get()", (0..v.len()).map(|i| s.get(i)).collect::<Vec<_>>(), v.iter().map(Some).collect())),
        7 => seq_case!(vector_sync, VectorSync<u32>, v.to_vec(), |s, v| same("vector_sync![..].get()", (0..v.len()).map(|i| s.get(i)).collect::<Vec<_>>(), v.iter().map(Some).collect())),
        8 => {
            let s: HashTrieMap<u32, u32> = arity_map!(v, ht_map);
            let mut g: Vec<(u32, u32)> = s.iter().map(|(a, b)| (*a, *b)).collect();
            g.sort();
            same(name, g, pairs.clone())?;
            same("size()", s.size(), pairs.len())?;
            same("get()", (0..6).map(|k| s.get(&k)).collect::<Vec<_>>(), (0..6).map(|k| sorted.get(&k)).collect())?;
        }
        9 => {
            let s: HashTrieMapSync<u32, u32> = arity_map!(v, ht_map_sync);
            let mut g: Vec<(u32, u32)> = s.iter().map(|(a, b)| (*a, *b)).collect();
            g.sort();
            same(name, g, pairs.clone())?;
            same("size()", s.size(), pairs.len())?;
            same("get()", (0..6).map(|k| s.get(&k)).collect::<Vec<_>>(), (0..6).map(|k| sorted.get(&k)).collect())?;
        }
        10 => {
            let s: HashTrieSet<u32> = arity!(v, ht_set);
            let mut g: Vec<u32> = s.iter().copied().collect();
            g.sort();
            same(name, g, keys.clone())?;
            same("size()", s.size(), keys.len())?;
        }
        11 => {
            let s: HashTrieSetSync<u32> = arity!(v, ht_set_sync);
            let mut g: Vec<u32> = s.iter().copied().collect();
            g.sort();
            same(name, g, keys.clone())?;
            same("size()", s.size(), keys.len())?;
        }
        12 => {
            let s: RedBlackTreeMap<u32, u32> = arity_map!(v, rbt_map);
            same(name, s.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), pairs.clone())?;
            same("size()", s.size(), pairs.len())?;
        }
        13 => {
            let s: RedBlackTreeMapSync<u32, u32> = arity_map!(v, rbt_map_sync);
            same(name, s.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), pairs.clone())?;
            same("size()", s.size(), pairs.len())?;
        }
        14 => seq_case!(rbt_set, RedBlackTreeSet<u32>, keys.clone(), |_, _| Ok(())),
        _ => seq_case!(rbt_set_sync, RedBlackTreeSetSync<u32>, keys.clone(), |_, _| Ok(())),
    }
    let n = EVALS.with(|c| c.get());
    same("the number of arguments evaluated", n, v.len() as u32 * if matches!(which, 8 | 9 | 12 | 13) { 2 } else { 1 })
}

fn macros(alphabet: u32) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "macros".into(),
        bound: format!("all 16 macros, 0 to 5 arguments, every combination of {alphabet} values"),
        generate: Box::new(move |visit| {
            every_sequence(alphabet, 5, &mut |v| (0..MACROS.len() as u32).all(|m| visit(&[&[m], v].concat())));
        }),
        run: Box::new(|c| {
            run_macro(c[0], &c[1..])?;
            Ok(Seen::new(c.len() > 1, c.iter().fold(7, |h, x| mix(h, *x as u64))))
        }),
        show: Box::new(|c| format!("{}![{:?}]", MACROS[c[0] as usize], &c[1..])),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let l = pick(t, 5, 6);
    let tables: Vec<Vec<u64>> = vec![vec![0, 0, 0, 0], vec![0, 64, 0, 1], vec![0, 1 << 60, 1, 64]];
    let mut v = vec![
        collecting(ListF { max: 99 }, None, 1, pick(t, 20, 60)),
        collecting(StackF { max: 99 }, None, 1, pick(t, 20, 60)),
        collecting(QueueF { max: 99 }, None, 1, pick(t, 20, 60)),
        collecting(VectorF { bits: 5, max: 99, indices: vec![] }, None, 1, pick(t, 35, 70)),
        long(ListF { max: 0 }, None, vec![1000, 2500]),
        long(StackF { max: 0 }, None, vec![1000]),
        long(QueueF { max: 0 }, None, vec![1000]),
        long(VectorF { bits: 5, max: 9999, indices: vec![0, 31, 32, 33, 63, 1023, 1024, 1056] }, None, pick(t, vec![33, 64, 1024, 1025, 1057], vec![33, 63, 64, 65, 1023, 1024, 1025, 1055, 1056, 1057, 1058, 2100])),
        extending(VectorF { bits: 1, max: pick(t, 9, 12), indices: vec![0] }, 14, pick(t, 9, 12)),
        extending(VectorF { bits: 2, max: pick(t, 8, 20), indices: vec![0] }, 22, pick(t, 9, 20)),
        extending(VectorF { bits: 5, max: pick(t, 35, 70), indices: vec![0] }, 72, pick(t, 3, 40)),
        collecting(RbmF { max: 99, getm: true, replace: true }, None, 4, l),
        collecting(RbsF { max: 99, replace: true }, None, 4, l),
        long(RbmF { max: 99, getm: false, replace: true }, None, vec![15, 60]),
        long(RbsF { max: 99, replace: true }, None, vec![15, 60, 300]),
        long(HtmF::new(64, &(0..100u64).map(|i| i % 13).collect::<Vec<_>>(), 200), Some((0..100u64).map(|i| i % 13).collect()), vec![30, 99]),
        long(HtsF::new(64, &(0..100u64).map(|i| i % 70).collect::<Vec<_>>(), 200), Some((0..100u64).map(|i| i % 70).collect()), vec![30, 99]),
        macros(pick(t, 3, 5)),
        big(Part::Bulk, EVERY, t),
    ];
    for tb in tables {
        v.push(collecting(HtmF::new(64, &tb, 9), Some(tb.clone()), 3, l));
        v.push(collecting(HtsF::new(64, &tb, 9), Some(tb), 3, l));
    }
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C18",
        level: "exploration",
        rule: "evaluations: one source (sequence of items and way of declaring its size) collected into a structure or used to extend one, or one macro call; the result is compared with the model of adding the items one at a time (contents, order, size, every read, equality with the structure built by hand, and every operation applied to it afterwards). Non-trivial: the source is not empty; distinct by items, size hint and what was extended",
        assumptions: &["size hints are valid: the lower bound is not above, the upper bound not below the number of items left"],
        suites,
    })
}
