use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use mc_core::universe;
use rpds::RedBlackTreeMap;
use std::sync::Arc;

/// May a lookup among `n` entries make `c` comparisons? c <= 2 log2(n+1)
fn fits(c: u64, n: usize) -> bool {
    (n as u128 + 1).pow(2) >= 1u128 << c.min(100)
}

fn lookup(what: &str, k: u32, n: usize, present: bool, f: impl FnOnce() -> bool) -> R {
    let b = universe::counters();
    let found = f();
    let c = universe::counters().since(&b);
    // Tests for equality are comparisons too.
    let c = c.cmp + c.eq;
    if found != present {
        return Err(format!("{what}({k}) finds {found}, expected {present}"));
    }
    if !fits(c, n) {
        return Err(format!("{what}({k}) among {n} entries takes {c} comparisons, at most {} are allowed", (2.0 * (n as f64 + 1.0).log2()).floor()));
    }
    Ok(())
}

/// Every way of finding one key.
trait Find: Fam {
    fn find<P: PK>(&self, s: &Self::S<P>, k: u32, n: usize, present: bool) -> R;
}
impl Find for RbmF {
    fn find<P: PK>(&self, s: &Self::S<P>, k: u32, n: usize, present: bool) -> R {
        let p = Key::new(k);
        lookup("get", k, n, present, || s.get(&p).is_some())?;
        lookup("get_key_value", k, n, present, || s.get_key_value(&p).is_some())?;
        lookup("contains_key", k, n, present, || s.contains_key(&p))?;
        if present {
            lookup("index", k, n, true, || {
                let _ = &s[&p];
                true
            })?;
        }
        Ok(())
    }
}
impl Find for RbsF {
    fn find<P: PK>(&self, s: &Self::S<P>, k: u32, n: usize, present: bool) -> R {
        let p = Key::new(k);
        lookup("get", k, n, present, || s.get(&p).is_some())?;
        lookup("contains", k, n, present, || s.contains(&p))
    }
}

fn find_all<F: Find>(fam: &F, s: &F::S<McK>, m: &[Item]) -> R<u64> {
    for i in m {
        fam.find(s, i.0.v, m.len(), true)?;
    }
    for g in 0..=m.len() {
        if let Some(k) = gap_key(m, g) {
            fam.find(s, k, m.len(), false)?;
        }
    }
    Ok(2 * m.len() as u64 + 1)
}

fn counted(nontrivial: bool, key: u64, looked: u64) -> Seen {
    let mut s = Seen::new(nontrivial, key);
    s.extra.push(("states", 1));
    s.extra.push(("transitions", looked));
    s.extra.push(("traces_validated_against_impl", 1));
    s
}

fn shapes<F: Find>(fam: F, depth: usize) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let (f1, f2, f3) = (fam.clone(), fam.clone(), fam);
    let sh = Shapes::new();
    Box::new(Cases {
        name: format!("every shape of {}", f1.name()),
        bound: format!("every tree shape within {depth} insertions, replacements, removals and failed removals, in place, as persistent histories, and both with further clones of every version alive; every key and gap"),
        generate: Box::new(move |visit| {
            for h in sh.get(|| reach(&*f1, depth, &|_| true)) {
                for pers in 0..4 {
                    if !visit(&pack(h, &[pers])) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let mut looked = 0;
            if r.first() == Some(&3) {
                // In place, every version shared with two clones that stay.
                let mut f = Fresh(0);
                let (mut s, mut m) = (f2.empty::<McK>(), vec![]);
                let mut kept = vec![];
                for op in &h {
                    kept.push((s.clone(), s.clone()));
                    f2.mutate(&mut s, &mut m, *op, &mut f)?;
                }
                looked += find_all(&*f2, &s, &m)?;
            } else if r.first().is_some_and(|r| *r > 0) {
                let clones = if r.first() == Some(&2) { 2 } else { 0 };
                // All intermediate versions stay alive, and all of them keep the bound.
                let mut f = Fresh(0);
                let mut vers = vec![(f2.empty::<McK>(), vec![])];
                let mut kept = vec![];
                for op in &h {
                    let (s, m) = vers.last().unwrap();
                    let mut m = m.clone();
                    kept.extend((0..clones).map(|_| s.clone()));
                    if let Some(t) = f2.pers(s, &mut m, *op, &mut f)? {
                        vers.push((t, m));
                    }
                }
                for (s, m) in &vers {
                    looked += find_all(&*f2, s, m)?;
                }
            } else {
                let (s, m) = rebuild::<F, McK>(&f2, &h)?;
                looked += find_all(&*f2, &s, &m)?;
                // one more operation of any kind, then look again
                if !r.is_empty() {
                    let mut ops = vec![];
                    f2.ops(&m, &mut ops);
                    let mut f = Fresh(5000);
                    for op in ops {
                        let (mut s, mut m) = (s.clone(), m.clone());
                        f2.mutate(&mut s, &mut m, op, &mut f)?;
                        looked += find_all(&*f2, &s, &m).map_err(|e| format!("after {} on a clone: {e}", f2.show(op)))?;
                    }
                }
            }
            Ok(counted(!h.is_empty(), h.iter().fold(mix(9, h.len() as u64), |k, o| mix(k, *o as u64)), looked))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}{}", show_hist(&*f3, &h), ["", ", persistent", ", persistent, three handles on every version", ", in place, two clones of every version kept"][*r.first().unwrap_or(&0) as usize])
        }),
    })
}

const ORDERS: [&str; 7] = ["ascending", "descending", "from both ends", "from the middle", "even then odd", "bit-reversed", "scattered"];

fn order(o: u32, n: u32) -> Vec<u32> {
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        3 => {
            let v = order(2, n);
            v.into_iter().rev().collect()
        }
        4 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        5 => {
            let b = 32 - n.leading_zeros();
            (0..1u32 << b).map(|i| i.reverse_bits() >> (32 - b)).filter(|i| *i < n).collect()
        }
        _ => {
            // a permutation by a multiplier coprime to a prime >= n
            let p = (n..).find(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).unwrap().max(2);
            (0..p).map(|i| (i as u64 * 617 % p as u64) as u32).filter(|i| *i < n).collect()
        }
    }
}

/// Insert in one order, remove in another (all of it, with the bound judged along the way),
/// refill in a third, with failed removals, replacements and removals in between.
fn orders(sizes: Vec<u32>) -> Box<dyn Suite> {
    let s2 = sizes.clone();
    Box::new(Cases {
        name: "long histories of RedBlackTreeMap".into(),
        bound: format!("{sizes:?} keys, every combination of {} insertion, removal and refill orders, with and without interleaved removals", ORDERS.len()),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for a in 0..7 {
                    for b in 0..7 {
                        for mode in 0..6 {
                            if !visit(&[*n, a, b, mode]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (n, mode) = (c[0], c[3]);
            let mut t: RedBlackTreeMap<Key, u32, McK> = RedBlackTreeMap::new_with_ptr_kind();
            let mut kept = vec![];
            let mut present = vec![false; n as usize];
            let mut size = 0usize;
            let mut looked = 0;
            let fam = RbmF { max: 0, getm: false, replace: false };
            let _ = fam;
            let mut steps = 0u32;
            let every = (n / 12).max(1);
            let look = |t: &RedBlackTreeMap<Key, u32, McK>, present: &[bool], size: usize| -> R<u64> {
                if t.size() != size {
                    return Err(format!("size is {}, expected {size}", t.size()));
                }
                for k in 0..n {
                    let p = Key::new(2 * k);
                    lookup("get", 2 * k, size, present[k as usize], || t.get(&p).is_some())?;
                }
                for k in (0..=n).step_by(1 + n as usize / 64) {
                    let p = Key::new((2 * k).wrapping_sub(1));
                    lookup("get", 2 * k, size, false, || t.get(&p).is_some())?;
                }
                Ok(n as u64 + 65)
            };
            let mut put = |t: &mut RedBlackTreeMap<Key, u32, McK>, present: &mut Vec<bool>, size: &mut usize, k: u32, on: bool| -> R {
                steps += 1;
                if mode >= 4 {
                    kept.push((t.clone(), t.clone()));
                }
                if on {
                    if mode & 1 == 1 { t.insert_mut(Key::new(2 * k), k) } else { *t = t.insert(Key::new(2 * k), k) }
                    *size += !present[k as usize] as usize;
                } else {
                    let p = Key::new(2 * k);
                    if mode & 1 == 1 {
                        t.remove_mut(&p);
                    } else {
                        *t = t.remove(&p);
                    }
                    *size -= present[k as usize] as usize;
                }
                present[k as usize] = on;
                if steps % every == 0 {
                    looked += look(t, present, *size)?;
                }
                Ok(())
            };
            let interleave = mode == 2 || mode == 3;
            let (ins, rem) = (order(c[1], n), order(c[2], n));
            for (i, k) in ins.iter().enumerate() {
                put(&mut t, &mut present, &mut size, *k, true)?;
                if interleave && i % 3 == 2 {
                    put(&mut t, &mut present, &mut size, rem[i / 3], false)?;
                }
            }
            for (i, k) in rem.iter().enumerate() {
                put(&mut t, &mut present, &mut size, *k, false)?;
                if interleave && i % 2 == 1 {
                    put(&mut t, &mut present, &mut size, ins[i / 2], true)?;
                }
                if i as u32 > n * 3 / 4 && interleave {
                    break;
                }
            }
            for k in ins.iter().rev() {
                put(&mut t, &mut present, &mut size, *k, true)?;
            }
            looked += look(&t, &present, size)?;
            Ok(counted(true, c.iter().fold(4, |k, x| mix(k, *x as u64)), looked))
        }),
        show: Box::new(move |c| {
            let _ = &s2;
            format!("{} keys inserted {}, removed {}, inserted again backwards{}{}", c[0], ORDERS[c[1] as usize], ORDERS[c[2] as usize], ["", ", interleaved", ", every version kept three times"][c[3] as usize / 2], if c[3] & 1 == 1 { ", in place" } else { ", persistent" })
        }),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    vec![
        shapes(RbmF { max: if q { 13 } else { 17 }, getm: false, replace: true }, 60),
        shapes(RbsF { max: if q { 12 } else { 16 }, replace: true }, 60),
        orders(if q { vec![5, 15, 16, 31, 64, 200] } else { vec![3, 5, 7, 9, 15, 16, 31, 33, 63, 64, 127, 200, 500, 1000, 3000] }),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C13",
        level: "model_checking",
        rule: "states: tree shapes reached by every history up to the bound (deduplicated up to isomorphism), and trees along long structured histories; transitions: lookups of every key and every gap, whose key comparisons are counted and compared with 2*log2(n+1); a case (evaluation) is one shape with everything one more operation makes of it, or one long history",
        assumptions: &["the tree's only access to keys is their Ord (what is counted)"],
        suites,
    })
}
