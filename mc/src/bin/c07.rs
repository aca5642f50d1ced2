use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::{Tier, panics};
use std::ops::Bound::{self, *};
use std::ops::RangeBounds;
use std::sync::Arc;

// A bound: 0 = unbounded; 1 + 2*p = included, 2 + 2*p = excluded, position p.
// Position 2r+1 is the key of rank r, position 2g lies in gap g.
fn position(m: &[Item], p: usize) -> u32 {
    if p % 2 == 1 { m[p / 2].0.v } else { gap_key(m, p / 2).expect("no key in a gap") }
}

fn bound(m: &[Item], b: u32) -> Bound<Key> {
    match b {
        0 => Unbounded,
        b if b % 2 == 1 => Included(Key::new(position(m, (b as usize - 1) / 2))),
        b => Excluded(Key::new(position(m, (b as usize - 2) / 2))),
    }
}

fn show_bound(b: u32) -> String {
    match b {
        0 => "unbounded".into(),
        b => {
            let p = (b - 1) / 2;
            format!("{} {} {}", if b % 2 == 1 { "incl" } else { "excl" }, if p % 2 == 1 { "rank" } else { "gap" }, p / 2)
        }
    }
}

fn expected(m: &[Item], lo: &Bound<Key>, hi: &Bound<Key>) -> Vec<(u32, u32)> {
    m.iter()
        .filter(|i| match lo {
            Unbounded => true,
            Included(k) => i.0.v >= k.v,
            Excluded(k) => i.0.v > k.v,
        })
        .filter(|i| match hi {
            Unbounded => true,
            Included(k) => i.0.v <= k.v,
            Excluded(k) => i.0.v < k.v,
        })
        .map(|i| (i.0.v, i.0.orig))
        .collect()
}

fn must_panic(lo: &Bound<Key>, hi: &Bound<Key>) -> bool {
    match (lo, hi) {
        (Unbounded, _) | (_, Unbounded) => false,
        (Excluded(a), Excluded(b)) if a.v == b.v => true,
        (Included(a) | Excluded(a), Included(b) | Excluded(b)) => a.v > b.v,
    }
}

/// Every interleaving of front and back, continued past exhaustion; or the listed patterns.
fn interleave<'a, I: DoubleEndedIterator<Item = (u32, u32)> + 'a>(mk: &dyn Fn() -> I, exp: &[(u32, u32)], all: bool) -> R<u64> {
    let n = exp.len() + 2;
    let run = |bit: &dyn Fn(usize) -> bool| -> R {
        let mut it = mk();
        let (mut l, mut r) = (0, exp.len());
        for i in 0..n {
            let back = bit(i);
            let (got, want) = if back {
                (it.next_back(), if l < r { r -= 1; Some(exp[r]) } else { None })
            } else {
                (it.next(), if l < r { l += 1; Some(exp[l - 1]) } else { None })
            };
            if got != want {
                let path: String = (0..=i).map(|j| if bit(j) { 'B' } else { 'F' }).collect();
                return Err(format!("after taking {path} (F front, B back) got {got:?}, expected {want:?}"));
            }
            let (lo, hi) = it.size_hint();
            let left = r - l;
            if lo > left || hi.is_some_and(|h| h < left) {
                return Err(format!("size hint {:?} with {left} entries left", (lo, hi)));
            }
        }
        Ok(())
    };
    let mut count = 0;
    if all {
        for mask in 0..1u64 << n {
            run(&|i| mask >> i & 1 == 1)?;
            count += 1;
        }
    } else {
        for k in 0..=n {
            run(&|i| i >= k)?;
            run(&|i| i < k)?;
            count += 2;
        }
        run(&|i| i % 2 == 0)?;
        run(&|i| i % 2 == 1)?;
        run(&|i| i % 3 == 1)?;
        count += 3;
    }
    let f: Vec<_> = mk().fold(vec![], |mut v, x| { v.push(x); v });
    if f != exp {
        return Err(format!("fold visits {f:?}, expected {exp:?}"));
    }
    let f: Vec<_> = mk().rfold(vec![], |mut v, x| { v.insert(0, x); v });
    if f != exp {
        return Err(format!("rfold visits (reversed) {f:?}, expected {exp:?}"));
    }
    if mk().count() != exp.len() || mk().last() != exp.last().copied() {
        return Err("count or last disagrees with the entries in range".into());
    }
    // Everything that consumes a range, or skips in it, after some entries were taken by hand.
    for l in 0..=exp.len() {
        for r in 0..=exp.len() - l {
            if !all && l > 3 && r > 3 && l + r + 2 < exp.len() {
                continue;
            }
            let mid = || {
                let mut it = mk();
                (0..l).for_each(|_| drop(it.next()));
                (0..r).for_each(|_| drop(it.next_back()));
                it
            };
            let left = &exp[l..exp.len() - r];
            let at = |e: String| format!("after {l} entries from the front and {r} from the back {e}, expected {left:?}");
            let f: Vec<_> = mid().fold(vec![], |mut v, x| { v.push(x); v });
            if f != left {
                return Err(at(format!("fold visits {f:?}")));
            }
            let mut f: Vec<_> = mid().rfold(vec![], |mut v, x| { v.push(x); v });
            f.reverse();
            if f != left {
                return Err(at(format!("rfold visits (reversed) {f:?}")));
            }
            let mut f: Vec<_> = mid().rev().collect();
            f.reverse();
            if f != left || mid().collect::<Vec<_>>() != left {
                return Err(at("collect or rev().collect() gives something else".into()));
            }
            if mid().count() != left.len() || mid().last() != left.last().copied() {
                return Err(at(format!("count gives {} and last {:?}", mid().count(), mid().last())));
            }
            for k in if all { 0..=left.len() } else { 0..=left.len().min(2) } {
                let (mut f, mut b) = (mid(), mid());
                if f.nth(k) != left.get(k).copied() || f.next() != left.get(k + 1).copied() {
                    return Err(at(format!("nth({k}) or next after it is wrong")));
                }
                if b.nth_back(k) != left.iter().rev().nth(k).copied() || b.next_back() != left.iter().rev().nth(k + 1).copied() {
                    return Err(at(format!("nth_back({k}) or next_back after it is wrong")));
                }
            }
            count += 1;
        }
    }
    for k in 0..=exp.len() {
        if mk().nth(k) != exp.get(k).copied() || mk().nth_back(k) != exp.iter().rev().nth(k).copied() {
            return Err(format!("nth({k}) or nth_back({k}) disagrees with the entries in range"));
        }
    }
    Ok(count)
}

trait Tree: Fam {
    fn range<'a, RB: RangeBounds<Key> + 'a>(s: &'a Self::S<McK>, m: &[Item], rb: RB) -> Box<dyn DoubleEndedIterator<Item = (u32, u32)> + 'a>;
}
impl Tree for RbmF {
    fn range<'a, RB: RangeBounds<Key> + 'a>(s: &'a Self::S<McK>, m: &[Item], rb: RB) -> Box<dyn DoubleEndedIterator<Item = (u32, u32)> + 'a> {
        let m: Arc<Vec<Item>> = Arc::new(m.to_vec());
        Box::new(s.range(rb).map(move |(k, v)| {
            let e = m.iter().find(|i| i.0.v == k.v).map(|i| (i.1.v, i.1.orig));
            // An entry with the wrong value shows as a key nobody expects.
            if e == Some((v.ix().v, v.orig)) { (k.ix().v, k.orig) } else { (u32::MAX, v.orig) }
        }))
    }
}
impl Tree for RbsF {
    fn range<'a, RB: RangeBounds<Key> + 'a>(s: &'a Self::S<McK>, _m: &[Item], rb: RB) -> Box<dyn DoubleEndedIterator<Item = (u32, u32)> + 'a> {
        Box::new(s.range(rb).map(|k| (k.ix().v, k.orig)))
    }
}

fn judge<F: Tree>(s: &F::S<McK>, m: &[Item], a: u32, b: u32, all: bool) -> R<(u64, usize)> {
    let (lo, hi) = (bound(m, a), bound(m, b));
    let p = must_panic(&lo, &hi);
    let got = panics(|| {
        let _ = F::range(s, m, (lo.as_ref(), hi.as_ref()));
    });
    if p != got {
        return Err(if p { "range did not panic".into() } else { "range panicked".into() });
    }
    if p {
        return Ok((0, 0));
    }
    let exp = expected(m, &lo, &hi);
    let n = interleave(&|| F::range(s, m, (lo.as_ref(), hi.as_ref())), &exp, all)?;
    // The same range in every other syntax that can express it.
    let mut alt: Vec<(&str, Vec<(u32, u32)>, Vec<(u32, u32)>)> = vec![];
    macro_rules! syn {
        ($n:expr, $e:expr) => {{
            let f: Vec<_> = F::range(s, m, $e).collect();
            let b: Vec<_> = F::range(s, m, $e).rev().collect();
            alt.push(($n, f, b));
        }};
    }
    let k = |b: &Bound<Key>| match b { Included(k) | Excluded(k) => Key::new(k.v), _ => unreachable!() };
    match (&lo, &hi) {
        (Unbounded, Unbounded) => syn!("..", ..),
        (Included(_), Unbounded) => syn!("a..", k(&lo)..),
        (Unbounded, Excluded(_)) => syn!("..b", ..k(&hi)),
        (Unbounded, Included(_)) => syn!("..=b", ..=k(&hi)),
        (Included(_), Excluded(_)) => syn!("a..b", k(&lo)..k(&hi)),
        (Included(_), Included(_)) => syn!("a..=b", k(&lo)..=k(&hi)),
        _ => {}
    }
    let rev: Vec<_> = exp.iter().rev().copied().collect();
    for (n, f, b) in alt {
        if f != exp || b != rev {
            return Err(format!("range({n}) yields {f:?} and backwards {b:?}, expected {exp:?}"));
        }
    }
    Ok((n, exp.len()))
}

/// The states of a range are its cursors (taken from the front, taken from the back). All of them
/// are visited when every interleaving is run; two-phase patterns visit all of them too.
fn counted(mut s: Seen, interleavings: u64, len: usize, all: bool) -> Seen {
    if interleavings > 0 {
        let cursors = ((len + 1) * (len + 2) / 2) as u64;
        s.extra.push(("states", cursors));
        s.extra.push(("transitions", if all { 2 * cursors } else { 2 * cursors - len as u64 }));
        s.extra.push(("traces_validated_against_impl", interleavings));
    }
    s
}

fn shapes_suite<F: Tree>(name: &str, fam: F, max: usize) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let (f1, f2, f3) = (fam.clone(), fam.clone(), fam);
    let sh = Shapes::new();
    Box::new(Cases {
        name: format!("{name} every shape"),
        bound: format!("every tree shape of at most {max} entries, every pair of bounds at every key and gap, every interleaving"),
        generate: Box::new(move |visit| {
            let shapes = sh.get(|| reach(&*f1, 4 * max, &|op| matches!(op & 0xf000, INS | REM)));
            for h in shapes {
                let n = h.iter().fold(0i32, |n, o| n + if o & 0xf000 == INS { 1 } else { -1 }) as u32;
                let bounds = 4 * n + 3; // unbounded, and two per position
                for a in 0..bounds {
                    for b in 0..bounds {
                        if !visit(&pack(h, &[a, b])) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let (s, m) = rebuild::<F, McK>(&f2, &h)?;
            let Some(a) = r.first() else { return Ok(Seen::new(false, 0)) };
            let (n, len) = judge::<F>(&s, &m, *a, r[1], true)?;
            let mut k = h.iter().fold(1, |k, o| mix(k, *o as u64));
            k = mix(mix(k, *a as u64), r[1] as u64);
            Ok(counted(Seen::new(len > 0, k), n, len, true))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}, range from {} to {}", show_hist(&*f3, &h), r.first().map(|b| show_bound(*b)).unwrap_or_default(), r.get(1).map(|b| show_bound(*b)).unwrap_or_default())
        }),
    })
}

fn ladder_suite<F: Tree>(name: &str, fam: F, sizes: Vec<u32>) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let f2 = fam.clone();
    let bound = format!("trees of {sizes:?} entries (three insertion orders, then a few removals), every pair of bounds at every key and gap; front, back, alternating and all two-phase patterns");
    Box::new(Cases {
        name: format!("{name} larger trees"),
        bound,
        generate: Box::new(move |visit| {
            for n in &sizes {
                for a in 0..4 * n + 3 {
                    for b in 0..4 * n + 3 {
                        if !visit(&[*n, a, b]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            // build n + n/4 and remove every fifth
            let (n, a, b) = (c[0], c[1], c[2]);
            let mut h = tree_build(n + n / 4);
            for i in (0..n as u16 / 4).rev() {
                h.push(REM + i * 5);
            }
            let (s, m) = rebuild::<F, McK>(&fam, &h)?;
            let (cnt, len) = judge::<F>(&s, &m, a, b, false)?;
            Ok(counted(Seen::new(len > 0, mix(mix(n as u64, a as u64), b as u64)), cnt, len, false))
        }),
        show: Box::new(move |c| format!("{} of {} entries, range from {} to {}", f2.name(), c[0], show_bound(c[1]), show_bound(c[2]))),
    })
}

/// Ranges over a borrowed, unsized form of the key.
fn borrowed() -> Box<dyn Suite> {
    Box::new(Cases {
        name: "range by a borrowed key type".into(),
        bound: "String keys a, c, e, .. in trees of up to 7, every pair of str bounds, front, back and alternating".into(),
        generate: Box::new(|visit| {
            for n in 0..8u32 {
                for a in 0..4 * n + 3 {
                    for b in 0..4 * n + 3 {
                        if !visit(&[n, a, b]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(|c| {
            let n = c[0];
            let name = |p: u32| ((b'a' + p as u8) as char).to_string();
            let mut s: rpds::RedBlackTreeMap<String, u32> = rpds::RedBlackTreeMap::new();
            let mut t: rpds::RedBlackTreeSet<String> = rpds::RedBlackTreeSet::new();
            for i in 0..n {
                s.insert_mut(name(2 * i + 1), i);
                t.insert_mut(name(2 * i + 1));
            }
            let names: Vec<String> = (0..2 * n + 1).map(name).collect();
            let bd = |b: u32| -> Bound<&str> {
                match b {
                    0 => Unbounded,
                    b if b % 2 == 1 => Included(&names[(b as usize - 1) / 2]),
                    b => Excluded(&names[(b as usize - 2) / 2]),
                }
            };
            let (lo, hi) = (bd(c[1]), bd(c[2]));
            let p = match (lo, hi) {
                (Unbounded, _) | (_, Unbounded) => false,
                (Excluded(a), Excluded(b)) if a == b => true,
                (Included(a) | Excluded(a), Included(b) | Excluded(b)) => a > b,
            };
            let got = panics(|| drop(s.range::<str, _>((lo, hi))));
            let got2 = panics(|| drop(t.range::<str, _>((lo, hi))));
            if got != p || got2 != p {
                return Err(format!("range panicking is {got} / {got2}, expected {p}"));
            }
            if p {
                return Ok(Seen::new(false, 0));
            }
            let exp: Vec<(String, u32)> = (0..n).map(|i| (name(2 * i + 1), i)).filter(|(k, _)| (lo, hi).contains(k.as_str())).collect();
            let pairs: Vec<(u32, u32)> = exp.iter().map(|(_, i)| (*i, 0)).collect();
            let n_il = interleave(&|| s.range::<str, _>((lo, hi)).map(|(_, i)| (*i, 0)), &pairs, false)?;
            let keys: Vec<String> = t.range::<str, _>((lo, hi)).cloned().collect();
            if keys != exp.iter().map(|e| e.0.clone()).collect::<Vec<_>>() {
                return Err(format!("the set's range yields {keys:?}"));
            }
            Ok(counted(Seen::new(!exp.is_empty(), mix(mix(n as u64, c[1] as u64), c[2] as u64)), n_il, exp.len(), false))
        }),
        show: Box::new(|c| format!("{} String keys, range::<str> from {} to {}", c[0], show_bound(c[1]), show_bound(c[2]))),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let n = if q { 8 } else { 11 };
    vec![
        shapes_suite("range of a map", RbmF { max: n, getm: false, replace: false }, n),
        shapes_suite("range of a set", RbsF { max: n, replace: false }, n),
        ladder_suite("range of a map", RbmF { max: 1 << 20, getm: false, replace: false }, if q { vec![12, 17, 33] } else { vec![12, 17, 24, 33, 40] }),
        ladder_suite("range of a set", RbsF { max: 1 << 20, replace: false }, if q { vec![15, 20] } else { vec![15, 20, 31, 47] }),
        borrowed(),
        big(Part::Range, TREES, t),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C07",
        level: "model_checking",
        rule: "a case is one tree (by its history), one start bound and one end bound; states are the cursors of its range (how many entries were taken from either end), transitions single steps from them, and every interleaving is executed on the real iterator (counted as traces) and compared with the filtered sorted list; non-trivial when some entry is in range, distinct by history and bounds",
        assumptions: &["the key type is parametric: only the relative order of keys and bounds matters"],
        suites,
    })
}
