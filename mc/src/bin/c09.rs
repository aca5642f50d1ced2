use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use std::sync::Arc;

type X = (u32, u32, u32, u32);

/// What every iterator can do; `None` where the type does not offer it.
trait It {
    fn next(&mut self) -> Option<X>;
    fn nth(&mut self, k: usize) -> Option<X>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize> {
        None
    }
    fn double(&self) -> bool {
        false
    }
    fn next_back(&mut self) -> Option<X> {
        unreachable!()
    }
    fn nth_back(&mut self, _k: usize) -> Option<X> {
        unreachable!()
    }
    /// Consuming adaptor `t`; None when it does not apply.
    fn terminal(self: Box<Self>, t: u32) -> Option<Vec<X>>;
}

const TERMINALS: [&str; 13] = ["collect", "fold", "count", "last", "skip(1)", "step_by(2)", "try_fold stopping at once, then the rest", "max_by position", "for_each via by_ref().take(2), then the rest", "rfold", "rev().collect()", "rev().step_by(2)", "rev().last()"];

/// What the adaptor must give on the entries left.
fn terminal_spec(t: u32, left: &[X]) -> Vec<X> {
    match t {
        0 | 1 | 6 | 8 => left.to_vec(),
        2 => vec![(left.len() as u32, 0, 0, 0)],
        3 | 7 => left.last().copied().into_iter().collect(),
        4 => left.iter().skip(1).copied().collect(),
        5 => left.iter().step_by(2).copied().collect(),
        9 | 10 => left.iter().rev().copied().collect(),
        11 => left.iter().rev().step_by(2).copied().collect(),
        12 => left.first().copied().into_iter().collect(),
        _ => unreachable!(),
    }
}

struct Plain<I: Iterator>(I, fn(I::Item) -> X);
struct Exact<I: Iterator>(I, fn(I::Item) -> X);
struct Double<I: Iterator>(I, fn(I::Item) -> X);

macro_rules! forward {
    ($self:ident, $t:ident) => {{
        let c = $self.1;
        let mut it = $self.0;
        Some(match $t {
            0 => it.map(c).collect(),
            1 => it.fold(vec![], |mut v, x| { v.push(c(x)); v }),
            2 => vec![(it.count() as u32, 0, 0, 0)],
            3 => it.last().map(c).into_iter().collect(),
            4 => it.skip(1).map(c).collect(),
            5 => it.step_by(2).map(c).collect(),
            6 => {
                let mut v = vec![];
                let _ = it.try_for_each(|x| { v.push(c(x)); Err(()) });
                v.extend(it.map(c));
                v
            }
            7 => {
                let mut i = 0;
                it.map(|x| { i += 1; (i, c(x)) }).max_by_key(|p| p.0).map(|p| p.1).into_iter().collect()
            }
            8 => {
                let mut v = vec![];
                it.by_ref().take(2).for_each(|x| v.push(c(x)));
                while let Some(x) = it.next() { v.push(c(x)); }
                v
            }
            _ => return None,
        })
    }};
}

macro_rules! common {
    () => {
        fn next(&mut self) -> Option<X> { self.0.next().map(self.1) }
        fn nth(&mut self, k: usize) -> Option<X> { self.0.nth(k).map(self.1) }
        fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    };
}

impl<I: Iterator> It for Plain<I> {
    common!();
    fn terminal(self: Box<Self>, t: u32) -> Option<Vec<X>> { forward!(self, t) }
}
impl<I: ExactSizeIterator> It for Exact<I> {
    common!();
    fn len(&self) -> Option<usize> { Some(self.0.len()) }
    fn terminal(self: Box<Self>, t: u32) -> Option<Vec<X>> { forward!(self, t) }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> It for Double<I> {
    common!();
    fn len(&self) -> Option<usize> { Some(self.0.len()) }
    fn double(&self) -> bool { true }
    fn next_back(&mut self) -> Option<X> { self.0.next_back().map(self.1) }
    fn nth_back(&mut self, k: usize) -> Option<X> { self.0.nth_back(k).map(self.1) }
    fn terminal(self: Box<Self>, t: u32) -> Option<Vec<X>> {
        if t >= 9 {
            let c = self.1;
            let it = self.0;
            return Some(match t {
                9 => it.rfold(vec![], |mut v, x| { v.push(c(x)); v }),
                10 => it.rev().map(c).collect(),
                11 => it.rev().step_by(2).map(c).collect(),
                _ => it.rev().last().map(c).into_iter().collect(),
            });
        }
        forward!(self, t)
    }
}

fn tok(t: &Tok) -> X {
    (t.ix().v, t.orig, 0, 0)
}
fn key(t: &Key) -> X {
    (t.ix().v, t.orig, 0, 0)
}
fn entry(e: (&Key, &Tok)) -> X {
    (e.0.ix().v, e.0.orig, e.1.ix().v, e.1.orig)
}
fn seq_items(m: &[Item]) -> Vec<X> {
    m.iter().map(|i| (i.0.v, i.0.orig, 0, 0)).collect()
}
fn map_items(m: &[Item], which: u32) -> Vec<X> {
    m.iter()
        .map(|i| match which {
            1 => (i.0.v, i.0.orig, 0, 0),
            2 => (i.1.v, i.1.orig, 0, 0),
            _ => (i.0.v, i.0.orig, i.1.v, i.1.orig),
        })
        .collect()
}

trait Iters: Fam {
    const KINDS: &'static [&'static str];
    fn make<'a, P: PK>(s: &'a Self::S<P>, which: u32) -> Box<dyn It + 'a>;
    /// Expected items, given the contents in iteration order.
    fn items(c: &[Item], which: u32) -> Vec<X>;
}
impl Iters for ListF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Exact(s.iter(), tok)) } else { Box::new(Exact(s.into_iter(), tok)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}
impl Iters for StackF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Exact(s.iter(), tok)) } else { Box::new(Exact(s.into_iter(), tok)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}
impl Iters for QueueF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Plain(s.iter(), tok)) } else { Box::new(Plain(s.into_iter(), tok)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}
impl Iters for VectorF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Double(s.iter(), tok)) } else { Box::new(Double(s.into_iter(), tok)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}
impl Iters for HtmF {
    const KINDS: &'static [&'static str] = &["iter", "keys", "values", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        match w {
            0 => Box::new(Exact(s.iter(), entry)),
            1 => Box::new(Exact(s.keys(), key)),
            2 => Box::new(Exact(s.values(), tok)),
            _ => Box::new(Exact(s.into_iter(), entry)),
        }
    }
    fn items(c: &[Item], w: u32) -> Vec<X> { map_items(c, w) }
}
impl Iters for HtsF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Exact(s.iter(), key)) } else { Box::new(Exact(s.into_iter(), key)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}
impl Iters for RbmF {
    const KINDS: &'static [&'static str] = &["iter", "keys", "values", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        match w {
            0 => Box::new(Double(s.iter(), entry)),
            1 => Box::new(Double(s.keys(), key)),
            2 => Box::new(Double(s.values(), tok)),
            _ => Box::new(Double(s.into_iter(), entry)),
        }
    }
    fn items(c: &[Item], w: u32) -> Vec<X> { map_items(c, w) }
}
impl Iters for RbsF {
    const KINDS: &'static [&'static str] = &["iter", "into_iter"];
    fn make<'a, P: PK>(s: &'a Self::S<P>, w: u32) -> Box<dyn It + 'a> {
        if w == 0 { Box::new(Double(s.iter(), key)) } else { Box::new(Double(s.into_iter(), key)) }
    }
    fn items(c: &[Item], _: u32) -> Vec<X> { seq_items(c) }
}

// The steps of an iterator program.
const STEPS: [&str; 8] = ["next", "next_back", "nth(1)", "nth_back(1)", "nth(0)", "nth_back(0)", "nth(3)", "nth_back(3)"];

fn step(it: &mut dyn It, spec: &[X], l: &mut usize, r: &mut usize, s: u32) -> R {
    let (back, k) = match s {
        0 => (false, None),
        1 => (true, None),
        2 => (false, Some(1)),
        3 => (true, Some(1)),
        4 => (false, Some(0)),
        5 => (true, Some(0)),
        6 => (false, Some(3)),
        _ => (true, Some(3)),
    };
    let got = match (back, k) {
        (false, None) => it.next(),
        (true, None) => it.next_back(),
        (false, Some(k)) => it.nth(k),
        (true, Some(k)) => it.nth_back(k),
    };
    let k = k.unwrap_or(0);
    let want = if *r - *l > k {
        if back {
            *r -= k + 1;
            Some(spec[*r])
        } else {
            *l += k + 1;
            Some(spec[*l - 1])
        }
    } else {
        *l = *r;
        None
    };
    if got != want {
        return Err(format!("{} gives {got:?}, expected {want:?}", STEPS[s as usize]));
    }
    let left = *r - *l;
    if it.hint() != (left, Some(left)) || it.len().is_some_and(|n| n != left) {
        return Err(format!("after {} the size hint is {:?} and len {:?}, but {left} entries are left", STEPS[s as usize], it.hint(), it.len()));
    }
    Ok(())
}

fn program(it: &mut dyn It, spec: &[X], steps: &mut dyn Iterator<Item = u32>) -> R<(usize, usize)> {
    let n = spec.len();
    if it.hint() != (n, Some(n)) || it.len().is_some_and(|k| k != n) {
        return Err(format!("the size hint is {:?} and len {:?} at the start, but there are {n} entries", it.hint(), it.len()));
    }
    let (mut l, mut r) = (0, n);
    for s in steps {
        step(it, spec, &mut l, &mut r, s)?;
    }
    Ok((l, r))
}

struct Prep<S> {
    s: S,
    spec: Vec<X>,
}

fn prepare<F: Iters, P: PK>(fam: &F, h: &[u16], which: u32) -> R<Prep<F::S<P>>> {
    let (s, m) = rebuild::<F, P>(fam, h)?;
    let c = fam.contents(&s);
    if !same_items(&model_order(fam, c.clone()), &m) {
        return Err(format!("one traversal yields [{}], the contents are [{}]", show_items(&c), show_items(&m)));
    }
    let again = fam.contents(&s);
    if !same_items(&c, &again) {
        return Err("two traversals of one version differ".into());
    }
    let other = s.clone();
    if !same_items(&c, &fam.contents(&other)) {
        return Err("a clone is traversed in another order".into());
    }
    Ok(Prep { s, spec: F::items(&c, which) })
}

fn programs<F: Iters, P: PK>(fam: &F, h: &[u16], which: u32, extra: usize) -> R<(u64, u64, u64, usize)> {
    let p = prepare::<F, P>(fam, h, which)?;
    let n = p.spec.len();
    let double = F::make(&p.s, which).double();
    let menu: &[u32] = if double { &[0, 1, 2, 3] } else { &[0, 2] };
    let depth = n + extra;
    let (mut progs, mut steps) = (0u64, 0u64);
    // All programs of the given length, each from a fresh iterator.
    let total = (menu.len() as u64).pow(depth as u32);
    for code in 0..total {
        let mut c = code;
        let mut it = F::make(&p.s, which);
        let mut prog = (0..depth).map(|_| {
            let s = menu[(c % menu.len() as u64) as usize];
            c /= menu.len() as u64;
            s
        });
        program(&mut *it, &p.spec, &mut prog).map_err(|e| {
            let mut c = code;
            let names: Vec<&str> = (0..depth).map(|_| { let s = menu[(c % menu.len() as u64) as usize]; c /= menu.len() as u64; STEPS[s as usize] }).collect();
            format!("program {}: {e}", names.join(" "))
        })?;
        progs += 1;
        steps += depth as u64;
    }
    // Every short prefix (with every kind of step), then a consuming adaptor.
    let menu: &[u32] = if double { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 2, 4, 6] };
    for len in 0..=3u32 {
        for code in 0..(menu.len() as u64).pow(len) {
            for t in 0..TERMINALS.len() as u32 {
                if t >= 9 && !double {
                    continue;
                }
                let pre: Vec<u32> = (0..len).map(|i| menu[(code / (menu.len() as u64).pow(i)) as usize % menu.len()]).collect();
                let mut it = F::make(&p.s, which);
                let name = || format!("{} then {}", pre.iter().map(|s| STEPS[*s as usize]).collect::<Vec<_>>().join(" "), TERMINALS[t as usize]);
                let (l, r) = program(&mut *it, &p.spec, &mut pre.iter().copied()).map_err(|e| format!("{}: {e}", name()))?;
                let got = it.terminal(t).unwrap();
                let want = terminal_spec(t, &p.spec[l..r]);
                if got != want {
                    return Err(format!("{} gives {got:?}, expected {want:?}", name()));
                }
                progs += 1;
                steps += len as u64 + 1;
            }
        }
    }
    Ok((progs, steps, ((n + 1) * (n + 2) / 2) as u64, n))
}

/// Two-phase and alternating patterns on a larger structure.
fn patterns<F: Iters, P: PK>(fam: &F, h: &[u16], which: u32) -> R<(u64, u64, u64, usize)> {
    let p = prepare::<F, P>(fam, h, which)?;
    let n = p.spec.len();
    let double = F::make(&p.s, which).double();
    let (mut progs, mut steps) = (0u64, 0u64);
    let mut go = |f: &dyn Fn(usize) -> u32, what: String| -> R {
        let mut it = F::make(&p.s, which);
        program(&mut *it, &p.spec, &mut (0..n + 2).map(f)).map_err(|e| format!("{what}: {e}"))?;
        progs += 1;
        steps += n as u64 + 2;
        Ok(())
    };
    go(&|_| 0, "front to back".into())?;
    go(&|_| 2, "nth(1) throughout".into())?;
    go(&|i| if i % 3 == 1 { 6 } else { 0 }, "next, nth(3), next".into())?;
    if double {
        go(&|_| 1, "back to front".into())?;
        for k in 1..4 {
            go(&|i| (i % (k + 1) == 0) as u32, format!("one back in {}", k + 1))?;
            go(&|i| (i % (k + 1) != 0) as u32, format!("one front in {}", k + 1))?;
        }
        go(&|i| [3, 0, 2, 1][i % 4], "nth_back(1), next, nth(1), next_back".into())?;
        let stride = (n / 150).max(1);
        for k in (0..=n).step_by(stride) {
            go(&|i| (i >= k) as u32, format!("{k} from the front, the rest from the back"))?;
            go(&|i| (i < k) as u32, format!("{k} from the back, the rest from the front"))?;
        }
    }
    for t in 0..TERMINALS.len() as u32 {
        if t >= 9 && !double {
            continue;
        }
        let got = F::make(&p.s, which).terminal(t).unwrap();
        if got != terminal_spec(t, &p.spec) {
            return Err(format!("{} gives the wrong items", TERMINALS[t as usize]));
        }
        progs += 1;
        steps += 1;
    }
    Ok((progs, steps, if double { 2 * n as u64 } else { n as u64 + 1 }, n))
}

fn seen(h: &[u16], which: u32, r: (u64, u64, u64, usize)) -> Seen {
    let mut s = Seen::new(r.3 > 0, mix(h.iter().fold(7, |k, o| mix(k, *o as u64)), which as u64));
    s.extra.push(("traces_validated_against_impl", r.0));
    s.extra.push(("transitions", r.1));
    s.extra.push(("states", r.2));
    s
}

fn suite<F: Iters>(fam: F, depth: usize, extra: usize, allow: fn(u16) -> bool) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let (f1, f2, f3) = (fam.clone(), fam.clone(), fam);
    let sh = Shapes::new();
    Box::new(Cases {
        name: format!("programs on every {}", f2.name()),
        bound: format!("every shape reached by {depth} operations, every iterator, every program of next, next_back, nth, nth_back {extra} steps past the end, every prefix of 3 before every adaptor"),
        generate: Box::new(move |visit| {
            for h in sh.get(|| reach(&*f1, depth, &allow)) {
                for w in 0..F::KINDS.len() as u32 {
                    if !visit(&pack(h, &[w])) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let Some(w) = r.first() else { return Ok(Seen::new(false, 0)) };
            Ok(seen(&h, *w, programs::<F, McK>(&f2, &h, *w, extra)?))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}, {}", show_hist(&*f3, &h), r.first().map(|w| F::KINDS[*w as usize]).unwrap_or_default())
        }),
    })
}

fn large<F: Iters>(fam: F, sizes: Vec<u32>, build: fn(u32) -> Vec<u16>) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let f2 = fam.clone();
    Box::new(Cases {
        name: format!("patterns on larger {}", fam.name()),
        bound: format!("{sizes:?} entries, every iterator; front, back, alternating and two-phase patterns, nth, every adaptor"),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for w in 0..F::KINDS.len() as u32 {
                    if !visit(&[*n, w]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let h = build(c[0]);
            Ok(seen(&[c[0] as u16], c[1], patterns::<F, McK>(&fam, &h, c[1])?))
        }),
        show: Box::new(move |c| format!("{} of {} entries, {}", f2.name(), c[0], F::KINDS[c[1] as usize])),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let e = if q { 0 } else { 1 };
    let all: fn(u16) -> bool = |_| true;
    let seq: fn(u16) -> bool = |o| o < 0x1000;
    let mut v: Vec<Box<dyn Suite>> = vec![
        suite(ListF { max: 7 + e }, 8, 3, all),
        suite(StackF { max: 6 + e }, 8, 3, all),
        suite(QueueF { max: 6 + e }, 14 + e, 3, all),
        suite(VectorF { bits: 1, max: 7 + e, indices: vec![0] }, 8 + e, 2, seq),
        suite(VectorF { bits: 2, max: 7 + e, indices: vec![0] }, 8 + e, 2, seq),
        suite(RbmF { max: 6 + e, getm: false, replace: false }, 9, 1, all),
        suite(RbsF { max: 6, replace: false }, 8, 1 + e, all),
        suite(HtsF::new(64, &[0, 0, 1, 64, 0, 1 << 60], 6), 7, 3, all),
        suite(HtsF::new(2, &[0, 1, 2, 3, 0, 1 << 63], 6), 7, 3, all),
        suite(HtmF { getm: false, ..HtmF::new(64, &[0, 0, 1, 64, 0, 1 << 60], 6) }, 7, 3, all),
        suite(HtmF { getm: false, ..HtmF::new(4, &[0, 4, 0, 1 << 62, 0], 5) }, 6, 3, all),
        suite(HtmF { getm: false, ..HtmF::new(16, &[0, 16, 0, 16, 1 << 60], 5) }, 6, 3, all),
    ];
    let mod7: Vec<u64> = (0..200u64).map(|i| (i % 7) | (i / 7) << 6 | (i % 3) << 60).collect();
    let coll: Vec<u64> = (0..24u64).map(|i| i % 3).collect();
    let flat: Vec<u64> = (0..200u64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect();
    v.push(large(ListF { max: 1 << 20 }, vec![50, 1000], pushes));
    v.push(large(QueueF { max: 1 << 20 }, vec![50, 1000], queue_build));
    v.push(large(VectorF { bits: 1, max: 1 << 20, indices: vec![] }, (7..=if q { 40 } else { 150 }).collect(), pushes));
    v.push(large(VectorF { bits: 2, max: 1 << 20, indices: vec![] }, (7..=if q { 70 } else { 280 }).collect(), pushes));
    v.push(large(VectorF { bits: 5, max: 1 << 20, indices: vec![] }, vec![31, 32, 33, 64, 1023, 1024, 1025, 1056, 1057], pushes));
    v.push(large(RbmF { max: 1 << 20, getm: false, replace: false }, if q { (7..40).chain([63, 64, 100]).collect() } else { (7..130).collect() }, tree_build));
    v.push(large(RbsF { max: 1 << 20, replace: false }, if q { vec![8, 17, 32, 101] } else { (7..130).collect() }, tree_build));
    v.push(large(HtmF::new(64, &mod7, 200), vec![30, 100, 199], hash_build));
    v.push(large(HtmF::new(16, &coll, 100), vec![6, 12, 23], hash_build));
    v.push(large(HtmF::new(2, &flat, 200), vec![20, 199], hash_build));
    v.push(large(HtsF::new(32, &flat, 200), vec![20, 199], hash_build));
    v.push(mc::big(Part::Iterate, EVERY, t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C09",
        level: "model_checking",
        rule: "a case is one structure (by its history) and one of its iterators; states are the cursors (entries taken from either end), transitions single iterator steps, traces whole iterator programs run on the real iterator, with size hint and len judged after every step; non-trivial when the structure is not empty, distinct by history and iterator",
        assumptions: &["iterators are of the types the crate exposes (none of them is Clone)"],
        suites,
    })
}
