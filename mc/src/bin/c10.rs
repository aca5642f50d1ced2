use archery::{ArcTK, RcK};
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use rpds::{List, Queue, RedBlackTreeMap, Stack, Vector};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

type M = Vec<(u32, u32)>;

/// Records everything it is fed.
#[derive(Default, PartialEq, Eq)]
struct Rec(Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1 << 40 | b.len() as u64);
        self.0.extend(b.iter().map(|x| *x as u64));
    }
    fn write_u8(&mut self, i: u8) {
        self.0.extend([2 << 40, i as u64]);
    }
    fn write_u16(&mut self, i: u16) {
        self.0.extend([3 << 40, i as u64]);
    }
    fn write_u32(&mut self, i: u32) {
        self.0.extend([4 << 40, i as u64]);
    }
    fn write_u64(&mut self, i: u64) {
        self.0.extend([5 << 40, i]);
    }
    fn write_usize(&mut self, i: usize) {
        self.0.extend([6 << 40, i as u64]);
    }
}

struct Ords {
    partial: Option<Ordering>,
    ops: [bool; 4],
}

trait Cmp: Conc {
    fn eq2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [bool; 2];
    fn ord2<P: PK, PO: PK>(_a: &Self::S<P>, _b: &Self::S<PO>) -> Option<Ords> {
        None
    }
    fn total<P: PK>(_a: &Self::S<P>, _b: &Self::S<P>) -> Option<Ordering> {
        None
    }
    fn rec<P: PK>(_a: &Self::S<P>) -> Option<Rec> {
        None
    }
    /// A history to these contents; `way` picks one of three.
    fn to(&self, m: &M, way: u32) -> Vec<u16>;
}

macro_rules! ordered {
    () => {
        fn eq2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [bool; 2] {
            [a == b, a != b]
        }
        fn ord2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> Option<Ords> {
            Some(Ords { partial: a.partial_cmp(b), ops: [a < b, a <= b, a > b, a >= b] })
        }
        fn total<P: PK>(a: &Self::S<P>, b: &Self::S<P>) -> Option<Ordering> {
            Some(a.cmp(b))
        }
        fn rec<P: PK>(a: &Self::S<P>) -> Option<Rec> {
            let mut r = Rec::default();
            a.hash(&mut r);
            Some(r)
        }
    };
}
macro_rules! unordered {
    () => {
        fn eq2<P: PK, PO: PK>(a: &Self::S<P>, b: &Self::S<PO>) -> [bool; 2] {
            [a == b, a != b]
        }
    };
}
fn front_to(m: &M, way: u32) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    for (i, e) in m.iter().rev().enumerate() {
        v.push(e.0 as u16);
        if way == 1 && i % 3 == 0 || way == 2 {
            v.extend([7, REM]);
        }
    }
    v
}
fn back_to(m: &M, way: u32) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    for (i, e) in m.iter().enumerate() {
        v.push(e.0 as u16);
        if way == 1 && i % 3 == 0 || way == 2 {
            v.extend([7, REM]);
        }
    }
    v
}
fn keyed_to(m: &M, way: u32) -> Vec<u16> {
    let ins = |e: &(u32, u32)| INS + (e.0 * 16 + e.1) as u16;
    match way {
        0 => m.iter().map(ins).collect(),
        1 => m.iter().rev().map(ins).chain([INS + 255 * 16, REM + 255 * 16]).collect(),
        _ => (0..m.len())
            .flat_map(|i| {
                let e = &m[if i % 2 == 0 { i / 2 } else { m.len() - 1 - i / 2 }];
                [INS + (e.0 * 16) as u16, INS + 254 * 16, ins(e), REM + 254 * 16]
            })
            .collect(),
    }
}
impl Cmp for CList {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { front_to(m, way) }
}
impl Cmp for CStack {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { front_to(m, way) }
}
impl Cmp for CQueue {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> {
        match way {
            0 => m.iter().map(|e| e.0 as u16).collect(),
            1 => [7, 8, REM].into_iter().chain(m.iter().map(|e| e.0 as u16)).chain([REM]).collect(),
            _ => {
                let h = m.len() / 2;
                [9].into_iter().chain(m[..h].iter().map(|e| e.0 as u16)).chain([REM]).chain(m[h..].iter().map(|e| e.0 as u16)).collect()
            }
        }
    }
}
impl Cmp for CVec {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { back_to(m, way) }
}
impl Cmp for CRbs {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { keyed_to(m, way) }
}
impl Cmp for CRbm {
    ordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { keyed_to(m, way) }
}
impl Cmp for CHts {
    unordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { keyed_to(m, way) }
}
impl Cmp for CHtm {
    unordered!();
    fn to(&self, m: &M, way: u32) -> Vec<u16> { keyed_to(m, way) }
}

fn judge<C: Cmp, P: PK, PO: PK>(a: &C::S<P>, ma: &M, b: &C::S<PO>, mb: &M) -> R {
    let o = ma.cmp(mb);
    let eq = o == Ordering::Equal;
    let got = C::eq2(a, b);
    if got != [eq, !eq] {
        return Err(format!("== gives {} and != {}, expected {eq} and {}", got[0], got[1], !eq));
    }
    if let Some(g) = C::ord2(a, b) {
        if g.partial != Some(o) {
            return Err(format!("partial_cmp gives {:?}, expected {:?}", g.partial, Some(o)));
        }
        let want = [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()];
        if g.ops != want {
            return Err(format!("<, <=, >, >= give {:?}, expected {want:?}", g.ops));
        }
    }
    if let (Some(x), Some(y)) = (C::rec(a), C::rec(b)) {
        if eq && x != y {
            return Err("equal collections feed different data to a hasher".into());
        }
        if !eq && (x.0.starts_with(&y.0) || y.0.starts_with(&x.0)) {
            return Err("the data fed to a hasher does not tell the collections apart, or only by what follows them".into());
        }
    }
    Ok(())
}

fn judge_total<C: Cmp, P: PK>(a: &C::S<P>, ma: &M, b: &C::S<P>, mb: &M) -> R {
    if let Some(g) = C::total(a, b) {
        if g != ma.cmp(mb) {
            return Err(format!("cmp gives {g:?}, expected {:?}", ma.cmp(mb)));
        }
    }
    judge::<C, P, P>(a, ma, b, mb)
}

const MODES: [&str; 3] = ["against independent versions", "against versions over another pointer kind", "against versions derived from its clone"];

fn one<C: Cmp>(a: &C, b: &C, ha: &[u16], mode: u32, hbs: &[Vec<u16>], steps: usize) -> R<u64> {
    let mut n = 0;
    let note = |e: String, ma: &M, mb: &M, hb: &[u16], how: &str| format!("{e}; the contents are {ma:?} and {mb:?}; other: {how}{}", conc_show(b, hb));
    match mode {
        0 => {
            let (sa, ma) = conc_build::<C, McK>(a, ha);
            for hb in hbs {
                let (sb, mb) = conc_build::<C, McK>(b, hb);
                judge_total::<C, McK>(&sa, &ma, &sb, &mb).map_err(|e| note(e, &ma, &mb, hb, ""))?;
                n += 1;
            }
        }
        1 => {
            let (sa, ma) = conc_build::<C, RcK>(a, ha);
            let (ta, _) = conc_build::<C, ArcTK>(a, ha);
            for hb in hbs {
                let (sb, mb) = conc_build::<C, ArcTK>(b, hb);
                judge::<C, RcK, ArcTK>(&sa, &ma, &sb, &mb).map_err(|e| note(e, &ma, &mb, hb, "RcK against ArcTK "))?;
                judge_total::<C, ArcTK>(&ta, &ma, &sb, &mb).map_err(|e| note(e, &ma, &mb, hb, "ArcTK "))?;
                n += 2;
            }
        }
        _ => {
            let (sa, ma) = conc_build::<C, McK>(a, ha);
            judge_total::<C, McK>(&sa, &ma, &sa, &ma).map_err(|e| note(e, &ma, &ma, ha, "the version itself "))?;
            let mut front = vec![(sa.clone(), ma.clone(), vec![])];
            for d in 0..=steps {
                let mut next = vec![];
                for (s, m, h) in &front {
                    judge_total::<C, McK>(&sa, &ma, s, m).map_err(|e| note(e, &ma, m, h, "a clone, after "))?;
                    judge_total::<C, McK>(s, m, &sa, &ma).map_err(|e| note(e, m, &ma, h, "(exchanged) a clone, after "))?;
                    n += 2;
                    if d < steps {
                        let mut ops = vec![];
                        a.ops(m, &mut ops);
                        for op in ops {
                            let (mut s, mut m, mut h): (C::S<McK>, M, Vec<u16>) = (s.clone(), m.clone(), h.clone());
                            h.push(op);
                            a.apply(&mut s, &mut m, op);
                            next.push((s, m, h));
                        }
                    }
                }
                front = next;
            }
        }
    }
    Ok(n)
}

fn counted(nontrivial: bool, key: u64, n: u64) -> Seen {
    let mut s = Seen::new(nontrivial, key);
    s.extra.push(("states", n));
    s.extra.push(("transitions", 8 * n));
    s.extra.push(("traces_validated_against_impl", n));
    s
}

fn suite<C: Cmp>(a: C, b: C, depth: usize, steps: usize) -> Box<dyn Suite> {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let (sa, sb) = (Shapes::new(), Shapes::new());
    let (a1, a2, a3, b2, sb2, b1) = (a.clone(), a.clone(), a.clone(), b.clone(), sb.clone(), b.clone());
    Box::new(Cases {
        name: format!("{} and {}", a.name(), b.name()),
        bound: format!("every state within {depth} operations against every state of the other, over equal and different pointer kinds; {steps} operations away from a clone"),
        generate: Box::new(move |visit| {
            sb.get(|| conc_states(&*b1, depth));
            for h in sa.get(|| conc_states(&*a1, depth)) {
                for m in 0..3 {
                    if !visit(&pack(h, &[m])) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let Some(mode) = r.first() else {
                conc_build::<C, McK>(&a2, &h);
                return Ok(Seen::new(false, 0));
            };
            let n = one(&*a2, &*b2, &h, *mode, sb2.get(|| conc_states(&*b2, depth)), steps)?;
            Ok(counted(!h.is_empty(), h.iter().fold(mix(3, *mode as u64), |k, o| mix(k, *o as u64)), n))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{} {}", conc_show(&*a3, &h), r.first().map(|m| MODES[*m as usize]).unwrap_or("by itself"))
        }),
    })
}

/// Larger collections that differ in one place.
fn large<C: Cmp>(a: C, b: C, sizes: Vec<u32>, kind: u32) -> Box<dyn Suite> {
    let (a, b) = (Arc::new(a), Arc::new(b));
    let name = format!("larger {} and {}", a.name().split('(').next().unwrap(), b.name().split(", hashes").next().unwrap());
    let s2 = sizes.clone();
    Box::new(Cases {
        name,
        bound: format!("{sizes:?} elements, three histories each, equal or different at each place or in length"),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for change in 0..n + 3 {
                    for ways in 0..9 {
                        if !visit(&[*n, change, ways]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (n, change, w) = (c[0], c[1], c[2]);
            let base: M = (0..n).map(|i| [(i % 5, 0), (i, i % 3), (2 * i, 0)][kind as usize]).collect();
            let mut other = base.clone();
            if change < n {
                // in the value where there is one; in the key or element otherwise
                match kind {
                    0 => other[change as usize].0 = 6,
                    1 => other[change as usize].1 = 3,
                    _ => other[change as usize].0 += 1,
                }
            } else if change == n {
                other.pop();
            } else if change == n + 1 {
                other.remove(0);
            }
            let (sa, ma) = conc_build::<C, McK>(&a, &a.to(&base, w % 3));
            let (sb, mb) = conc_build::<C, McK>(&b, &b.to(&other, w / 3));
            if ma.len() != n as usize {
                return Err(format!("the harness built {} elements instead of {n}", ma.len()));
            }
            judge_total::<C, McK>(&sa, &ma, &sb, &mb)?;
            judge_total::<C, McK>(&sb, &mb, &sa, &ma).map_err(|e| format!("exchanged: {e}"))?;
            Ok(counted(true, mix(n as u64, mix(change as u64, w as u64)), 2))
        }),
        show: Box::new(move |c| {
            let _ = &s2;
            let ch = if c[1] < c[0] { format!("differing at place {}", c[1]) } else { ["shorter at the end", "shorter at the start", "equal"][(c[1] - c[0]) as usize].into() };
            format!("{} elements, {ch}, histories {} and {}", c[0], c[2] % 3, c[2] / 3)
        }),
    })
}

/// 2 and 3 are incomparable with everything but themselves.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Po(u8);
impl PartialOrd for Po {
    fn partial_cmp(&self, o: &Po) -> Option<Ordering> {
        if self.0 < 2 && o.0 < 2 || self.0 == o.0 { Some(self.0.cmp(&o.0)) } else { None }
    }
}
/// Another element type that vectors of `Po` can be compared with.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Other(u8);
impl PartialEq<Other> for Po {
    fn eq(&self, o: &Other) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd<Other> for Po {
    fn partial_cmp(&self, o: &Other) -> Option<Ordering> {
        self.partial_cmp(&Po(o.0))
    }
}

/// 2 and 3 are incomparable with everything and equal to nothing, themselves included (like NaN).
#[derive(Clone, Copy, Debug)]
struct Na(u8);
impl PartialEq for Na {
    fn eq(&self, o: &Na) -> bool {
        self.0 < 2 && self.0 == o.0
    }
}
impl PartialOrd for Na {
    fn partial_cmp(&self, o: &Na) -> Option<Ordering> {
        if self.0 < 2 && o.0 < 2 { Some(self.0.cmp(&o.0)) } else { None }
    }
}

fn lex<E: PartialOrd>(a: &[E], b: &[E]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        match x.partial_cmp(y) {
            Some(Ordering::Equal) => {}
            r => return r,
        }
    }
    Some(a.len().cmp(&b.len()))
}

fn check_po<A: PartialOrd<B>, B>(what: &str, a: &A, b: &B, want: Option<Ordering>, eq: bool) -> R {
    if a.partial_cmp(b) != want {
        return Err(format!("{what}: partial_cmp gives {:?}, expected {want:?}", a.partial_cmp(b)));
    }
    let got = [a < b, a <= b, a > b, a >= b];
    let w = [want == Some(Ordering::Less), want.is_some_and(|o| o.is_le()), want == Some(Ordering::Greater), want.is_some_and(|o| o.is_ge())];
    if got != w {
        return Err(format!("{what}: <, <=, >, >= give {got:?}, expected {w:?}"));
    }
    if (a == b) != eq || (a != b) == eq {
        return Err(format!("{what}: == gives {}, expected {eq}", a == b));
    }
    Ok(())
}

fn partial(len: u32) -> Box<dyn Suite> {
    let decode = |c: u32| -> Vec<Po> {
        // all words up to `len` over four letters
        let (mut c, mut n) = (c, 0);
        while c >= 4u32.pow(n) {
            c -= 4u32.pow(n);
            n += 1;
        }
        (0..n).map(|i| Po((c >> (2 * i) & 3) as u8)).collect()
    };
    let total: u32 = (0..=len).map(|n| 4u32.pow(n)).sum();
    Box::new(Cases {
        name: "elements that are only partially ordered".into(),
        bound: format!("all pairs of contents up to {len} elements over two comparable and two incomparable values"),
        generate: Box::new(move |visit| {
            for a in 0..total {
                if !visit(&[a]) {
                    return;
                }
            }
        }),
        run: Box::new(move |c| {
            let a = decode(c[0]);
            let (l, s, q): (List<Po>, Stack<Po>, Queue<Po>) = (a.iter().copied().collect(), a.iter().copied().collect(), a.iter().copied().collect());
            let mut v: Vector<Po, ArcTK> = Vector::new_with_bits(1);
            v.extend(a.iter().copied());
            let m: RedBlackTreeMap<usize, Po> = a.iter().copied().enumerate().collect();
            for cb in 0..total {
                let b = decode(cb);
                let (want, eq) = (lex(&a, &b), a == b);
                let (l2, s2, q2, v2): (List<Po>, Stack<Po>, Queue<Po>, Vector<Po>) = (b.iter().copied().collect(), b.iter().copied().collect(), b.iter().copied().collect(), b.iter().copied().collect());
                let o2: Vector<Other> = b.iter().map(|x| Other(x.0)).collect();
                let m2: RedBlackTreeMap<usize, Po> = b.iter().copied().enumerate().collect();
                let e = |e: String| format!("{e}; the contents are {a:?} and {b:?}");
                check_po("List", &l, &l2, want, eq).map_err(e)?;
                check_po("Stack", &s, &s2, lex(&a, &b), eq).map_err(e)?;
                check_po("Queue", &q, &q2, want, eq).map_err(e)?;
                check_po("Vector", &v, &v2, want, eq).map_err(e)?;
                check_po("Vector of another element type", &v, &o2, want, eq).map_err(e)?;
                check_po("RedBlackTreeMap", &m, &m2, want, eq).map_err(e)?;
            }
            Ok(counted(!a.is_empty(), c[0] as u64, 6 * total as u64))
        }),
        show: Box::new(move |c| format!("{:?} against every other", decode(c[0]))),
    })
}

/// Elements that do not equal themselves: a collection is judged against independent ones, and
/// against its own clones and versions derived from them.
fn irreflexive(len: u32) -> Box<dyn Suite> {
    let decode = |c: u32| -> Vec<Na> {
        let (mut c, mut n) = (c, 0);
        while c >= 3u32.pow(n) {
            c -= 3u32.pow(n);
            n += 1;
        }
        (0..n).map(|i| Na((c / 3u32.pow(i) % 3) as u8)).collect()
    };
    let total: u32 = (0..=len).map(|n| 3u32.pow(n)).sum();
    Box::new(Cases {
        name: "elements that do not equal themselves".into(),
        bound: format!("all pairs of contents up to {len} elements over two ordinary values and one that equals nothing; every collection against itself, its clones and every version one operation away from a clone"),
        generate: Box::new(move |visit| {
            for a in 0..total {
                if !visit(&[a]) {
                    return;
                }
            }
        }),
        run: Box::new(move |c| {
            let a = decode(c[0]);
            let n = a.len();
            let (l, s, q): (List<Na, McK>, Stack<Na, McK>, Queue<Na, McK>) = (a.iter().copied().collect(), a.iter().copied().collect(), a.iter().copied().collect());
            let mut v: Vector<Na, McK> = Vector::new_with_bits(1);
            v.extend(a.iter().copied());
            let mut m: RedBlackTreeMap<usize, Na, McK> = RedBlackTreeMap::new_with_ptr_kind();
            a.iter().copied().enumerate().for_each(|(i, x)| m.insert_mut(i, x));
            let mut count = 0;
            let pairs = |m: &RedBlackTreeMap<usize, Na, McK>| -> Vec<(usize, Na)> { m.iter().map(|(k, v)| (*k, *v)).collect() };
            let mut against = |l2: &List<Na, McK>, s2: &Stack<Na, McK>, q2: &Queue<Na, McK>, v2: &Vector<Na, McK>, m2: &RedBlackTreeMap<usize, Na, McK>, how: &str| -> R {
                macro_rules! both {
                    ($w:expr, $x:expr, $y:expr) => {{
                        let b: Vec<Na> = $y.iter().copied().collect();
                        let e = |e: String| format!("{e}; {how}; the contents are {a:?} and {b:?}");
                        check_po($w, $x, $y, lex(&a, &b), a == b).map_err(e)?;
                        check_po($w, $y, $x, lex(&b, &a), b == a).map_err(e)?;
                        count += 2;
                    }};
                }
                both!("List", &l, l2);
                both!("Stack", &s, s2);
                both!("Queue", &q, q2);
                both!("Vector", &v, v2);
                let (x, y) = (pairs(&m), pairs(m2));
                let (want, got) = (x.partial_cmp(&y), m.partial_cmp(m2));
                if got != want {
                    return Err(format!("RedBlackTreeMap: partial_cmp gives {got:?}, expected {want:?}; {how}; the contents are {x:?} and {y:?}"));
                }
                Ok(())
            };
            against(&l, &s, &q, &v, &m, "itself")?;
            against(&l.clone(), &s.clone(), &q.clone(), &v.clone(), &m.clone(), "its clone")?;
            for x in [Na(0), Na(2)] {
                against(&l.push_front(x), &s.push(x), &q.enqueue(x), &v.push_back(x), &m.insert(n, x), "a version with one more")?;
                // and back: the same parts are shared
                let (l2, s2) = (l.push_front(x).drop_first().unwrap(), s.push(x).pop().unwrap());
                let (v2, m2) = (v.push_back(x).drop_last().unwrap(), m.insert(n, x).remove(&n));
                against(&l2, &s2, &q, &v2, &m2, "a version with one added and removed")?;
                for i in 0..n {
                    against(&l, &s, &q, &v.set(i, x).unwrap(), &m.insert(i, x), "a version with one replaced")?;
                }
            }
            if n > 0 {
                against(&l.drop_first().unwrap(), &s.pop().unwrap(), &q.dequeue().unwrap(), &v.drop_last().unwrap(), &m.remove(&(n - 1)), "a version with one less")?;
            }
            for cb in 0..total {
                let b = decode(cb);
                let (l2, s2, q2) = (b.iter().copied().collect(), b.iter().copied().collect(), b.iter().copied().collect());
                let mut v2 = Vector::new_with_bits(2);
                v2.extend(b.iter().copied());
                let mut m2 = RedBlackTreeMap::new_with_ptr_kind();
                b.iter().copied().enumerate().for_each(|(i, x)| m2.insert_mut(i, x));
                against(&l2, &s2, &q2, &v2, &m2, "independent")?;
            }
            Ok(counted(!a.is_empty(), c[0] as u64 | 1 << 32, count))
        }),
        show: Box::new(move |c| format!("{:?} against every other and its own versions", decode(c[0]))),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let e = if q { 0 } else { 1 };
    let m = 8 + e;
    let n = 5 + e as u32;
    let vec = |bits: u8| CVec { bits, values: 2, max: m };
    let big = || if q { vec![7, 40] } else { vec![7, 40, 64, 65, 200] };
    let ht: Vec<u64> = (0..256u64).map(|k| k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58 << 58 | k % 3).collect();
    let flat: Vec<u64> = (0..256u64).map(|k| k * 7).collect();
    let coll: Vec<u64> = (0..256u64).map(|k| k % 2).collect();
    let htm = |d: u8, h: &[u64]| CHtm { degree: d, table: h.to_vec(), keys: h.len() as u32, values: 2, max: 9 };
    vec![
        suite(CList { values: 2, max: m }, CList { values: 2, max: m }, 40, 2),
        suite(CList { values: 3, max: 5 + e }, CList { values: 3, max: 5 + e }, 40, 2),
        suite(CStack { values: 2, max: m }, CStack { values: 2, max: m }, 40, 2),
        suite(CQueue { values: 2, max: m - 2 }, CQueue { values: 2, max: m - 2 }, 40, 2),
        suite(vec(1), vec(1), 40, 2),
        suite(vec(1), vec(2), 40, 1),
        suite(vec(2), vec(5), 40, 1),
        suite(CRbs { keys: n + 2, values: 1, max: 9 }, CRbs { keys: n + 2, values: 1, max: 9 }, 40, 2),
        suite(CRbm { keys: n, values: 2, max: 9 }, CRbm { keys: n, values: 2, max: 9 }, 40, 2),
        suite(htm(4, &[0, 4, 0, 1, 0]), htm(4, &[0, 4, 0, 1, 0]), 40, 2),
        suite(htm(4, &[0, 4, 0, 1, 1]), htm(64, &[0, 0, 1, 0, 1]), 40, 1),
        suite(htm(16, &[0, 0, 1, 1, 17]), htm(2, &[0, 1, 2, 1 << 63, 0]), 40, 2),
        suite(htm(64, &[0, 0, 0, 0]), htm(64, &[0, 1, 2, 3]), 40, 1),
        suite(CHts::new(64, &[0, 0, 1, 1 << 60, 0], 9), CHts::new(2, &[0, 1, 0, 2, 1], 9), 40, 2),
        suite(CHts::new(32, &[0, 32, 0, 32, 1 << 60], 9), CHts::new(8, &[0, 8, 0, 8, 1 << 63], 9), 40, 1),
        partial(if q { 3 } else { 4 }),
        irreflexive(if q { 4 } else { 5 }),
        large(CList { values: 9, max: 0 }, CList { values: 9, max: 0 }, big(), 0),
        large(CStack { values: 9, max: 0 }, CStack { values: 9, max: 0 }, vec![7], 0),
        large(CQueue { values: 9, max: 0 }, CQueue { values: 9, max: 0 }, big(), 0),
        large(vec(1), vec(1), big(), 0),
        large(vec(1), vec(2), big(), 0),
        large(vec(2), vec(5), big(), 0),
        large(CRbs { keys: 0, values: 1, max: 0 }, CRbs { keys: 0, values: 1, max: 0 }, vec![9, 33], 2),
        large(CRbm { keys: 0, values: 4, max: 0 }, CRbm { keys: 0, values: 4, max: 0 }, big(), 1),
        large(CHts::new(64, &ht, 0), CHts::new(16, &flat, 0), vec![9, 33], 2),
        large(CHts::new(4, &coll, 0), CHts::new(64, &flat, 0), vec![9], 2),
        large(htm(64, &ht), htm(16, &flat), big(), 1),
        large(htm(64, &coll), htm(2, &flat), vec![7, 20], 1),
        large(htm(32, &ht), htm(64, &coll), vec![7, 20], 1),
        mc::big(Part::Compare, EVERY, t),
    ]
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C10",
        level: "model_checking",
        rule: "states: ordered pairs of states of two collections of one type (contents and layout, reached by every history up to the bound), independent, of different branching, degree, hash values or pointer kind, or derived from one another by cloning; transitions: the comparisons (==, !=, <, <=, >, >=, partial_cmp, cmp) and hash feeds made on the real collections and judged against the reference contents; a case (evaluation) is one left-hand state with all its partners, non-trivial when it is not empty",
        assumptions: &["equality and order of the elements are lawful"],
        suites,
    })
}
