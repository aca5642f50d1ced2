//! Building from iterators, extending and the macros, against adding the items one at a time.
use archery::{ArcTK, RcK};
use crate::*;
use crate::cases::{Seen, mix};
use crate::tok::set_default_table;
use crate::universe;
use std::cell::Cell;
use std::sync::Arc;

/// How the source declares its size, n being what is left of it: every lower bound combined with
/// every upper bound. All of these are valid.
const LOWER: [&str; 5] = ["n", "0", "1", "n/2", "n-1"];
const UPPER: [&str; 8] = ["n", "None", "n+1", "n+3", "2n", "2^40", "MAX/2", "MAX"];
const PAIRS: u32 = (LOWER.len() * UPPER.len()) as u32;
const ODD: u32 = PAIRS;
const UNFUSED: u32 = PAIRS + 1;
const HINTS: u32 = PAIRS + 2;

fn show_hint(h: u32) -> String {
    match h {
        0 => "exact".into(),
        ODD => "exact only while an odd number is left, else (0, Some(MAX))".into(),
        UNFUSED => "exact, yields more after its first None".into(),
        h => format!("({}, {})", LOWER[h as usize % 5], UPPER[h as usize / 5]),
    }
}

/// A source with any valid size hint.
pub struct Hinted<T> {
    items: std::vec::IntoIter<T>,
    hint: u32,
    /// What it would yield if asked again after its end.
    more: Vec<T>,
    ended: bool,
    asked: Cell<u32>,
}

impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended && self.hint == UNFUSED {
            return self.more.pop();
        }
        let x = self.items.next();
        self.ended |= x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.asked.set(self.asked.get() + 1);
        let n = self.items.len();
        match self.hint {
            ODD if n % 2 == 0 => (0, Some(usize::MAX)),
            ODD | UNFUSED => (n, Some(n)),
            h => {
                let lower = [n, 0, n.min(1), n / 2, n.saturating_sub(1)][h as usize % 5];
                let upper = [Some(n), None, Some(n + 1), Some(n + 3), Some(2 * n), Some(1 << 40), Some(usize::MAX / 2), Some(usize::MAX)][h as usize / 5];
                (lower, upper)
            }
        }
    }
}

fn hinted<T>(items: Vec<T>, hint: u32, more: Vec<T>) -> Hinted<T> {
    Hinted { items: items.into_iter(), hint, more, ended: false, asked: Cell::new(0) }
}

pub trait Build: Fam {
    type It;
    fn item(&self, v: u32, f: &mut Fresh) -> (Self::It, Item);
    fn collect<P: PK>(&self, src: Hinted<Self::It>) -> Self::S<P>;
    /// One at a time.
    fn by_hand<P: PK>(&self, items: Vec<Self::It>) -> Self::S<P>;
    fn keyed(&self) -> bool {
        true
    }
    fn extend<P: PK>(&self, _s: &mut Self::S<P>, _src: Hinted<Self::It>) -> bool {
        false
    }
}

macro_rules! seq {
    ($f:ty, $front:expr, |$s:ident, $x:ident| $add:expr $(, $ext:expr)?) => {
        impl Build for $f {
            type It = Tok;
            fn item(&self, _v: u32, f: &mut Fresh) -> (Tok, Item) {
                let t = f.tok();
                let x = t.ix();
                (t, (x, NIL))
            }
            fn collect<P: PK>(&self, src: Hinted<Tok>) -> Self::S<P> {
                src.collect()
            }
            fn by_hand<P: PK>(&self, mut items: Vec<Tok>) -> Self::S<P> {
                let mut $s = self.empty::<P>();
                if $front {
                    items.reverse();
                }
                for $x in items {
                    $add;
                }
                $s
            }
            fn keyed(&self) -> bool {
                false
            }
            $(fn extend<P: PK>(&self, s: &mut Self::S<P>, src: Hinted<Tok>) -> bool {
                let f: fn(&mut Self::S<P>, Hinted<Tok>) = $ext;
                f(s, src);
                true
            })?
        }
    };
}
seq!(ListF, true, |s, x| s.push_front_mut(x));
seq!(StackF, true, |s, x| s.push_mut(x));
seq!(QueueF, false, |s, x| s.enqueue_mut(x));
seq!(VectorF, false, |s, x| s.push_back_mut(x), |s, src| s.extend(src));

macro_rules! map {
    ($f:ty) => {
        impl Build for $f {
            type It = (Key, Tok);
            fn item(&self, v: u32, f: &mut Fresh) -> ((Key, Tok), Item) {
                let (k, t) = (Key::new(v), f.tok());
                let x = (k.ix(), t.ix());
                ((k, t), x)
            }
            fn collect<P: PK>(&self, src: Hinted<(Key, Tok)>) -> Self::S<P> {
                src.collect()
            }
            fn by_hand<P: PK>(&self, items: Vec<(Key, Tok)>) -> Self::S<P> {
                let mut s = self.empty::<P>();
                for (k, v) in items {
                    s.insert_mut(k, v);
                }
                s
            }
        }
    };
}
macro_rules! set {
    ($f:ty) => {
        impl Build for $f {
            type It = Key;
            fn item(&self, v: u32, _f: &mut Fresh) -> (Key, Item) {
                let k = Key::new(v);
                let x = k.ix();
                (k, (x, NIL))
            }
            fn collect<P: PK>(&self, src: Hinted<Key>) -> Self::S<P> {
                src.collect()
            }
            fn by_hand<P: PK>(&self, items: Vec<Key>) -> Self::S<P> {
                let mut s = self.empty::<P>();
                for k in items {
                    s.insert_mut(k);
                }
                s
            }
        }
    };
}
map!(HtmF);
map!(RbmF);
set!(HtsF);
set!(RbsF);

fn model<F: Build>(fam: &F, items: &[Item]) -> Vec<Item> {
    let mut m: Vec<Item> = vec![];
    for i in items {
        if !fam.keyed() {
            m.push(*i);
            continue;
        }
        match m.binary_search_by(|x| x.0.v.cmp(&i.0.v)) {
            Ok(p) => m[p] = *i,
            Err(p) => m.insert(p, *i),
        }
    }
    m
}

/// Everything one can do next works as on a structure with these contents.
fn behaves<F: Build, P: PK>(fam: &F, s: &F::S<P>, m: &[Item], later: bool) -> R<u64> {
    fam.observe(s, m)?;
    let mut n = 0;
    if later {
        let mut ops = vec![];
        fam.ops(m, &mut ops);
        for op in ops {
            let (mut t, mut mt) = (s.clone(), m.to_vec());
            fam.mutate(&mut t, &mut mt, op, &mut Fresh(500)).and_then(|_| fam.observe(&t, &mt)).map_err(|e| format!("then {}: {e}", fam.show(op)))?;
            n += 1;
        }
        fam.observe(s, m)?;
    }
    Ok(n)
}

fn collect<F: Build, P: PK>(fam: &F, vs: &[u32], hint: u32, later: bool) -> R<u64> {
    let mut f = Fresh(0);
    let (its, items): (Vec<F::It>, Vec<Item>) = vs.iter().map(|v| fam.item(*v, &mut f)).unzip();
    let more = (7..10).map(|v| fam.item(v, &mut f).0).collect();
    let s: F::S<P> = fam.collect(hinted(its, hint, more));
    let m = model(fam, &items);
    let n = behaves::<F, P>(fam, &s, &m, later)?;
    let mut f = Fresh(0);
    let t: F::S<P> = fam.by_hand(vs.iter().map(|v| fam.item(*v, &mut f).0).collect());
    if !fam.eq(&s, &t) || !fam.eq(&t, &s) {
        // Elements are equal by value, and both use the same values.
        return Err("the result differs from adding the items one at a time".into());
    }
    if fam.size(&s) != fam.size(&t) {
        return Err("the size differs from adding the items one at a time".into());
    }
    drop((s, t));
    if universe::live_toks() != 0 || universe::live_blocks() != 0 {
        return Err(format!("{} elements and {} nodes outlive the structure", universe::live_toks(), universe::live_blocks()));
    }
    Ok(n)
}

fn prepare<F: Build>(_f: &F, table: &Option<Vec<u64>>) {
    if let Some(t) = table {
        set_default_table(t);
    }
}

pub fn every_sequence(alphabet: u32, len: usize, visit: &mut dyn FnMut(&[u32]) -> bool) -> bool {
    for n in 0..=len {
        let mut v = vec![0u32; n];
        loop {
            if !visit(&v) {
                return false;
            }
            let mut i = n;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                v[i] += 1;
                if v[i] < alphabet {
                    break;
                }
                v[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if n == 0 || i == usize::MAX {
                break;
            }
        }
    }
    true
}

/// Every sequence of items up to a length, every way to declare its size.
pub fn collecting<F: Build>(fam: F, table: Option<Vec<u64>>, alphabet: u32, len: usize) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let f2 = fam.clone();
    Box::new(Cases {
        name: format!("collecting {}", fam.name()),
        bound: format!("every sequence of up to {len} items{}, {} kinds of size hint, followed by every operation; and over the shipping pointer kinds", if alphabet > 1 { format!(" with {alphabet} keys") } else { String::new() }, HINTS),
        generate: Box::new(move |visit| {
            every_sequence(alphabet, len, &mut |v| (0..HINTS).all(|h| visit(&[&[h], v].concat())));
        }),
        run: Box::new(move |c| {
            prepare(&*f2, &table);
            let n = collect::<F, McK>(&*f2, &c[1..], c[0], true)?;
            collect::<F, ArcTK>(&*f2, &c[1..], c[0], false).map_err(|e| format!("over ArcTK: {e}"))?;
            collect::<F, RcK>(&*f2, &c[1..], c[0], false).map_err(|e| format!("over RcK: {e}"))?;
            let mut s = Seen::new(c.len() > 1, c.iter().fold(5, |h, x| mix(h, *x as u64)));
            s.extra = vec![("operations_on_the_result", n)];
            Ok(s)
        }),
        show: Box::new(move |c| format!("{} from {:?}, size hint {}", fam.name(), &c[1..], show_hint(c[0]))),
    })
}

/// Longer sources.
pub fn long<F: Build>(fam: F, table: Option<Vec<u64>>, sizes: Vec<u32>) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let f2 = fam.clone();
    let s2 = sizes.clone();
    Box::new(Cases {
        name: format!("collecting many into {}", fam.name()),
        bound: format!("{s2:?} items (ascending, descending, repeated), {} kinds of size hint", HINTS),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for way in 0..3 {
                    for h in 0..HINTS {
                        if !visit(&[*n, way, h]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            prepare(&*f2, &table);
            let n = c[0];
            let vs: Vec<u32> = (0..n).map(|i| match c[1] {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 7) % (n / 2 + 1),
            }).collect();
            collect::<F, McK>(&*f2, &vs, c[2], n <= 70)?;
            Ok(Seen::new(true, mix(mix(mix(9, c[0] as u64), c[1] as u64), c[2] as u64)))
        }),
        show: Box::new(move |c| format!("{} from {} items ({}), size hint {}", fam.name(), c[0], ["ascending", "descending", "with repetitions"][c[1] as usize], show_hint(c[2]))),
    })
}

/// Vector::extend on every shape, also while a clone shares it.
pub fn extending(fam: VectorF, depth: usize, len: usize) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let (f1, f2) = (fam.clone(), fam.clone());
    let sh = Shapes::new();
    Box::new(Cases {
        name: format!("extending {}", fam.name()),
        bound: format!("every shape within {depth} operations, shared with a clone or not, extended by 0 to {len} items, {} kinds of size hint, followed by every operation", HINTS),
        generate: Box::new(move |visit| {
            for h in sh.get(|| reach(&*f1, depth, &|_| true)) {
                for n in 0..=len as u32 {
                    for hint in 0..HINTS {
                        for shared in 0..2 {
                            if !visit(&pack(h, &[n, hint, shared])) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let (mut s, mut m) = rebuild::<VectorF, McK>(&f2, &h)?;
            let [n, hint, shared] = r else { return Ok(Seen::new(false, 0)) };
            let (t, mt) = if *shared == 1 { (Some(s.clone()), m.clone()) } else { (None, vec![]) };
            let mut f = Fresh(100);
            let (its, items): (Vec<Tok>, Vec<Item>) = (0..*n).map(|v| f2.item(v, &mut f)).unzip();
            let more = (7..10).map(|v| f2.item(v, &mut f).0).collect();
            f2.extend(&mut s, hinted(its, *hint, more));
            m.extend(items);
            behaves::<_, McK>(&*f2, &s, &m, true)?;
            if let Some(t) = &t {
                f2.observe(t, &mt).map_err(|e| format!("the clone taken before: {e}"))?;
            }
            drop((s, t));
            if universe::live_toks() != 0 || universe::live_blocks() != 0 {
                return Err("something outlives the vectors".into());
            }
            Ok(Seen::new(*n > 0, c.iter().fold(6, |k, x| mix(k, *x as u64))))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            match r {
                [n, hint, s] => format!("{}, extended by {n} items, size hint {}{}", show_hist(&*fam, &h), show_hint(*hint), if *s == 1 { ", while a clone shares it" } else { "" }),
                _ => show_hist(&*fam, &h),
            }
        }),
    })
}
