use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use mc_core::universe::{self, Counters};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Judges the work of one step against its limit.
struct Meter {
    steps: u64,
    worst: u64,
}

/// The tightest margin seen anywhere (per mille of the limit), for calibration.
static WORST: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
struct Lim {
    /// All of it: nodes made and freed, counts changed, nodes read, comparisons, hashes, copies.
    work: u64,
    alloc: u64,
    cmp: u64,
    hash: u64,
}

impl Lim {
    fn new(work: u64, alloc: u64, cmp: u64, hash: u64) -> Lim {
        Lim { work, alloc, cmp, hash }
    }
}

const CONST: Lim = Lim { work: 48, alloc: 8, cmp: 0, hash: 0 };

impl Meter {
    fn run<T>(&mut self, what: impl Fn() -> String, lim: Lim, f: impl FnOnce() -> T) -> R<T> {
        let b = universe::counters();
        let r = f();
        let c = universe::counters().since(&b);
        self.judge(what, lim, c)?;
        Ok(r)
    }
    fn judge(&mut self, what: impl Fn() -> String, lim: Lim, c: Counters) -> R {
        self.steps += 1;
        let m = c.work() * 1000 / lim.work.max(1);
        WORST.fetch_max(m, Relaxed);
        if m > 300 && std::env::var_os("MC_CAL").is_some() {
            eprintln!("{}: work {} of {}", what(), c.work(), lim.work);
        }
        self.worst = self.worst.max(m);
        for (name, got, max) in [("steps of work", c.work(), lim.work), ("node allocations", c.alloc, lim.alloc), ("key comparisons", c.cmp, lim.cmp), ("key hashes", c.hash, lim.hash)] {
            if got > max {
                return Err(format!("{} takes {got} {name}, its documented complexity allows at most {max} here ({c:?})", what()));
            }
        }
        Ok(())
    }
}

trait Costs: Fam {
    fn limit(&self, op: u16, n: u64, shared: bool) -> Lim;
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R;
}

fn log2(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

fn iterate<I: Iterator>(it: R<I>, n: u64, step: Lim, mt: &mut Meter) -> R {
    let mut it = it?;
    let b = universe::counters();
    let mut left = n;
    loop {
        let more = mt.run(|| "an iterator step".into(), step, || it.next().is_some())?;
        if !more {
            break;
        }
        if left == 0 {
            return Err("an iterator yields too much".into());
        }
        left -= 1;
    }
    mt.judge(|| "a full iteration".into(), Lim::new(64 * n + 100, n + 4, 0, 0), universe::counters().since(&b))
}

impl Costs for ListF {
    fn limit(&self, op: u16, n: u64, _shared: bool) -> Lim {
        if op == REVERSE { Lim::new(32 * n + 48, 2 * n + 8, 0, 0) } else { CONST }
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        mt.run(|| "first()".into(), CONST, || { s.first(); })?;
        mt.run(|| "last()".into(), CONST, || { s.last(); })?;
        mt.run(|| "len()".into(), CONST, || { s.len(); s.is_empty(); })?;
        let it = mt.run(|| "iter()".into(), CONST, || s.iter());
        iterate(it, m.len() as u64, CONST, mt)
    }
}
impl Costs for StackF {
    fn limit(&self, _op: u16, _n: u64, _shared: bool) -> Lim {
        CONST
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        mt.run(|| "peek()".into(), CONST, || { s.peek(); })?;
        mt.run(|| "size()".into(), CONST, || { s.size(); s.is_empty(); })?;
        let it = mt.run(|| "iter()".into(), CONST, || s.iter());
        iterate(it, m.len() as u64, CONST, mt)
    }
}
impl Costs for QueueF {
    fn limit(&self, op: u16, n: u64, _shared: bool) -> Lim {
        if op == POP { Lim::new(32 * n + 64, 2 * n + 8, 0, 0) } else { CONST }
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        mt.run(|| "peek()".into(), CONST, || { s.peek(); })?;
        mt.run(|| "len()".into(), CONST, || { s.len(); s.is_empty(); })?;
        let it = mt.run(|| "iter()".into(), CONST, || s.iter());
        let n = m.len() as u64;
        iterate(it, n, Lim::new(32 * n + 48, 8, 0, 0), mt)
    }
}
fn levels(v: &VectorF, n: u64) -> u64 {
    log2(n.max(1)).div_ceil(v.bits as u64) + 1
}
impl Costs for VectorF {
    fn limit(&self, op: u16, n: u64, _shared: bool) -> Lim {
        let per = (2u64 << self.bits) + 16;
        let k = if op == EXTEND { 2 } else { 1 };
        Lim::new(k * per * (levels(self, n) + 2) + 48, k * 3 * (levels(self, n) + 3), 0, 0)
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        let n = m.len();
        let l = Lim::new(8 * levels(self, n as u64) + 16, 0, 0, 0);
        for i in spread(n as u32) {
            let i = i as usize;
            mt.run(|| format!("get({i})"), l, || { s.get(i); })?;
            if i < n {
                mt.run(|| format!("[{i}]"), l, || { let _ = &s[i]; })?;
            }
        }
        mt.run(|| "first()".into(), l, || { s.first(); })?;
        mt.run(|| "last()".into(), l, || { s.last(); })?;
        mt.run(|| "len()".into(), CONST, || { s.len(); s.is_empty(); })?;
        let it = mt.run(|| "iter()".into(), CONST, || s.iter());
        iterate(it, n as u64, Lim::new(16 * levels(self, n as u64) + 32, 8, 0, 0), mt)?;
        let it = mt.run(|| "iter().rev()".into(), CONST, || s.iter().rev());
        iterate(it, n as u64, Lim::new(16 * levels(self, n as u64) + 32, 8, 0, 0), mt)
    }
}

/// Entries that share their full hash with a key, at most.
fn bucket(t: &TableHash) -> u64 {
    let mut v: Vec<u64> = t.0.to_vec();
    v.sort();
    v.chunk_by(|a, b| a == b).map(|c| c.len() as u64).max().unwrap_or(1)
}
/// How deep the trie can get, from the hashes: where the two closest of them part.
fn depth(t: &TableHash, degree: u8) -> u64 {
    let s = degree.trailing_zeros();
    let mut v: Vec<u64> = t.0.iter().map(|h| h.reverse_bits()).collect();
    v.sort();
    v.dedup();
    // Low bits are used first: neighbours in bit-reversed order share the longest low-order part.
    let common = v.windows(2).map(|w| (w[0] ^ w[1]).leading_zeros()).max().unwrap_or(0);
    (common / s + 2) as u64
}
fn hash_lims(t: &TableHash, degree: u8) -> (Lim, Lim) {
    let d = depth(t, degree);
    // Entries with the same hash hang at the end of a path through all levels.
    let (b, tail) = if bucket(t) > 1 { (bucket(t), 64u64.div_ceil(degree.trailing_zeros() as u64).saturating_sub(d)) } else { (0, 0) };
    let per = 2 * degree as u64 + 16;
    (Lim::new(per * (d + 1) + 24 * tail + 16 * b + 64, 3 * (d + tail) + 8 + b, 0, 4), Lim::new(8 * (d + tail) + 6 * b + 24, 0, 0, 3))
}

impl Costs for HtmF {
    fn limit(&self, _op: u16, _n: u64, _shared: bool) -> Lim {
        hash_lims(&self.table, self.degree).0
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        let l = hash_lims(&self.table, self.degree).1;
        for k in 0..self.keys {
            let p = Key::new(k);
            mt.run(|| format!("get({k})"), l, || { s.get(&p); })?;
            mt.run(|| format!("get_key_value({k})"), l, || { s.get_key_value(&p); })?;
            mt.run(|| format!("contains_key({k})"), l, || s.contains_key(&p))?;
        }
        mt.run(|| "size()".into(), CONST, || { s.size(); s.is_empty(); })?;
        let step = Lim { cmp: 0, hash: 0, alloc: 8, ..l };
        let n = m.len() as u64;
        let c = Lim { alloc: 80, work: 160, ..CONST };
        iterate(mt.run(|| "iter()".into(), c, || s.iter()), n, step, mt)?;
        iterate(mt.run(|| "keys()".into(), c, || s.keys()), n, step, mt)?;
        iterate(mt.run(|| "values()".into(), c, || s.values()), n, step, mt)
    }
}
impl Costs for HtsF {
    fn limit(&self, _op: u16, _n: u64, _shared: bool) -> Lim {
        hash_lims(&self.table, self.degree).0
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        let l = hash_lims(&self.table, self.degree).1;
        for k in 0..self.keys {
            let p = Key::new(k);
            mt.run(|| format!("get({k})"), l, || { s.get(&p); })?;
            mt.run(|| format!("contains({k})"), l, || s.contains(&p))?;
        }
        mt.run(|| "size()".into(), CONST, || { s.size(); s.is_empty(); })?;
        let step = Lim { cmp: 0, hash: 0, alloc: 8, ..l };
        iterate(mt.run(|| "iter()".into(), Lim { work: 160, ..CONST }, || s.iter()), m.len() as u64, step, mt)
    }
}

fn tree_limit(n: u64) -> Lim {
    let l = log2(n + 1);
    Lim::new(60 * l + 80, 8 * l + 8, 8 * l + 8, 0)
}
macro_rules! tree_reads {
    ($s:ident, $m:ident, $mt:ident, $has:ident, [$($f:ident),*]) => {{
        let n = $m.len() as u64;
        let h = log2(n + 1);
        let l = Lim::new(10 * h + 24, 0, 4 * h + 4, 0);
        let mut probes: Vec<u32> = $m.iter().step_by(($m.len() / 200).max(1)).map(|i| i.0.v).collect();
        probes.extend((0..=$m.len()).step_by(($m.len() / 200).max(1)).filter_map(|g| gap_key($m, g)));
        for k in probes {
            let p = Key::new(k);
            $mt.run(|| format!("get({k})"), l, || { $s.get(&p); })?;
            $mt.run(|| format!("contains({k})"), l, || $s.$has(&p))?;
            for r in 0..2 {
                let w = Lim::new(40 * h + 60, 16, 10 * h + 12, 0);
                $mt.run(|| format!("range with a bound at {k}"), w, || {
                    if r == 0 { $s.range::<Key, _>(&p..).next(); } else { $s.range::<Key, _>(..&p).next_back(); }
                })?;
            }
        }
        $mt.run(|| "first()".into(), l, || { $s.first(); })?;
        $mt.run(|| "last()".into(), l, || { $s.last(); })?;
        $mt.run(|| "size()".into(), CONST, || { $s.size(); $s.is_empty(); })?;
        let c = Lim::new(16 * h + 60, 16, 0, 0);
        $(
            iterate($mt.run(|| format!("{}()", stringify!($f)), c, || $s.$f()), n, c, $mt)?;
            iterate($mt.run(|| format!("{}().rev()", stringify!($f)), c, || $s.$f().rev()), n, c, $mt)?;
        )*
        Ok(())
    }};
}
impl Costs for RbmF {
    fn limit(&self, _op: u16, n: u64, _shared: bool) -> Lim {
        tree_limit(n)
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        tree_reads!(s, m, mt, contains_key, [iter, keys, values])
    }
}
impl Costs for RbsF {
    fn limit(&self, _op: u16, n: u64, _shared: bool) -> Lim {
        tree_limit(n)
    }
    fn reads<P: PK>(&self, s: &Self::S<P>, m: &[Item], mt: &mut Meter) -> R {
        tree_reads!(s, m, mt, contains, [iter])
    }
}

const MODES: [&str; 4] = ["in place, sole owner", "in place on a clone", "persistent forms", "reads"];

fn one<F: Costs>(fam: &F, h: &[u16], mode: u32, probes: &dyn Fn(&[Item]) -> Vec<u16>) -> R<(Meter, usize)> {
    let mut f = Fresh(0);
    let mut s = fam.empty::<McK>();
    let mut m = vec![];
    for op in h {
        fam.mutate(&mut s, &mut m, *op, &mut f)?;
    }
    let mut mt = Meter { steps: 0, worst: 0 };
    let n = m.len();
    let clones = |s: &F::S<McK>, mt: &mut Meter| mt.run(|| "clone()".into(), CONST, || s.clone());
    match mode {
        0 => {
            for op in probes(&m) {
                // A removal of the last few elements changes what there is to address.
                let before = m.len() as u64;
                let mut now = vec![];
                fam.ops(&m, &mut now);
                if op & 0xf000 != 0 && !now.contains(&op) {
                    continue;
                }
                let lim = fam.limit(op, before, false);
                mt.run(|| format!("{} on a sole owner of {before}", fam.show(op)), lim, || fam.mutate(&mut s, &mut m, op, &mut f))??;
            }
        }
        1 => {
            for op in probes(&m) {
                let mut c = clones(&s, &mut mt)?;
                let mut mc = m.clone();
                let lim = fam.limit(op, n as u64, true);
                mt.run(|| format!("{} on a clone of {n}", fam.show(op)), lim, || fam.mutate(&mut c, &mut mc, op, &mut f))??;
                mt.run(|| format!("dropping the clone after {}", fam.show(op)), lim, || drop(c))?;
            }
        }
        2 => {
            for op in probes(&m) {
                if !fam.has_pers(op) {
                    continue;
                }
                let mut mc = m.clone();
                let lim = fam.limit(op, n as u64, true);
                let c = mt.run(|| format!("persistent {} on {n}", fam.show(op)), lim, || fam.pers(&s, &mut mc, op, &mut f))??;
                mt.run(|| format!("dropping the result of {}", fam.show(op)), lim, || drop(c))?;
                // v = v.op(), the old version dropped at once
                let old = clones(&s, &mut mt)?;
                mt.run(|| "dropping a clone".into(), CONST, || drop(old))?;
            }
        }
        _ => {
            fam.reads(&s, &m, &mut mt)?;
            let mut c = clones(&s, &mut mt)?;
            fam.reads(&c, &m, &mut mt).map_err(|e| format!("on a clone: {e}"))?;
            // Overwriting a version that owns nothing of its own.
            mt.run(|| format!("clone_from() over a clone of {n}"), CONST, || c.clone_from(&s))?;
            let mut c = fam.empty::<McK>();
            mt.run(|| format!("clone_from() of {n} over an empty one"), CONST, || c.clone_from(&s))?;
            mt.run(|| format!("dropping what clone_from() of {n} made"), CONST, || drop(c))?;
        }
    }
    Ok((mt, n))
}

fn show_case<F: Fam>(fam: &F, n: u32, mode: u32) -> String {
    format!("{} of {n}: {}", fam.name(), MODES[mode as usize])
}

fn counted(nontrivial: bool, key: u64, mt: &Meter) -> Seen {
    let mut s = Seen::new(nontrivial, key);
    s.extra.push(("transitions", mt.steps));
    s.extra.push(("states", 1));
    s.extra.push(("traces_validated_against_impl", 1));
    s
}

fn ladder12<F: Costs>(fam: F, sizes: Vec<u32>, build: fn(u32) -> Vec<u16>, probes: fn(&[Item]) -> Vec<u16>) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let f2 = fam.clone();
    let name: String = fam.name().chars().take(40).collect();
    Box::new(Cases {
        name: format!("cost ladder {name}"),
        bound: format!("{sizes:?} entries; every listed position and operation in place, on a clone, persistent; every read"),
        generate: Box::new(move |visit| {
            for n in &sizes {
                for mode in 0..4 {
                    if !visit(&[*n, mode]) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (mt, n) = one(&*fam, &build(c[0]), c[1], &probes)?;
            Ok(counted(n > 0, mix(c[0] as u64, c[1] as u64), &mt))
        }),
        show: Box::new(move |c| show_case(&*f2, c[0], c[1]).chars().take(200).collect()),
    })
}

/// The same on every shape of a small space.
fn shapes12<F: Costs>(fam: F, depth: usize) -> Box<dyn Suite> {
    let fam = Arc::new(fam);
    let (f1, f2, f3) = (fam.clone(), fam.clone(), fam);
    let sh = Shapes::new();
    Box::new(Cases {
        name: format!("costs on every shape of {}", f1.name()),
        bound: format!("every shape within {depth} operations, every operation in place, on a clone, persistent; every read"),
        generate: Box::new(move |visit| {
            for h in sh.get(|| reach(&*f1, depth, &|_| true)) {
                for mode in 0..4 {
                    if !visit(&pack(h, &[mode])) {
                        return;
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let Some(mode) = r.first() else { return Ok(Seen::new(false, 0)) };
            let ops = |m: &[Item]| {
                let mut v = vec![];
                f2.ops(m, &mut v);
                v
            };
            let (mt, n) = one(&*f2, &h, *mode, &ops)?;
            Ok(counted(n > 0, h.iter().fold(mix(5, *mode as u64), |k, o| mix(k, *o as u64)), &mt))
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}: {}", show_hist(&*f3, &h), r.first().map(|m| MODES[*m as usize]).unwrap_or_default())
        }),
    })
}

/// All sequences of operations by a sole owner of a queue: the total work is linear.
fn queue_words(len: u32) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "amortised cost of queue histories".into(),
        bound: format!("all words of enqueue and dequeue of length {len}, by a sole owner, in place and persistent; each after 0 to 3 dozen enqueues and repeated 20 times"),
        generate: Box::new(move |visit| {
            for w in 0..1u32 << len {
                for form in 0..2 {
                    for pre in [0u32, 36] {
                        if !visit(&[w, form, pre]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let fam = QueueF { max: usize::MAX };
            let mut f = Fresh(0);
            let mut s = fam.empty::<McK>();
            let mut m = vec![];
            let mut mt = Meter { steps: 0, worst: 0 };
            let b = universe::counters();
            let ops: Vec<u16> = (0..c[2]).map(|_| PUSH).chain((0..20).flat_map(|_| (0..len).map(|i| if c[0] >> i & 1 == 1 { POP } else { PUSH }))).collect();
            for (i, op) in ops.iter().enumerate() {
                if c[1] == 0 {
                    fam.mutate(&mut s, &mut m, *op, &mut f)?;
                } else if let Some(t) = fam.pers(&s, &mut m, *op, &mut f)? {
                    s = t;
                }
                let k = i as u64 + 1;
                mt.judge(|| format!("the first {k} operations together"), Lim::new(48 * k + 64, 4 * k + 8, 0, 0), universe::counters().since(&b))?;
            }
            Ok(counted(true, mix(c[0] as u64, mix(c[1] as u64, c[2] as u64)), &mt))
        }),
        show: Box::new(move |c| format!("{} enqueues, then 20 times {}{}", c[2], (0..len).map(|i| if c[0] >> i & 1 == 1 { 'D' } else { 'E' }).collect::<String>(), if c[1] == 1 { ", persistent" } else { "" })),
    })
}

fn seq_probes(m: &[Item]) -> Vec<u16> {
    let _ = m;
    vec![PUSH, POP, POP, PUSH]
}
fn list_probes(_: &[Item]) -> Vec<u16> {
    vec![PUSH, POP, REVERSE, POP, PUSH, REVERSE, PUSH]
}
fn vec_probes12(m: &[Item]) -> Vec<u16> {
    let n = m.len() as u32;
    let mut v = vec![PUSH, POP, POP, PUSH, EXTEND, POP, POP];
    let step = (n / 40).max(1);
    for i in spread(n).into_iter().chain((0..n).step_by(step as usize).map(|i| i as u16)) {
        v.extend([SET + i, GETM + i]);
        if (i as u32) < n {
            v.push(IDXM + i);
        }
    }
    v.extend([PUSH; 4]);
    v.extend([POP; 8]);
    v
}
fn tree_probes12(m: &[Item]) -> Vec<u16> {
    let n = m.len() as u32;
    let mut v = vec![];
    for i in (0..n).step_by((n as usize / 60).max(1)).chain([n - 1]) {
        let i = i as u16;
        v.extend([INS + i, REM + i, REM + i, INS + i, REP + i, REMX + i, GET + i, GETX + i]);
    }
    v.retain(|o| m.len() < 4000 || o & 0xf000 != INS);
    v
}
fn tree_probes12_set(m: &[Item]) -> Vec<u16> {
    tree_probes12(m).into_iter().filter(|o| !matches!(o & 0xf000, GET | GETX)).collect()
}
fn hash_probes12(m: &[Item]) -> Vec<u16> {
    let n = m.len() as u16 + 1;
    (0..n).step_by((n as usize / 300).max(1)).chain([n - 1]).flat_map(|i| [INS + i, REM + i, INS + i, GET + i, REM + i, REM + i, GET + i, INS + i]).collect()
}
fn hash_probes12_set(m: &[Item]) -> Vec<u16> {
    hash_probes12(m).into_iter().filter(|o| o & 0xf000 != GET).collect()
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let j = Judge { sharing: true, ..Default::default() };
    let flat = |n: u64| -> Vec<u64> { (0..n).map(|i| { let a = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15); (a ^ a >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ a >> 32 }).collect() };
    let (vf, tf) = (|bits: u8| VectorF { bits, max: 1 << 20, indices: vec![] }, || RbmF { max: 1 << 20, getm: true, replace: true });
    let sizes = |big: &[u32]| -> Vec<u32> { if q { [&[1, 2, 5, 16, 100], big].concat() } else { (1..40).chain([64, 100, 300, 700]).chain(big.iter().copied()).collect() } };
    let hm = |d: u8, h: &[u64]| HtmF::new(d, h, 1 << 20);
    let coll: Vec<u64> = flat(300).into_iter().flat_map(|h| [h, h, h]).collect();
    let mut v = vec![
        ladder12(ListF { max: 1 << 20 }, sizes(&[1000, 3000]), pushes, list_probes),
        ladder12(StackF { max: 1 << 20 }, sizes(&[1000, 3000]), pushes, seq_probes),
        ladder12(QueueF { max: 1 << 20 }, sizes(&[1000, 3000]), queue_build, seq_probes),
        // All of it waiting in the incoming list.
        ladder12(QueueF { max: 1 << 20 }, sizes(&[1000, 3000]), pushes, seq_probes),
        ladder12(vf(1), sizes(&[1023, 1024, 1025, 2049]), pushes, vec_probes12),
        ladder12(vf(2), sizes(&[1023, 1024, 1025, 2100]), pushes, vec_probes12),
        ladder12(vf(5), sizes(&[1023, 1024, 1025, 1057, 2300]), pushes, vec_probes12),
        // A node of a thousand children: what costs something per child is seen here.
        ladder12(vf(10), sizes(&[1023, 1024, 1025, 2100]), pushes, vec_probes12),
        ladder12(tf(), sizes(&[1021, 1022, 1023]), tree_build, tree_probes12),
        ladder12(RbsF { max: 1 << 20, replace: true }, sizes(&[1021, 1022, 1023]), tree_build, tree_probes12_set),
        ladder12(hm(64, &flat(2001)), vec![10, 100, 2000], hash_build, hash_probes12),
        ladder12(hm(64, &coll), vec![10, 100, 898], hash_build, hash_probes12),
        ladder12(hm(16, &flat(1001)), vec![10, 100, 1000], hash_build, hash_probes12),
        ladder12(hm(2, &flat(1001)), vec![10, 100, 1000], hash_build, hash_probes12),
        ladder12(hm(4, &coll), vec![10, 100, 898], hash_build, hash_probes12),
        ladder12(HtsF::new(64, &flat(2001), 1 << 20), vec![10, 100, 2000], hash_build, hash_probes12_set),
        ladder12(HtsF::new(8, &coll, 1 << 20), vec![10, 898], hash_build, hash_probes12_set),
        shapes12(RbmF { max: if q { 8 } else { 10 }, getm: true, replace: true }, 20),
        shapes12(VectorF { bits: 1, max: if q { 20 } else { 70 }, indices: vec![] }, 80),
        shapes12(QueueF { max: if q { 10 } else { 16 } }, 40),
        queue_words(if q { 10 } else { 14 }),
    ];
    // Where sharing is observable through ptr_eq.
    v.extend(family_worlds("sharing of", t, j).into_iter().chain(family_ladders("sharing of", t, j)).filter(|s| s.name().contains("Map") || s.name().contains("Set")));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C12",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of coexisting versions, and structures of a ladder of sizes; transitions: one operation on the real code, after which its node allocations, count updates, node reads, comparisons and hashes are compared with what its documented complexity allows, and ptr_eq with the sharing the model prescribes; a case (evaluation) is one structure with every operation in one mode, non-trivial when it is not empty",
        assumptions: &["work is observed at the structure's parameters (pointer kind, keys, hash builder); constant factors leave room for other implementations of the same complexity"],
        suites,
    })
}
