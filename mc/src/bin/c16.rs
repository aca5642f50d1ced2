//! Panics in user code: every callback of every operation, one at a time.
use mc::ser::*;
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::{Caught, Tier, guard};
use mc_core::tok::set_default_table;
use mc_core::universe;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::hash::{DefaultHasher, Hash};
use std::sync::Arc;

/// A source iterator that can panic in `next`.
struct Src<T>(std::vec::IntoIter<T>);

impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        universe::tick(universe::K_ITER, u32::MAX);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn src<T>(v: Vec<T>) -> Src<T> {
    Src(v.into_iter())
}
fn toks(n: u32) -> Vec<Tok> {
    (0..n).map(|i| Tok::new(i % 3)).collect()
}
/// Keys with repetitions.
fn keys(n: u32) -> Vec<Key> {
    (0..n).map(|i| Key::new([2, 0, 1, 2, 3, 0, 1, 4][i as usize % 8])).collect()
}
fn entries(n: u32) -> Vec<(Key, Tok)> {
    keys(n).into_iter().zip(toks(n)).collect()
}

const OBSERVE: u32 = 0;
const EQ: u32 = 1;
const ORD: u32 = 2;
const HASH: u32 = 3;
const FMT: u32 = 4;
const COLLECT: u32 = 5;
const EXTENDS: u32 = 6;
const COPY: u32 = 7;
const RELATIONS: u32 = 8;
const RANGES: u32 = 9;
const CLONEFROM: u32 = 10;
const USES: [&str; 11] = ["all reads", "== and !=", "comparing", "hashing", "display and debug", "collecting", "extending a clone", "collecting clones of its elements", "subset, superset and disjoint", "range queries", "clone_from onto a clone"];

trait Uses: Fam {
    /// Does something that leaves `s` and `t` alone.
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool>;
}

macro_rules! common {
    ($self:ident, $u:ident, $s:ident, $t:ident, $m:ident, $ty:ty, $items:expr) => {
        match $u {
            OBSERVE => {
                $self.observe($s, $m)?;
                return Ok(true);
            }
            EQ => {
                let _ = ($s == $t, $s != $t, $s == $s);
                return Ok(true);
            }
            FMT => {
                let _ = format!("{:?} {:#?} {}", $s, $t, $s);
                return Ok(true);
            }
            COLLECT => {
                for n in [1, 4, 8] {
                    let x: $ty = src($items(n)).collect();
                    drop(x);
                }
                return Ok(true);
            }
            CLONEFROM => {
                let mut x = $t.clone();
                x.clone_from($s);
                drop(x);
                return Ok(true);
            }
            _ => {}
        }
    };
}
macro_rules! ordered {
    ($u:ident, $s:ident, $t:ident) => {
        match $u {
            ORD => {
                let _ = ($s.cmp($t), $s.partial_cmp($t), $s < $t, $t >= $s, $s.cmp($s));
                return Ok(true);
            }
            HASH => {
                let mut h = DefaultHasher::new();
                $s.hash(&mut h);
                $t.hash(&mut h);
                return Ok(true);
            }
            _ => {}
        }
    };
}
macro_rules! copied {
    ($u:ident, $s:ident, $ty:ty) => {
        if $u == COPY {
            let x: $ty = $s.iter().cloned().collect();
            drop(x);
            return Ok(true);
        }
    };
}
macro_rules! relations {
    ($u:ident, $s:ident, $t:ident) => {
        if $u == RELATIONS {
            let _ = ($s.is_subset($t), $s.is_superset($t), $s.is_disjoint($t), $t.is_subset($s), $t.is_disjoint($s));
            return Ok(true);
        }
    };
}
macro_rules! ranges {
    ($u:ident, $s:ident, $m:ident) => {
        if $u == RANGES {
            let mut ks: Vec<u32> = $m.iter().map(|i| i.0.v).collect();
            ks.extend((0..=$m.len()).filter_map(|g| gap_key($m, g)));
            ks.sort();
            for (i, a) in ks.iter().enumerate() {
                for b in &ks[i + 1..] {
                    let (a, b) = (Key::new(*a), Key::new(*b));
                    let _ = $s.range::<Key, _>(&a..&b).count();
                    let mut r = $s.range::<Key, _>(&a..=&b);
                    let _ = (r.next_back().is_some(), r.next().is_some());
                    let _ = $s.range::<Key, _>(&b..).next().is_some();
                    let _ = $s.range::<Key, _>(..&a).next_back().is_some();
                }
            }
            return Ok(true);
        }
    };
}

impl Uses for ListF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, toks);
        ordered!(u, s, t);
        copied!(u, s, Self::S<McK>);
        Ok(false)
    }
}
impl Uses for StackF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, toks);
        ordered!(u, s, t);
        copied!(u, s, Self::S<McK>);
        Ok(false)
    }
}
impl Uses for QueueF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, toks);
        ordered!(u, s, t);
        copied!(u, s, Self::S<McK>);
        Ok(false)
    }
}
impl Uses for VectorF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, toks);
        ordered!(u, s, t);
        copied!(u, s, Self::S<McK>);
        if u == EXTENDS {
            for n in [1, 3, 5] {
                let mut x = s.clone();
                x.extend(src(toks(n)));
                drop(x);
            }
            return Ok(true);
        }
        Ok(false)
    }
}
impl Uses for HtmF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        set_default_table(&self.table.0);
        common!(self, u, s, t, m, Self::S<McK>, entries);
        if u == COPY {
            let x: Self::S<McK> = s.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            drop(x);
            return Ok(true);
        }
        Ok(false)
    }
}
impl Uses for HtsF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        set_default_table(&self.table.0);
        common!(self, u, s, t, m, Self::S<McK>, keys);
        copied!(u, s, Self::S<McK>);
        relations!(u, s, t);
        Ok(false)
    }
}
impl Uses for RbmF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, entries);
        ordered!(u, s, t);
        ranges!(u, s, m);
        if u == COPY {
            let x: Self::S<McK> = s.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            drop(x);
            return Ok(true);
        }
        Ok(false)
    }
}
impl Uses for RbsF {
    fn use_it(&self, u: u32, s: &Self::S<McK>, t: &Self::S<McK>, m: &[Item]) -> R<bool> {
        common!(self, u, s, t, m, Self::S<McK>, keys);
        ordered!(u, s, t);
        copied!(u, s, Self::S<McK>);
        relations!(u, s, t);
        ranges!(u, s, m);
        Ok(false)
    }
}

/// `s` after `h`, `t` after `h` and one more operation (on a clone of `s`, or from scratch).
fn one<F: Uses>(fam: &F, h: &[u16], op: Option<u16>, shared: bool, u: u32) -> R<(u64, u64)> {
    let (mut armed, mut hit) = (0, 0);
    for k in 1.. {
        universe::restart();
        let (s, m) = rebuild::<F, McK>(fam, h)?;
        let (mut t, mut mt) = if shared { (s.clone(), m.clone()) } else { rebuild::<F, McK>(fam, h)? };
        if let Some(op) = op {
            fam.mutate(&mut t, &mut mt, op, &mut Fresh(100))?;
        }
        universe::arm(universe::K_ALL, k);
        let r = guard(|| fam.use_it(u, &s, &t, &m));
        let (fired, _) = universe::disarm();
        armed += 1;
        let at = |e: String| if fired { format!("after callback {k} panicked: {e}") } else { e };
        match r {
            Ok(Ok(true)) | Err(Caught::Injected) => {}
            Ok(Ok(false)) => return Ok((0, 0)),
            // Caught and reported by the harness's own reads.
            Ok(Err(_)) if fired => {}
            Ok(Err(e)) => return Err(e),
            Err(Caught::Panic(e)) => return Err(at(e)),
        }
        fam.observe(&s, &m).map_err(at)?;
        fam.observe(&t, &mt).map_err(at)?;
        drop((s, t));
        let (b, e) = (universe::live_blocks(), universe::live_toks());
        if b != 0 || e != 0 {
            return Err(at(format!("after dropping all versions {b} nodes and {e} elements are still alive")));
        }
        if !fired {
            break;
        }
        hit += 1;
    }
    Ok((armed, hit))
}

fn uses<F: Uses>(fam: F, depth: usize) -> Box<dyn Suite> {
    let sh = Shapes::new();
    let fam = Arc::new(fam);
    let (f1, f2) = (fam.clone(), fam.clone());
    Box::new(Cases {
        name: format!("uses of {}", fam.name()),
        bound: format!("every shape within {depth} in-place operations, another version one operation away (sharing or not), every use, every callback of it"),
        generate: Box::new(move |visit| {
            for h in sh.get(|| reach(&*f1, depth, &|_| true)) {
                for u in 0..USES.len() as u32 {
                    for shared in 0..2 {
                        if !visit(&pack(h, &[u, shared])) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (h, r) = unpack(c);
            let Some(u) = r.first().copied() else {
                rebuild::<F, McK>(&f2, &h)?;
                return Ok(Seen::new(false, 0));
            };
            let mut ops = vec![];
            {
                let (_s, m) = rebuild::<F, McK>(&f2, &h)?;
                f2.ops(&m, &mut ops);
            }
            let (mut a, mut n) = one(&*f2, &h, None, r[1] == 1, u)?;
            if matches!(u, EQ | ORD | HASH | RELATIONS | CLONEFROM) {
                for op in ops {
                    let (x, y) = one(&*f2, &h, Some(op), r[1] == 1, u).map_err(|e| format!("the other version after {}: {e}", f2.show(op)))?;
                    a += x;
                    n += y;
                }
            }
            let mut s = Seen::new(false, mix(0, u as u64));
            s.extra = vec![("evaluations", a), ("distinct_nontrivial", n)];
            Ok(s)
        }),
        show: Box::new(move |c| {
            let (h, r) = unpack(c);
            format!("{}: {}", show_hist(&*fam, &h), r.first().map(|u| USES[*u as usize]).unwrap_or("building it"))
        }),
    })
}

/// Serializing a structure, or reading one from a source, with one panic: in the format, the source, or in what
/// either calls. The panicking side cannot be told apart from one that returns an error except by who cleans up.
fn serde_one<F: SerF>(f: &F, items: &[(u32, u32)], shape: u32, hint: u32, read: bool) -> R<(u64, u64)> {
    let (mut armed, mut hit) = (0, 0);
    for k in 1.. {
        universe::restart();
        f.prepare();
        let s: F::S<McK> = f.make(items, shape);
        let m = f.items(&s);
        let vals = source_vals(F::MAP, items);
        let calls = Cell::new(0);
        let mut rec = Rec::default();
        universe::arm(universe::K_ALL, k);
        let r = guard(|| {
            if read {
                F::S::<McK>::deserialize(Source { vals: &vals, hint, form: 0, fail: None, calls: &calls, map: F::MAP }).map(drop)
            } else {
                s.serialize(&mut rec)
            }
        });
        let (fired, _) = universe::disarm();
        armed += 1;
        let at = |e: String| if fired { format!("after callback {k} panicked: {e}") } else { e };
        match r {
            Ok(Ok(())) | Err(Caught::Injected) => {}
            Ok(Err(e)) => return Err(at(format!("unexpected error {e}"))),
            Err(Caught::Panic(e)) => return Err(at(e)),
        }
        if f.items(&s) != m {
            return Err(at("the contents of the structure have changed".into()));
        }
        f.probe(&s, &m).map_err(at)?;
        drop(s);
        let (b, e) = (universe::live_blocks(), universe::live_toks());
        if b != 0 || e != 0 {
            return Err(at(format!("after dropping everything {b} nodes and {e} elements are still alive")));
        }
        if !fired {
            break;
        }
        hit += 1;
    }
    Ok((armed, hit))
}

/// Items by their number of values: every sequence of keys for maps and sets.
fn serde_uses<F: SerF>(f: F, max: usize, hints: Vec<u32>) -> Box<dyn Suite> {
    let f = Arc::new(f);
    let (f1, f2, f3) = (f.clone(), f.clone(), f.clone());
    let items = |c: &[u32]| c[3..].iter().enumerate().map(|(i, k)| (*k, i as u32)).collect::<Vec<_>>();
    Box::new(Cases {
        name: format!("serde of {}", f.name()),
        bound: format!("every sequence of up to {max} items{}, every form of the structure, writing, and reading from sources with {} kinds of size hint, every callback of it", if F::KEYED { " over 3 keys" } else { "" }, hints.len()),
        generate: Box::new(move |visit| {
            let base = if F::KEYED { 3u32 } else { 1 };
            for n in 0..=max {
                for x in 0..base.pow(n as u32) {
                    let keys: Vec<u32> = (0..n as u32).map(|i| x / base.pow(i) % base).collect();
                    for shape in 0..f1.shapes(n) {
                        if !visit(&[&[0, shape, 0][..], &keys].concat()) {
                            return;
                        }
                    }
                    for h in &hints {
                        if !visit(&[&[1, 0, *h][..], &keys].concat()) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (a, n) = serde_one(&*f2, &items(c), c[1], c[2], c[0] == 1)?;
            let mut s = Seen::new(false, mix(c[0] as u64, c.len() as u64));
            s.extra = vec![("evaluations", a), ("distinct_nontrivial", n)];
            Ok(s)
        }),
        show: Box::new(move |c| {
            let what = if c[0] == 1 { format!("deserializing with size hint {}", SIZE_HINTS[c[2] as usize]) } else { format!("serializing (form {})", c[1]) };
            format!("{}: {what}: {:?}", f3.name(), items(c))
        }),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let j = Judge { faults: true, ..Default::default() };
    let q = t == Tier::Quick;
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new("faults", ListF { max: pick(t, 3, 4) }, 3, 30, j).boxed(),
        World::new("faults", StackF { max: pick(t, 4, 5) }, 2, 30, j).boxed(),
        World::new("faults", QueueF { max: pick(t, 3, 4) }, pick(t, 2, 3), 30, j).boxed(),
        World::new("faults", VectorF { bits: 1, max: pick(t, 5, 6), indices: vec![] }, 2, 30, j).boxed(),
        World::new("faults", VectorF { bits: 1, max: 9, indices: pick(t, vec![0, 8], vec![0, 3, 4, 7, 8]) }, 2, 30, j).boxed(),
        World::new("faults", VectorF { bits: 2, max: pick(t, 5, 6), indices: vec![] }, 2, 30, j).boxed(),
        World::new("faults", HtmF::new(4, &[0, 4, 0], 3), 2, pick(t, 6, 9), j).boxed(),
        World::new("faults", HtmF::new(4, &[0, 4, 0, 1], 4), 2, pick(t, 4, 7), j).boxed(),
        World::new("faults", HtmF::new(64, &[0, 0, 0, 1 << 60], 4), 2, pick(t, 5, 8), j).boxed(),
        World::new("faults", HtsF::new(2, &[0, 1, 2, 0], 4), 2, pick(t, 5, 8), j).boxed(),
        World::new("faults", HtsF::new(16, &[0, 16, 0], 3), pick(t, 2, 3), pick(t, 5, 7), j).boxed(),
        World::new("faults", RbmF { max: pick(t, 4, 5), getm: true, replace: true }, 2, pick(t, 6, 8), j).boxed(),
        World::new("faults", RbmF { max: 3, getm: true, replace: true }, 3, pick(t, 4, 6), j).boxed(),
        World::new("faults", RbsF { max: pick(t, 5, 6), replace: false }, 2, pick(t, 7, 9), j).boxed(),
        ladder("faults", World::new("", ListF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: pick(t, vec![20], vec![10, 20, 50, 100]), build: pushes, probes: |_| vec![PUSH, POP, REVERSE], pairs_up_to: 100 }),
        ladder("faults", World::new("", QueueF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: pick(t, vec![20], vec![10, 20, 50, 100]), build: queue_build, probes: |_| vec![PUSH, POP], pairs_up_to: 100 }),
        ladder("faults", World::new("", VectorF { bits: 1, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: pick(t, vec![8, 9, 16, 17], (5..40).collect()), build: pushes, probes: all_index_probes, pairs_up_to: pick(t, 0, 12) }),
        ladder("faults", World::new("", VectorF { bits: 2, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: pick(t, vec![16, 17], (14..70).collect()), build: pushes, probes: vector_probes, pairs_up_to: pick(t, 0, 70) }),
        ladder("faults", World::new("", VectorF { bits: 5, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: pick(t, vec![32, 33], vec![32, 33, 64, 65, 1024, 1025]), build: pushes, probes: vector_probes, pairs_up_to: 65 }),
        ladder("faults", World::new("", RbmF { max: 1 << 20, getm: true, replace: true }, 2, 0, j), Ladder { sizes: pick(t, vec![12], (7..32).collect()), build: tree_build, probes: tree_probes, pairs_up_to: pick(t, 0, 10) }),
        ladder("faults", World::new("", RbsF { max: 1 << 20, replace: true }, 2, 0, j), Ladder { sizes: pick(t, vec![13], (7..32).collect()), build: tree_build, probes: tree_probes_nogetm, pairs_up_to: 0 }),
        uses(ListF { max: pick(t, 4, 6) }, 12),
        uses(StackF { max: pick(t, 4, 6) }, 12),
        uses(QueueF { max: pick(t, 4, 6) }, 12),
        uses(VectorF { bits: 1, max: pick(t, 6, 9), indices: vec![0] }, 12),
        uses(HtmF::new(4, &[0, 4, 0, 1], 4), pick(t, 4, 8)),
        uses(HtmF::new(64, &[0, 0, 0, 1 << 60], 4), pick(t, 4, 8)),
        uses(HtsF::new(2, &[0, 1, 2, 0], 4), pick(t, 4, 8)),
        uses(RbmF { max: pick(t, 4, 5), getm: false, replace: true }, pick(t, 4, 6)),
        uses(RbsF { max: pick(t, 5, 6), replace: false }, pick(t, 5, 7)),
    ];
    let hints = || pick(t, vec![0, 1, 4], (0..SIZE_HINTS.len() as u32).collect());
    let n = pick(t, 5, 7);
    v.extend([
        serde_uses(SList, n + 2, hints()),
        serde_uses(SStack, n + 2, hints()),
        serde_uses(SQueue, n + 2, hints()),
        serde_uses(SVec, n + 2, hints()),
        serde_uses(SHtm(TableHash(Arc::new(vec![0, 64, 0]))), n, hints()),
        serde_uses(SHts(TableHash(Arc::new(vec![0, 0, 1]))), n, hints()),
        serde_uses(SRbm, n, hints()),
        serde_uses(SRbs, n, hints()),
    ]);
    if !q {
        v.push(ladder("faults", World::new("", HtmF::new(16, &(0..24u64).map(|i| i % 3).collect::<Vec<_>>(), 100), 2, 0, j), Ladder { sizes: vec![9, 15], build: hash_build, probes: hash_probes, pairs_up_to: 0 }));
    }
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C16",
        level: "fault_enumeration",
        rule: "evaluations: executions with one armed fault: one operation from a reachable state of several versions (or a read, comparison, bulk construction or formatting of such a version), in which the k-th call into user code (equality, comparison, hash, clone, drop, source iterator, formatting) panics, for every k until the operation completes without reaching it. Non-trivial: the fault fired; every one is a different (state, operation, k). Afterwards every version but the one modified in place is compared with its model, used once more, and after dropping everything no node and no element may be alive",
        assumptions: &["a panic unwinds (with panic=abort there is nothing to check)", "one panic per operation: a second one while unwinding aborts the process by the rules of Rust"],
        suites,
    })
}
