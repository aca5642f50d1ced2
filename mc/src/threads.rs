//! Programs of threads that share versions of one structure.
use crate::fam::*;
use crate::reach::*;
use crate::world::*;
use mc_core::cases::{Cases, Seen, mix};
use mc_core::sched::{Scenario, Threads};
use mc_core::universe;
use mc_core::*;
use archery::ArcTK;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

/// What one thread does: `own` a clone of the base version or borrow it, then act, and finally
/// drop or keep the versions it has.
#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub borrow: bool,
    pub keep: bool,
    pub acts: Vec<u32>,
}

const A_MUT: u32 = 0; // mine.op_mut()
const A_SELF: u32 = 1; // mine = mine.op()
const A_NEW: u32 = 2; // new = (mine or base).op(), kept besides mine
const A_CLONE: u32 = 3; // clone (mine or base), read the clone and drop it
const A_READ: u32 = 4; // read everything

fn act(kind: u32, op: u16) -> u32 {
    kind << 16 | op as u32
}

fn show_prog<F: Fam>(fam: &F, p: &Prog) -> String {
    let who = if p.borrow { "base" } else { "mine" };
    let mut v: Vec<String> = p
        .acts
        .iter()
        .map(|a| {
            let o = fam.show(*a as u16);
            match a >> 16 {
                A_MUT => format!("mine.{o}_mut"),
                A_SELF => format!("mine = mine.{o}"),
                A_NEW => format!("new = {who}.{o}"),
                A_CLONE => format!("clone {who}, read and drop the clone"),
                _ => format!("read {who}"),
            }
        })
        .collect();
    v.push(if p.keep { "keep".into() } else { "drop".into() });
    format!("{}{{{}}}", if p.borrow { "&base " } else { "clone " }, v.join("; "))
}

fn enc_prog(p: &Prog, out: &mut Vec<u32>) {
    out.push((p.borrow as u32) | (p.keep as u32) << 1 | (p.acts.len() as u32) << 2);
    out.extend(&p.acts);
}

/// history, [drop_base, progs...]
fn enc_desc(h: &[u16], drop_base: bool, ps: &[&Prog]) -> Vec<u32> {
    let mut r = vec![drop_base as u32];
    for p in ps {
        enc_prog(p, &mut r);
    }
    pack(h, &r)
}

fn dec_desc(d: &[u32]) -> (Vec<u16>, bool, Vec<Prog>) {
    let (h, mut r) = unpack(d);
    let drop_base = r[0] == 1;
    r = &r[1..];
    let mut ps = vec![];
    while !r.is_empty() {
        let n = (r[0] >> 2) as usize;
        ps.push(Prog { borrow: r[0] & 1 == 1, keep: r[0] & 2 == 2, acts: r[1..1 + n].to_vec() });
        r = &r[1 + n..];
    }
    (h, drop_base, ps)
}

struct Mine<S> {
    vers: Vec<Ver<S>>,
    fresh: Fresh,
}

fn perform<F: Fam, P: PK>(fam: &F, base: Option<&Ver<F::S<P>>>, w: &mut Mine<F::S<P>>, a: u32) -> R {
    let op = a as u16;
    match a >> 16 {
        A_MUT => {
            let v = &mut w.vers[0];
            fam.mutate(&mut v.s, &mut v.m, op, &mut w.fresh)?;
            if fam.clones(op) {
                resync(fam, &v.s, &mut v.m);
            }
        }
        A_SELF => {
            let mut m = w.vers[0].m.clone();
            if let Some(s) = fam.pers(&w.vers[0].s, &mut m, op, &mut w.fresh)? {
                w.vers[0] = Ver { s, m };
            }
        }
        A_NEW => {
            let src = base.unwrap_or_else(|| &w.vers[0]);
            let mut m = src.m.clone();
            if let Some(s) = fam.pers(&src.s, &mut m, op, &mut w.fresh)? {
                w.vers.push(Ver { s, m });
            }
        }
        A_CLONE => {
            let src = base.unwrap_or_else(|| &w.vers[0]);
            let c = src.s.clone();
            check_contents(fam, &c, &src.m)?;
        }
        _ => {
            let src = base.unwrap_or_else(|| &w.vers[0]);
            fam.observe(&src.s, &src.m)?;
        }
    }
    Ok(())
}

pub fn resync<F: Fam, P: PK>(fam: &F, s: &F::S<P>, m: &mut [Item]) {
    let c = model_order(fam, fam.contents(s));
    if c.len() == m.len() {
        for (x, y) in m.iter_mut().zip(c) {
            if x.0.same(&y.0) {
                x.0.id = y.0.id;
            }
            if x.1.same(&y.1) {
                x.1.id = y.1.id;
            }
        }
    }
}

fn judge_vers<F: Fam, P: PK>(fam: &F, vers: &[&Ver<F::S<P>>]) -> R {
    for v in vers {
        fam.observe(&v.s, &v.m)?;
    }
    let mut ids: HashSet<u32> = HashSet::new();
    for v in vers {
        for (a, b) in &v.m {
            ids.insert(a.id);
            if *b != NIL {
                ids.insert(b.id);
            }
        }
    }
    for id in &ids {
        if !universe::tok_live(*id) {
            return Err(format!("element instance #{id} is in a remaining version but was dropped"));
        }
    }
    let live = universe::live_toks();
    if live != ids.len() as u64 {
        return Err(format!("after the threads finished {live} element instances are alive, the remaining versions contain {}", ids.len()));
    }
    Ok(())
}

/// Every program over `ops` with the given number of actions.
fn programs<F: Fam>(fam: &F, ops: &[u16], len: usize) -> Vec<Prog> {
    let mut own: Vec<u32> = vec![];
    let mut bor: Vec<u32> = vec![];
    for o in ops {
        own.push(act(A_MUT, *o));
        if fam.has_pers(*o) {
            own.push(act(A_SELF, *o));
            bor.push(act(A_NEW, *o));
        }
    }
    own.push(act(A_CLONE, 0));
    bor.push(act(A_CLONE, 0));
    bor.push(act(A_READ, 0));
    if len == 2 {
        // A version shared with one's own clone as well.
        for o in ops {
            if fam.has_pers(*o) {
                own.push(act(A_NEW, *o));
            }
        }
    }
    let mut out = vec![];
    let seqs = |al: &[u32]| -> Vec<Vec<u32>> {
        let mut s = vec![vec![]];
        for _ in 0..len {
            s = s.into_iter().flat_map(|p: Vec<u32>| al.iter().map(move |a| [p.clone(), vec![*a]].concat())).collect();
        }
        s
    };
    for keep in [false, true] {
        for s in seqs(&own) {
            out.push(Prog { borrow: false, keep, acts: s });
        }
        for s in seqs(&bor) {
            if keep && s.iter().all(|a| a >> 16 != A_NEW) {
                continue;
            }
            out.push(Prog { borrow: true, keep, acts: s });
        }
    }
    if len == 1 {
        out.push(Prog { borrow: false, keep: false, acts: vec![] });
    }
    out
}

pub struct Team<F: Fam> {
    pub fam: F,
    /// Depth and filter of the initial shapes.
    pub depth: usize,
    pub shapes: Vec<Vec<u16>>,
    pub threads: usize,
    pub len: usize,
    pub preemptions: u32,
    pub fine: bool,
    /// The operations threads use on a version (indices into the family's menu are kept if true).
    pub allow: fn(u16) -> bool,
}

fn all_desc<F: Fam>(t: &Team<F>) -> Vec<Vec<u32>> {
    let prev = universe::cur();
    let shapes = if t.shapes.is_empty() { reach(&t.fam, t.depth, &|_| true) } else { t.shapes.clone() };
    let mut out = vec![];
    let u = Universe::new();
    for h in &shapes {
        let mut ops = vec![];
        u.begin();
        {
            let Ok((_s, m)) = rebuild::<F, McK>(&t.fam, h) else { continue };
            t.fam.ops(&m, &mut ops);
        }
        ops.retain(|o| (t.allow)(*o));
        // Programs are made of what is possible on the initial version; a second action must be
        // possible afterwards too, whatever the first was.
        let ps: Vec<Prog> = programs(&t.fam, &ops, t.len).into_iter().filter(|p| feasible(&t.fam, h, p)).collect();
        let mut pick = vec![0usize; t.threads];
        'pick: loop {
            let sel: Vec<&Prog> = pick.iter().map(|i| &ps[*i]).collect();
            let needs_base = sel.iter().any(|p| p.borrow);
            out.push(enc_desc(h, false, &sel));
            if !needs_base {
                out.push(enc_desc(h, true, &sel));
            }
            // next multiset
            let mut i = t.threads;
            loop {
                if i == 0 {
                    break 'pick;
                }
                i -= 1;
                if pick[i] + 1 < ps.len() {
                    pick[i] += 1;
                    for j in i + 1..t.threads {
                        pick[j] = pick[i];
                    }
                    break;
                }
            }
        }
    }
    universe::set_cur(prev);
    out
}

/// Can the program run alone? (Programs that could not are not interesting.)
fn feasible<F: Fam>(fam: &F, h: &[u16], p: &Prog) -> bool {
    if p.acts.len() < 2 {
        return true;
    }
    let u = Universe::new();
    u.begin();
    let r = run::guarded(|| {
        let (s, m) = rebuild::<F, McK>(fam, h)?;
        let base = Ver { s, m };
        let mut w = Mine { vers: if p.borrow { vec![] } else { vec![Ver { s: base.s.clone(), m: base.m.clone() }] }, fresh: Fresh(0) };
        for (i, a) in p.acts.iter().enumerate() {
            if !p.borrow {
                let mut ops = vec![];
                fam.ops(&w.vers[0].m, &mut ops);
                if matches!(a >> 16, A_MUT | A_SELF | A_NEW) && !ops.contains(&(*a as u16)) {
                    return Ok(false);
                }
            }
            let _ = i;
            perform::<F, McK>(fam, if p.borrow { Some(&base) } else { None }, &mut w, *a)?;
        }
        Ok(true)
    });
    r.unwrap_or(true)
}

fn show_team<F: Fam>(fam: &F, d: &[u32]) -> String {
    let (h, drop_base, ps) = dec_desc(d);
    format!(
        "base: {}{}; threads: {}",
        show_hist(fam, &h),
        if drop_base { ", dropped once cloned" } else { ", kept by the main thread" },
        ps.iter().map(|p| show_prog(fam, p)).collect::<Vec<_>>().join(" | ")
    )
}

fn make_team<F: Fam>(team: &Arc<Team<F>>, d: &[u32]) -> Scenario {
    let (h, drop_base, ps) = dec_desc(d);
    let (s, m) = match rebuild::<F, McK>(&team.fam, &h) {
        Ok(x) => x,
        Err(e) => panic!("{e}"),
    };
    let base = Arc::new(Ver { s, m });
    let slots: Vec<Arc<Mutex<Vec<Ver<F::S<McK>>>>>> = ps.iter().map(|_| Default::default()).collect();
    let mut bodies: Vec<sched::Body> = vec![];
    for (t, p) in ps.into_iter().enumerate() {
        let w = Mine {
            vers: if p.borrow { vec![] } else { vec![Ver { s: base.s.clone(), m: base.m.clone() }] },
            fresh: Fresh(1000 * (t as u32 + 1)),
        };
        let (team, base, slot) = (team.clone(), if p.borrow { Some(base.clone()) } else { None }, slots[t].clone());
        // McK is Send and Sync, so the versions are exactly when the elements are; the closure
        // crosses threads the same way a user's would.
        let b = Sendable((w, base, slot));
        bodies.push(Box::new(move || {
            let b = b;
            let Sendable((mut w, base, slot)) = b;
            for a in &p.acts {
                perform::<F, McK>(&team.fam, base.as_deref(), &mut w, *a)?;
            }
            for v in &w.vers {
                check_contents(&team.fam, &v.s, &v.m)?;
            }
            if p.keep {
                *slot.lock().unwrap() = w.vers;
            }
            Ok(())
        }));
    }
    let base = if drop_base { None } else { Some(base) };
    let team = team.clone();
    Scenario {
        bodies,
        judge: Box::new(move || {
            let kept: Vec<Ver<F::S<McK>>> = slots.iter().flat_map(|s| std::mem::take(&mut *s.lock().unwrap())).collect();
            let fp = {
                let mut all: Vec<&Ver<F::S<McK>>> = kept.iter().collect();
                if let Some(b) = &base {
                    all.push(b);
                }
                judge_vers::<F, McK>(&team.fam, &all)?;
                let roots: Vec<&dyn std::fmt::Debug> = all.iter().map(|v| &v.s as &dyn std::fmt::Debug).collect();
                let k = universe::canon(&roots, None);
                let c = universe::counters();
                [c.alloc, c.copy, c.freed, c.tclone].into_iter().fold((k as u64) ^ (k >> 64) as u64, mix)
            };
            drop(kept);
            drop(base);
            let (b, t) = (universe::live_blocks(), universe::live_toks());
            if b != 0 || t != 0 {
                return Err(format!("after dropping all versions {b} nodes and {t} elements are still alive"));
            }
            Ok(fp)
        }),
    }
}

/// The scheduler runs one thread at a time with happens-before at every switch.
pub struct Sendable<T>(pub T);
unsafe impl<T> Send for Sendable<T> {}

impl<F: Fam> Team<F> {
    pub fn new(fam: F, depth: usize, threads: usize, len: usize, preemptions: u32, fine: bool) -> Team<F> {
        Team { fam, depth, shapes: vec![], threads, len, preemptions, fine, allow: |_| true }
    }
    pub fn only(mut self, allow: fn(u16) -> bool) -> Team<F> {
        self.allow = allow;
        self
    }
    pub fn from(mut self, shapes: Vec<Vec<u16>>) -> Team<F> {
        self.shapes = shapes;
        self
    }
    fn title(&self) -> String {
        format!("{} threads x {} actions on {}{}", self.threads, self.len, self.fam.name(), if self.fine { ", also switching at reads and callbacks" } else { "" })
    }
    fn bound(&self) -> String {
        if self.shapes.is_empty() {
            format!("every initial shape within {} operations; every combination of thread programs", self.depth)
        } else {
            format!("{} initial shapes; every combination of thread programs", self.shapes.len())
        }
    }
    pub fn boxed(self) -> Box<dyn Suite> {
        let t = Arc::new(self);
        let (t1, t2) = (t.clone(), t.clone());
        let t3 = t.clone();
        Box::new(Threads {
            name: t.title(),
            bound: t.bound(),
            preemptions: t.preemptions,
            fine: t.fine,
            scenarios: Box::new(move || all_desc(&t1)),
            make: Box::new(move |d| make_team(&t3, d)),
            describe: Box::new(move |d| show_team(&t2.fam, d)),
        })
    }
    /// The same programs on the pointer kind users get, with every interleaving of whole actions.
    pub fn conformance(self) -> Box<dyn Suite> {
        let t = Arc::new(self);
        let (t1, t2, t3) = (t.clone(), t.clone(), t.clone());
        Box::new(Cases {
            name: format!("{}, on ArcTK", t.title()),
            bound: format!("{}; every interleaving of whole actions on the real Sync pointer kind", t.bound()),
            generate: Box::new(move |visit| {
                for d in all_desc(&t1) {
                    let (_, _, ps) = dec_desc(&d);
                    let lens: Vec<usize> = ps.iter().map(|p| p.acts.len() + 1).collect();
                    let mut go = true;
                    merges(&lens, &mut vec![0; lens.len()], &mut vec![], &mut |m| {
                        if go {
                            let mut c = vec![d.len() as u32];
                            c.extend(&d);
                            c.extend(m);
                            go = visit(&c);
                        }
                    });
                    if !go {
                        return;
                    }
                }
            }),
            run: Box::new(move |c| {
                let n = c[0] as usize;
                let r = run_merged::<F, ArcTK>(&t2.fam, &c[1..1 + n], &c[1 + n..]);
                r?;
                let mut s = Seen::new(true, c.iter().fold(17, |k, x| mix(k, *x as u64)));
                s.extra.push(("traces_validated_against_impl", 1));
                Ok(s)
            }),
            show: Box::new(move |c| {
                let n = c[0] as usize;
                format!("{}; order of actions {:?}", show_team(&t3.fam, &c[1..1 + n]), &c[1 + n..])
            }),
        })
    }
}

fn merges(lens: &[usize], done: &mut Vec<usize>, cur: &mut Vec<u32>, f: &mut dyn FnMut(&[u32])) {
    if done.iter().zip(lens).all(|(d, l)| d == l) {
        f(cur);
        return;
    }
    for t in 0..lens.len() {
        if done[t] < lens[t] {
            done[t] += 1;
            cur.push(t as u32);
            merges(lens, done, cur, f);
            cur.pop();
            done[t] -= 1;
        }
    }
}

fn run_merged<F: Fam, P: PK>(fam: &F, d: &[u32], order: &[u32]) -> R {
    let (h, drop_base, ps) = dec_desc(d);
    let (s, m) = rebuild::<F, P>(fam, &h)?;
    let mut base = Some(Ver { s, m });
    let mut ws: Vec<Option<Mine<F::S<P>>>> = ps
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let b = base.as_ref().unwrap();
            Some(Mine { vers: if p.borrow { vec![] } else { vec![Ver { s: b.s.clone(), m: b.m.clone() }] }, fresh: Fresh(1000 * (t as u32 + 1)) })
        })
        .collect();
    if drop_base {
        base = None;
    }
    let mut kept = vec![];
    let mut at = vec![0; ps.len()];
    for t in order {
        let t = *t as usize;
        let p = &ps[t];
        if at[t] < p.acts.len() {
            perform::<F, P>(fam, if p.borrow { base.as_ref() } else { None }, ws[t].as_mut().unwrap(), p.acts[at[t]])?;
            at[t] += 1;
        } else {
            let w = ws[t].take().unwrap();
            for v in &w.vers {
                check_contents(fam, &v.s, &v.m)?;
            }
            if p.keep {
                kept.extend(w.vers);
            }
        }
    }
    let mut all: Vec<&Ver<F::S<P>>> = kept.iter().collect();
    if let Some(b) = &base {
        all.push(b);
    }
    judge_vers::<F, P>(fam, &all)?;
    drop(kept);
    drop(base);
    let t = universe::live_toks();
    if t != 0 {
        return Err(format!("after dropping all versions {t} elements are still alive"));
    }
    Ok(())
}

