//! Several coexisting versions of one structure, and everything that can be done to them.
use crate::fam::*;
use archery::{ArcK, ArcTK, RcK};
use mc_core::bfs::System;
use mc_core::run::{Caught, guard};
use mc_core::universe;
use mc_core::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Ver<S> {
    pub s: S,
    pub m: Vec<Item>,
}

pub struct W<S> {
    pub vers: Vec<Ver<S>>,
    pub fresh: Fresh,
    pub took_effect: bool,
}

/// What to judge, besides the contents of all versions after every operation.
#[derive(Clone, Copy, Default)]
pub struct Judge {
    /// Every read operation of every version.
    pub reads: bool,
    /// The live element instances are exactly those of the live versions; nothing is cloned.
    pub lifetimes: bool,
    /// Sharing reported by ptr_eq.
    pub sharing: bool,
    /// In-place and persistent forms agree.
    pub forms: bool,
    /// How deep releases of nodes may nest.
    pub nest: Option<u32>,
    /// Let every callback into user code panic, one at a time.
    pub faults: bool,
}

pub struct World<F: Fam> {
    pub fam: F,
    pub tag: &'static str,
    /// How many versions may coexist.
    pub k: usize,
    pub depth: usize,
    pub judge: Judge,
    /// Use persistent forms / clone / assignment operations at all.
    pub pers: bool,
    pub cap: usize,
    /// Executions with an armed fault, and faults that fired.
    pub armed: AtomicU64,
    pub fired: AtomicU64,
}

impl<F: Fam> World<F> {
    pub fn new(tag: &'static str, fam: F, k: usize, depth: usize, judge: Judge) -> World<F> {
        World { fam, tag, k, depth, judge, pers: true, cap: 30_000_000, armed: AtomicU64::new(0), fired: AtomicU64::new(0) }
    }
    pub fn boxed(self) -> Box<dyn Suite> {
        Box::new(Bfs(self))
    }
}

pub const MUT: u32 = 0; // vers[a].op_mut()
pub const NEW: u32 = 1; // new version = vers[a].op()
pub const SELF: u32 = 2; // vers[a] = vers[a].op()
pub const CLONE: u32 = 3; // new version = vers[a].clone()
pub const DROP: u32 = 4; // drop(vers[a])
pub const FROM: u32 = 5; // vers[b].clone_from(&vers[a])
pub const OVER: u32 = 6; // vers[b] = vers[a].op()

pub fn enc(kind: u32, a: usize, b: usize, op: u16) -> u32 {
    kind << 28 | (a as u32) << 24 | (b as u32) << 20 | op as u32
}

impl<F: Fam> World<F> {
    pub fn step_p<P: PK>(&self, w: &mut W<F::S<P>>, code: u32, judge: Option<Judge>) -> R {
        let (kind, a, b, op) = (code >> 28, (code >> 24 & 15) as usize, (code >> 20 & 15) as usize, code as u16);
        let before = if judge.is_some() { universe::counters() } else { Default::default() };
        // How many element clones are in order: get_mut and index assignment copy a shared entry.
        let mut may_clone = 0;
        w.took_effect = true;
        universe::TLS.with(|t| {
            t.depth.set(0);
            t.max_depth.set(0);
        });
        match kind {
            MUT => {
                let v = &mut w.vers[a];
                let old = v.m.clone();
                w.took_effect = self.fam.mutate(&mut v.s, &mut v.m, op, &mut w.fresh)?;
                if self.fam.clones(op) {
                    let changed = old.iter().zip(&w.vers[a].m).find(|(x, y)| x != y).map(|(x, _)| *x);
                    if let Some(e) = changed {
                        let shared = w.vers.iter().enumerate().any(|(i, v)| i != a && v.m.iter().any(|x| x.0.id == e.0.id || x.1 != NIL && x.1.id == e.1.id));
                        if shared {
                            may_clone = if e.1 == NIL { 1 } else { 2 };
                        }
                    }
                    // The entry may have been cloned to un-share it: learn the new instances.
                    let Ver { s, m } = &mut w.vers[a];
                    self.resync(s, m);
                }
            }
            NEW | SELF | OVER => {
                let mut m = w.vers[a].m.clone();
                let r = self.fam.pers(&w.vers[a].s, &mut m, op, &mut w.fresh)?;
                match r {
                    None => w.took_effect = false,
                    Some(s) => {
                        let v = Ver { s, m };
                        match kind {
                            NEW => w.vers.push(v),
                            SELF => w.vers[a] = v,
                            _ => w.vers[b] = v,
                        }
                    }
                }
            }
            CLONE => {
                let v = Ver { s: w.vers[a].s.clone(), m: w.vers[a].m.clone() };
                w.vers.push(v);
            }
            DROP => {
                w.vers.remove(a);
            }
            FROM => {
                let (x, y) = if a < b {
                    let (l, r) = w.vers.split_at_mut(b);
                    (&l[a], &mut r[0])
                } else {
                    let (l, r) = w.vers.split_at_mut(a);
                    (&r[0], &mut l[b])
                };
                y.s.clone_from(&x.s);
                y.m = x.m.clone();
            }
            _ => unreachable!(),
        }
        if let Some(j) = judge {
            if let Some(most) = j.nest {
                let d = universe::TLS.with(|t| t.max_depth.get());
                if d > most {
                    return Err(format!("releases of nodes nest {d} deep"));
                }
            }
            if j.lifetimes {
                let d = universe::counters().since(&before);
                if d.tclone > may_clone {
                    return Err(format!("{} element clones during {}, {may_clone} would be in order", d.tclone, self.show(code)));
                }
            }
            if j.sharing {
                let n = w.vers.len();
                match kind {
                    CLONE => {
                        if self.fam.ptr_eq(&w.vers[a].s, &w.vers[n - 1].s) == Some(false) {
                            return Err("a clone is not ptr_eq to its source".into());
                        }
                    }
                    FROM => {
                        if self.fam.ptr_eq(&w.vers[a].s, &w.vers[b].s) == Some(false) {
                            return Err("after clone_from the versions are not ptr_eq".into());
                        }
                    }
                    _ => {}
                }
                for i in 0..n {
                    for k in 0..n {
                        if self.fam.ptr_eq(&w.vers[i].s, &w.vers[k].s) == Some(true) && !same_items(&w.vers[i].m, &w.vers[k].m) {
                            return Err("two versions with different contents are ptr_eq".into());
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn resync<P: PK>(&self, s: &F::S<P>, m: &mut [Item]) {
        let c = model_order(&self.fam, self.fam.contents(s));
        if c.len() == m.len() {
            for (x, y) in m.iter_mut().zip(c) {
                if x.0.same(&y.0) {
                    x.0.id = y.0.id;
                }
                if x.1.same(&y.1) {
                    x.1.id = y.1.id;
                }
            }
        }
    }

    pub fn check_p<P: PK>(&self, w: &W<F::S<P>>, j: Judge) -> R {
        for (i, v) in w.vers.iter().enumerate() {
            let r = if j.reads { self.fam.observe(&v.s, &v.m) } else { check_contents(&self.fam, &v.s, &v.m) };
            r.map_err(|e| format!("version {i}: {e}"))?;
        }
        if j.lifetimes {
            let mut ids: HashSet<u32> = HashSet::new();
            for v in &w.vers {
                for (a, b) in &v.m {
                    ids.insert(a.id);
                    if *b != NIL {
                        ids.insert(b.id);
                    }
                }
            }
            for id in &ids {
                if !universe::tok_live(*id) {
                    return Err(format!("element instance #{id} is in a live version but was dropped or replaced"));
                }
            }
            let live = universe::live_toks();
            if live != ids.len() as u64 {
                return Err(format!("{live} element instances are alive, the live versions contain {}", ids.len()));
            }
        }
        Ok(())
    }

    pub fn run_p<P: PK>(&self, hist: &[u32], j: Judge) -> R {
        let mut w = self.init_p::<P>();
        for op in hist {
            self.step_p(&mut w, *op, None)?;
        }
        self.check_p(&w, j)?;
        drop(w);
        let n = universe::live_toks();
        if n != 0 {
            return Err(format!("{n} elements outlive all versions"));
        }
        Ok(())
    }

    pub fn init_p<P: PK>(&self) -> W<F::S<P>> {
        W { vers: vec![Ver { s: self.fam.empty::<P>(), m: vec![] }], fresh: Fresh(0), took_effect: true }
    }
}

impl<F: Fam> World<F> {
    /// Perform `code` after `hist` once for each callback it makes, with that callback panicking.
    /// Gives how many executions there were and in how many of them a fault fired.
    fn faults(&self, hist: &[u32], code: u32) -> R<(u64, u64)> {
        let (mut armed, mut hit) = (0, 0);
        let (kind, a, b, op) = (code >> 28, (code >> 24 & 15) as usize, (code >> 20 & 15) as usize, code as u16);
        let (code, damaged) = match kind {
            MUT => (code, Some(a)),
            FROM => (code, Some(b)),
            // `v = v.op()` covers the other ways of keeping the result.
            SELF => (enc(NEW, a, 0, op), None),
            NEW | OVER => return Ok((0, 0)),
            _ => (code, None),
        };
        for k in 1.. {
            universe::restart();
            let mut w = self.init();
            for h in hist {
                self.step(&mut w, *h, false)?;
            }
            universe::arm(universe::K_ALL, k);
            let r = guard(|| self.step_p(&mut w, code, None));
            let (fired, _) = universe::disarm();
            armed += 1;
            match r {
                Ok(r) => r?,
                Err(Caught::Injected) => {}
                Err(Caught::Panic(m)) => return Err(format!("panic in callback {k}: {m}")),
            }
            if !fired {
                self.finish(w)?;
                break;
            }
            hit += 1;
            let at = |e: String| format!("after callback {k} of {} panicked: {e}", self.show(code));
            let look = |w: &W<F::S<McK>>| {
                for (i, v) in w.vers.iter().enumerate() {
                    if Some(i) != damaged {
                        self.fam.observe(&v.s, &v.m).map_err(|e| at(format!("version {i}: {e}")))?;
                    }
                }
                Ok::<(), String>(())
            };
            look(&w)?;
            // The other versions stay usable.
            for i in 0..w.vers.len() {
                if Some(i) != damaged {
                    let mut ops = vec![];
                    self.fam.ops(&w.vers[i].m, &mut ops);
                    let op = ops[(k as usize * 7 + i) % ops.len()];
                    self.step_p(&mut w, enc(MUT, i, 0, op), None).map_err(|e| at(format!("version {i}: then {}: {e}", self.fam.show(op))))?;
                }
            }
            look(&w)?;
            self.finish(w).map_err(at)?;
        }
        Ok((armed, hit))
    }
}

impl<F: Fam> System for World<F> {
    type W = W<F::S<McK>>;
    fn name(&self) -> String {
        format!("{} {} versions<={}", self.tag, self.fam.name(), self.k)
    }
    fn bound(&self) -> String {
        format!("all histories up to {} operations, up to {} coexisting versions", self.depth, self.k)
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn max_states(&self) -> usize {
        self.cap
    }
    fn init(&self) -> Self::W {
        self.init_p::<McK>()
    }
    fn ops(&self, w: &Self::W, out: &mut Vec<u32>) {
        let n = w.vers.len();
        let mut ops = Vec::new();
        for a in 0..n {
            ops.clear();
            self.fam.ops(&w.vers[a].m, &mut ops);
            for op in &ops {
                out.push(enc(MUT, a, 0, *op));
            }
            if !self.pers {
                continue;
            }
            for op in &ops {
                if self.fam.has_pers(*op) {
                    if n < self.k {
                        out.push(enc(NEW, a, 0, *op));
                    }
                    out.push(enc(SELF, a, 0, *op));
                    if n == self.k && n > 1 {
                        for b in 0..n {
                            if b != a {
                                out.push(enc(OVER, a, b, *op));
                            }
                        }
                    }
                }
            }
            if n < self.k {
                out.push(enc(CLONE, a, 0, 0));
            }
            if n > 1 {
                out.push(enc(DROP, a, 0, 0));
                for b in 0..n {
                    if b != a {
                        out.push(enc(FROM, a, b, 0));
                    }
                }
            }
        }
    }
    fn step(&self, w: &mut Self::W, op: u32, check: bool) -> Result<(), String> {
        self.step_p(w, op, if check { Some(self.judge) } else { None })
    }
    fn check(&self, w: &Self::W) -> Result<(), String> {
        self.check_p(w, self.judge)
    }
    fn key(&self, w: &Self::W) -> u128 {
        // The versions are interchangeable: take the smallest form over their orders.
        let n = w.vers.len();
        let perms: &[&[usize]] = match n {
            1 => &[&[0]],
            2 => &[&[0, 1], &[1, 0]],
            3 => &[&[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]],
            _ => panic!("too many versions"),
        };
        let rank = if self.fam.ordered() { Some(HashMap::new()) } else { None };
        perms
            .iter()
            .map(|p| {
                let roots: Vec<&dyn std::fmt::Debug> = p.iter().map(|i| &w.vers[*i].s as &dyn std::fmt::Debug).collect();
                universe::canon(&roots, rank.clone())
            })
            .min()
            .unwrap()
    }
    fn finish(&self, w: Self::W) -> Result<(), String> {
        drop(w);
        let (b, t) = (universe::live_blocks(), universe::live_toks());
        if b != 0 || t != 0 {
            return Err(format!("after dropping all versions {b} nodes and {t} elements are still alive"));
        }
        Ok(())
    }
    fn show(&self, code: u32) -> String {
        let (kind, a, b, op) = (code >> 28, code >> 24 & 15, code >> 20 & 15, code as u16);
        match kind {
            MUT => format!("v{a}.{}_mut", self.fam.show(op)),
            NEW => format!("v+ = v{a}.{}", self.fam.show(op)),
            SELF => format!("v{a} = v{a}.{}", self.fam.show(op)),
            CLONE => format!("v+ = v{a}.clone()"),
            DROP => format!("drop(v{a})"),
            FROM => format!("v{b}.clone_from(v{a})"),
            _ => format!("v{b} = v{a}.{}", self.fam.show(op)),
        }
    }
    fn differential(&self, hist: &[u32], code: u32) -> Result<(), String> {
        let (kind, a, op) = (code >> 28, (code >> 24 & 15) as usize, code as u16);
        if self.judge.faults {
            let (a, h) = self.faults(hist, code)?;
            self.armed.fetch_add(a, Ordering::Relaxed);
            self.fired.fetch_add(h, Ordering::Relaxed);
            return Ok(());
        }
        if !self.judge.forms || kind != MUT || !self.fam.has_pers(op) {
            return Ok(());
        }
        let mut x = self.init();
        let mut y = self.init();
        for h in hist {
            self.step(&mut x, *h, false)?;
            self.step(&mut y, *h, false)?;
        }
        self.step_p(&mut x, code, None)?;
        self.step_p(&mut y, enc(SELF, a, 0, op), None)?;
        if x.took_effect != y.took_effect && !matches!(op & 0xf000, REM | REMX) {
            return Err(format!("{}: the in-place form reports {}, the persistent form {}", self.fam.show(op), x.took_effect, y.took_effect));
        }
        let (p, q) = (&x.vers[a].s, &y.vers[a].s);
        if !self.fam.eq(p, q) || !self.fam.eq(q, p) {
            return Err(format!("{}: the in-place and the persistent form give unequal structures", self.fam.show(op)));
        }
        if self.fam.size(p) != self.fam.size(q) {
            return Err(format!("{}: sizes differ between the forms", self.fam.show(op)));
        }
        self.fam.observe(p, &x.vers[a].m).map_err(|e| format!("after the in-place form: {e}"))?;
        self.fam.observe(q, &y.vers[a].m).map_err(|e| format!("after the persistent form: {e}"))?;
        // The persistent form leaves every version alone, also the one it is applied to.
        Ok(())
    }
    fn extra(&self) -> Vec<(&'static str, u64)> {
        if !self.judge.faults {
            return vec![];
        }
        vec![("evaluations", self.armed.load(Ordering::Relaxed)), ("distinct_nontrivial", self.fired.load(Ordering::Relaxed))]
    }
    fn shipping(&self, hist: &[u32]) -> Result<u64, String> {
        let j = Judge { reads: true, ..Default::default() };
        self.run_p::<RcK>(hist, j).map_err(|e| format!("RcK: {e}"))?;
        self.run_p::<ArcTK>(hist, j).map_err(|e| format!("ArcTK: {e}"))?;
        self.run_p::<ArcK>(hist, j).map_err(|e| format!("ArcK: {e}"))?;
        Ok(3)
    }
}

/// One exploration over several configurations of the same structure: the first step picks one.
pub struct Choice<F: Fam> {
    pub name: String,
    pub bound: String,
    pub worlds: Vec<World<F>>,
}

pub enum CW<S> {
    Start,
    In(usize, W<S>),
}

impl<F: Fam> System for Choice<F> {
    type W = CW<F::S<McK>>;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bound(&self) -> String {
        format!("{}; {} configurations, all histories up to {} operations of up to {} versions", self.bound, self.worlds.len(), self.worlds[0].depth, self.worlds[0].k)
    }
    fn max_depth(&self) -> usize {
        self.worlds[0].depth + 1
    }
    fn init(&self) -> Self::W {
        CW::Start
    }
    fn ops(&self, w: &Self::W, out: &mut Vec<u32>) {
        match w {
            CW::Start => out.extend(0..self.worlds.len() as u32),
            CW::In(i, w) => self.worlds[*i].ops(w, out),
        }
    }
    fn step(&self, w: &mut Self::W, op: u32, check: bool) -> Result<(), String> {
        match w {
            CW::Start => {
                *w = CW::In(op as usize, self.worlds[op as usize].init());
                Ok(())
            }
            CW::In(i, w) => self.worlds[*i].step(w, op, check),
        }
    }
    fn check(&self, w: &Self::W) -> Result<(), String> {
        match w {
            CW::Start => Ok(()),
            CW::In(i, w) => self.worlds[*i].check(w),
        }
    }
    fn key(&self, w: &Self::W) -> u128 {
        match w {
            CW::Start => 0,
            CW::In(i, w) => self.worlds[*i].key(w) ^ (*i as u128 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835),
        }
    }
    fn finish(&self, w: Self::W) -> Result<(), String> {
        match w {
            CW::Start => Ok(()),
            CW::In(i, w) => self.worlds[i].finish(w),
        }
    }
    fn show(&self, op: u32) -> String {
        self.worlds[0].show(op)
    }
    fn show_history(&self, h: &[u32]) -> String {
        match h.first() {
            None => String::new(),
            Some(i) => format!("{}: {}", self.worlds[*i as usize].fam.name(), self.worlds[0].show_history(&h[1..])),
        }
    }
    fn differential(&self, hist: &[u32], op: u32) -> Result<(), String> {
        match hist.first() {
            None => Ok(()),
            Some(i) => self.worlds[*i as usize].differential(&hist[1..], op),
        }
    }
    fn shipping(&self, hist: &[u32]) -> Result<u64, String> {
        match hist.first() {
            None => Ok(0),
            Some(i) => self.worlds[*i as usize].shipping(&hist[1..]),
        }
    }
    fn extra(&self) -> Vec<(&'static str, u64)> {
        self.worlds.iter().flat_map(|w| w.extra()).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Larger structures: every size of a ladder, every listed operation alone and in pairs, on a
// uniquely owned structure and on one shared with a clone.

pub struct Ladder {
    pub sizes: Vec<u32>,
    /// How to build a structure of size n (in-place operations).
    pub build: fn(u32) -> Vec<u16>,
    /// Operations to try on a structure of size n.
    pub probes: fn(u32) -> Vec<u16>,
    /// Try all pairs (first operation on the clone, second on the original) up to this size.
    pub pairs_up_to: u32,
}

pub fn ladder<F: Fam>(tag: &str, w: World<F>, l: Ladder) -> Box<dyn Suite> {
    let name = format!("{tag} {} ladder", w.fam.name());
    let bound = format!("sizes {:?}, every listed operation on unique and shared structures, all pairs up to size {}", l.sizes, l.pairs_up_to);
    let w = std::sync::Arc::new(w);
    let w2 = w.clone();
    let (sizes, build, probes, pairs) = (l.sizes, l.build, l.probes, l.pairs_up_to);
    Box::new(Cases {
        name,
        bound,
        generate: Box::new(move |visit| {
            for n in &sizes {
                let ops = probes(*n);
                for op in &ops {
                    // unique; clone changed first; original changed first; persistent form
                    for mode in 0..4u32 {
                        if !visit(&[*n, mode, *op as u32]) {
                            return;
                        }
                    }
                    if *n <= pairs {
                        for op2 in &ops {
                            if !visit(&[*n, 4, *op as u32, *op2 as u32]) {
                                return;
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (n, mode, op) = (c[0], c[1], c[2] as u16);
            let mut x = w.init();
            for b in build(n) {
                w.step(&mut x, enc(MUT, 0, 0, b), false)?;
            }
            let done = RefCell::new(build(n).iter().map(|b| enc(MUT, 0, 0, *b)).collect::<Vec<u32>>());
            let built = done.borrow().len();
            let go = |x: &mut W<F::S<McK>>, code: u32| -> R {
                if w.judge.forms && code >> 28 == MUT {
                    w.differential(&done.borrow(), code)?;
                }
                done.borrow_mut().push(code);
                w.step(x, code, true)?;
                w.check(x)
            };
            let fork = |x: &mut W<F::S<McK>>| {
                done.borrow_mut().push(enc(CLONE, 0, 0, 0));
                w.step(x, enc(CLONE, 0, 0, 0), true)
            };
            match mode {
                0 => go(&mut x, enc(MUT, 0, 0, op))?,
                1 | 2 => {
                    fork(&mut x)?;
                    go(&mut x, enc(MUT, (mode == 1) as usize, 0, op))?;
                    // and drop the changed / unchanged one
                    go(&mut x, enc(DROP, 0, 0, 0))?;
                }
                3 => {
                    if w.fam.has_pers(op) {
                        go(&mut x, enc(NEW, 0, 0, op))?;
                        go(&mut x, enc(DROP, 0, 0, 0)).or_else(|e| if x.vers.is_empty() { Ok(()) } else { Err(e) })?;
                    }
                }
                _ => {
                    fork(&mut x)?;
                    go(&mut x, enc(MUT, 1, 0, op))?;
                    go(&mut x, enc(MUT, 0, 0, c[3] as u16))?;
                }
            }
            let k = x.vers.iter().fold(mc_core::cases::mix(mode as u64, n as u64), |h, v| {
                v.m.iter().fold(h, |h, i| mc_core::cases::mix(h, i.0.v as u64 * 31 + i.1.v as u64))
            });
            w.finish(x)?;
            let mut seen = mc_core::cases::Seen::new(n > 0, mc_core::cases::mix(k, op as u64));
            if w.judge.faults {
                let mut done = done.into_inner();
                if mode == 0 {
                    done.push(enc(DROP, 0, 0, 0));
                }
                let (mut a, mut h) = (0, 0);
                for i in built..done.len() {
                    let code = if done[i] >> 28 == NEW { enc(SELF, 0, 0, op) } else { done[i] };
                    let (x, y) = w.faults(&done[..i], code)?;
                    a += x;
                    h += y;
                }
                seen.nontrivial = false;
                seen.extra = vec![("evaluations", a), ("distinct_nontrivial", h)];
            }
            Ok(seen)
        }),
        show: Box::new(move |c| {
            let how = ["in place on a unique structure", "in place on a clone", "in place on the original of a clone", "persistent", "on a clone, then on the original:"];
            let mut s = format!("size {}, {} {}", c[0], w2.fam.show(c[2] as u16), how[c[1] as usize]);
            if c.len() > 3 {
                s += &format!(" {}", w2.fam.show(c[3] as u16));
            }
            s
        }),
    })
}

// ---------------------------------------------------------------------------------------------
// Whole lives: from empty up to a size and back to empty, in several orders, one step at a time.

/// `ops(pattern, n)`: the operations of one life (their number is that of the steps).
pub fn lives<F: Fam>(tag: &str, w: World<F>, sizes: Vec<u32>, patterns: u32, ops: fn(u32, u32) -> Vec<u16>) -> Box<dyn Suite> {
    const FORMS: [&str; 4] = ["in place", "persistent", "in place, a clone kept from every power of two", "in place on clones, the original kept from every power of two"];
    let name = format!("{tag} {} lives", w.fam.name());
    let bound = format!("{patterns} orders of growing to {sizes:?} and shrinking to nothing, each {FORMS:?}; every version judged at every size up to 66, around every power of two and at every 16th step");
    Box::new(Cases {
        name,
        bound,
        generate: Box::new(move |visit| {
            for n in &sizes {
                for p in 0..patterns {
                    for form in 0..FORMS.len() as u32 {
                        if !visit(&[*n, p, form]) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let (n, p, form) = (c[0], c[1], c[2]);
            let mut x = w.init();
            // Alongside, the same life in persistent forms only.
            let mut y = (w.judge.forms && form == 0).then(|| w.init());
            let mut done = 0;
            let mut main = 0;
            let mut judged = 0;
            let mut last_mark = 0;
            for (i, op) in ops(p, n).into_iter().enumerate() {
                let len = x.vers[main].m.len();
                let near = (len + 1).is_power_of_two() || len.is_power_of_two() || len > 1 && (len - 1).is_power_of_two();
                let mut codes = vec![];
                if form >= 2 && len.is_power_of_two() && len != last_mark {
                    last_mark = len;
                    if x.vers.len() > 1 {
                        codes.push(enc(DROP, 1 - main, 0, 0));
                    }
                    codes.push(enc(CLONE, 0, 0, 0));
                    main = (form == 3) as usize;
                }
                let kind = if form == 1 && w.fam.has_pers(op) { SELF } else { MUT };
                let at = |e: String| format!("{e} (step {i}, at size {len})");
                for code in codes {
                    w.step(&mut x, code, true).map_err(at)?;
                    done += 1;
                }
                universe::refill();
                let code = enc(kind, main, 0, op);
                let look = len <= 66 || near || i % 16 == 0;
                w.step(&mut x, code, true).map_err(at)?;
                done += 1;
                if let Some(y) = &mut y {
                    let pers = w.fam.has_pers(op);
                    w.step(y, enc(if pers { SELF } else { MUT }, 0, 0, op), true).map_err(at)?;
                    done += 1;
                    if pers && x.took_effect != y.took_effect && !matches!(op & 0xf000, REM | REMX) {
                        return Err(at(format!("{}: the in-place form reports {}, the persistent form {}", w.fam.show(op), x.took_effect, y.took_effect)));
                    }
                    if look {
                        let (p, q) = (&x.vers[0].s, &y.vers[0].s);
                        if !w.fam.eq(p, q) || !w.fam.eq(q, p) || w.fam.size(p) != w.fam.size(q) {
                            return Err(at(format!("{}: the in-place and the persistent form give unequal structures", w.fam.show(op))));
                        }
                        w.check(y).map_err(at)?;
                    }
                }
                if look {
                    w.check(&x).map_err(at)?;
                    judged += 1;
                }
            }
            w.check(&x)?;
            drop(y);
            w.finish(x)?;
            let mut s = mc_core::cases::Seen::new(n > 0, mc_core::cases::mix(n as u64, mc_core::cases::mix(p as u64, form as u64)));
            s.extra = vec![("transitions", done), ("traces_validated_against_impl", judged)];
            Ok(s)
        }),
        show: Box::new(move |c| format!("size {}, order {}, {}", c[0], c[1], FORMS[c[2] as usize])),
    })
}
