//! Explicit-state search over operation histories of the real code.
use crate::run::*;
use crate::universe::{self, Universe};
use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

pub trait System: Sync + Send {
    type W;
    fn name(&self) -> String;
    fn bound(&self) -> String;
    fn max_depth(&self) -> usize;
    /// Start of an execution, in a fresh universe.
    fn init(&self) -> Self::W;
    /// Operations enabled in this state, simplest first.
    fn ops(&self, w: &Self::W, out: &mut Vec<u32>);
    /// Perform `op`. With `check`, also judge everything there is to judge about this step.
    fn step(&self, w: &mut Self::W, op: u32, check: bool) -> Result<(), String>;
    /// Judge the state reached.
    fn check(&self, w: &Self::W) -> Result<(), String>;
    fn key(&self, w: &Self::W) -> u128;
    /// End of the execution: drop everything and judge what is left.
    fn finish(&self, w: Self::W) -> Result<(), String>;
    fn show(&self, op: u32) -> String;
    fn show_history(&self, h: &[u32]) -> String {
        h.iter().map(|o| self.show(*o)).collect::<Vec<_>>().join("; ")
    }
    /// Extra judgement of a transition that needs executions of its own.
    fn differential(&self, _hist: &[u32], _op: u32) -> Result<(), String> {
        Ok(())
    }
    /// Replay a history on the shipping pointer kinds; Ok(number of replays).
    fn shipping(&self, _hist: &[u32]) -> Result<u64, String> {
        Ok(0)
    }
    /// Further things counted while exploring.
    fn extra(&self) -> Vec<(&'static str, u64)> {
        vec![]
    }
    fn max_states(&self) -> usize {
        20_000_000
    }
}

pub struct Bfs<S: System>(pub S);

struct Node {
    parent: u32,
    op: u32,
}

fn history(nodes: &[Node], mut i: usize) -> Vec<u32> {
    let mut h = Vec::new();
    while i != 0 {
        h.push(nodes[i].op);
        i = nodes[i].parent as usize;
    }
    h.reverse();
    h
}

impl<S: System> Bfs<S> {
    /// Rebuild the state after `hist`, without judging.
    fn build(&self, u: &Universe, hist: &[u32]) -> Result<S::W, String> {
        u.begin();
        let mut w = self.0.init();
        for op in hist {
            if let Err(e) = self.0.step(&mut w, *op, false) {
                std::mem::forget(w);
                return Err(e);
            }
        }
        Ok(w)
    }

    /// One judged transition.
    fn transition(&self, u: &Universe, hist: &[u32], op: u32) -> Result<u128, String> {
        let key = guarded(|| {
            let mut w = self.build(u, hist)?;
            let r = self.0.step(&mut w, op, true).and_then(|_| self.0.check(&w));
            if let Some(e) = universe::take_error() {
                std::mem::forget(w);
                return Err(e);
            }
            if let Err(e) = r {
                std::mem::forget(w);
                return Err(e);
            }
            let k = self.0.key(&w);
            self.0.finish(w)?;
            Ok(k)
        })?;
        guarded(|| self.0.differential(hist, op))?;
        Ok(key)
    }
}

impl<S: System> Suite for Bfs<S> {
    fn name(&self) -> String {
        self.0.name()
    }
    fn show(&self, case: &[u32]) -> String {
        self.0.show_history(case)
    }
    fn replay(&self, case: &[u32]) -> Result<(), String> {
        let u = Universe::new();
        if case.is_empty() {
            return guarded(|| {
                u.begin();
                let w = self.0.init();
                self.0.check(&w)?;
                self.0.finish(w)
            });
        }
        for i in 0..case.len() {
            self.transition(&u, &case[..i], case[i])?;
        }
        u.begin();
        guarded(|| self.0.shipping(case)).map(|_| ())
    }
    fn explore(&self, cx: &Cx) -> Result<Stats, Violation> {
        let sys = &self.0;
        let mut st = Stats { bound: sys.bound(), ..Default::default() };
        let u = Universe::new();
        let mut nodes: Vec<Node> = vec![Node { parent: 0, op: 0 }];
        let mut has_child: Vec<bool> = vec![false];
        let mut seen: HashSet<u128> = HashSet::new();
        set_slot(0);
        begin_case(cx.suite_idx, &[]);
        let k0 = guarded(|| {
            u.begin();
            let w = sys.init();
            sys.check(&w)?;
            let k = sys.key(&w);
            sys.finish(w)?;
            Ok(k)
        })
        .map_err(|msg| Violation { case: vec![], msg })?;
        end_case();
        set_slot(usize::MAX);
        seen.insert(k0);
        let mut layer: Vec<usize> = vec![0];
        let mut transitions = 0u64;
        let mut depth = 0;
        let mut deepest = 0;
        while !layer.is_empty() && depth < sys.max_depth() {
            let next = AtomicUsize::new(0);
            const CHUNK: usize = 8;
            let found: Mutex<Option<(usize, usize, Violation)>> = Mutex::new(None);
            let limit = AtomicUsize::new(usize::MAX);
            let seen_ref = &seen;
            let nodes_ref = &nodes;
            let layer_ref = &layer;
            // The first transition into every state, by (position in the layer, op number).
            let outs = workers(cx.workers, |_| {
                let u = Universe::new();
                let mut out: Vec<(usize, u32, u32, u128)> = Vec::new();
                let mut local: HashSet<u128> = HashSet::new();
                let mut ops = Vec::new();
                let mut count = 0u64;
                loop {
                    let start = next.fetch_add(CHUNK, Ordering::Relaxed);
                    if start >= layer_ref.len() {
                        break;
                    }
                    for pos in start..(start + CHUNK).min(layer_ref.len()) {
                        if expired() {
                            break;
                        }
                        if pos > limit.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut hist = history(nodes_ref, layer_ref[pos]);
                        begin_case(cx.suite_idx, &hist);
                        let r = guarded(|| {
                            let w = self.build(&u, &hist)?;
                            ops.clear();
                            sys.ops(&w, &mut ops);
                            sys.finish(w)
                        });
                        end_case();
                        if let Err(msg) = r {
                            limit.fetch_min(pos, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|(a, b, _)| (pos, 0) < (*a, *b)) {
                                *f = Some((pos, 0, Violation { case: hist.clone(), msg }));
                            }
                            break;
                        }
                        for (j, op) in ops.iter().enumerate() {
                            hist.push(*op);
                            begin_case(cx.suite_idx, &hist);
                            hist.pop();
                            let r = self.transition(&u, &hist, *op);
                            end_case();
                            count += 1;
                            match r {
                                Ok(k) => {
                                    if !seen_ref.contains(&k) && local.insert(k) {
                                        out.push((pos, j as u32, *op, k));
                                    }
                                }
                                Err(msg) => {
                                    limit.fetch_min(pos, Ordering::Relaxed);
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().is_none_or(|(a, b, _)| (pos, j) < (*a, *b)) {
                                        let mut case = hist.clone();
                                        case.push(*op);
                                        *f = Some((pos, j, Violation { case, msg }));
                                    }
                                    break;
                                }
                            }
                        }
                    }
                }
                universe::set_cur(std::ptr::null_mut());
                (out, count)
            });
            if let Some((_, _, v)) = found.into_inner().unwrap() {
                return Err(v);
            }
            let mut all: Vec<(usize, u32, u32, u128)> = Vec::new();
            for (o, c) in outs {
                all.extend(o);
                transitions += c;
            }
            all.sort_unstable();
            let mut new_layer = Vec::new();
            for (pos, _, op, k) in all {
                if seen.insert(k) {
                    let parent = layer[pos];
                    has_child[parent] = true;
                    nodes.push(Node { parent: parent as u32, op });
                    has_child.push(false);
                    new_layer.push(nodes.len() - 1);
                }
            }
            depth += 1;
            if !new_layer.is_empty() {
                deepest = depth;
            }
            layer = new_layer;
            if nodes.len() > sys.max_states() || CUT.swap(false, Ordering::Relaxed) {
                st.capped = true;
                break;
            }
        }
        st.capped |= CUT.swap(false, Ordering::Relaxed);
        let frontier_left = if st.capped || depth >= sys.max_depth() { layer.len() } else { 0 };
        // Replay the maximal histories on the shipping pointer kinds.
        let leaves: Vec<usize> = (0..nodes.len()).filter(|i| !has_child[*i]).collect();
        let next = AtomicUsize::new(0);
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let outs = workers(cx.workers, |_| {
            let u = Universe::new();
            let mut n = 0u64;
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= leaves.len() || expired() {
                    break;
                }
                let hist = history(&nodes, leaves[i]);
                u.begin();
                begin_case(cx.suite_idx, &hist);
                let r = guarded(|| sys.shipping(&hist));
                end_case();
                match r {
                    Ok(k) => n += k,
                    Err(msg) => {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(Violation { case: hist, msg: format!("on a shipping pointer kind: {msg}") });
                        }
                        break;
                    }
                }
            }
            universe::set_cur(std::ptr::null_mut());
            n
        });
        if let Some(v) = found.into_inner().unwrap() {
            return Err(v);
        }
        st.add("states", nodes.len() as u64);
        st.add("transitions", transitions);
        st.add("traces_validated_against_impl", outs.iter().sum());
        for (k, v) in sys.extra() {
            st.add(k, v);
        }
        st.bound = format!("{}; deepest history {deepest}{}", st.bound, if frontier_left > 0 { format!(", depth bound reached with {frontier_left} states unexpanded") } else { ", closed under all operations".into() });
        let mid = nodes.len() / 2;
        st.sample(self.show(&history(&nodes, mid)));
        st.sample(self.show(&history(&nodes, nodes.len() - 1)));
        Ok(st)
    }
}
