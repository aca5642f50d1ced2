//! The distinct shapes a structure can be brought into, each with a shortest history.
use crate::fam::*;
use mc_core::universe;
use mc_core::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, OnceLock};

/// Rebuild a single version from its history of in-place operations.
pub fn rebuild<F: Fam, P: PK>(fam: &F, hist: &[u16]) -> R<(F::S<P>, Vec<Item>)> {
    let mut f = Fresh(0);
    let mut s = fam.empty::<P>();
    let mut m = vec![];
    for op in hist {
        fam.mutate(&mut s, &mut m, *op, &mut f)?;
    }
    Ok((s, m))
}

fn key<F: Fam>(fam: &F, s: &F::S<McK>) -> u128 {
    universe::canon(&[s], if fam.ordered() { Some(HashMap::new()) } else { None })
}

/// All shapes reachable with at most `depth` in-place operations accepted by `allow`.
/// Transitions that fail are left to the checks that judge them.
pub fn reach<F: Fam>(fam: &F, depth: usize, allow: &dyn Fn(u16) -> bool) -> Vec<Vec<u16>> {
    let prev = universe::cur();
    let u = Universe::new();
    let mut seen = HashSet::new();
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    u.begin();
    seen.insert(key(fam, &fam.empty::<McK>()));
    let mut from = 0;
    let t0 = std::time::Instant::now();
    for _ in 0..depth {
        let to = out.len();
        for i in from..to {
            if out.len() > mc_core::run::shape_cap() || t0.elapsed().as_secs() > 60 && mc_core::run::shape_cap() < 100_000 || mc_core::run::expired() {
                mc_core::run::CUT.store(true, std::sync::atomic::Ordering::Relaxed);
                break;
            }
            u.begin();
            let mut ops = vec![];
            if let Ok((_s, m)) = rebuild::<F, McK>(fam, &out[i]) {
                fam.ops(&m, &mut ops);
            }
            for op in ops {
                if !allow(op) {
                    continue;
                }
                let mut h = out[i].clone();
                h.push(op);
                let case: Vec<u32> = pack(&h, &[]);
                mc_core::run::begin_here(&case);
                u.begin();
                let k = mc_core::run::guarded(|| {
                    let (s, _m) = rebuild::<F, McK>(fam, &h)?;
                    Ok(key(fam, &s))
                });
                mc_core::run::end_case();
                if let Ok(k) = k {
                    if seen.insert(k) {
                        out.push(h);
                    }
                }
            }
        }
        from = to;
        if from == out.len() || mc_core::run::CUT.load(std::sync::atomic::Ordering::Relaxed) {
            break;
        }
    }
    universe::set_cur(prev);
    out
}

/// A self-contained case: a history and what to do with the result.
pub fn pack(h: &[u16], rest: &[u32]) -> Vec<u32> {
    let mut c = vec![h.len() as u32];
    c.extend(h.iter().map(|o| *o as u32));
    c.extend(rest);
    c
}

pub fn unpack(c: &[u32]) -> (Vec<u16>, &[u32]) {
    let n = c[0] as usize;
    (c[1..1 + n].iter().map(|o| *o as u16).collect(), &c[1 + n..])
}

/// Shapes computed once, on first use by any worker.
#[derive(Clone)]
pub struct Shapes(Arc<OnceLock<Vec<Vec<u16>>>>);

impl Shapes {
    pub fn new() -> Shapes {
        Shapes(Arc::new(OnceLock::new()))
    }
    pub fn get(&self, f: impl FnOnce() -> Vec<Vec<u16>>) -> &Vec<Vec<u16>> {
        self.0.get_or_init(f)
    }
}

impl Default for Shapes {
    fn default() -> Self {
        Shapes::new()
    }
}

pub fn show_hist<F: Fam>(fam: &F, h: &[u16]) -> String {
    format!("{} after [{}]", fam.name(), h.iter().map(|o| fam.show(*o)).collect::<Vec<_>>().join("; "))
}
