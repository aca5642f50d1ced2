//! `clone_from` between structures that were made with different configurations and histories.
use crate::cases::{Seen, mix};
use crate::*;
use archery::{ArcTK, RcK};
use std::sync::Arc;

fn overwrite<F: Fam, P: PK>(from: &F, onto: &F, hf: &[u16], ho: &[u16], shared: bool, all: bool) -> R<(usize, u64)> {
    let mut steps = 0;
    let mut ops = vec![];
    let mut i = 0;
    let mut size;
    loop {
        universe::restart();
        let mut f = Fresh(0);
        let (mut s, mut m) = (from.empty::<P>(), vec![]);
        for op in hf {
            from.mutate(&mut s, &mut m, *op, &mut f)?;
        }
        let (mut t, mut mt) = (onto.empty::<P>(), vec![]);
        for op in ho {
            onto.mutate(&mut t, &mut mt, *op, &mut f)?;
        }
        size = m.len();
        let (mo, keep) = (mt.clone(), shared.then(|| t.clone()));
        t.clone_from(&s);
        mt = m.clone();
        steps += 1;
        from.observe(&t, &mt).map_err(|e| format!("the overwritten one: {e}"))?;
        if i == 0 {
            from.ops(&mt, &mut ops);
        }
        // Each operation, and every one after it.
        let n = ops.len().max(1);
        let (x, y) = (i / n, i % n);
        if let Some(op) = ops.get(if all { x } else { i }) {
            from.mutate(&mut t, &mut mt, *op, &mut f).map_err(|e| format!("then {}: {e}", from.show(*op)))?;
            from.observe(&t, &mt).map_err(|e| format!("then {}: {e}", from.show(*op)))?;
            steps += 1;
            let mut now = vec![];
            from.ops(&mt, &mut now);
            if all && now.contains(&ops[y]) {
                let at = |e| format!("then {} and {}: {e}", from.show(*op), from.show(ops[y]));
                from.mutate(&mut t, &mut mt, ops[y], &mut f).map_err(at)?;
                from.observe(&t, &mt).map_err(at)?;
                steps += 1;
            }
        }
        from.observe(&s, &m).map_err(|e| format!("the source: {e}"))?;
        if let Some(k) = &keep {
            onto.observe(k, &mo).map_err(|e| format!("what the overwritten one was cloned to: {e}"))?;
        }
        drop((s, t, keep));
        let left = universe::live_toks();
        if left != 0 {
            return Err(format!("{left} elements outlive all versions"));
        }
        i += 1;
        if i >= if all { n * n } else { n } {
            break;
        }
    }
    Ok((size, steps))
}

/// Every shape of every configuration overwritten with every shape of every other one.
pub fn across<F: Fam + Send + Sync + 'static>(fams: Vec<F>, depth: usize, allow: fn(u16) -> bool, all: bool) -> Box<dyn Suite> {
    let fams = Arc::new(fams);
    let (f1, f2, f3) = (fams.clone(), fams.clone(), fams);
    let shapes: Vec<Shapes> = f1.iter().map(|_| Shapes::new()).collect();
    fn parts(c: &[u32]) -> Option<(Vec<u16>, Vec<u16>, &[u32])> {
        let (a, r) = unpack(c);
        if r.is_empty() {
            return None;
        }
        let (b, r) = unpack(r);
        (r.len() == 3).then_some((a, b, r))
    }
    Box::new(Cases {
        name: format!("clone_from across {} of {}", f1.len(), f1[0].name().split(' ').next().unwrap_or_default()),
        bound: format!(
            "sources and targets: every shape within {depth} operations of {}; target alone or with a clone; then every {} of operations",
            f1.iter().map(|f| f.name()).collect::<Vec<_>>().join(", "),
            if all { "pair" } else { "one" }
        ),
        generate: Box::new(move |visit| {
            for (a, x) in f1.iter().enumerate() {
                for hf in shapes[a].get(|| reach(x, depth, &allow)) {
                    for (b, y) in f1.iter().enumerate() {
                        for ho in shapes[b].get(|| reach(y, depth, &allow)) {
                            for shared in 0..2 {
                                if !visit(&pack(hf, &pack(ho, &[a as u32, b as u32, shared]))) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }),
        run: Box::new(move |c| {
            let Some((hf, ho, r)) = parts(c) else { return Ok(Seen::new(false, 0)) };
            let (from, onto) = (&f2[r[0] as usize], &f2[r[1] as usize]);
            let (n, steps) = overwrite::<F, McK>(from, onto, &hf, &ho, r[2] == 1, all)?;
            overwrite::<F, RcK>(from, onto, &hf, &ho, r[2] == 1, false).map_err(|e| format!("with RcK: {e}"))?;
            overwrite::<F, ArcTK>(from, onto, &hf, &ho, r[2] == 1, false).map_err(|e| format!("with ArcTK: {e}"))?;
            let key = c.iter().fold(11, |k, x| mix(k, *x as u64));
            let mut s = Seen::new(n > 0, key);
            s.extra = vec![("transitions", steps), ("states", 1), ("traces_validated_against_impl", 1)];
            Ok(s)
        }),
        show: Box::new(move |c| match parts(c) {
            Some((hf, ho, r)) => format!(
                "{}, overwritten by clone_from of {}{}",
                show_hist(&f3[r[1] as usize], &ho),
                show_hist(&f3[r[0] as usize], &hf),
                if r[2] == 1 { ", a clone of the former kept" } else { "" }
            ),
            None => String::new(),
        }),
    })
}
