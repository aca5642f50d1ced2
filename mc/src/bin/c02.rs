use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { reads: true, ..Default::default() };
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new("sequence", ListF { max: if q { 40 } else { 80 } }, 1, 100, j).boxed(),
        World::new("sequence", ListF { max: if q { 7 } else { 10 } }, 2, 60, j).boxed(),
        World::new("sequence", ListF { max: if q { 4 } else { 5 } }, 3, 60, j).boxed(),
        World::new("sequence", StackF { max: if q { 40 } else { 80 } }, 1, 100, j).boxed(),
        World::new("sequence", StackF { max: if q { 12 } else { 16 } }, 2, 60, j).boxed(),
        World::new("sequence", StackF { max: if q { 5 } else { 7 } }, 3, 60, j).boxed(),
        ladder("sequence", World::new("", ListF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: vec![0, 1, 2, 3, 4, 5, 10, 50, 100, 500, 1000], build: pushes, probes: |_| vec![PUSH, POP, REVERSE], pairs_up_to: 1000 }),
        ladder("sequence", World::new("", StackF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: vec![0, 1, 2, 3, 4, 5, 10, 50, 100, 500, 1000], build: pushes, probes: |_| vec![PUSH, POP], pairs_up_to: 1000 }),
    ];
    v.extend(list_lives("sequence", t, j));
    v.push(collecting(ListF { max: 99 }, None, 2, pick(t, 6, 8)));
    v.push(collecting(StackF { max: 99 }, None, 2, pick(t, 6, 8)));
    v.push(across(vec![ListF { max: 99 }], pick(t, 6, 9), |_| true, true));
    v.push(across(vec![StackF { max: 99 }], pick(t, 6, 9), |_| true, true));
    v.push(types(Lists, pick(t, 5, 7)));
    v.push(types(Stacks, pick(t, 7, 9)));
    v.push(big(Part::Contents, &[What::List, What::Stack], t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C02",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of the coexisting versions, deduplicated up to renaming; transitions: one call on the real code, after which every read operation of every version is compared with the reference model. Ladder cases (evaluations) are one operation, or one pair, on a larger structure; non-trivial when it is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
