use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { reads: true, ..Default::default() };
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new("sorted map", RbmF { max: if q { 11 } else { 14 }, getm: true, replace: true }, 1, 60, j).boxed(),
        World::new("sorted set", RbsF { max: if q { 13 } else { 17 }, replace: true }, 1, 60, j).boxed(),
        World::new("sorted map", RbmF { max: if q { 4 } else { 5 }, getm: true, replace: true }, 2, if q { 10 } else { 14 }, j).boxed(),
        World::new("sorted set", RbsF { max: if q { 5 } else { 6 }, replace: true }, 2, if q { 9 } else { 12 }, j).boxed(),
        World::new("sorted map", RbmF { max: 3, getm: true, replace: true }, 3, if q { 5 } else { 8 }, j).boxed(),
        ladder("sorted map", World::new("", RbmF { max: 1 << 20, getm: true, replace: true }, 2, 0, j), Ladder { sizes: if q { vec![7, 14, 15, 16, 31, 32, 33] } else { (7..70).collect() }, build: tree_build, probes: tree_probes, pairs_up_to: if q { 8 } else { 20 } }),
        ladder("sorted set", World::new("", RbsF { max: 1 << 20, replace: true }, 2, 0, j), Ladder { sizes: if q { vec![11, 16, 100] } else { vec![7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 100, 200] }, build: tree_build, probes: tree_probes_nogetm, pairs_up_to: 16 }),
    ];
    v.extend(tree_lives("sorted", t, j));
    v.push(collecting(RbmF { max: 99, getm: true, replace: true }, None, 4, pick(t, 4, 6)));
    v.push(collecting(RbsF { max: 99, replace: true }, None, 4, pick(t, 4, 6)));
    v.push(across(vec![RbmF { max: 9, getm: true, replace: true }], pick(t, 3, 4), |_| true, true));
    v.push(across(vec![RbsF { max: 9, replace: true }], pick(t, 3, 4), |_| true, true));
    v.push(types(TreeMaps, pick(t, 4, 5)));
    v.push(types(TreeSets, pick(t, 4, 5)));
    v.push(big(Part::Contents, TREES, t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C06",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of the coexisting versions, deduplicated up to renaming; transitions: one call on the real code, after which every read operation of every version is compared with the reference model. Ladder cases (evaluations) are one operation, or one pair, on a larger structure; non-trivial when it is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
