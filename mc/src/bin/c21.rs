use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { forms: true, ..Default::default() };
    let mut v = family_worlds("forms", t, j);
    v.extend(family_ladders("forms", t, j));
    v.extend(family_lives("forms", t, j));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C21",
        level: "model_checking",
        rule: "states and transitions: as in the persistence check; every in-place transition is executed again with the persistent form on an identical set of versions, and the two results, their sizes and their reported success are compared. Ladder cases likewise on larger structures",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
