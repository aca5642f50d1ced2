use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { lifetimes: true, ..Default::default() };
    let mut v = family_worlds("release", t, j);
    v.extend(family_ladders("release", t, j));
    v.extend(family_lives("release", t, j));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C11",
        level: "model_checking",
        rule: "states and transitions: as in the persistence check; after every transition the live element instances are exactly those of the live versions, nothing was cloned except by get_mut / index assignment, and dropping all versions at the end releases every element and node exactly once. Ladder cases (evaluations): the same on larger structures, with a drop of one version in between",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
