use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let j = Judge::default();
    let mut v = family_worlds("persistence", t, j);
    v.extend(family_ladders("persistence", t, j));
    v.extend(family_lives("persistence", t, j));
    v.push(big(Part::Old, EVERY, t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C01",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of all coexisting versions, deduplicated up to renaming of nodes, labels and versions; transitions: one call on the real code from such a state, after which the contents, order and size of every version are compared with its reference model. Ladder cases (evaluations) are one operation, or one pair of operations on two versions sharing everything, on a larger structure; non-trivial when the structure is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
