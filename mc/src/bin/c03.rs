use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { reads: true, ..Default::default() };
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new("fifo", QueueF { max: if q { 16 } else { 24 } }, 1, 100, j).boxed(),
        World::new("fifo", QueueF { max: if q { 7 } else { 9 } }, 2, 60, j).boxed(),
        World::new("fifo", QueueF { max: if q { 4 } else { 5 } }, 3, 60, j).boxed(),
        ladder("fifo", World::new("", QueueF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: vec![0, 1, 2, 3, 4, 5, 10, 50, 100, 500, 1000], build: queue_build, probes: |_| vec![PUSH, POP], pairs_up_to: 1000 }),
    ];
    v.extend(queue_lives("fifo", t, j));
    v.push(collecting(QueueF { max: 99 }, None, 2, pick(t, 6, 8)));
    v.push(across(vec![QueueF { max: 99 }], pick(t, 6, 9), |_| true, true));
    v.push(types(Queues, pick(t, 7, 9)));
    v.push(big(Part::Contents, &[What::Queue], t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C03",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of the coexisting versions, deduplicated up to renaming; transitions: one call on the real code, after which every read operation of every version is compared with the reference model. Ladder cases (evaluations) are one operation, or one pair, on a larger structure; non-trivial when it is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
