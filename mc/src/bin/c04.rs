use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { reads: true, ..Default::default() };
    let ix = |v: &[usize]| v.to_vec();
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new("sequence", VectorF { bits: 1, max: if q { 34 } else { 70 }, indices: vec![] }, 1, 100, j).boxed(),
        World::new("sequence", VectorF { bits: 2, max: if q { 36 } else { 70 }, indices: vec![] }, 1, 100, j).boxed(),
        World::new("sequence", VectorF { bits: 3, max: if q { 70 } else { 140 }, indices: ix(&[0, 7, 8, 9, 15, 16, 55, 56, 63, 64, 65, 71]) }, 1, 200, j).boxed(),
        World::new("sequence", VectorF { bits: 1, max: if q { 6 } else { 8 }, indices: vec![] }, 2, 60, j).boxed(),
        World::new("sequence", VectorF { bits: 1, max: if q { 10 } else { 18 }, indices: ix(&[0, 3, 4, 7, 8, 9, 15, 16]) }, 2, 60, j).boxed(),
        World::new("sequence", VectorF { bits: 2, max: if q { 7 } else { 9 }, indices: vec![] }, 2, 60, j).boxed(),
        World::new("sequence", VectorF { bits: 2, max: if q { 18 } else { 22 }, indices: ix(&[0, 3, 4, 15, 16, 17]) }, 2, 60, j).boxed(),
        World::new("sequence", VectorF { bits: 1, max: if q { 4 } else { 6 }, indices: vec![] }, 3, 60, j).boxed(),
        ladder("sequence", World::new("", VectorF { bits: 1, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: (0..=if q { 33 } else { 130 }).collect(), build: pushes, probes: all_index_probes, pairs_up_to: if q { 17 } else { 34 } }),
        ladder("sequence", World::new("", VectorF { bits: 2, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: (0..=if q { 66 } else { 270 }).collect(), build: pushes, probes: all_index_probes, pairs_up_to: if q { 17 } else { 66 } }),
        // deep: twelve levels of two, six of four
        ladder("sequence", World::new("", VectorF { bits: 1, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: if q { vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 2049] } else { vec![191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 768, 769, 1023, 1024, 1025, 1536, 1537, 2047, 2048, 2049, 3073, 4095] }, build: pushes, probes: vector_probes, pairs_up_to: if q { 129 } else { 513 } }),
        ladder("sequence", World::new("", VectorF { bits: 2, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: if q { vec![255, 256, 257, 1023, 1024, 1025, 1281] } else { vec![511, 512, 513, 1023, 1024, 1025, 1279, 1280, 1281, 2049, 4095] }, build: pushes, probes: vector_probes, pairs_up_to: if q { 0 } else { 513 } }),
        ladder("sequence", World::new("", VectorF { bits: 5, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: if q { vec![31, 32, 33, 64, 65, 1023, 1024, 1025, 1056, 1057] } else { vec![31, 32, 33, 63, 64, 65, 96, 97, 512, 992, 993, 1023, 1024, 1025, 1055, 1056, 1057, 1058, 2047, 2048, 2049, 2080] }, build: pushes, probes: vector_probes, pairs_up_to: if q { 65 } else { 1100 } }),
        ladder("sequence", World::new("", VectorF { bits: 7, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: vec![127, 128, 129, 256, 257], build: pushes, probes: vector_probes, pairs_up_to: 129 }),
    ];
    v.extend(vector_lives("sequence", t, j));
    v.push(collecting(VectorF { bits: 5, max: 99, indices: vec![] }, None, 1, pick(t, 35, 70)));
    v.push(extending(VectorF { bits: 1, max: pick(t, 9, 12), indices: vec![0] }, 14, pick(t, 9, 12)));
    v.push(extending(VectorF { bits: 2, max: pick(t, 8, 20), indices: vec![0] }, 22, pick(t, 9, 20)));
    v.push(across([1u8, 2, 3, 5].map(|bits| VectorF { bits, max: 99, indices: vec![0, 1, 2, 3, 4, 7, 8, 9] }).into(), pick(t, 6, 10), |op| op == PUSH || op == POP, true));
    v.push(across([1u8, 2, 4].map(|bits| VectorF { bits, max: 99, indices: vec![0, 3, 4, 15, 16, 17] }).into(), pick(t, 18, 34), |op| op == PUSH, false));
    v.push(types(Vectors::<1>, pick(t, 4, 5)));
    v.push(types(Vectors::<2>, pick(t, 4, 5)));
    v.push(big(Part::Contents, &[What::Vector, What::VectorOf2, What::VectorOf8], t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C04",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of the coexisting versions, deduplicated up to renaming; transitions: one call on the real code, after which every read operation of every version is compared with the reference model. Ladder cases (evaluations) are one operation, or one pair, on a larger structure; non-trivial when it is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
