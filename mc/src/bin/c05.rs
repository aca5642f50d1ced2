use mc::*;
use mc_core::run::Tier;

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let _ = q;
    let j = Judge { reads: true, ..Default::default() };
    let mut v: Vec<Box<dyn Suite>> = vec![];
    // Every assignment of hashes from the palette to a few keys, every history (one owner).
    for d in if q { vec![2u8, 4, 16, 64] } else { vec![2, 4, 8, 16, 32, 64] } {
        v.push(all_hashes("map under every hash", d, 4, false, 1, 40, j));
        v.push(all_hashes("set under every hash", d, 4, true, 1, 40, j));
    }
    if !q {
        for d in [4u8, 64] {
            v.push(all_hashes("map under every hash", d, 5, false, 1, 40, j));
        }
    }
    // Several versions sharing structure.
    for (d, h) in [(4u8, vec![0u64, 4, 0, 1]), (16, vec![0, 16, 0, 16]), (64, vec![0, 0, 0, 1 << 60]), (64, vec![0, 64, 0, 1]), (2, vec![0, 1, 2, 0])] {
        v.push(World::new("map", HtmF::new(d, &h, if q { 3 } else { 4 }), 2, if q { 12 } else { 40 }, j).boxed());
        v.push(World::new("set", HtsF::new(d, &h, 4), 2, 40, j).boxed());
    }
    v.push(World::new("map", HtmF::new(4, &[0, 4, 0], 3), 3, if q { 5 } else { 8 }, j).boxed());
    v.push(World::new("set", HtsF::new(64, &[0, 64, 0], 3), 3, if q { 6 } else { 30 }, j).boxed());
    // More keys, one owner.
    v.push(World::new("map", HtmF::new(64, &[0, 0, 0, 0, 0], 5), 1, 40, j).boxed());
    v.push(World::new("map", HtmF::new(4, &[0, 1, 4, 5, 16, 0], 6), 1, 40, j).boxed());
    v.push(World::new("set", HtsF::new(16, &[0, 16, 1, 17, 0, 16], 6), 1, 40, j).boxed());
    v.push(World::new("set", HtsF::new(64, &[0, 1, 2, 3, 4, 5, 6, 7], 8), 1, 40, j).boxed());
    v.extend(hash_ladders("entries", t, j));
    v.extend(hash_lives("entries", t, j));
    for table in [vec![0u64, 0, 0, 0], vec![0, 64, 0, 1]] {
        v.push(collecting(HtmF::new(64, &table, 9), Some(table.clone()), 3, pick(t, 4, 6)));
        v.push(collecting(HtsF::new(64, &table, 9), Some(table), 3, pick(t, 4, 6)));
    }
    let tables: [(u8, [u64; 3]); 5] = [(2, [0, 1, 2]), (4, [0, 4, 0]), (16, [0, 0, 0]), (64, [0, 64, 1]), (64, [2, 2, 1 << 63])];
    v.push(across(tables.map(|(d, h)| HtmF::new(d, &h, 3)).into(), pick(t, 3, 4), |_| true, true));
    v.push(across(tables.map(|(d, h)| HtsF::new(d, &h, 3)).into(), pick(t, 3, 4), |_| true, true));
    v.push(types(HashMaps, pick(t, 4, 5)));
    v.push(types(HashSets, pick(t, 4, 5)));
    v.push(big(Part::Contents, HASHES, t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C05",
        level: "model_checking",
        rule: "states: heap graphs (with sharing) of the coexisting versions, deduplicated up to renaming; transitions: one call on the real code, after which every read operation of every version is compared with the reference model. Ladder cases (evaluations) are one operation, or one pair, on a larger structure; non-trivial when it is not empty, distinct by resulting contents",
        assumptions: &["the pointer kind used for exploration behaves as ArcTK does (every maximal history is replayed on RcK, ArcK and ArcTK)", "element types are parametric: rpds cannot inspect them beyond Eq/Ord/Hash/Clone"],
        suites,
    })
}
