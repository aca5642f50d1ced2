use mc::*;
use mc_core::run::Tier;

#[global_allocator]
static ALLOC: mc_core::step::Alloc = mc_core::step::Alloc;

/// Hash keys 0 and 2 collide; 1 lies beside them one level down.
fn keys02(o: u16) -> bool {
    o & 0xfff != 1
}
fn low_ranks(o: u16) -> bool {
    o & 0xfff < 2
}
fn any(_: u16) -> bool {
    true
}
fn seq_short(o: u16) -> bool {
    o == PUSH || o == POP || o == REVERSE || o & 0xfff == 0 && o & 0xf000 != IDXM
}
fn key2(o: u16) -> bool {
    o & 0xfff == 2
}
fn rank0(o: u16) -> bool {
    o & 0xfff == 0
}

fn vec_ops(o: u16) -> bool {
    o == PUSH || o == POP || o == GETM
}
fn ins_rem01(o: u16) -> bool {
    low_ranks(o) && (o & 0xf000 != REP || o == REP)
}
fn ins_rem0(o: u16) -> bool {
    o == INS || o == REM || o == GET
}

fn trie() -> Vec<Vec<u16>> {
    vec![vec![], vec![INS], vec![INS, INS + 2], vec![INS, INS + 1], vec![INS, INS + 1, INS + 2]]
}
fn trees(n: u16) -> Vec<Vec<u16>> {
    (0..=n).map(|k| (0..k).map(|i| INS + i).collect()).collect()
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let b = if q { 2 } else { 3 };
    let few = if q { keys02 } else { any };
    let mut v = vec![
        Team::new(ListF { max: 3 }, 6, 2, 1, b, false).boxed(),
        Team::new(StackF { max: 3 }, 6, 2, 1, b, false).boxed(),
        Team::new(QueueF { max: 3 }, 6, 2, 1, b, false).boxed(),
        Team::new(VectorF { bits: 1, max: 5, indices: vec![0, 4] }, 6, 2, 1, b, false).boxed(),
        Team::new(HtmF::new(4, &[0, 4, 1], 3), 0, 2, 1, b, false).from(trie()).only(few).boxed(),
        Team::new(HtsF::new(4, &[0, 4, 1], 3), 0, 2, 1, b, false).from(trie()).only(few).boxed(),
        Team::new(RbmF { max: 4, getm: true, replace: true }, 0, 2, 1, b, false).from(trees(if q { 3 } else { 4 })).only(if q { ins_rem01 } else { any }).boxed(),
        Team::new(RbsF { max: 5, replace: false }, 0, 2, 1, b, false).from(trees(if q { 4 } else { 5 })).only(if q { low_ranks } else { any }).boxed(),
        Team::new(HtmF::new(64, &[0, 64, 0], 3), 0, 2, 1, 1, false).from(trie()).only(few).boxed(),
        Team::new(HtsF::new(64, &[0, 64, 0], 3), 0, 2, 1, 1, false).from(trie()).only(few).boxed(),
        // two actions each
        Team::new(ListF { max: 4 }, 0, 2, 2, if q { 1 } else { 3 }, false).from(vec![vec![PUSH, PUSH]]).boxed(),
        Team::new(QueueF { max: 4 }, 0, 2, 2, if q { 1 } else { 2 }, false).from(vec![vec![PUSH, PUSH]]).boxed(),
        Team::new(VectorF { bits: 1, max: 4, indices: vec![0] }, 0, 2, 2, 1, false).from(vec![vec![PUSH, PUSH, PUSH]]).only(if q { vec_ops } else { seq_short }).boxed(),
        Team::new(HtmF::new(if q { 4 } else { 64 }, if q { &[0, 4, 1] } else { &[0, 64, 0] }, 3), 0, 2, 2, if q { 1 } else { 2 }, false).from(vec![vec![INS, INS + 2]]).only(key2).boxed(),
        Team::new(RbmF { max: 4, getm: true, replace: true }, 0, 2, 2, if q { 1 } else { 2 }, false).from(if q { vec![vec![INS, INS + 1]] } else { trees(2) }).only(if q { ins_rem0 } else { rank0 }).boxed(),
        // three threads
        Team::new(ListF { max: 3 }, 0, 3, 1, if q { 1 } else { 3 }, false).from(vec![vec![PUSH], vec![PUSH, PUSH]]).boxed(),
        Team::new(VectorF { bits: 1, max: 4, indices: vec![0] }, 0, 3, 1, 1, false).from(vec![vec![PUSH, PUSH, PUSH]]).only(seq_short).boxed(),
        Team::new(HtmF::new(if q { 4 } else { 64 }, if q { &[0, 4, 1] } else { &[0, 64, 0] }, 3), 0, 3, 1, 1, false).from(vec![vec![INS, INS + 2]]).only(key2).boxed(),
        Team::new(RbmF { max: 4, getm: true, replace: true }, 0, 3, 1, 1, false).from(if q { vec![vec![INS, INS + 1]] } else { trees(2) }).only(if q { ins_rem0 } else { rank0 }).boxed(),
        // switching at every read and callback too
        Team::new(ListF { max: 3 }, 6, 2, 1, 1, true).boxed(),
        Team::new(QueueF { max: 3 }, 6, 2, 1, 1, true).boxed(),
        Team::new(VectorF { bits: 1, max: 5, indices: vec![0] }, 0, 2, 1, 1, true).from(vec![vec![PUSH; 3], vec![PUSH; 5]]).boxed(),
        Team::new(HtmF::new(4, &[0, 4, 1], 3), 0, 2, 1, 1, true).from(trie()).only(few).boxed(),
        Team::new(RbmF { max: 4, getm: true, replace: true }, 0, 2, 1, 1, true).from(trees(3)).only(if q { low_ranks } else { any }).boxed(),
    ];
    v.extend([
        Team::new(ListF { max: 3 }, 6, 2, 1, 0, false).conformance(),
        Team::new(QueueF { max: 3 }, 6, 2, 1, 0, false).conformance(),
        Team::new(VectorF { bits: 1, max: 5, indices: vec![0] }, 6, 2, 1, 0, false).conformance(),
        Team::new(HtmF::new(64, &[0, 64, 0], 3), 0, 2, 1, 0, false).from(trie()).only(few).conformance(),
        Team::new(RbmF { max: 4, getm: true, replace: true }, 0, 2, 1, 0, false).from(trees(3)).only(if q { low_ranks } else { any }).conformance(),
    ]);
    v.extend(step_suites(t).into_iter().map(|c| Box::new(mc_core::cases::Forked(c)) as Box<dyn Suite>));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C14",
        level: "model_checking",
        rule: "states: nodes of the schedule tree (a scheduling decision reached by a distinct sequence of choices); transitions: scheduling steps executed; an evaluation is one complete execution of the real code under one schedule, judged in every thread and afterwards; distinct_nontrivial counts, per combination of thread programs, the distinct final heaps and amounts of copying that its schedules produced. In the suites on instructions a state is a preempted execution and a transition an instruction after which another program could take over; an evaluation is again one complete execution. traces_validated_against_impl: the same thread programs on ArcTK, the pointer kind of the Sync variants, with every interleaving of whole actions",
        assumptions: &["executions are sequentially consistent: the memory orderings of the Sync pointer kind (triomphe) are trusted, its code is not", "in the suites on threads, each reference-count operation is one step, and scheduling points are the pointer operations on nodes that existed when the threads started (nodes a thread creates are private to it) and, where stated, every dereference of such a node and every comparison, hash, clone or drop of such an element; the suites on instructions, which run the shipping pointer kind, switch between any two machine instructions outside the allocator"],
        suites,
    })
}
