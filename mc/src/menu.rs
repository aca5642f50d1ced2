//! The configurations shared by several checks.
use crate::fam::*;
use crate::world::*;
use mc_core::run::Tier;
use mc_core::*;

pub fn pushes(n: u32) -> Vec<u16> {
    vec![PUSH; n as usize]
}

pub fn queue_build(n: u32) -> Vec<u16> {
    [vec![PUSH; n as usize / 2], vec![POP; (n > 4) as usize], vec![PUSH; n as usize - n as usize / 2 + (n > 4) as usize]].concat()
}

pub fn spread(n: u32) -> Vec<u16> {
    // Interesting positions of a sequence of n elements with internal blocks of 2, 4, 8 or 32.
    let mut v: Vec<u32> = vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 511, 512, 1023, 1024, n / 2, n.saturating_sub(2), n.saturating_sub(1), n];
    for b in [1u32, 2, 3, 5] {
        // the last element of the first leaf of the last subtree, and so on
        v.push(n.saturating_sub(1) >> b << b);
    }
    v.retain(|i| *i <= n);
    v.sort();
    v.dedup();
    v.into_iter().map(|i| i as u16).collect()
}

pub fn vector_probes(n: u32) -> Vec<u16> {
    let mut v = vec![PUSH, POP, EXTEND];
    for i in spread(n) {
        v.push(SET + i);
        v.push(GETM + i);
    }
    v
}

pub fn all_index_probes(n: u32) -> Vec<u16> {
    let mut v = vec![PUSH, POP, EXTEND];
    for i in 0..=n as u16 {
        v.push(SET + i);
        v.push(GETM + i);
        if (i as u32) < n {
            v.push(IDXM + i);
        }
    }
    v
}

/// Keys by rank: insert ascending, descending or from both ends.
pub fn tree_build(n: u32) -> Vec<u16> {
    (0..n as u16).map(|i| INS + match n % 3 { 0 => i, 1 => 0, _ => if i % 2 == 0 { 0 } else { i } }).collect()
}

pub fn tree_probes(n: u32) -> Vec<u16> {
    let mut v = vec![];
    for i in 0..n as u16 {
        v.extend([INS + i, REM + i, REP + i, GET + i, REMX + i]);
    }
    v.extend([INS + n as u16, REMX + n as u16, GETX + n as u16]);
    v
}

pub fn tree_probes_nogetm(n: u32) -> Vec<u16> {
    tree_probes(n).into_iter().filter(|o| !matches!(o & 0xf000, GET | GETX)).collect()
}

pub fn hash_build(n: u32) -> Vec<u16> {
    (0..n as u16).map(|i| INS + i).collect()
}

pub fn hash_probes(n: u32) -> Vec<u16> {
    let mut v = vec![];
    for i in 0..(n as u16 + 1) {
        v.extend([INS + i, REM + i, GET + i]);
    }
    v
}

pub fn hash_probes_nogetm(n: u32) -> Vec<u16> {
    hash_probes(n).into_iter().filter(|o| o & 0xf000 != GET).collect()
}

/// Hash values that drive keys to every kind of place in a trie of this degree: apart at the root,
/// one level down, in the middle, only at the last level, and full collisions.
pub fn palette(degree: u8) -> Vec<u64> {
    let s = degree.trailing_zeros();
    let levels = 64u32.div_ceil(s);
    let mut v = vec![0, 1, 1 << s, 1u64 << (s * (levels / 2)), 1u64 << (s * (levels - 1)), u64::MAX];
    v.dedup();
    v
}

/// All multisets of `k` hash values from the palette (assignments up to renaming of keys).
pub fn assignments(pal: &[u64], k: usize) -> Vec<Vec<u64>> {
    fn rec(pal: &[u64], from: usize, k: usize, cur: &mut Vec<u64>, out: &mut Vec<Vec<u64>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..pal.len() {
            cur.push(pal[i]);
            rec(pal, i, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(pal, 0, k, &mut vec![], &mut out);
    out
}

pub fn pick<T>(t: Tier, q: T, th: T) -> T {
    if t == Tier::Quick { q } else { th }
}

/// The families and bounds on which several coexisting versions are explored.
pub fn family_worlds(tag: &'static str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let mut v: Vec<Box<dyn Suite>> = vec![
        World::new(tag, ListF { max: if q { 4 } else { 5 } }, 3, if q { 30 } else { 40 }, j).boxed(),
        World::new(tag, StackF { max: if q { 5 } else { 7 } }, 3, 40, j).boxed(),
        World::new(tag, QueueF { max: if q { 4 } else { 5 } }, 3, if q { 40 } else { 40 }, j).boxed(),
        World::new(tag, VectorF { bits: 1, max: if q { 5 } else { 6 }, indices: vec![] }, 3, 30, j).boxed(),
        World::new(tag, VectorF { bits: 1, max: 9, indices: if q { vec![0, 3, 4, 7, 8] } else { vec![] } }, 2, 30, j).boxed(),
        World::new(tag, VectorF { bits: 2, max: if q { 6 } else { 9 }, indices: vec![] }, 2, 30, j).boxed(),
        World::new(tag, HtmF::new(4, &[0, 4, 0], 3), 3, if q { 6 } else { 8 }, j).boxed(),
        World::new(tag, HtmF::new(4, &[0, 4, 0, 1], 4), 2, 30, j).boxed(),
        World::new(tag, HtmF::new(64, &[0, 0, 0, 1 << 60], 4), 2, if q { 8 } else { 20 }, j).boxed(),
        World::new(tag, HtsF::new(2, &[0, 1, 2, 0], 4), 2, 30, j).boxed(),
        World::new(tag, HtsF::new(16, &[0, 16, 0], 3), 3, if q { 6 } else { 30 }, j).boxed(),
        World::new(tag, RbmF { max: if q { 4 } else { 5 }, getm: true, replace: true }, 2, if q { 10 } else { 14 }, j).boxed(),
        World::new(tag, RbmF { max: 3, getm: true, replace: true }, 3, if q { 6 } else { 9 }, j).boxed(),
        World::new(tag, RbsF { max: if q { 5 } else { 6 }, replace: false }, 2, if q { 10 } else { 12 }, j).boxed(),
    ];
    v.retain(|_| true);
    v
}

/// Larger structures of every family.
pub fn family_ladders(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let mut v = vec![
        ladder(tag, World::new("", ListF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: vec![0, 1, 2, 3, 10, 100, 1000], build: pushes, probes: |_| vec![PUSH, POP, REVERSE], pairs_up_to: 1000 }),
        ladder(tag, World::new("", QueueF { max: 1 << 20 }, 2, 0, j), Ladder { sizes: vec![0, 1, 2, 3, 10, 100, 1000], build: queue_build, probes: |_| vec![PUSH, POP], pairs_up_to: 1000 }),
        ladder(tag, World::new("", VectorF { bits: 1, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: (0..=if q { 20 } else { 70 }).collect(), build: pushes, probes: all_index_probes, pairs_up_to: if q { 10 } else { 20 } }),
        ladder(tag, World::new("", VectorF { bits: 2, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: (14..=if q { 22 } else { 70 }).collect(), build: pushes, probes: all_index_probes, pairs_up_to: if q { 0 } else { 20 } }),
        ladder(tag, World::new("", VectorF { bits: 5, max: 1 << 20, indices: vec![] }, 2, 0, j), Ladder { sizes: if q { vec![31, 32, 33, 64, 65, 1023, 1024, 1025, 1056, 1057] } else { vec![31, 32, 33, 63, 64, 65, 96, 97, 512, 992, 993, 1023, 1024, 1025, 1055, 1056, 1057, 1058, 2047, 2048, 2049, 2080] }, build: pushes, probes: vector_probes, pairs_up_to: if q { 33 } else { 1100 } }),
        ladder(tag, World::new("", RbmF { max: 1 << 20, getm: true, replace: true }, 2, 0, j), Ladder { sizes: if q { vec![7, 14, 15, 16] } else { (7..40).collect() }, build: tree_build, probes: tree_probes, pairs_up_to: if q { 8 } else { 16 } }),
        ladder(tag, World::new("", RbsF { max: 1 << 20, replace: true }, 2, 0, j), Ladder { sizes: if q { vec![11, 16] } else { (7..32).collect() }, build: tree_build, probes: tree_probes_nogetm, pairs_up_to: if q { 0 } else { 16 } }),
    ];
    v.extend(hash_ladders(tag, t, j));
    v
}

pub fn hash_ladders(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let q = t == Tier::Quick;
    let mod7: Vec<u64> = (0..60u64).map(|i| (i % 7) | (i / 7) << 6 | (i % 3) << 60).collect();
    let coll: Vec<u64> = (0..24u64).map(|i| i % 3).collect();
    vec![
        ladder(tag, World::new("", HtmF::new(64, &mod7, 100), 2, 0, j), Ladder { sizes: if q { vec![20, 59] } else { vec![10, 20, 30, 40, 50, 59] }, build: hash_build, probes: hash_probes, pairs_up_to: if q { 0 } else { 59 } }),
        ladder(tag, World::new("", HtmF::new(16, &coll, 100), 2, 0, j), Ladder { sizes: if q { vec![9, 23] } else { vec![3, 6, 9, 12, 15, 20, 23] }, build: hash_build, probes: hash_probes, pairs_up_to: 23 }),
        ladder(tag, World::new("", HtsF::new(4, &mod7, 100), 2, 0, j), Ladder { sizes: vec![30], build: hash_build, probes: hash_probes_nogetm, pairs_up_to: if q { 0 } else { 30 } }),
    ]
}

/// Every assignment of palette hashes to `k` keys.
pub fn all_hashes(tag: &str, degree: u8, k: usize, set: bool, versions: usize, depth: usize, j: Judge) -> Box<dyn Suite> {
    let pal = palette(degree);
    let name = format!("{tag}, degree {degree}, {k} keys, versions<={versions}");
    let bound = format!("every multiset of hashes from {{{}}}", pal.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(" "));
    let a = assignments(&pal, k);
    if set {
        Box::new(Bfs(Choice { name, bound, worlds: a.iter().map(|h| World::new("", HtsF::new(degree, h, k), versions, depth, j)).collect() }))
    } else {
        Box::new(Bfs(Choice { name, bound, worlds: a.iter().map(|h| World::new("", HtmF::new(degree, h, k), versions, depth, j)).collect() }))
    }
}

// Whole lives.

/// Positions spread over 0..n as evenly as possible at any time.
fn golden(i: u32) -> u32 {
    i.wrapping_mul(0x9E37_79B9)
}

pub fn list_life(p: u32, n: u32) -> Vec<u16> {
    let mut v = stack_life(p % 2, n);
    if p >= 2 {
        // reversed at every size one more than a multiple of 50, and once when longest
        let mut at: Vec<usize> = (0..v.len()).filter(|i| i % 50 == 1).collect();
        at.push(n as usize);
        at.sort();
        for i in at.into_iter().rev() {
            v.insert(i, REVERSE);
        }
    }
    v
}

/// All in, all out; or two steps forward, one back.
pub fn stack_life(p: u32, n: u32) -> Vec<u16> {
    let mut v = vec![];
    if p == 0 {
        v.extend(vec![PUSH; n as usize]);
        v.extend(vec![POP; n as usize + 1]);
    } else {
        for _ in 0..n {
            v.extend([PUSH, PUSH, POP]);
        }
        for _ in 0..n {
            v.extend([POP, POP, PUSH]);
        }
        v.extend([POP; 3]);
    }
    v
}

pub fn queue_life(p: u32, n: u32) -> Vec<u16> {
    match p {
        0 | 1 => stack_life(p, n),
        // runs of growing length
        2 => {
            let mut v = vec![];
            let mut r = 1;
            while v.len() < 2 * n as usize {
                v.extend(vec![PUSH; 2 * r]);
                v.extend(vec![POP; r]);
                r += 1;
            }
            v.extend(vec![POP; r * r]);
            v
        }
        // never empty, never long
        _ => (0..n).flat_map(|i| if i == 0 { vec![PUSH, PUSH, PUSH] } else { vec![PUSH, POP] }).collect(),
    }
}

pub fn vector_life(p: u32, n: u32) -> Vec<u16> {
    match p {
        0 | 1 => stack_life(p, n),
        2 => {
            let mut v = vec![];
            for _ in 0..n / 3 {
                v.extend([EXTEND, PUSH]);
            }
            v.extend(vec![POP; n as usize + 1]);
            v
        }
        // writing all over while growing and shrinking
        _ => {
            let at = |len: u32| ((golden(len) as u64 * len as u64) >> 32) as u16;
            let mut v = vec![];
            for len in 1..=n {
                v.extend([PUSH, SET + at(len).min(0xfff), GETM + (len - 1).min(0xfff) as u16]);
            }
            for len in (0..n).rev() {
                v.extend([POP, GETM + at(len).min(0xfff), SET + len.saturating_sub(1).min(0xfff) as u16]);
            }
            v
        }
    }
}

/// Five orders of inserting, four of removing; in every other life with lookups of absent keys and
/// replacements in between.
pub fn tree_life(p: u32, n: u32) -> Vec<u16> {
    let (g, s) = (p % 5, p / 5 % 4);
    let val = |i: u32| -> i64 {
        match g {
            0 => i as i64,
            1 => -(i as i64),
            2 => if i % 2 == 0 { i as i64 } else { -(i as i64) },
            3 => i.reverse_bits() as i64,
            _ => golden(i) as i64,
        }
    };
    let mut v = vec![];
    let mut so_far: Vec<i64> = vec![];
    for i in 0..n {
        let x = val(i);
        let r = so_far.partition_point(|y| *y < x);
        so_far.insert(r, x);
        v.push(INS + r as u16);
        if (g + s) % 2 == 1 {
            v.push(REP + ((golden(i) as u64 * (i + 1) as u64) >> 32) as u16);
            v.push(REMX + if i % 2 == 0 { 0 } else { i as u16 + 1 });
        }
    }
    for len in (1..=n).rev() {
        let r = match s {
            0 => 0,
            1 => len - 1,
            2 => len / 2,
            _ => ((golden(len) as u64 * len as u64) >> 32) as u32,
        };
        v.push(REM + r as u16);
        if (g + s) % 2 == 1 && len > 1 {
            v.push(REMX + if len % 2 == 0 { 0 } else { len as u16 - 1 });
        }
    }
    v
}

pub fn tree_life_getm(p: u32, n: u32) -> Vec<u16> {
    let mut len = 0u32;
    tree_life(p, n)
        .into_iter()
        .flat_map(|o| {
            match o & 0xf000 {
                INS => len += 1,
                REM => len -= 1,
                _ => {}
            }
            if len > 0 && o % 3 == 0 { vec![o, GET + ((golden(len) as u64 * len as u64) >> 32) as u16] } else { vec![o] }
        })
        .collect()
}

/// Three orders each of inserting and removing.
pub fn hash_life(p: u32, n: u32) -> Vec<u16> {
    let order = |o: u32| -> Vec<u16> {
        match o {
            0 => (0..n as u16).collect(),
            1 => (0..n as u16).rev().collect(),
            _ => {
                let mut v: Vec<u16> = (0..n as u16).collect();
                v.sort_by_key(|i| golden(*i as u32 + 1));
                v
            }
        }
    };
    let mut v: Vec<u16> = order(p % 3).into_iter().enumerate().flat_map(|(i, k)| if i % 7 == 3 { vec![INS + k, INS + k, REM + (n as u16 - 1 - k)] } else { vec![INS + k] }).collect();
    v.extend(order(p / 3).into_iter().flat_map(|k| if k % 5 == 2 { vec![REM + k, REM + k] } else { vec![REM + k] }));
    v
}

pub fn hash_life_getm(p: u32, n: u32) -> Vec<u16> {
    hash_life(p, n).into_iter().flat_map(|o| if o % 3 == 1 { vec![o, GET + (golden(o as u32) % n) as u16] } else { vec![o] }).collect()
}

pub fn list_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    vec![
        lives(tag, World::new("", ListF { max: 1 << 20 }, 2, 0, j), pick(t, vec![300, 1030], vec![1030, 5000]), 4, list_life),
        lives(tag, World::new("", StackF { max: 1 << 20 }, 2, 0, j), pick(t, vec![1030], vec![1030, 5000]), 2, stack_life),
    ]
}

pub fn queue_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    vec![lives(tag, World::new("", QueueF { max: 1 << 20 }, 2, 0, j), pick(t, vec![300, 1030], vec![1030, 5000]), 4, queue_life)]
}

pub fn vector_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let v = |bits| World::new("", VectorF { bits, max: 1 << 20, indices: vec![] }, 2, 0, j);
    vec![
        lives(tag, v(1), pick(t, vec![520], vec![1030, 4100]), 4, vector_life),
        lives(tag, v(2), pick(t, vec![1030], vec![1030, 4100]), 4, vector_life),
        lives(tag, v(3), pick(t, vec![520], vec![520, 4100]), 4, vector_life),
        lives(tag, v(4), pick(t, vec![300], vec![300, 4100]), 4, vector_life),
        lives(tag, v(5), pick(t, vec![1060], vec![1060, 3000]), 4, vector_life),
    ]
}

pub fn tree_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    vec![
        lives(tag, World::new("", RbmF { max: 1 << 20, getm: true, replace: true }, 2, 0, j), pick(t, vec![34, 260], vec![520, 2000]), 20, tree_life_getm),
        lives(tag, World::new("", RbsF { max: 1 << 20, replace: true }, 2, 0, j), pick(t, vec![260], vec![520, 2000]), 20, tree_life),
    ]
}

pub fn hash_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let n = pick(t, 260u32, 1100);
    let flat: Vec<u64> = (0..n as u64).map(|i| (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)).map(|h| h ^ h >> 31).collect();
    let thirds: Vec<u64> = (0..n as u64).map(|i| i % 3).collect();
    let mixed: Vec<u64> = (0..n as u64).map(|i| (i % 7) | (i / 7) << 6 | (i % 3) << 60).collect();
    let m = |d: u8, h: &[u64]| World::new("", HtmF::new(d, h, 1 << 20), 2, 0, j);
    let s = |d: u8, h: &[u64]| World::new("", HtsF::new(d, h, 1 << 20), 2, 0, j);
    vec![
        lives(tag, m(64, &flat), vec![n], 9, hash_life_getm),
        lives(tag, m(64, &thirds), vec![40, n / 2], 9, hash_life_getm),
        lives(tag, m(16, &mixed), vec![n], 9, hash_life_getm),
        lives(tag, m(4, &flat), vec![n / 2], 9, hash_life_getm),
        lives(tag, s(64, &mixed), vec![n], 9, hash_life),
        lives(tag, s(32, &flat), vec![n], 9, hash_life),
        lives(tag, s(2, &thirds), vec![40], 9, hash_life),
    ]
}

pub fn family_lives(tag: &str, t: Tier, j: Judge) -> Vec<Box<dyn Suite>> {
    let mut v = list_lives(tag, t, j);
    v.extend(queue_lives(tag, t, j));
    v.extend(vector_lives(tag, t, j));
    v.extend(tree_lives(tag, t, j));
    v.extend(hash_lives(tag, t, j));
    v
}
