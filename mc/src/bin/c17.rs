//! Serde: a recording format and a source under full control.
use archery::{ArcK, ArcTK, RcK};
use mc::ser::*;
use mc::*;
use mc_core::cases::{Seen, mix};
use mc_core::run::Tier;
use mc_core::universe;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::Arc;

fn nothing_left(what: &str) -> R {
    let (b, t) = (universe::live_blocks(), universe::live_toks());
    if b != 0 || t != 0 {
        return Err(format!("{what}: {b} nodes and {t} elements are still alive"));
    }
    Ok(())
}

fn flat(map: bool, items: &[Item]) -> Vec<u64> {
    let f = |i: &Ix| (i.v as u64) << 32 | i.orig as u64;
    items.iter().flat_map(|(a, b)| if map { vec![f(a), f(b)] } else { vec![f(a)] }).collect()
}

/// The items with their identities replaced by nothing, in model order.
fn values<F: SerF>(items: &[Item]) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = items.iter().map(|i| (i.0.v, i.1.v)).collect();
    if !F::ORDERED {
        v.sort();
    }
    v
}

fn record<S: Serialize>(s: &S, fail: Option<u32>) -> (Rec, Result<(), E>) {
    let mut r = Rec::default();
    r.fail = fail;
    let e = s.serialize(&mut r);
    (r, e)
}

fn read<F: SerF, P: PK>(vals: &[u64], hint: u32, form: u32, fail: Option<u32>) -> (Result<F::S<P>, E>, u32) {
    let calls = Cell::new(0);
    let r = F::S::<P>::deserialize(Source { vals, hint, form, fail, calls: &calls, map: F::MAP });
    (r, calls.get())
}

fn serializing<F: SerF, P: PK>(f: &F, items: &[(u32, u32)], shape: u32) -> R<u64> {
    let s: F::S<P> = f.make(items, shape);
    let m = f.items(&s);
    let n = f.len(&s);
    let (r, e) = record(&s, None);
    want!("serialize()", e, Ok(()));
    want!("the kind of data emitted", r.map, F::MAP);
    want!("the declared length", r.len, Some(Some(n)));
    want!("the values emitted", r.vals.clone(), flat(F::MAP, &m));
    want!("calls of end()", r.ended, 1);
    want!("the number of items", m.len(), n);
    for c in 0..r.calls() {
        let (x, e) = record(&s, Some(c));
        want!(format!("serialize() to a format that fails at call {c}"), e, Err(E::At(c)));
        if x.ended != 0 || x.calls() != c + 1 {
            return Err(format!("the format is used further after it failed at call {c}"));
        }
    }
    want!("the items after serializing", f.items(&s), m.clone());
    // and back
    forget_made();
    let (t, _) = read::<F, P>(&r.vals, 1, 0, None);
    let t = t.map_err(|e| format!("deserializing what was serialized: {e}"))?;
    if t != s || s != t {
        return Err("what was serialized and deserialized differs from the original".into());
    }
    want!("the items after a round trip", values::<F>(&f.items(&t)), values::<F>(&m));
    want!("the length after a round trip", f.len(&t), n);
    let (r2, _) = record(&t, None);
    if F::ORDERED {
        want!("the values emitted again", r2.vals.iter().map(|x| x >> 32).collect::<Vec<_>>(), r.vals.iter().map(|x| x >> 32).collect::<Vec<_>>());
    }
    drop((s, t));
    nothing_left("after dropping both")?;
    Ok(r.calls() as u64 + 1)
}

fn deserializing<F: SerF, P: PK>(f: &F, items: &[(u32, u32)], hint: u32) -> R<u64> {
    let vals = source_vals(F::MAP, items);
    forget_made();
    let (s, calls) = read::<F, P>(&vals, hint, 0, None);
    let s = s.map_err(|e| format!("deserializing: {e}"))?;
    let made = made();
    want!("the number of values read", made.len(), vals.len());
    let m = model_of::<F>(&made);
    let mut got = f.items(&s);
    if !F::ORDERED {
        got.sort();
    }
    if !same_items(&got, &m) {
        return Err(format!("contents are [{}], expected [{}]", show_items(&got), show_items(&m)));
    }
    want!("the length", f.len(&s), m.len());
    f.probe(&s, &m)?;
    let t: F::S<P> = f.make(items, 0);
    if s != t || t != s {
        return Err("the result differs from adding the items one at a time".into());
    }
    drop((s, t));
    nothing_left("after dropping the result")?;
    for c in 0..calls {
        forget_made();
        let (s, used) = read::<F, P>(&vals, hint, 0, Some(c));
        want!(format!("deserializing from a source that fails at call {c}"), s.as_ref().err(), Some(&E::At(c)));
        drop(s);
        want!("the calls made to a source that fails", used, c + 1);
        nothing_left(&format!("after the source failed at call {c}"))?;
    }
    for form in 1..FORMS.len() as u32 {
        let (s, _) = read::<F, P>(&vals, hint, form, None);
        drop(s);
        nothing_left(&format!("after the source gave {}", FORMS[form as usize]))?;
    }
    Ok(calls as u64 + FORMS.len() as u64)
}

fn items_of<F: SerF>(vs: &[u32]) -> Vec<(u32, u32)> {
    vs.iter().enumerate().map(|(i, v)| (*v, if F::MAP { 100 + i as u32 } else { 0 })).collect()
}

/// Sequences of a length, over an alphabet.
fn sequences(alphabet: u32, n: usize) -> impl Iterator<Item = Vec<u32>> {
    (0..(alphabet as u64).pow(n as u32)).map(move |mut x| {
        (0..n).map(|_| { let d = (x % alphabet as u64) as u32; x /= alphabet as u64; d }).collect()
    })
}

fn suite<F: SerF>(f: F, alphabet: u32, len: usize, longer: Vec<u32>) -> Vec<Box<dyn Suite>> {
    let f = Arc::new(f);
    let (f1, f2, f3, f4, f5) = (f.clone(), f.clone(), f.clone(), f.clone(), f.clone());
    let l2 = longer.clone();
    vec![
        Box::new(Cases {
            name: format!("serializing {}", f.name()),
            bound: format!("every sequence of up to {len} items over {alphabet} values, the format failing at every call, and back; pointer kinds McK, ArcTK, ArcK, RcK"),
            generate: Box::new(move |visit| {
                for n in 0..=len {
                    for v in sequences(alphabet, n) {
                        for shape in 0..f1.shapes(n) {
                            for kind in 0..4 {
                                if !visit(&[&[kind, shape], &v[..]].concat()) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }),
            run: Box::new(move |c| {
                f2.prepare();
                let it = items_of::<F>(&c[2..]);
                let n = match c[0] {
                    0 => serializing::<F, McK>(&*f2, &it, c[1]),
                    1 => serializing::<F, ArcTK>(&*f2, &it, c[1]),
                    2 => serializing::<F, ArcK>(&*f2, &it, c[1]),
                    _ => serializing::<F, RcK>(&*f2, &it, c[1]),
                }?;
                let mut s = Seen::new(!it.is_empty(), c.iter().fold(1, |h, x| mix(h, *x as u64)));
                s.extra = vec![("executions", n)];
                Ok(s)
            }),
            show: Box::new(move |c| format!("{} of {:?}, shape {}, pointer kind {}", f3.name(), &c[2..], c[1], ["McK", "ArcTK", "ArcK", "RcK"][c[0] as usize])),
        }),
        Box::new(Cases {
            name: format!("deserializing {}", f.name()),
            bound: format!("every sequence of up to {len} items over {alphabet} values (repeated keys included) and {longer:?} items, {} size hints, the source failing at every call, and {} other forms of data", SIZE_HINTS.len(), FORMS.len() - 1),
            generate: Box::new(move |visit| {
                let all = (0..=len).flat_map(|n| sequences(alphabet, n));
                let more = l2.iter().map(|n| (0..*n).map(|i| if F::KEYED { (i * 5) % (n - n / 4) } else { i }).collect::<Vec<u32>>());
                for v in all.chain(more) {
                    for h in 0..SIZE_HINTS.len() as u32 {
                        for kind in 0..2 {
                            if !visit(&[&[kind, h], &v[..]].concat()) {
                                return;
                            }
                        }
                    }
                }
            }),
            run: Box::new(move |c| {
                f4.prepare();
                let it = items_of::<F>(&c[2..]);
                let n = if c[0] == 0 { deserializing::<F, McK>(&*f4, &it, c[1]) } else { deserializing::<F, ArcTK>(&*f4, &it, c[1]) }?;
                let mut s = Seen::new(!it.is_empty(), c.iter().fold(2, |h, x| mix(h, *x as u64)));
                s.extra = vec![("executions", n)];
                Ok(s)
            }),
            show: Box::new(move |c| format!("{} from {:?}, size hint {}, pointer kind {}", f5.name(), &c[2..], SIZE_HINTS[c[1] as usize], ["McK", "ArcTK"][c[0] as usize])),
        }),
    ]
}

// ------------------------------------------------------------------------- A format people use

type S32 = Vec<String>;

fn json_case(kind: u32, v: &[u32]) -> R {
    let seq: S32 = v.iter().map(|x| format!("k{x}")).collect();
    let obj: Vec<(String, u32)> = v.iter().enumerate().map(|(i, x)| (format!("k{x}"), i as u32)).collect();
    let text_seq = serde_json::to_string(&seq).unwrap();
    let text_obj = format!("{{{}}}", obj.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let last: std::collections::BTreeMap<String, u32> = obj.iter().cloned().collect();
    macro_rules! seq {
        ($t:ty, $set:expr, $sort:expr) => {{
            let s: $t = serde_json::from_str(&text_seq).map_err(|e| format!("reading {text_seq}: {e}"))?;
            let mut want: S32 = seq.clone();
            if $set {
                want.sort();
                want.dedup();
            }
            let mut got: S32 = s.iter().cloned().collect();
            let text = serde_json::to_string(&s).map_err(|e| format!("writing: {e}"))?;
            want!("the text written", text.clone(), serde_json::to_string(&got).unwrap());
            if $sort {
                got.sort();
            }
            want!("the contents", got, want);
            let t: $t = serde_json::from_str(&text).map_err(|e| format!("reading back: {e}"))?;
            if s != t {
                return Err("reading back gives something else".into());
            }
            // Truncated and malformed text is an error.
            for cut in 0..text_seq.len() {
                if serde_json::from_str::<$t>(&text_seq[..cut]).is_ok() {
                    return Err(format!("reading {} succeeds", &text_seq[..cut]));
                }
            }
            if serde_json::from_str::<$t>(&text_seq.replace('k', "\\x")).is_ok() && !seq.is_empty() {
                return Err("reading malformed text succeeds".into());
            }
        }};
    }
    macro_rules! map {
        ($t:ty) => {{
            let s: $t = serde_json::from_str(&text_obj).map_err(|e| format!("reading {text_obj}: {e}"))?;
            let got: std::collections::BTreeMap<String, u32> = s.iter().map(|(k, v)| (k.clone(), *v)).collect();
            want!("the contents", &got, &last);
            want!("the size", s.size(), last.len());
            let text = serde_json::to_string(&s).map_err(|e| format!("writing: {e}"))?;
            let order: Vec<String> = s.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            want!("the text written", text.clone(), format!("{{{}}}", order.join(",")));
            let t: $t = serde_json::from_str(&text).map_err(|e| format!("reading back: {e}"))?;
            if s != t {
                return Err("reading back gives something else".into());
            }
            for cut in 0..text_obj.len() {
                if serde_json::from_str::<$t>(&text_obj[..cut]).is_ok() {
                    return Err(format!("reading {} succeeds", &text_obj[..cut]));
                }
            }
        }};
    }
    use rpds::*;
    match kind {
        0 => seq!(List<String>, false, false),
        1 => seq!(ListSync<String>, false, false),
        2 => seq!(Stack<String>, false, false),
        3 => seq!(Queue<String>, false, false),
        4 => seq!(QueueSync<String>, false, false),
        5 => seq!(Vector<String>, false, false),
        6 => seq!(VectorSync<String>, false, false),
        7 => seq!(HashTrieSet<String>, true, true),
        8 => seq!(HashTrieSetSync<String>, true, true),
        9 => seq!(RedBlackTreeSet<String>, true, false),
        10 => seq!(RedBlackTreeSetSync<String>, true, false),
        11 => map!(HashTrieMap<String, u32>),
        12 => map!(HashTrieMapSync<String, u32>),
        13 => map!(RedBlackTreeMap<String, u32>),
        _ => map!(RedBlackTreeMapSync<String, u32>),
    }
    Ok(())
}

fn json(alphabet: u32, len: usize) -> Box<dyn Suite> {
    Box::new(Cases {
        name: "serde_json".into(),
        bound: format!("the default and Sync structures of strings over serde_json; every sequence of up to {len} items over {alphabet} values, every truncation of the text"),
        generate: Box::new(move |visit| {
            for n in 0..=len {
                for v in sequences(alphabet, n) {
                    for k in 0..15 {
                        if !visit(&[&[k], &v[..]].concat()) {
                            return;
                        }
                    }
                }
            }
        }),
        run: Box::new(|c| {
            json_case(c[0], &c[1..])?;
            Ok(Seen::new(c.len() > 1, c.iter().fold(3, |h, x| mix(h, *x as u64))))
        }),
        show: Box::new(|c| format!("structure {} of {:?}", c[0], &c[1..])),
    })
}

fn suites(t: Tier) -> Vec<Box<dyn Suite>> {
    let n = pick(t, 6, 8);
    let big = || pick(t, vec![40], vec![8, 9, 33, 40, 70]);
    let mut v = vec![];
    v.extend(suite(SList, 2, pick(t, 10, 15), big()));
    v.extend(suite(SStack, 2, pick(t, 10, 15), big()));
    v.extend(suite(SQueue, 2, pick(t, 9, 13), big()));
    v.extend(suite(SVec, 2, pick(t, 10, 15), pick(t, vec![33, 40], vec![31, 32, 33, 64, 65, 70])));
    v.extend(suite(SRbm, 4, n, big()));
    v.extend(suite(SRbs, 4, n, big()));
    for tb in [vec![0, 0, 0, 0], vec![0, 64, 0, 1], vec![0, 1 << 60, 1, 64]] {
        let tb = TableHash(Arc::new(tb));
        v.extend(suite(SHtm(tb.clone()), 3, pick(t, 6, 9), big()));
        v.extend(suite(SHts(tb), 3, pick(t, 6, 9), big()));
    }
    v.push(json(3, pick(t, 5, 8)));
    v.push(mc::big(Part::Serde, EVERY, t));
    v
}

fn main() -> std::process::ExitCode {
    mc_core::run::main(Check {
        property: "C17",
        level: "fault_enumeration",
        rule: "evaluations: one structure serialized into a recording format (once for every call at which the format fails) and read back, or one source deserialized (once for every call at which it fails, and once for each unsuitable form of data). Judged: what is emitted (length, order, values), what is rebuilt (identity of every element kept, so that the last of several equal keys is told apart from the others), the error returned, and that nothing read so far stays alive after an error. Non-trivial: at least one item; distinct by items, size hint, shape and pointer kind",
        assumptions: &["a source hands out its items in order and errors are passed on by the element types"],
        suites,
    })
}
