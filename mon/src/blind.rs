//! C08 - C11 on trees whose storage can be seen only by taking them apart (the in-memory tree, the
//! RocksDB tree): everything is decided at the interface, the storage is counted at the end.

use crate::engine::{hex, Eng, Stats, V};
use crate::gen;
use crate::model;
use crate::props_a::{finish_case, hist_len, with_trace};
use crate::props_b::{state, state_diff};
use crate::tree::{Answers, Fail, Proof};
use crate::viol;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn c08_blind<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    e.w.rebuild = 0;
    e.w.remove = 1;
    let n = hist_len(&mut e, false) / 2 + 2;
    let mut tried = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
        }
        let mut honest: Vec<([u8; N], [u8; N], Vec<u8>, Proof<N>)> = vec![];
        let mut at = crate::rng::Rng::new(e.rng.u64());
        for (r, l) in &e.live {
            for _ in 0..12 {
                let i = at.below(l.map.len());
                let Some((k, v)) = l.map.iter().nth(i) else { break };
                if let Ok(p) = e.t().prove(r, k) {
                    honest.push((*r, *k, v.to_vec(), p));
                }
            }
        }
        if honest.is_empty() {
            return Ok(());
        }
        for _ in 0..250 {
            let (mut r, mut k, mut v, mut p) = e.rng.pick(&honest).clone();
            let other = e.rng.pick(&honest).clone();
            let rng = &mut e.rng;
            for _ in 0..rng.range(1, 2) {
                match rng.below(12) {
                    0 => {
                        v = match rng.below(3) {
                            0 => other.2.clone(),
                            1 => rng.bytes(4),
                            _ => gen::near_value(rng, &v),
                        }
                    }
                    11 => r = gen::near_hash(rng, &r),
                    1 => k = if rng.chance(1, 2) { other.1 } else { gen::near(rng, &k) },
                    2 => r = other.0,
                    3 if !p.is_empty() => {
                        let (i, b) = (rng.below(p.len()), rng.below(N * 8));
                        p[i].0 = gen::with_flip(&p[i].0, b);
                    }
                    4 if !p.is_empty() => {
                        let i = rng.below(p.len());
                        p[i].1 = !p[i].1;
                    }
                    5 => p.truncate(rng.below(p.len() + 1)),
                    6 if !p.is_empty() => {
                        p.remove(rng.below(p.len()));
                    }
                    7 => p.push(if p.is_empty() || rng.chance(1, 2) { (r, rng.chance(1, 2)) } else { *rng.pick(&p) }),
                    8 if p.len() > 1 => {
                        let (i, j) = (rng.below(p.len()), rng.below(p.len()));
                        p.swap(i, j);
                    }
                    9 => {
                        let i = rng.below(p.len().min(other.3.len()) + 1);
                        p.truncate(i);
                        p.extend_from_slice(&other.3[i..]);
                    }
                    _ => v = other.2.clone(),
                }
            }
            tried += 1;
            match e.t().verify(&r, &k, &v, &p) {
                Err(Fail::Err(_)) => {}
                Err(Fail::Panic(m)) => viol!("verifying an altered proof panicked: {m}"),
                Ok(()) => {
                    st.add("accepted_and_true", 1);
                    if e.live.get(&r).and_then(|l| l.map.get(&k)).map(|x| x.as_slice()) != Some(&v[..]) {
                        viol!(
                            "ACCEPTED: {}={} under {}, which does not contain it; proof {:?}",
                            hex(&k),
                            hex(&v),
                            hex(&r),
                            p.iter().map(|(h, s)| (hex(h), *s)).collect::<Vec<_>>()
                        );
                    }
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("forgeries_tried", tried);
    finish_case(&e, st, tried > 10);
    Ok(())
}

pub fn c09_blind<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    let n = hist_len(&mut e, false) / 2 + 1;
    e.w.remove = 1;
    e.w.max_live = 40;
    e.w.max_handles = 40;
    let mut compared = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            let prev = if e.rng.chance(1, 6) { None } else { e.random_live() };
            let k = e.rng.range(1, 8);
            let pairs = e.pairs(k);
            let mut first: Option<[u8; N]> = None;
            for way in 0..4 {
                let mut p = pairs.clone();
                e.rng.shuffle(&mut p);
                let size = match way {
                    0 | 1 => p.len(),
                    2 => 1,
                    _ => p.len().div_ceil(2),
                };
                let mut root = prev;
                for g in p.chunks(size) {
                    let one = g.len() == 1 && way == 2;
                    if let crate::engine::Done::Insert { root: r, .. } = e.insert(root, g, one)? {
                        root = Some(r);
                    }
                }
                let root = root.unwrap();
                compared += 1;
                if *first.get_or_insert(root) != root {
                    viol!("the same pairs in another order or division give root {} and {}", hex(&first.unwrap()), hex(&root));
                }
            }
            let Some(r) = e.random_live() else { continue };
            let map = e.map_of(&r);
            let mut keys = e.probes(&map, 20);
            let again: Vec<[u8; N]> = keys.iter().take(2).copied().collect();
            keys.extend(again);
            e.rng.shuffle(&mut keys);
            let batch = match e.t().get(&r, &keys) {
                Ok(b) => b,
                Err(f) => viol!("a batch read failed: {f}"),
            };
            let mut alone: BTreeMap<[u8; N], Option<Vec<u8>>> = BTreeMap::new();
            for k in &keys {
                match e.t().get_one(&r, k) {
                    Ok(v) => alone.insert(*k, v),
                    Err(f) => viol!("a single read of {} failed: {f}", hex(k)),
                };
            }
            let alone: Answers<N> = alone.into_iter().collect();
            if alone != batch {
                viol!("root {}: single reads and batch read differ: {}", hex(&r), crate::engine::diff(&alone, &batch));
            }
            st.add("reads_compared", 2 * keys.len() as u64);
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("write_forms_compared", compared);
    finish_case(&e, st, compared > 5);
    Ok(())
}

pub fn c10_blind<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    let n = hist_len(&mut e, false);
    // Some trees can no longer tell what they store once they were rebuilt
    let whole = e.rng.chance(1, 2);
    if whole {
        e.w.rebuild = 0;
    }
    let mut rejected = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            for _ in 0..3 {
                let k = e.rng.range(1, 8);
                let pairs = e.pairs(k);
                let mut keys: Vec<[u8; N]> = pairs.iter().map(|x| x.0).collect();
                let mut vals: Vec<Vec<u8>> = pairs.iter().map(|x| x.1.to_vec()).collect();
                let prev = if e.rng.chance(1, 4) { None } else { e.random_live() };
                let mut unknown = [0; N];
                e.rng.fill(&mut unknown);
                if let Some((r, _)) = e.removed.last() {
                    // Its node may live on as a part of another version, never with N >= 8 by accident
                    if e.rng.chance(1, 2) && e.t().get(r, &[]).is_err() {
                        unknown = *r;
                    }
                }
                let what;
                let result = match e.rng.below(8) {
                    0 => {
                        what = "an insert with more keys than values";
                        vals.pop();
                        e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ())
                    }
                    1 => {
                        what = "an insert with more values than keys";
                        vals.push(vec![1]);
                        e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ())
                    }
                    2 => {
                        what = "an insert of nothing";
                        e.tm().insert(prev.as_ref(), &[], &[]).map(|_| ())
                    }
                    3 | 4 => {
                        what = "an insert of the same key twice";
                        let k = *e.rng.pick(&keys);
                        let at = e.rng.below(keys.len() + 1);
                        keys.insert(at, k);
                        vals.insert(at, b"second".to_vec());
                        e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ())
                    }
                    5 => {
                        what = "an insert on an unknown root";
                        if e.rng.chance(1, 2) {
                            e.tm().insert(Some(&unknown), &keys, &vals).map(|_| ())
                        } else {
                            e.tm().insert_one(Some(&unknown), &keys[0], &vals[0]).map(|_| ())
                        }
                    }
                    6 => {
                        what = "the removal of an unknown root";
                        match e.tm().remove(&unknown) {
                            Err(Fail::Panic(m)) => viol!("{what} panicked: {m}"),
                            _ => Err(Fail::Err(String::new())),
                        }
                    }
                    _ => {
                        what = "an insert beyond the depth limit";
                        let Some(p) = prev else { continue };
                        let map = e.map_of(&p);
                        let tk: Vec<[u8; N]> = map.keys().copied().collect();
                        let deepest = keys.iter().map(|k| model::walk_len(&tk, k) - 1).max().unwrap();
                        if deepest == 0 || whole {
                            continue;
                        }
                        let limit = e.rng.below(deepest);
                        set_limit(e, limit)?;
                        let r = e.tm().insert(Some(&p), &keys, &vals).map(|_| ());
                        let back = e.depth;
                        set_limit(e, back)?;
                        r
                    }
                };
                e.trace.push(format!("({what})"));
                rejected += 1;
                match result {
                    Ok(()) => viol!("{what} was accepted"),
                    Err(Fail::Panic(m)) => viol!("{what} panicked: {m}"),
                    Err(Fail::Err(_)) => {}
                }
            }
            if let Some(r) = e.random_live() {
                e.check_root(&r, st, false)?;
            }
        }
        let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
        let want = e.canon.distinct_nodes(&ids);
        if let Some(stored) = e.tree.take().unwrap().dismantle() {
            if stored.len() != want {
                viol!(
                    "after the rejected calls {} nodes are stored, the {} live versions consist of {want}",
                    stored.len(),
                    ids.len()
                );
            }
            st.add("nodes_checked", want as u64);
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("rejected_or_readonly_calls", rejected);
    finish_case(&e, st, rejected > 8);
    Ok(())
}

/// One kind of rejected or read-only call, hundreds of times in a row on one tree, which afterwards has to
/// answer exactly as before.
pub fn barrage<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    let n = hist_len(&mut e, false).min(20);
    let mut calls = 0_u64;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
        }
        let Some(root) = e.random_live() else { return Ok(()) };
        let map = e.map_of(&root);
        let tk: Vec<[u8; N]> = map.keys().copied().collect();
        let mut asked = e.probes(&map, 12);
        asked.sort_unstable();
        asked.dedup();
        let value_at = match e.t().prove(&root, &tk[0]) {
            Ok(p) if !p.is_empty() => p[0].0,
            r => viol!("no proof of {} under {}: {r:?}", hex(&tk[0]), hex(&root)),
        };
        let deepest = tk.iter().map(|k| model::walk_len(&tk, k) - 1).max().unwrap();
        let limited = deepest > 0 && e.rng.chance(1, 2);
        if limited {
            let limit = e.rng.below(deepest);
            set_limit(e, limit)?;
        }
        let deep = *tk.iter().max_by_key(|k| model::walk_len(&tk, k)).unwrap();
        let observe = |e: &Eng<N>| {
            let mut v = vec![format!("{:?}", e.t().get(&root, &asked))];
            for k in &asked {
                v.push(format!("{:?}", e.t().get(&root, &[*k])));
                v.push(format!("{:?}", e.t().get_one(&root, k)));
                v.push(format!("{:?}", e.t().prove(&root, k)));
            }
            v
        };
        let before = observe(e);
        let stored = state(e);
        let mut unknown = [0; N];
        loop {
            e.rng.fill(&mut unknown);
            if !stored.0.contains_key(&unknown) {
                break;
            }
        }
        let times = *e.rng.pick(&[70, 140, 270, 270, 530, 1040, 2100]);
        let mixed = e.rng.chance(1, 3);
        let mut kind = e.rng.below(15);
        let k = e.rng.range(1, 5);
        let pairs = e.pairs(k);
        let keys: Vec<[u8; N]> = pairs.iter().map(|x| x.0).collect();
        let vals: Vec<Vec<u8>> = pairs.iter().map(|x| x.1.to_vec()).collect();
        let twice: Vec<[u8; N]> = keys.iter().chain(&keys[..1]).copied().collect();
        let mut twice_vals = vals.clone();
        twice_vals.push(vals[0].clone());
        e.trace.push(format!("({times} calls of kind {kind}{})", if mixed { " and others" } else { "" }));
        for i in 0..times {
            if mixed && e.rng.chance(1, 3) {
                kind = e.rng.below(15);
            }
            let mut must_fail = true;
            let (what, r): (&str, Result<(), Fail>) = match kind {
                0 => ("a batch read from a value", e.t().get(&value_at, &asked).map(|_| ())),
                1 => ("a read from a value", e.t().get_one(&value_at, &deep).map(|_| ())),
                2 => ("a proof from a value", e.t().prove(&value_at, &deep).map(|_| ())),
                3 if limited => ("a batch read beyond the limit", e.t().get(&root, &[deep]).map(|_| ())),
                4 if limited => ("a read beyond the limit", e.t().get_one(&root, &deep).map(|_| ())),
                5 if limited => ("a proof beyond the limit", e.t().prove(&root, &deep).map(|_| ())),
                6 if limited => ("an insert beyond the limit", e.tm().insert_one(Some(&root), &deep, b"new").map(|_| ())),
                7 => ("a proof under an unknown root", e.t().prove(&unknown, &deep).map(|_| ())),
                8 => ("an insert on an unknown root", e.tm().insert(Some(&unknown), &keys, &vals).map(|_| ())),
                9 => ("an insert of one on an unknown root", e.tm().insert_one(Some(&unknown), &keys[0], &vals[0]).map(|_| ())),
                10 => ("an insert of the same key twice", e.tm().insert(None, &twice, &twice_vals).map(|_| ())),
                11 => ("an insert of nothing", e.tm().insert(Some(&root), &[], &[]).map(|_| ())),
                12 => ("an insert with too many keys", e.tm().insert(Some(&root), &twice, &vals).map(|_| ())),
                13 => {
                    must_fail = false;
                    ("the removal of an unknown root", e.tm().remove(&unknown))
                }
                _ => {
                    must_fail = false;
                    let r = e.t().get(&unknown, &asked).and(e.t().get(&root, &asked)).map(|_| ());
                    let _ = e.t().get_one(&root, &asked[i % asked.len()]);
                    let _ = e.t().prove(&root, &asked[i % asked.len()]);
                    ("a read", if limited { Ok(()) } else { r })
                }
            };
            calls += 1;
            match r {
                Ok(()) if must_fail => viol!("{what} was accepted, call {} of its kind", i + 1),
                Err(Fail::Panic(m)) => viol!("{what} panicked: {m}"),
                Err(f) if !must_fail => viol!("{what} failed, call {} of {times}: {f}", i + 1),
                _ => {}
            }
        }
        if state(e) != stored {
            viol!("{times} rejected or read-only calls changed the storage: {}", state_diff(&stored, &state(e)));
        }
        let after = observe(e);
        for (a, b) in before.iter().zip(&after) {
            if a != b {
                viol!("after {times} rejected or read-only calls of kind {kind} a read under {} gives {b}, before {a}", hex(&root));
            }
        }
        if limited {
            let back = e.depth;
            set_limit(e, back)?;
        }
        for _ in 0..4 {
            e.step()?;
        }
        if let Some(r) = e.random_live() {
            e.check_root(&r, st, false)?;
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("rejected_or_readonly_calls", calls);
    st.max("longest_row_of_rejected_calls", calls);
    finish_case(&e, st, calls > 50);
    Ok(())
}

/// Takes the tree apart and rebuilds it with another limit (`e.depth` keeps the usual one).
fn set_limit<const N: usize>(e: &mut Eng<N>, limit: usize) -> V<()> {
    match e.tree.take().unwrap().rebuild(limit) {
        Ok((t, _)) => {
            e.tree = Some(t);
            Ok(())
        }
        Err(f) => viol!("rebuilding with limit {limit} failed: {f}"),
    }
}

pub fn c11_blind<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    e.w.rebuild = 0;
    if e.rng.chance(1, 2) {
        let f = *e.rng.pick(&[2, 3, 7]);
        let size = if e.rng.chance(1, 25) { e.rng.range(40, 300) } else { e.rng.range(4, 40) };
        e.all_first = size > 40;
        e.pool = gen::pool::<N>(&mut e.rng, f, size);
    }
    let n = hist_len(&mut e, false) / 2 + 2;
    let mut checks = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            let Some(r) = e.random_live() else { continue };
            let map = e.map_of(&r);
            let keys: Vec<[u8; N]> = map.keys().copied().collect();
            let depths = model::depths(&keys);
            let deepest = *depths.iter().max().unwrap();
            st.max("deepest_path", deepest as u64);
            let limit = *e.rng.pick(&[0, deepest, deepest.saturating_sub(1), deepest / 2, deepest + 1]);
            let back = e.depth;
            set_limit(e, limit)?;
            for (k, d) in keys.iter().zip(&depths) {
                let v = map[k].to_vec();
                let single = e.t().get_one(&r, k);
                let batch = e.t().get(&r, &[*k]);
                let proof = e.t().prove(&r, k);
                checks += 1;
                let good = if *d <= limit {
                    single == Ok(Some(v.clone()))
                        && batch == Ok(vec![(*k, Some(v.clone()))])
                        && proof.as_ref().is_ok_and(|p| e.t().verify(&r, k, &v, p).is_ok())
                } else {
                    matches!(single, Err(Fail::Err(_)))
                        && matches!(batch, Err(Fail::Err(_)))
                        && matches!(proof, Err(Fail::Err(_)))
                };
                if !good {
                    viol!("limit {limit}, depth {d}: {} reads {single:?}, in a batch {batch:?}, proof {proof:?}", hex(k));
                }
            }
            // An insert that must be let through leaves a correct version, one that must not none
            let n = e.rng.range(1, 4);
            let pairs = e.pairs(n);
            let d = pairs.iter().map(|p| model::walk_len(&keys, &p.0) - 1).max().unwrap();
            if d <= limit {
                let p: Vec<([u8; N], Rc<Vec<u8>>)> = pairs;
                e.insert(Some(r), &p, false)?;
            } else {
                let k: Vec<[u8; N]> = pairs.iter().map(|p| p.0).collect();
                let v: Vec<Vec<u8>> = pairs.iter().map(|p| p.1.to_vec()).collect();
                match e.tm().insert(Some(&r), &k, &v) {
                    Err(Fail::Err(_)) => {}
                    x => viol!("limit {limit}: an insert along a path of depth {d} gives {x:?} instead of an error"),
                }
            }
            set_limit(e, back)?;
            for r in e.live.keys().copied().collect::<Vec<_>>() {
                e.check_root(&r, st, false)?;
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("keys_read_under_limits", checks);
    finish_case(&e, st, checks > 10);
    Ok(())
}
