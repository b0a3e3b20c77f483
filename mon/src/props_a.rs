//! C01 - C07: what versions read, and how roots and contents correspond.

use crate::db::{lock, shared, Core, MODES};
use crate::engine::{hex, Done, Eng, Stats, Viol, V};
use crate::gen;
use crate::intern;
use crate::model::{self, Map};
use crate::nodes::Body;
use crate::rng::Rng;
use crate::tree::{build, Fail, Spec};
use crate::viol;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub fn hist_len<const N: usize>(e: &mut Eng<N>, thorough: bool) -> usize {
    let base = match e.pool.len() {
        0..=64 => 24,
        65..=256 => 8,
        257..=20_000 => 5,
        _ => 3,
    };
    // Now and then a tree lives long
    if e.pool.len() <= 64 && e.rng.chance(1, if thorough { 120 } else { 250 }) {
        let (n, live) = *e.rng.pick(&[(150, 40), (280, 3), (600, 10), (1200, 5)]);
        e.w.max_live = live;
        e.trace.push(format!("(a long history: {n})"));
        return e.rng.range(n * 2 / 3, n);
    }
    let n = e.rng.range(base / 3, base);
    if thorough {
        n * 2
    } else {
        n
    }
}

pub fn finish_case<const N: usize>(e: &Eng<N>, st: &mut Stats, nontrivial: bool) {
    st.evaluations += 1;
    st.add("operations", e.ops);
    let c = lock(&e.core);
    st.add("storage_calls_monitored", c.total.total());
    st.max("largest_storage", c.nodes.len() as u64);
    drop(c);
    st.shapes.extend(&e.shapes);
    st.max("largest_version", e.largest as u64);
    st.max("longest_history", e.ops);
    for l in e.live.values() {
        let keys: Vec<[u8; N]> = l.map.keys().copied().collect();
        st.shapes.insert(model::shape(&keys));
        st.max("largest_version", keys.len() as u64);
    }
    if nontrivial {
        st.cases.insert(e.fp);
    }
    if st.samples.len() < 3 && nontrivial {
        st.samples.push(e.trace.iter().take(12).cloned().collect::<Vec<_>>().join("\n"));
    }
}

pub fn with_trace<const N: usize, T>(e: &Eng<N>, r: V<T>) -> V<T> {
    r.map_err(|v| {
        let mut t = e.trace.clone();
        if t.len() > 60 {
            t.drain(1..t.len() - 58);
            t.insert(1, "...".into());
        }
        Viol(format!("{}\n{}", v.0, t.join("\n")))
    })
}

pub fn c01<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    c01_on(Eng::<N>::random_any(seed)?, thorough, st)
}

pub fn c01_on<const N: usize>(mut e: Eng<N>, thorough: bool, st: &mut Stats) -> V<()> {
    let n = hist_len(&mut e, thorough);
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            let d = e.step()?;
            if e.over() {
                break;
            }
            e.check_warmed(st)?;
            if let Done::Insert { root, .. } = d {
                e.check_root(&root, st, true)?;
            }
            if let Some(r) = e.random_live() {
                e.check_root(&r, st, false)?;
            }
        }
        if e.over() {
            return Ok(());
        }
        let roots: Vec<_> = e.live.keys().copied().collect();
        for r in roots {
            e.check_root(&r, st, true)?;
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, e.live.values().any(|l| l.map.len() > 2));
    Ok(())
}

pub fn c02<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    c02_on(Eng::<N>::random_any(seed)?, thorough, st)
}

pub fn c02_on<const N: usize>(mut e: Eng<N>, thorough: bool, st: &mut Stats) -> V<()> {
    e.snapshots = true;
    e.w.remove = 1;
    let n = hist_len(&mut e, thorough);
    let mut compared = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            let d = e.step()?;
            if e.over() {
                break;
            }
            if let Done::Insert { .. } = d {
                e.check_warmed(st)?;
            }
            let roots: Vec<_> = e.live.keys().copied().collect();
            for r in roots {
                match &d {
                    Done::Insert { root, fresh, .. } => {
                        if r != *root || !fresh {
                            compared += 1;
                            e.compare_snapshot(&r, st, "an insert")?;
                        }
                    }
                    Done::Rebuild => e.compare_snapshot(&r, st, "handing the storage over")?,
                    _ => {}
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("older_versions_compared", compared);
    finish_case(&e, st, compared > 5);
    Ok(())
}

pub fn c03<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 8 && crate::rng::mix(&[seed, 8]) % 2000 == 0 {
        return great_crowd::<N>(seed, st);
    }
    c03_on(Eng::<N>::random_any(seed)?, thorough, st)
}

/// Many holders of the same nodes: handles on one root, versions around a common subtree, keys with a
/// common value.  At the end the versions go in random order.
pub fn crowd<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    let n = *e.rng.pick(&[100, 130, 255, 256, 257, 260, 300, 520]);
    let kind = e.rng.below(3);
    e.w.remove = 0;
    e.w.rebuild = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 5) {
            e.step()?;
        }
        let Some(first) = e.random_live() else { return Ok(()) };
        let map = e.map_of(&first);
        let pairs: Vec<_> = map.iter().map(|(k, v)| (*k, v.clone())).collect();
        match kind {
            0 => {
                for i in 0..n {
                    let from = if e.rng.chance(1, 4) { None } else { Some(first) };
                    if from.is_none() {
                        e.insert(None, &pairs, false)?;
                    } else {
                        e.insert(from, &pairs[i % pairs.len()..][..1], i % 2 == 0)?;
                    }
                }
            }
            1 => {
                let k = if e.rng.chance(1, 2) { pairs[0].0 } else { *e.rng.pick(&e.pool) };
                let k = if e.rng.chance(1, 4) && N > 2 { gen::near(&mut e.rng, &k) } else { k };
                for i in 0..n {
                    e.insert(Some(first), &[(k, Rc::new(format!("other {i}").into_bytes()))], i % 2 == 0)?;
                    if e.over() {
                        return Ok(());
                    }
                }
            }
            _ => {
                let v = Rc::new(b"the same for all".to_vec());
                let keys = gen::many::<N>(&mut e.rng, n);
                let all: Vec<_> = keys.iter().map(|k| (*k, v.clone())).collect();
                let parts = *e.rng.pick(&[1, 1, 2, 5]);
                let mut prev = None;
                for c in all.chunks(all.len().div_ceil(parts)) {
                    if let Done::Insert { root, .. } = e.insert(prev, c, false)? {
                        prev = Some(root);
                    }
                }
                if e.over() {
                    return Ok(());
                }
                // The value goes on for some
                for _ in 0..3 {
                    let k = *e.rng.pick(&keys);
                    e.insert(prev, &[(k, Rc::new(b"no longer".to_vec()))], true)?;
                }
            }
        }
        if e.over() {
            return Ok(());
        }
        e.trace.clear();
        e.trace.push(format!("a crowd of kind {kind}, {n} times"));
        let few = e.live.len() > 40;
        let mut i = 0;
        while let Some(r) = e.random_live() {
            e.remove(r)?;
            i += 1;
            let others: Vec<_> = if few && i % 50 != 0 {
                (0..2).filter_map(|_| e.random_live()).collect()
            } else {
                e.live.keys().copied().collect()
            };
            let all: usize = e.live.values().map(|l| l.handles).sum();
            if kind == 0 && i % 16 != 0 && all > 3 {
                continue;
            }
            for r in others {
                e.check_root(&r, st, false)?;
            }
        }
        st.add("crowds", 1);
        st.max("largest_crowd", n as u64);
        if e.tree.as_ref().is_some() && e.spec != Spec::Mem {
            let left = lock(&e.core).nodes.len();
            if left > 0 {
                viol!("all roots are removed and {left} nodes remain");
            }
        } else if let Some(left) = e.tree.take().unwrap().dismantle() {
            if !left.is_empty() {
                viol!("all roots are removed and {} nodes remain", left.len());
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, true);
    Ok(())
}

/// More holders than two bytes can count.
fn great_crowd<const N: usize>(seed: u64, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let core = shared(Core::<N>::new(*rng.pick(&[crate::db::Mode::Immediate, crate::db::Mode::Queued])));
    let mut t = match build(Spec::LibHash, &core, usize::MAX) {
        Ok(t) => t,
        Err(f) => viol!("cannot build a tree: {f}"),
    };
    let mut ok = |r: Result<[u8; N], Fail>| -> V<[u8; N]> {
        match r {
            Ok(r) => Ok(r),
            Err(f) => viol!("a valid insert failed: {f}"),
        }
    };
    let n = 65_536 + rng.range(1, 40);
    let mut keys = gen::pool::<N>(&mut rng, 0, 4);
    keys.sort_unstable();
    let vals: Vec<Vec<u8>> = (0..keys.len()).map(|i| vec![i as u8; 3]).collect();
    let base = ok(t.insert(None, &keys, &vals))?;
    let same = rng.chance(1, 2);
    let mut roots = vec![base];
    for i in 0..n {
        roots.push(if same {
            ok(t.insert_one(Some(&base), &keys[0], &vals[0]))?
        } else {
            ok(t.insert_one(Some(&base), &keys[0], format!("v{i}").as_bytes()))?
        });
    }
    rng.shuffle(&mut roots);
    while let Some(r) = roots.pop() {
        if let Err(f) = t.remove(&r) {
            viol!("removing a live root failed: {f}");
        }
        if let Some(r) = roots.last() {
            let i = rng.range(1, keys.len() - 1);
            match t.get_one(r, &keys[i]) {
                Ok(Some(v)) if v == vals[i] => {}
                x => viol!("of {n} holders of the same nodes {} are left, and reading gives {x:?}", roots.len()),
            }
        }
    }
    let left = lock(&core).nodes.len();
    if left > 0 {
        viol!("all of {n} roots are removed and {left} nodes remain");
    }
    st.add("crowds", 1);
    st.max("largest_crowd", n as u64);
    st.evaluations += 1;
    st.cases.insert(seed);
    Ok(())
}

pub fn c03_on<const N: usize>(mut e: Eng<N>, thorough: bool, st: &mut Stats) -> V<()> {
    if e.pool.len() <= 64 && e.rng.chance(1, 40) {
        return crowd(e, st);
    }
    e.snapshots = true;
    e.w.remove = e.rng.range(4, 9);
    e.w.noop = 4;
    e.w.revert = 5;
    if e.rng.chance(1, 2) {
        e.w.insert = 3;
        e.w.max_batch = 4;
    }
    let n = 2 * hist_len(&mut e, thorough);
    let mut compared = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            let d = e.step()?;
            if e.over() {
                return Ok(());
            }
            if let Done::Remove { .. } = d {
                e.check_warmed(st)?;
                let roots: Vec<_> = e.live.keys().copied().collect();
                for r in roots {
                    compared += 1;
                    e.compare_snapshot(&r, st, "a removal")?;
                }
            }
        }
        // Down to nothing, in random order
        while let Some(r) = e.random_live() {
            e.remove(r)?;
            e.check_warmed(st)?;
            let roots: Vec<_> = e.live.keys().copied().collect();
            for r in roots {
                compared += 1;
                e.compare_snapshot(&r, st, "a removal")?;
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("surviving_versions_compared", compared);
    finish_case(&e, st, compared > 5);
    Ok(())
}

/// The locations reachable from the live roots; a missing one is a violation.
pub fn closure<const N: usize>(e: &Eng<N>) -> V<HashSet<[u8; N]>> {
    let c = lock(&e.core);
    let mut seen = HashSet::new();
    let mut todo: Vec<[u8; N]> = e.live.keys().copied().collect();
    while let Some(l) = todo.pop() {
        if !seen.insert(l) {
            continue;
        }
        match c.nodes.get(&l) {
            None => viol!("the node {} is needed by a live root and is not stored", hex(&l)),
            Some(s) => match &s.body {
                Body::Branch { zero, one, .. } => todo.extend([*zero, *one]),
                Body::Leaf { data, .. } => todo.push(*data),
                Body::Data(_) => {}
            },
        }
    }
    Ok(seen)
}

/// The same for a tree whose storage can be seen only by taking the tree apart: at the end.
pub fn c04_blind<const N: usize>(mut e: Eng<N>, st: &mut Stats) -> V<()> {
    if e.pool.len() <= 64 && e.rng.chance(1, 30) {
        return crowd(e, st);
    }
    e.w.remove = e.rng.range(2, 8);
    e.w.noop = 4;
    e.w.revert = 4;
    e.w.rebuild = 0;
    if e.rng.chance(1, 2) {
        e.w.max_batch = 5;
    }
    let n = hist_len(&mut e, false);
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            if e.rng.chance(1, 8) {
                reject_something(e);
            }
            e.step()?;
        }
        while e.rng.chance(1, 2) && !e.live.is_empty() {
            let r = e.random_live().unwrap();
            e.remove(r)?;
        }
        if e.rng.chance(1, 3) {
            while let Some(r) = e.random_live() {
                e.remove(r)?;
            }
        }
        let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
        let want = e.canon.distinct_nodes(&ids);
        let Some(stored) = e.tree.take().unwrap().dismantle() else { viol!("the tree cannot be taken apart") };
        if stored.len() != want {
            viol!("the {} live versions consist of {want} different nodes, {} are stored", ids.len(), stored.len());
        }
        for r in e.live.keys() {
            if !stored.contains_key(r) {
                viol!("the live root {} is not stored", hex(r));
            }
        }
        st.add("storage_states_checked", 1);
        st.add("nodes_checked", want as u64);
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, e.ops > 4);
    Ok(())
}

pub fn c04<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 8 && seed % 6 == 0 {
        return c04_blind(Eng::<N>::random_mem(seed)?, st);
    }
    if N >= 8 && crate::rng::mix(&[seed, 8]) % 2000 == 0 {
        return great_crowd::<N>(seed, st);
    }
    let mut e = Eng::<N>::random(seed)?;
    if e.pool.len() <= 64 && e.rng.chance(1, 40) {
        return crowd(e, st);
    }
    e.w.remove = e.rng.range(2, 8);
    e.w.noop = 4;
    e.w.revert = 4;
    if e.rng.chance(1, 2) {
        e.w.max_batch = 5;
    }
    let n = 2 * hist_len(&mut e, thorough);
    let mut shared_nodes = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        let mut left = n;
        loop {
            let d = if left > 0 {
                left -= 1;
                if e.rng.chance(1, 8) {
                    reject_something(e);
                }
                e.step()?
            } else if let Some(r) = e.random_live() {
                e.remove(r)?
            } else {
                break;
            };
            if e.over() {
                return Ok(());
            }
            let need = closure(e)?;
            let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
            let want = e.canon.distinct_nodes(&ids);
            let each: usize = e.live.values().map(|l| 3 * l.map.len() - 1).sum();
            shared_nodes += (each - want.min(each)) as u64;
            {
                let c = lock(&e.core);
                for l in c.nodes.keys() {
                    if !need.contains(l) {
                        viol!(
                            "{} nodes are stored and {} are reachable from the live roots; {} is left over: {:?}",
                            c.nodes.len(),
                            need.len(),
                            hex(l),
                            c.nodes[l]
                        );
                    }
                }
                if need.len() != want {
                    viol!(
                        "the {} live versions consist of {} different nodes, {} are stored",
                        ids.len(),
                        want,
                        need.len()
                    );
                }
                if e.live.is_empty() && !c.nodes.is_empty() {
                    viol!("all roots are removed and {} nodes remain", c.nodes.len());
                }
            }
            st.add("storage_states_checked", 1);
            st.add("nodes_checked", want as u64);
            if let Done::Remove { root, gone: true } = d {
                if !need.contains(&root) {
                    let map = e.removed.last().unwrap().1.clone();
                    let keys: Vec<[u8; N]> = map.keys().copied().collect();
                    if let Some(w) = e.warmed.as_ref().filter(|w| w.root == root) {
                        if matches!(e.t().get_one(&root, &w.key), Ok(Some(_))) {
                            viol!("the removed root {} can still be read", hex(&root));
                        }
                        st.add("removed_roots_probed_as_before", 1);
                    }
                    if let Ok(a) = e.t().get(&root, &keys) {
                        if a.iter().any(|x| x.1.is_some()) {
                            viol!("the removed root {} can still be read", hex(&root));
                        }
                    }
                    if matches!(e.t().get_one(&root, &keys[0]), Ok(Some(_))) {
                        viol!("the removed root {} can still be read", hex(&root));
                    }
                    if e.t().prove(&root, &keys[0]).is_ok() {
                        viol!("proofs are still made for the removed root {}", hex(&root));
                    }
                    st.add("removed_roots_probed", 1);
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("node_copies_saved_by_sharing", shared_nodes);
    finish_case(&e, st, shared_nodes > 10);
    Ok(())
}

/// Calls that are rejected; results are the business of C10.
fn reject_something<const N: usize>(e: &mut Eng<N>) {
    let mut p = e.pairs(3);
    let prev = e.random_live();
    let mut keys: Vec<[u8; N]> = p.iter().map(|x| x.0).collect();
    let mut vals: Vec<Vec<u8>> = p.iter().map(|x| x.1.to_vec()).collect();
    e.trace.push("(a call that is rejected)".into());
    match e.rng.below(3) {
        0 => {
            keys.push(keys[0]);
            vals.push(b"dup".to_vec());
            let _ = e.tm().insert(prev.as_ref(), &keys, &vals);
        }
        1 => {
            keys.push(keys[0]);
            let _ = e.tm().insert(prev.as_ref(), &keys, &vals);
        }
        _ => {
            let mut r = [0; N];
            e.rng.fill(&mut r);
            if !lock(&e.core).nodes.contains_key(&r) {
                let _ = e.tm().insert(Some(&r), &keys, &vals);
                let _ = e.tm().remove(&r);
            }
        }
    }
    p.clear();
}

/// Builds the map in a fresh storage by a random route and returns the root.
pub fn build_by_random_route<const N: usize>(
    rng: &mut Rng,
    spec: Spec,
    map: &Map<N>,
    log: &mut Vec<String>,
) -> V<[u8; N]> {
    let mode = *rng.pick(&MODES);
    let core = shared(Core::new(mode));
    let mut t = match build(spec, &core, usize::MAX) {
        Ok(t) => t,
        Err(f) => viol!("cannot build a tree: {f}"),
    };
    let mut pairs: Vec<([u8; N], Vec<u8>)> = map.iter().map(|(k, v)| (*k, v.to_vec())).collect();
    match rng.below(4) {
        0 => {}
        1 => pairs.reverse(),
        _ => rng.shuffle(&mut pairs),
    }
    let detours = rng.chance(1, 2);
    let removals = rng.chance(1, 2);
    let size = match rng.below(4) {
        _ if pairs.len() > 2000 => rng.range(pairs.len() / 3, pairs.len()),
        0 => 1,
        1 => rng.range(1, 3),
        2 => rng.range(1, pairs.len()),
        _ => pairs.len(),
    };
    let mut root: Option<[u8; N]> = None;
    let mut todo: Vec<(Vec<([u8; N], Vec<u8>)>, bool)> = vec![];
    for c in pairs.chunks(size) {
        if detours && rng.chance(1, 3) {
            // First with other values
            let other: Vec<_> = pairs
                .iter()
                .filter(|_| rng.chance(1, 3))
                .map(|(k, _)| (*k, b"tmp".to_vec()))
                .collect();
            if !other.is_empty() {
                todo.push((other, false));
            }
        }
        todo.push((c.to_vec(), false));
    }
    if detours {
        let mut c = pairs.clone();
        rng.shuffle(&mut c);
        todo.push((c, false));
    }
    log.push(format!("fresh storage ({mode:?}), {} steps", todo.len()));
    for (c, _) in todo {
        let keys: Vec<[u8; N]> = c.iter().map(|x| x.0).collect();
        let vals: Vec<Vec<u8>> = c.iter().map(|x| x.1.clone()).collect();
        let one = c.len() == 1 && rng.chance(1, 2);
        log.push(format!(
            "  {} {}",
            if one { "insert_one" } else { "insert" },
            c.iter().map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect::<Vec<_>>().join(", ")
        ));
        let r = if one {
            t.insert_one(root.as_ref(), &keys[0], &vals[0])
        } else {
            t.insert(root.as_ref(), &keys, &vals)
        };
        let new = match r {
            Ok(r) => r,
            Err(_) if intern::exhausted() => return Ok([0; N]),
            Err(f) => viol!("a valid insert of {} pairs failed: {f}", keys.len()),
        };
        if removals && rng.chance(1, 2) {
            if let Some(old) = root {
                if old != new {
                    log.push(format!("  remove {}", hex(&old)));
                    if let Err(f) = t.remove(&old) {
                        viol!("removing an earlier version failed: {f}");
                    }
                }
            }
        }
        root = Some(new);
    }
    Ok(root.unwrap())
}

pub fn c05<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    c05_on(Eng::<N>::random_any(seed)?, thorough, st)
}

pub fn c05_on<const N: usize>(mut e: Eng<N>, thorough: bool, st: &mut Stats) -> V<()> {
    e.w.revert = 6;
    let n = hist_len(&mut e, thorough) / 2 + 2;
    let mut routes = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            if let Done::Insert { root, .. } = e.step()? {
                let id = e.live[&root].id;
                if e.root_of[&id] != root {
                    viol!(
                        "the same {} pairs gave root {} before and {} now",
                        e.live[&root].map.len(),
                        hex(&e.root_of[&id]),
                        hex(&root)
                    );
                }
                st.add("roots_compared", 1);
            }
            if e.over() {
                return Ok(());
            }
        }
        for _ in 0..3 {
            let Some(r) = e.random_live() else { break };
            let map = e.map_of(&r);
            for _ in 0..2 {
                let mut log = vec![];
                let mut rng = Rng::new(e.rng.u64());
                let got = build_by_random_route(&mut rng, e.spec, &map, &mut log);
                if e.over() {
                    return Ok(());
                }
                let got = match got {
                    Ok(g) => g,
                    Err(v) => viol!("{}\n{}", v.0, log.join("\n")),
                };
                routes += 1;
                st.add("roots_compared", 1);
                if got != r {
                    viol!(
                        "the {} pairs of root {} gave root {} by another route:\n{}",
                        map.len(),
                        hex(&r),
                        hex(&got),
                        log.join("\n")
                    );
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("independent_routes", routes);
    finish_case(&e, st, routes > 2);
    Ok(())
}

/// Maps that are close to `map` but different.
fn variants<const N: usize>(rng: &mut Rng, map: &Map<N>) -> Vec<BTreeMap<[u8; N], Rc<Vec<u8>>>> {
    let mut out = vec![];
    let keys: Vec<[u8; N]> = map.keys().copied().collect();
    for _ in 0..6 {
        let mut m = (**map).clone();
        let k = *rng.pick(&keys);
        let v = m[&k].clone();
        match rng.below(9) {
            0 => {
                // One bit of a key
                m.remove(&k);
                m.insert(gen::with_flip(&k, gen::bit_pos::<N>(rng)), v);
            }
            1 => {
                // One bit of a value, or one byte more
                let mut v = (*v).clone();
                if v.is_empty() || rng.chance(1, 3) {
                    v.push(0);
                } else {
                    let i = rng.below(v.len());
                    v[i] ^= 1 << rng.below(8);
                }
                m.insert(k, Rc::new(v));
            }
            2 => {
                // Two values exchanged
                let j = *rng.pick(&keys);
                let w = m[&j].clone();
                m.insert(k, w);
                m.insert(j, v);
            }
            3 => {
                // One pair less, or only one
                if m.len() > 1 && rng.chance(2, 3) {
                    m.remove(&k);
                } else {
                    m = BTreeMap::from([(k, v)]);
                }
            }
            4 => {
                // The boundary between key and value moved by one byte
                let mut s = k.to_vec();
                s.extend_from_slice(&v);
                s.insert(0, *rng.pick(&[0, b'd', b'l', b'b']));
                let mut k2 = [0; N];
                k2.copy_from_slice(&s[..N]);
                m.remove(&k);
                m.insert(k2, Rc::new(s[N..].to_vec()));
            }
            5 => {
                let mut s = k.to_vec();
                s.extend_from_slice(&v);
                if s.len() > N {
                    s.remove(0);
                    let mut k2 = [0; N];
                    k2.copy_from_slice(&s[..N]);
                    m.remove(&k);
                    m.insert(k2, Rc::new(s[N..].to_vec()));
                }
            }
            6 => {
                // The value replaced by something that was hashed together with this key
                let n = intern::len();
                for _ in 0..40 {
                    let i = intern::input(rng.below(n.max(1)).min(n - 1));
                    if i.len() > N && (i[1..=N] == k || i[..N] == k) {
                        let o = intern::output(N, &i).unwrap_or_default();
                        m.insert(k, Rc::new(o));
                        break;
                    }
                }
            }
            7 => {
                // Key and value cut out of something that was hashed
                let n = intern::len();
                if n > 0 {
                    let i = intern::input(rng.below(n));
                    let at = rng.below(3);
                    if i.len() >= at + N {
                        let mut k2 = [0; N];
                        k2.copy_from_slice(&i[at..at + N]);
                        m.insert(k2, Rc::new(i[at + N..].to_vec()));
                    }
                }
            }
            _ => {
                // One pair more, next to another
                m.insert(gen::near(rng, &k), v);
            }
        }
        if m != **map {
            out.push(m);
        }
    }
    out
}

pub fn c06<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut e = Eng::<N>::random(seed)?;
    if e.rng.chance(2, 3) {
        // Plain values can imitate everything
        let mode = lock(&e.core).mode;
        let size = e.pool.len().min(24);
        let rng = Rng::new(e.rng.u64());
        e = Eng::new(rng, Spec::LibIntern, mode, size)?;
    }
    e.w.rebuild = 0;
    e.w.remove = 1;
    lock(&e.core).track_contents = true;
    let n = hist_len(&mut e, thorough) / 2 + 2;
    let mut pairs = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        let check = |e: &Eng<N>, d: &Done<N>| -> V<()> {
            if let Done::Insert { root, .. } = d {
                let id = e.live[root].id;
                if e.id_of[root] != id {
                    viol!(
                        "root {} stands for two different sets of pairs, the second with {} pairs",
                        hex(root),
                        e.live[root].map.len()
                    );
                }
            }
            if let Some(c) = lock(&e.core).conflicts.first() {
                viol!("two different nodes have the same location: {c}");
            }
            Ok(())
        };
        for _ in 0..n {
            let d = e.step()?;
            if e.over() {
                return Ok(());
            }
            check(e, &d)?;
        }
        let rounds = if thorough { 6 } else { 3 };
        for _ in 0..rounds {
            let Some(r) = e.random_live() else { break };
            let map = e.map_of(&r);
            let mut rng = Rng::new(e.rng.u64());
            for m in variants(&mut rng, &map) {
                let mut p: Vec<([u8; N], Rc<Vec<u8>>)> = m.into_iter().collect();
                rng.shuffle(&mut p);
                let d = e.insert(None, &p, p.len() == 1 && rng.chance(1, 2))?;
                if e.over() {
                    return Ok(());
                }
                check(e, &d)?;
                pairs += 1;
                if let Done::Insert { root, .. } = d {
                    if root == r {
                        viol!("a version that differs in one pair has the same root {}", hex(&r));
                    }
                }
            }
        }
        st.add("different_roots", e.id_of.len() as u64);
        st.add("node_locations_checked", lock(&e.core).contents.len() as u64);
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("near_pairs_compared", pairs);
    finish_case(&e, st, pairs > 2);
    Ok(())
}

pub fn c07<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    c07_on(Eng::<N>::random_any(seed)?, thorough, st)
}

pub fn c07_on<const N: usize>(mut e: Eng<N>, thorough: bool, st: &mut Stats) -> V<()> {
    let n = hist_len(&mut e, thorough);
    let mut proofs = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for i in 0..n {
            let d = e.step()?;
            if e.over() {
                return Ok(());
            }
            let root = match d {
                Done::Insert { root, .. } => root,
                _ => match e.random_live() {
                    Some(r) => r,
                    None => continue,
                },
            };
            let map = e.map_of(&root);
            let keys: Vec<[u8; N]> = map.keys().copied().collect();
            let cap = if i + 1 == n || thorough { 200 } else { 24 };
            let mut some = keys.clone();
            e.rng.shuffle(&mut some);
            some.truncate(cap);
            for k in &some {
                let v = &map[k];
                let p = match e.t().prove(&root, k) {
                    Ok(p) => p,
                    Err(f) => viol!(
                        "no proof for the present key {} under root {} (map of {}): {f}",
                        hex(k),
                        hex(&root),
                        map.len()
                    ),
                };
                if let Err(f) = e.t().verify(&root, k, v, &p) {
                    viol!(
                        "the proof of {}={} under root {} is not accepted: {f}; proof {:?}",
                        hex(k),
                        hex(v),
                        hex(&root),
                        p.iter().map(|(h, s)| (hex(h), *s)).collect::<Vec<_>>()
                    );
                }
                proofs += 1;
                if st.samples.len() < 5 && p.len() > 4 {
                    st.max("longest_proof", p.len() as u64);
                }
                st.max("longest_proof", p.len() as u64);
            }
            for _ in 0..30 {
                let base = if e.rng.chance(4, 5) { *e.rng.pick(&keys) } else { *e.rng.pick(&e.pool) };
                let k = if e.rng.chance(4, 5) { gen::near(&mut e.rng, &base) } else { base };
                if map.contains_key(&k) {
                    continue;
                }
                match e.t().prove(&root, &k) {
                    Ok(p) => viol!(
                        "a proof of {} items was made for {}, which root {} does not contain",
                        p.len(),
                        hex(&k),
                        hex(&root)
                    ),
                    Err(Fail::Panic(m)) => viol!("proving the absent key {} panicked: {m}", hex(&k)),
                    Err(Fail::Err(_)) => st.add("absent_keys_refused", 1),
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("proofs_verified", proofs);
    finish_case(&e, st, proofs > 10);
    Ok(())
}

