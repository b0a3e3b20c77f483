//! C08 - C11.

use crate::db::{lock, shared, Core, MODES};
use crate::engine::{hex, Eng, Stats, V};
use crate::gen;
use crate::intern;
use crate::model::{self, Map};
use crate::nodes::{Body, Stored};
use crate::props_a::{finish_case, hist_len, with_trace};
use crate::rng::Rng;
use crate::tree::{build, Answers, Fail, Proof, Spec, Tree, FAIL_ENCODE};
use crate::viol;
use starling::traits::Decode;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

// ---- C08 --------------------------------------------------------------------------------------

/// What a location contains, by the stored nodes (of all time).
fn truth<const N: usize>(c: &Core<N>, spec: Spec, at: &[u8; N], key: &[u8; N], value: &[u8]) -> bool {
    let mut todo = vec![*at];
    let mut steps = 0;
    while let Some(l) = todo.pop() {
        steps += 1;
        if steps > 20_000 {
            return true; // cannot tell
        }
        match c.contents.get(&l) {
            Some(Body::Branch { zero, one, .. }) => todo.extend([*zero, *one]),
            Some(Body::Leaf { key: k, data }) => {
                if k == key {
                    if let Some(Body::Data(d)) = c.contents.get(data) {
                        let stored = match spec {
                            Spec::MyIntern => match crate::tree::Rec::decode(d) {
                                Ok(r) => r.body,
                                Err(_) => continue,
                            },
                            _ => d.clone(),
                        };
                        if stored == value {
                            return true;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    false
}

struct Attack<'a, const N: usize> {
    e: &'a Eng<N>,
    parents: HashMap<[u8; N], Vec<([u8; N], [u8; N], bool)>>,
}

impl<'a, const N: usize> Attack<'a, N> {
    fn try_it(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &Proof<N>, what: &str, st: &mut Stats) -> V<()> {
        st.add("forgeries_tried", 1);
        match self.e.t().verify(root, key, value, proof) {
            Err(Fail::Err(_)) => Ok(()),
            Err(Fail::Panic(m)) => viol!("verifying a forged proof ({what}) panicked: {m}"),
            Ok(()) => {
                st.add("accepted_and_true", 1);
                let c = lock(&self.e.core);
                if truth(&c, self.e.spec, root, key, value) {
                    return Ok(());
                }
                viol!(
                    "ACCEPTED ({what}): {}={} under {}, which does not contain it; proof {:?}",
                    hex(key),
                    hex(value),
                    hex(root),
                    proof.iter().map(|(h, s)| (hex(h), *s)).collect::<Vec<_>>()
                )
            }
        }
    }

    /// The data and leaf hashes of a pair, learnt by watching the verifier.
    fn hashes(&self, root: &[u8; N], key: &[u8; N], value: &[u8]) -> Option<([u8; N], [u8; N])> {
        let probe = |proof: &Proof<N>| -> Option<[u8; N]> {
            intern::watch();
            let _ = self.e.t().verify(root, key, value, proof);
            let seen = intern::watched();
            let mut a = [0; N];
            let o = seen.last()?;
            if o.len() != N {
                return None;
            }
            a.copy_from_slice(o);
            Some(a)
        };
        let d = probe(&vec![([0; N], false), ([0; N], false)])?;
        let l = probe(&vec![(d, false), ([0; N], false)])?;
        Some((d, l))
    }

    /// The way up from a location to some root.
    fn path_up(&self, rng: &mut Rng, from: &[u8; N], to: Option<&[u8; N]>) -> (Proof<N>, [u8; N]) {
        let mut at = *from;
        let mut p = vec![];
        for _ in 0..300 {
            if Some(&at) == to {
                break;
            }
            let Some(ps) = self.parents.get(&at) else { break };
            let (parent, sibling, zero) = *rng.pick(ps);
            p.push((sibling, zero));
            at = parent;
            if to.is_none() && rng.chance(1, 10) {
                break;
            }
        }
        (p, at)
    }
}

pub fn c08<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 8 && seed % 6 == 0 {
        return crate::blind::c08_blind(Eng::<N>::random_mem(seed)?, st);
    }
    let mut rng = Rng::new(seed);
    let spec = *rng.pick(&[Spec::LibIntern, Spec::LibIntern, Spec::MyIntern]);
    let mode = *rng.pick(&MODES);
    let size = rng.range(2, 24);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), spec, mode, size)?;
    e.w.rebuild = 0;
    e.w.remove = 1;
    if e.rng.chance(1, 20) {
        // Long proofs
        let size = e.rng.range(20, 520);
        e.pool = gen::deep::<N>(&mut e.rng, size);
        e.all_first = true;
    }
    lock(&e.core).track_contents = true;
    let n = hist_len(&mut e, false) / 2 + 2;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
            if e.rng.chance(1, 4) {
                // Pairs that imitate other nodes
                let i = intern::len();
                if i > 0 {
                    let inp = intern::input(e.rng.below(i));
                    let at = e.rng.below(3);
                    if inp.len() >= at + N {
                        let mut k = [0; N];
                        k.copy_from_slice(&inp[at..at + N]);
                        let v = Rc::new(inp[at + N..].to_vec());
                        let prev = e.random_live();
                        e.insert(prev, &[(k, v)], e.ops % 2 == 0)?;
                    }
                }
            }
        }
        if e.over() || e.live.is_empty() {
            return Ok(());
        }
        let mut rng = Rng::new(e.rng.u64());
        let mut parents: HashMap<[u8; N], Vec<([u8; N], [u8; N], bool)>> = HashMap::new();
        let locations: Vec<[u8; N]>;
        {
            let c = lock(&e.core);
            let mut l: Vec<_> = c.contents.keys().copied().collect();
            l.sort_unstable();
            for at in &l {
                if let Body::Branch { zero, one, .. } = &c.contents[at] {
                    parents.entry(*zero).or_default().push((*at, *one, true));
                    parents.entry(*one).or_default().push((*at, *zero, false));
                }
            }
            locations = l;
        }
        let a = Attack { e, parents };
        let roots: Vec<[u8; N]> = e.live.keys().copied().collect();
        let mut honest: Vec<([u8; N], [u8; N], Vec<u8>, Proof<N>)> = vec![];
        for r in &roots {
            let map = e.live[r].map.clone();
            for _ in 0..12 {
                let Some((k, v)) = map.iter().nth(rng.below(map.len())) else { break };
                if let Ok(p) = e.t().prove(r, k) {
                    honest.push((*r, *k, v.to_vec(), p));
                }
            }
        }
        if honest.is_empty() {
            return Ok(());
        }
        let rounds = if thorough { 1500 } else { 350 };
        for _ in 0..rounds {
            let (mut r, mut k, mut v, mut p) = rng.pick(&honest).clone();
            let other = rng.pick(&honest).clone();
            let what;
            match rng.below(17) {
                0 => {
                    what = "another value";
                    v = match rng.below(3) {
                        0 => other.2.clone(),
                        1 => rng.bytes(5),
                        _ => gen::near_value(&mut rng, &v),
                    };
                }
                16 => {
                    what = "an altered root";
                    r = gen::near_hash(&mut rng, &r);
                }
                1 => {
                    what = "another key";
                    k = if rng.chance(1, 2) { other.1 } else { gen::near(&mut rng, &k) };
                }
                2 => {
                    what = "another root";
                    r = if rng.chance(1, 2) { other.0 } else { *rng.pick(&locations) };
                }
                3 => {
                    what = "a changed bit";
                    if !p.is_empty() {
                        let i = rng.below(p.len());
                        let b = rng.below(N * 8);
                        p[i].0 = gen::with_flip(&p[i].0, b);
                    }
                }
                4 => {
                    what = "a changed side";
                    if !p.is_empty() {
                        let i = rng.below(p.len());
                        p[i].1 = !p[i].1;
                    }
                    if rng.chance(1, 2) {
                        v = other.2.clone();
                    }
                }
                5 => {
                    what = "a shortened proof";
                    let n = rng.below(p.len() + 1);
                    p.truncate(n);
                    if rng.chance(1, 2) {
                        v = other.2.clone();
                    }
                    if rng.chance(1, 3) {
                        if let Some(x) = p.last() {
                            r = x.0;
                        }
                    }
                }
                6 => {
                    what = "a dropped item";
                    if !p.is_empty() {
                        p.remove(rng.below(p.len()));
                    }
                }
                7 => {
                    what = "an item twice";
                    if !p.is_empty() {
                        let i = rng.below(p.len());
                        p.insert(i, p[i]);
                    }
                }
                8 => {
                    what = "exchanged items";
                    if p.len() > 1 {
                        let (i, j) = (rng.below(p.len()), rng.below(p.len()));
                        p.swap(i, j);
                    }
                }
                9 => {
                    what = "spliced proofs";
                    let i = rng.below(p.len().min(other.3.len()) + 1);
                    p.truncate(i);
                    p.extend_from_slice(&other.3[i..]);
                    if rng.chance(1, 2) {
                        r = other.0;
                    }
                    if rng.chance(1, 3) {
                        v = other.2.clone();
                    }
                }
                10 => {
                    what = "items of stored locations";
                    for _ in 0..rng.range(1, 2) {
                        let i = rng.below(p.len() + 1);
                        p.insert(i, (*rng.pick(&locations), rng.chance(1, 2)));
                    }
                    if rng.chance(1, 2) {
                        v = other.2.clone();
                    }
                }
                11 => {
                    what = "the root itself as an item";
                    let x = (r, rng.chance(1, 2));
                    let i = rng.below(p.len() + 1);
                    p.insert(i, x);
                    if rng.chance(1, 2) {
                        p = vec![x; rng.range(1, 4)];
                    }
                    if rng.chance(1, 2) {
                        v = other.2.clone();
                    }
                }
                12 | 13 => {
                    // Right data and leaf hashes for a false pair, on top of a true path
                    what = "correct hashes of a false pair on a true path";
                    if rng.chance(1, 2) {
                        v = other.2.clone();
                    } else {
                        k = gen::near(&mut rng, &k);
                    }
                    let Some((d, l)) = a.hashes(&r, &k, &v) else { continue };
                    let mut q = vec![(d, rng.chance(1, 2)), (l, rng.chance(1, 2))];
                    q.extend(p.iter().skip(2));
                    p = q;
                    match rng.below(4) {
                        0 => p.truncate(2),
                        1 => p[0].0 = other.3.first().map_or(d, |x| x.0),
                        2 => p[1].0 = other.3.get(1).map_or(l, |x| x.0),
                        _ => {}
                    }
                    if rng.chance(1, 4) {
                        r = l;
                        // A root that is the leaf hash of a pair is the version with that pair
                        if p.len() == 2 {
                            continue;
                        }
                    }
                }
                _ => {
                    // A pair cut out of a hash input, and the way up from wherever its hashes
                    // occur in the stored trees
                    what = "a pair cut out of a hash input";
                    let inp = intern::input(rng.below(intern::len()));
                    let at = rng.below(3);
                    if inp.len() < at + N {
                        continue;
                    }
                    k.copy_from_slice(&inp[at..at + N]);
                    v = inp[at + N..].to_vec();
                    if rng.chance(1, 4) {
                        v = intern::output(N, &inp).unwrap_or_default();
                    }
                    let Some((d, l)) = a.hashes(&r, &k, &v) else { continue };
                    let from = if rng.chance(3, 4) { l } else { d };
                    let (up, top) = a.path_up(&mut rng, &from, None);
                    if top == l && up.is_empty() {
                        p = vec![(d, false), (l, false)];
                        p.push((*rng.pick(&locations), rng.chance(1, 2)));
                        r = *rng.pick(&roots);
                    } else {
                        p = vec![(d, false), (l, false)];
                        p.extend(up);
                        r = top;
                    }
                }
            }
            a.try_it(&r, &k, &v, &p, what, st)?;
        }
        st.add("honest_proofs", honest.len() as u64);
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, e.live.len() > 1);
    Ok(())
}

// ---- C09 --------------------------------------------------------------------------------------

fn on_copy<const N: usize>(e: &Eng<N>) -> V<Box<dyn Tree<N>>> {
    let core = shared(lock(&e.core).clone());
    match build(e.spec, &core, usize::MAX) {
        Ok(t) => Ok(t),
        Err(f) => viol!("cannot build a tree: {f}"),
    }
}

pub fn c09<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 8 && seed % 6 == 0 {
        return crate::blind::c09_blind(Eng::<N>::random_mem(seed)?, st);
    }
    let mut e = Eng::<N>::random(seed)?;
    let n = hist_len(&mut e, thorough) / 2 + 1;
    let mut compared = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
            // Writes
            let prev = if e.rng.chance(1, 6) { None } else { e.random_live() };
            let most = if e.pool.len() > 64 { e.pool.len().min(1500) } else { 12 };
            let k = e.rng.range(1, most);
            let mut pairs = e.pairs(k);
            if let Some(p) = prev {
                if e.rng.chance(1, 2) {
                    // With an update and something already there
                    let map = e.map_of(&p);
                    let (k, v) = map.iter().nth(e.rng.below(map.len())).map(|(k, v)| (*k, v.clone())).unwrap();
                    if pairs.iter().all(|x| x.0 != k) {
                        pairs.push((k, v));
                    }
                }
            }
            let mut roots: Vec<(String, [u8; N])> = vec![];
            for way in 0..5 {
                let mut t = on_copy(e)?;
                let mut p = pairs.clone();
                let name = match way {
                    0 => "one batch".to_string(),
                    1 => {
                        e.rng.shuffle(&mut p);
                        "one permuted batch".into()
                    }
                    2 => {
                        e.rng.shuffle(&mut p);
                        "single inserts".into()
                    }
                    3 => {
                        e.rng.shuffle(&mut p);
                        "batches of one".into()
                    }
                    _ => {
                        p.sort();
                        if e.rng.chance(1, 2) {
                            p.reverse();
                        }
                        "two batches".into()
                    }
                };
                let groups: Vec<&[([u8; N], Rc<Vec<u8>>)]> = match way {
                    0 | 1 => vec![&p[..]],
                    2 | 3 => p.chunks(1).collect(),
                    _ => p.chunks(p.len().div_ceil(2)).collect(),
                };
                let mut root = prev;
                for g in groups {
                    let keys: Vec<[u8; N]> = g.iter().map(|x| x.0).collect();
                    let vals: Vec<Vec<u8>> = g.iter().map(|x| x.1.to_vec()).collect();
                    let r = if way == 2 {
                        t.insert_one(root.as_ref(), &keys[0], &vals[0])
                    } else {
                        t.insert(root.as_ref(), &keys, &vals)
                    };
                    match r {
                        Ok(r) => root = Some(r),
                        Err(_) if e.over() => return Ok(()),
                        Err(f) => viol!("{name}: a valid insert failed: {f}"),
                    }
                }
                let root = root.unwrap();
                // Also what it reads
                if way < 3 {
                    let mut m = prev.map(|p| (*e.live[&p].map).clone()).unwrap_or_default();
                    for (k, v) in &pairs {
                        m.insert(*k, v.clone());
                    }
                    let keys: Vec<[u8; N]> = pairs.iter().map(|p| p.0).collect();
                    let want: Answers<N> = keys
                        .iter()
                        .map(|k| (*k, Some(m[k].to_vec())))
                        .collect::<BTreeMap<_, _>>()
                        .into_iter()
                        .collect();
                    match t.get(&root, &keys) {
                        Ok(got) if got == want => {}
                        Ok(got) => viol!("after {name}: {}", crate::engine::diff(&want, &got)),
                        Err(f) => viol!("after {name}: reading the batch failed: {f}"),
                    }
                }
                roots.push((name, root));
            }
            if e.over() {
                return Ok(());
            }
            for r in &roots {
                compared += 1;
                if r.1 != roots[0].1 {
                    viol!(
                        "the pairs {:?} on {:?} give root {} by {} and {} by {}",
                        pairs.iter().map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect::<Vec<_>>(),
                        prev.map(|p| hex(&p)),
                        hex(&roots[0].1),
                        roots[0].0,
                        hex(&r.1),
                        r.0
                    );
                }
            }
            // Reads
            let Some(r) = e.random_live() else { continue };
            let map = e.map_of(&r);
            let mut keys = e.probes(&map, 30);
            if e.rng.chance(1, 2) {
                let again: Vec<[u8; N]> = keys.iter().take(3).copied().collect();
                keys.extend(again);
            }
            e.rng.shuffle(&mut keys);
            let batch = match e.t().get(&r, &keys) {
                Ok(b) => b,
                Err(f) => viol!("a batch read of {:?} failed: {f}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>()),
            };
            let mut alone: BTreeMap<[u8; N], Option<Vec<u8>>> = BTreeMap::new();
            for k in &keys {
                match e.t().get_one(&r, k) {
                    Ok(v) => alone.insert(*k, v),
                    Err(f) => viol!("a single read of {} failed: {f}", hex(k)),
                };
                match e.t().get(&r, &[*k]) {
                    Ok(b) if b.len() == 1 && b[0] == (*k, alone[k].clone()) => {}
                    x => viol!("a batch of one for {} gives {x:?}, the single read {:?}", hex(k), alone[k]),
                }
            }
            let alone: Answers<N> = alone.into_iter().collect();
            if alone != batch {
                viol!(
                    "root {}: single reads and batch read of {:?} differ: {}",
                    hex(&r),
                    keys.iter().map(|k| hex(k)).collect::<Vec<_>>(),
                    crate::engine::diff(&alone, &batch)
                );
            }
            e.rng.shuffle(&mut keys);
            match e.t().get(&r, &keys) {
                Ok(b) if b == batch => {}
                x => viol!("the order of the requested keys changed the answers: {x:?} and {batch:?}"),
            }
            st.add("reads_compared", 3 * keys.len() as u64);
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("write_forms_compared", compared);
    finish_case(&e, st, compared > 5);
    Ok(())
}

// ---- C10 --------------------------------------------------------------------------------------

pub type State<const N: usize> = (HashMap<[u8; N], Stored<N>>, Vec<([u8; N], Option<Stored<N>>)>);

pub fn state<const N: usize>(e: &Eng<N>) -> State<N> {
    let c = lock(&e.core);
    (c.nodes.clone(), c.pending.clone())
}

pub fn state_diff<const N: usize>(a: &State<N>, b: &State<N>) -> String {
    for (k, v) in &b.0 {
        match a.0.get(k) {
            None => return format!("{} appeared: {v:?}", hex(k)),
            Some(o) if o != v => return format!("{} changed from {o:?} to {v:?}", hex(k)),
            _ => {}
        }
    }
    for k in a.0.keys() {
        if !b.0.contains_key(k) {
            return format!("{} disappeared", hex(k));
        }
    }
    format!("{} writes are waiting, {} before", b.1.len(), a.1.len())
}

pub fn c10<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if seed % 16 == 3 {
        let e = if N >= 8 && seed % 32 == 3 { Eng::<N>::random_mem(seed)? } else { Eng::<N>::random(seed)? };
        return crate::blind::barrage(e, st);
    }
    if N >= 8 && seed % 6 == 0 {
        return crate::blind::c10_blind(Eng::<N>::random_mem(seed)?, st);
    }
    let mut e = Eng::<N>::random(seed)?;
    if e.rng.chance(1, 3) {
        let rng = Rng::new(e.rng.u64());
        let mode = lock(&e.core).mode;
        let size = e.pool.len();
        e = Eng::new(rng, Spec::MyIntern, mode, size)?;
    }
    let n = hist_len(&mut e, thorough);
    let mut rejected = 0;
    let mut kinds = 0_u64;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
            for _ in 0..4 {
                let before = state(e);
                let kind = e.rng.below(14);
                let k = e.rng.range(1, 8);
                let pairs = e.pairs(k);
                let mut keys: Vec<[u8; N]> = pairs.iter().map(|x| x.0).collect();
                let mut vals: Vec<Vec<u8>> = pairs.iter().map(|x| x.1.to_vec()).collect();
                let prev = if e.rng.chance(1, 4) { None } else { e.random_live() };
                let mut must_fail = true;
                let result: Result<(), Fail>;
                let what: String;
                match kind {
                    0 => {
                        what = "an insert with more keys than values".into();
                        vals.truncate(keys.len() - 1);
                        result = e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ());
                    }
                    1 => {
                        what = "an insert with more values than keys".into();
                        vals.push(b"x".to_vec());
                        if e.rng.chance(1, 4) {
                            keys.clear();
                        }
                        result = e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ());
                    }
                    2 => {
                        what = "an insert of nothing".into();
                        result = e.tm().insert(prev.as_ref(), &[], &[]).map(|_| ());
                    }
                    3 | 4 => {
                        what = "an insert of the same key twice".into();
                        let i = e.rng.below(keys.len());
                        let k = keys[i];
                        let v = if e.rng.chance(1, 2) { vals[i].clone() } else { b"second".to_vec() };
                        let at = e.rng.below(keys.len() + 1);
                        keys.insert(at, k);
                        vals.insert(at, v);
                        if e.rng.chance(1, 5) {
                            keys = vec![k, k];
                            vals.truncate(1);
                            vals.push(vals[0].clone());
                        }
                        result = e.tm().insert(prev.as_ref(), &keys, &vals).map(|_| ());
                    }
                    5 | 6 => {
                        let mut r = [0; N];
                        e.rng.fill(&mut r);
                        if !e.removed.is_empty() && e.rng.chance(1, 2) {
                            let i = e.rng.below(e.removed.len());
                            r = e.removed[i].0;
                        }
                        if before.0.contains_key(&r) {
                            continue;
                        }
                        what = "an insert on an unknown root".into();
                        result = if kind == 5 {
                            e.tm().insert(Some(&r), &keys, &vals).map(|_| ())
                        } else {
                            e.tm().insert_one(Some(&r), &keys[0], &vals[0]).map(|_| ())
                        };
                    }
                    7 => {
                        // A limit below the depth of a path
                        let Some(p) = prev else { continue };
                        let map = e.map_of(&p);
                        let tk: Vec<[u8; N]> = map.keys().copied().collect();
                        let deepest = keys.iter().map(|k| model::walk_len(&tk, k) - 1).max().unwrap();
                        if deepest == 0 {
                            continue;
                        }
                        let limit = e.rng.below(deepest);
                        what = format!("an insert along a path of {deepest} under a limit of {limit}");
                        let mut t = match build(e.spec, &e.core, limit) {
                            Ok(t) => t,
                            Err(f) => viol!("cannot build a tree: {f}"),
                        };
                        result = if keys.len() == 1 && e.rng.chance(1, 2) {
                            t.insert_one(Some(&p), &keys[0], &vals[0]).map(|_| ())
                        } else {
                            t.insert(Some(&p), &keys, &vals).map(|_| ())
                        };
                    }
                    8 => {
                        if e.spec != Spec::MyIntern {
                            continue;
                        }
                        let at = e.rng.below(keys.len());
                        what = format!("an insert of {} values of which number {at} cannot be encoded", keys.len());
                        FAIL_ENCODE.with(|c| c.set(at as u64));
                        let r = if keys.len() == 1 {
                            e.tm().insert_one(prev.as_ref(), &keys[0], &vals[0])
                        } else {
                            e.tm().insert(prev.as_ref(), &keys, &vals)
                        };
                        FAIL_ENCODE.with(|c| c.set(u64::MAX));
                        result = r.map(|_| ());
                    }
                    9 => {
                        let mut r = [0; N];
                        e.rng.fill(&mut r);
                        if !e.removed.is_empty() && e.rng.chance(1, 2) {
                            let i = e.rng.below(e.removed.len());
                            r = e.removed[i].0;
                        }
                        if before.0.contains_key(&r) {
                            continue;
                        }
                        what = "the removal of an unknown root".into();
                        must_fail = false;
                        result = e.tm().remove(&r);
                    }
                    10 => {
                        // A starting root that is a value
                        let data: Vec<[u8; N]> = {
                            let mut d: Vec<_> = before
                                .0
                                .iter()
                                .filter(|(_, s)| matches!(s.body, Body::Data(_)))
                                .map(|(k, _)| *k)
                                .collect();
                            d.sort_unstable();
                            d
                        };
                        if data.is_empty() {
                            continue;
                        }
                        let d = *e.rng.pick(&data);
                        what = "an insert on the location of a value".into();
                        result = e.tm().insert(Some(&d), &keys, &vals).map(|_| ());
                    }
                    _ => {
                        what = "a read".into();
                        must_fail = false;
                        let Some(r) = prev else { continue };
                        let map = e.map_of(&r);
                        let keys = e.probes(&map, 10);
                        e.begin();
                        let k = keys[0];
                        let a = e.t().get(&r, &keys).map(|_| ());
                        let b = e.t().get_one(&r, &k).map(|_| ());
                        let p = e.t().prove(&r, &k);
                        if let Ok(p) = &p {
                            let _ = e.t().verify(&r, &k, b"something", p);
                        }
                        let mut x = [0; N];
                        e.rng.fill(&mut x);
                        let _ = e.t().get(&x, &keys);
                        let _ = e.t().get_one(&x, &k);
                        let _ = e.t().prove(&x, &k);
                        let c = lock(&e.core).op.clone();
                        if c.writes() > 0 {
                            viol!("reads made {} writes and {} removals in the storage", c.inserts, c.removes);
                        }
                        result = a.and(b);
                    }
                }
                if e.over() {
                    return Ok(());
                }
                kinds |= 1 << kind;
                rejected += 1;
                match &result {
                    Ok(()) if must_fail => viol!(
                        "{what} was accepted (prev {:?}, keys {:?})",
                        prev.map(|p| hex(&p)),
                        keys.iter().map(|k| hex(k)).collect::<Vec<_>>()
                    ),
                    Err(Fail::Panic(m)) => viol!("{what} panicked: {m}"),
                    _ => {}
                }
                let after = state(e);
                if after != before {
                    viol!(
                        "{what} changed the storage: {} (prev {:?}, keys {:?})",
                        state_diff(&before, &after),
                        prev.map(|p| hex(&p)),
                        keys.iter().map(|k| hex(k)).collect::<Vec<_>>()
                    );
                }
                e.trace.push(format!("({what})"));
            }
            // Still usable
            if let Some(r) = e.random_live() {
                e.check_root(&r, st, false)?;
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    FAIL_ENCODE.with(|c| c.set(u64::MAX));
    with_trace(&e, r)?;
    st.add("rejected_or_readonly_calls", rejected);
    st.max("kinds_of_calls_in_one_case", u64::from(kinds.count_ones()));
    finish_case(&e, st, rejected > 8);
    Ok(())
}

// ---- C11 --------------------------------------------------------------------------------------

pub fn c11<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 8 && seed % 6 == 0 {
        return crate::blind::c11_blind(Eng::<N>::random_mem(seed)?, st);
    }
    let mut e = Eng::<N>::random(seed)?;
    e.w.rebuild = 0;
    if e.rng.chance(1, 2) {
        // Deep trees
        let f = *e.rng.pick(&[2, 3, 7]);
        let size = if e.rng.chance(1, 25) { e.rng.range(48.min(N * 8), 520.min(N * 8)) } else { e.rng.range(4, 48.min(N * 8)) };
        e.pool = gen::pool::<N>(&mut e.rng, f, size);
        e.all_first = size > 48;
        if size > 48 {
            e.w.max_batch = size;
        }
    }
    let n = hist_len(&mut e, thorough) / 2 + 2;
    let mut checks = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
            let Some(r) = e.random_live() else { continue };
            let map = e.map_of(&r);
            let keys: Vec<[u8; N]> = map.keys().copied().collect();
            let depths = model::depths(&keys);
            let deepest = *depths.iter().max().unwrap();
            st.max("deepest_path", deepest as u64);
            let mut limits = vec![0, deepest, deepest + 1, usize::MAX, usize::MAX - 1];
            if deepest > 0 {
                limits.push(deepest - 1);
                limits.push(e.rng.below(deepest));
                limits.push(*e.rng.pick(&depths));
            }
            for limit in limits {
                check_limit(e, &r, &map, &keys, &depths, limit, st)?;
                checks += 1;
                if e.over() {
                    return Ok(());
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("limits_checked", checks);
    finish_case(&e, st, checks > 10);
    Ok(())
}

fn check_limit<const N: usize>(
    e: &mut Eng<N>,
    r: &[u8; N],
    map: &Map<N>,
    keys: &[[u8; N]],
    depths: &[usize],
    limit: usize,
    st: &mut Stats,
) -> V<()> {
    let copy = shared(lock(&e.core).clone());
    let mut t = match build(e.spec, &copy, limit) {
        Ok(t) => t,
        Err(f) => viol!("cannot build a tree with limit {limit}: {f}"),
    };
    let mut order: Vec<usize> = (0..keys.len()).collect();
    e.rng.shuffle(&mut order);
    order.truncate(20);
    let mut within: Vec<[u8; N]> = vec![];
    let mut beyond: Vec<[u8; N]> = vec![];
    for i in order {
        let (k, d) = (keys[i], depths[i]);
        let v = map[&k].to_vec();
        let single = t.get_one(r, &k);
        let batch = t.get(r, &[k]);
        let proof = t.prove(r, &k);
        st.add("keys_read_under_limits", 1);
        if d <= limit {
            within.push(k);
            if single != Ok(Some(v.clone())) {
                viol!("limit {limit}, depth {d}: single read of {} gives {single:?}", hex(&k));
            }
            if batch != Ok(vec![(k, Some(v.clone()))]) {
                viol!("limit {limit}, depth {d}: batch read of {} gives {batch:?}", hex(&k));
            }
            match proof {
                Ok(p) => {
                    if let Err(f) = t.verify(r, &k, &v, &p) {
                        viol!("limit {limit}, depth {d}: proof of {} is not accepted: {f}", hex(&k));
                    }
                }
                Err(f) => viol!("limit {limit}, depth {d}: proving {} gives {f}", hex(&k)),
            }
        } else {
            beyond.push(k);
            if !matches!(single, Err(Fail::Err(_))) {
                viol!("limit {limit}, depth {d}: single read of {} gives {single:?} instead of an error", hex(&k));
            }
            if !matches!(batch, Err(Fail::Err(_))) {
                viol!("limit {limit}, depth {d}: batch read of {} gives {batch:?} instead of an error", hex(&k));
            }
            if !matches!(proof, Err(Fail::Err(_))) {
                viol!("limit {limit}, depth {d}: proving {} gives {proof:?} instead of an error", hex(&k));
            }
        }
    }
    if !within.is_empty() {
        let want: Answers<N> = within
            .iter()
            .map(|k| (*k, Some(map[k].to_vec())))
            .collect::<BTreeMap<_, _>>()
            .into_iter()
            .collect();
        let got = t.get(r, &within);
        if got != Ok(want) {
            viol!("limit {limit}: a batch of {} keys within the limit gives {got:?}", within.len());
        }
    }
    if !beyond.is_empty() {
        let mut all = within.clone();
        all.extend(&beyond);
        e.rng.shuffle(&mut all);
        let got = t.get(r, &all);
        if !matches!(got, Err(Fail::Err(_))) {
            viol!("limit {limit}: a batch with {} keys beyond the limit gives {got:?}", beyond.len());
        }
    }
    // Absent keys
    for _ in 0..6 {
        let k = *e.rng.pick(keys);
        let k = gen::near(&mut e.rng, &k);
        if map.contains_key(&k) {
            continue;
        }
        let d = model::walk_len(keys, &k) - 1;
        let single = t.get_one(r, &k);
        let batch = t.get(r, &[k]).map(|b| b.into_iter().next().and_then(|x| x.1));
        let proof = t.prove(r, &k);
        if !matches!(proof, Err(Fail::Err(_))) {
            viol!("limit {limit}: proving the absent key {} gives {proof:?}", hex(&k));
        }
        for (what, x) in [("single", single), ("batch", batch)] {
            let good = match &x {
                Ok(None) => d <= limit,
                Err(Fail::Err(_)) => d > limit,
                _ => false,
            };
            if !good {
                viol!("limit {limit}: {what} read of the absent key {}, whose path ends at depth {d}, gives {x:?}", hex(&k));
            }
        }
    }
    // Inserts
    let n = e.rng.range(1, 4);
    let pairs = e.pairs(n);
    let ik: Vec<[u8; N]> = pairs.iter().map(|x| x.0).collect();
    let iv: Vec<Vec<u8>> = pairs.iter().map(|x| x.1.to_vec()).collect();
    let d = ik.iter().map(|k| model::walk_len(keys, k) - 1).max().unwrap();
    let mut free = on_copy(e)?;
    let want = free.insert(Some(r), &ik, &iv);
    let got = if ik.len() == 1 && e.rng.chance(1, 2) {
        t.insert_one(Some(r), &ik[0], &iv[0])
    } else {
        t.insert(Some(r), &ik, &iv)
    };
    if e.over() {
        return Ok(());
    }
    st.add("inserts_under_limits", 1);
    if d <= limit {
        if got.is_err() || got != want {
            viol!("limit {limit}: an insert along paths of depth {d} gives {got:?}, without limit {want:?}");
        }
    } else if !matches!(got, Err(Fail::Err(_))) {
        viol!("limit {limit}: an insert along a path of depth {d} gives {got:?} instead of an error");
    }
    Ok(())
}

