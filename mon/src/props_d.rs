//! C15 (scripts), C18, C19, C22, C23.

use crate::db::{lock, shared, Core, Mode, Shared, MODES};
use crate::engine::{hex, Done, Eng, Stats, V};
use crate::gen;
use crate::intern;
use crate::model::{self, bit};
use crate::nodes::{from_node, Body, Stored};
use crate::props_a::{finish_case, hist_len, with_trace};
use crate::rng::{mix, mix_bytes, Rng};
use crate::tree::{build, mem, Fail, Mem, Spec, Tree};
use crate::viol;
use starling::hash_tree::HashTree;
use starling::traits::{Branch, Data, Database, Leaf, Node, NodeVariant};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_db::HashTreeDB;
use starling::Array;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ---- C18 --------------------------------------------------------------------------------------

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}

/// Checks everything beneath a root against the keys it should contain.
fn check_shape<const N: usize>(
    nodes: &HashMap<[u8; N], Stored<N>>,
    root: &[u8; N],
    keys: &[[u8; N]],
    hashed: bool,
    st: &mut Stats,
) -> V<()> {
    let mut seen_leaves = 0;
    let mut seen_branches = 0;
    let mut todo = vec![(*root, 0, keys.len(), None::<usize>)];
    let input = |at: &[u8; N], what: &str| -> V<Vec<u8>> {
        match intern::input_of(at) {
            Some(i) => Ok(i),
            None => viol!("the {what} at {} is not stored under a hash", hex(at)),
        }
    };
    while let Some((at, a, b, above)) = todo.pop() {
        let Some(s) = nodes.get(&at) else { viol!("the node {} beneath root {} is not stored", hex(&at), hex(root)) };
        st.add("nodes_checked", 1);
        match &s.body {
            Body::Branch { count, zero, one, split, key } => {
                seen_branches += 1;
                if b - a < 2 {
                    viol!("root {}: a branch where {} keys should be: {s:?}", hex(root), b - a);
                }
                let (want, p) = model::split(&keys[a..b]);
                if *count != (b - a) as u64 {
                    viol!("root {}: the branch {} counts {count} leaves, there are {}", hex(root), hex(&at), b - a);
                }
                if let Some(x) = above {
                    if *split <= x {
                        viol!("root {}: the branch {} splits at {split}, its parent at {x}", hex(root), hex(&at));
                    }
                }
                if *split >= N * 8 {
                    viol!("root {}: the branch {} splits at {split} of {} bits", hex(root), hex(&at), N * 8);
                }
                if *split != want {
                    viol!("root {}: the branch {} splits at {split}, its leaves at {want}", hex(root), hex(&at));
                }
                for i in 0..*split {
                    if bit(key, i) != bit(&keys[a], i) {
                        viol!(
                            "root {}: the key of the branch {} differs from its leaves in bit {i}, before its split at {split}",
                            hex(root),
                            hex(&at)
                        );
                    }
                }
                if hashed {
                    let i = input(&at, "branch")?;
                    if !contains(&i, zero) || !contains(&i, one) {
                        viol!("root {}: the hash of the branch {} does not cover its children", hex(root), hex(&at));
                    }
                }
                todo.push((*zero, a, a + p, Some(*split)));
                todo.push((*one, a + p, b, Some(*split)));
            }
            Body::Leaf { key, data } => {
                seen_leaves += 1;
                if b - a != 1 || *key != keys[a] {
                    viol!(
                        "root {}: a leaf for {} where {} keys should be, {} the first",
                        hex(root),
                        hex(key),
                        b - a,
                        hex(&keys[a])
                    );
                }
                let Some(d) = nodes.get(data) else { viol!("root {}: the value of {} is not stored", hex(root), hex(key)) };
                let Body::Data(v) = &d.body else { viol!("root {}: the leaf of {} points to {d:?}", hex(root), hex(key)) };
                if hashed {
                    let i = input(&at, "leaf")?;
                    if !contains(&i, key) || !contains(&i, data) {
                        viol!("root {}: the hash of the leaf of {} does not cover its key and value", hex(root), hex(key));
                    }
                    let i = input(data, "value")?;
                    if !contains(&i, v) {
                        viol!("root {}: the hash of the value of {} does not cover it", hex(root), hex(key));
                    }
                }
                st.add("nodes_checked", 1);
            }
            Body::Data(_) => viol!("root {}: a value where {} keys should be", hex(root), b - a),
        }
    }
    if seen_leaves != keys.len() || seen_branches + 1 != keys.len() {
        viol!(
            "root {} with {} keys has {seen_leaves} leaves and {seen_branches} branches",
            hex(root),
            keys.len()
        );
    }
    st.add("versions_walked", 1);
    Ok(())
}

pub fn c18<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if N >= 4 && seed % 5 == 0 {
        return c18_mem::<N>(seed, st);
    }
    let mut e = Eng::<N>::random(seed)?;
    let n = hist_len(&mut e, thorough);
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for i in 0..n {
            let d = e.step()?;
            if e.over() {
                return Ok(());
            }
            let roots: Vec<[u8; N]> = match d {
                Done::Insert { root, .. } if i % 4 != 0 => vec![root],
                _ => e.live.keys().copied().collect(),
            };
            let c = lock(&e.core);
            for r in roots {
                let keys: Vec<[u8; N]> = e.live[&r].map.keys().copied().collect();
                check_shape(&c.nodes, &r, &keys, true, st)?;
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, e.live.values().any(|l| l.map.len() > 2));
    Ok(())
}

/// The same on what the in-memory tree hands over.
fn c18_mem<const N: usize>(seed: u64, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 60);
    let pool = gen::mixed::<N>(&mut rng, size);
    let mut t = match crate::tree::lib(|| HashTree::<N>::new(N * 8)) {
        Ok(t) => Mem(t),
        Err(f) => viol!("no tree: {f}"),
    };
    let mut versions: Vec<([u8; N], BTreeMap<[u8; N], Vec<u8>>)> = vec![];
    let mut u = 0;
    let mut fp = 0;
    for _ in 0..rng.range(2, 12) {
        let (prev, mut m) = if versions.is_empty() || rng.chance(1, 6) {
            (None, BTreeMap::new())
        } else {
            let v = rng.pick(&versions).clone();
            (Some(v.0), v.1)
        };
        let (mut keys, mut vals) = (vec![], vec![]);
        for _ in 0..rng.range(1, 20) {
            let k = *rng.pick(&pool);
            if !keys.contains(&k) {
                keys.push(k);
                let v = gen::value::<N>(&mut rng, &[], &mut u);
                m.insert(k, v.clone());
                vals.push(v);
            }
        }
        fp = mix(&[fp, keys.len() as u64]);
        match t.insert(prev.as_ref(), &keys, &vals) {
            Ok(r) => versions.push((r, m)),
            Err(f) => viol!("a valid insert into the in-memory tree failed: {f}"),
        }
    }
    let (db, depth) = t.0.decompose();
    if depth != N * 8 {
        viol!("the in-memory tree reports depth {depth}");
    }
    let map = db.decompose();
    let mut nodes = HashMap::new();
    for (k, n) in map {
        nodes.insert(k.into(), from_node(n));
    }
    for (r, m) in &versions {
        let keys: Vec<[u8; N]> = m.keys().copied().collect();
        check_shape(&nodes, r, &keys, false, st)?;
        st.shapes.insert(model::shape(&keys));
    }
    st.evaluations += 1;
    st.cases.insert(mix(&[fp, nodes.len() as u64]));
    Ok(())
}

// ---- C15 --------------------------------------------------------------------------------------

/// Something to run scripts on.
pub enum Target {
    Mem(bool),
    Sim(Spec, Mode),
}

#[derive(Clone, Debug)]
enum S<const N: usize> {
    /// Start (version number), keys, values, single form
    Insert(Option<usize>, Vec<[u8; N]>, Vec<Vec<u8>>, bool),
    Get(usize, Vec<[u8; N]>),
    One(usize, [u8; N]),
    Prove(usize, [u8; N], Vec<u8>),
    Remove(usize),
    Rebuild(usize),
    GetAt([u8; N], Vec<[u8; N]>),
}

/// A history that does not depend on what the tree answers.
fn script<const N: usize>(seed: u64, long: bool) -> (usize, Vec<S<N>>) {
    let mut rng = Rng::new(seed);
    intern::reset(1);
    let size = rng.range(2, 50);
    let pool = match rng.below(60) {
        0 => {
            let n = rng.range(100, 600);
            gen::many::<N>(&mut rng, n)
        }
        1 | 2 => {
            let n = rng.range(50, 520);
            gen::deep::<N>(&mut rng, n)
        }
        _ => gen::mixed::<N>(&mut rng, size),
    };
    let depth = match rng.below(6) {
        0 => rng.below(6),
        1 => usize::MAX,
        _ => N * 8,
    };
    let mut v = vec![];
    let mut made = 0_usize; // versions, including failed ones
    let mut u = 0;
    let n = if long { rng.range(20, 60) } else { rng.range(8, 30) };
    if pool.len() > 60 && rng.chance(2, 3) {
        let vals = pool.iter().map(|_| gen::value::<N>(&mut rng, &[], &mut u)).collect();
        v.push(S::Insert(None, pool.clone(), vals, false));
        made += 1;
    }
    let near = |rng: &mut Rng| {
        let k = *rng.pick(&pool);
        if rng.chance(1, 4) {
            gen::near(rng, &k)
        } else {
            k
        }
    };
    for _ in 0..n {
        if made == 0 || rng.chance(2, 5) {
            let mut keys = vec![];
            let mut vals = vec![];
            let one = rng.chance(1, 3);
            let max = if one { 1 } else { 16 };
            for _ in 0..rng.range(1, max) {
                let k = near(&mut rng);
                if !keys.contains(&k) {
                    keys.push(k);
                    vals.push(gen::value::<N>(&mut rng, &[], &mut u));
                }
            }
            if !one {
                match rng.below(14) {
                    0 => {
                        keys.push(keys[0]);
                        vals.push(vec![7]);
                    }
                    1 => {
                        vals.pop();
                    }
                    2 => {
                        keys.clear();
                        vals.clear();
                    }
                    _ => {}
                }
            }
            let prev = if made == 0 || rng.chance(1, 6) { None } else { Some(rng.below(made + 1)) };
            v.push(S::Insert(prev, keys, vals, one));
            made += 1;
            continue;
        }
        let at = if rng.chance(1, 20) { made + 5 } else { rng.below(made) };
        v.push(match rng.below(9) {
            0..=2 => {
                let k = (0..rng.range(0, 12)).map(|_| near(&mut rng)).collect();
                S::Get(at, k)
            }
            3 | 4 => S::One(at, near(&mut rng)),
            5 => S::Prove(at, near(&mut rng), gen::value::<N>(&mut rng, &[], &mut u)),
            6 => S::Remove(at),
            7 => S::Rebuild(if rng.chance(1, 3) { rng.below(8) } else { N * 8 }),
            _ => {
                let mut r = [0; N];
                rng.fill(&mut r);
                S::GetAt(r, vec![near(&mut rng)])
            }
        });
    }
    // Everything once more
    for i in 0..made {
        v.push(S::Get(i, pool.clone()));
        let k = near(&mut rng);
        v.push(S::Prove(i, k, vec![1]));
    }
    (depth, v)
}

fn fails<T>(r: &Result<T, Fail>) -> Option<String> {
    match r {
        Ok(_) => None,
        Err(Fail::Err(_)) => Some("error".into()),
        Err(Fail::Panic(m)) => Some(format!("panic {m}")),
    }
}

/// Runs a script; one line per step.  `hashes`: with roots and proofs written out.
fn play<const N: usize>(mut t: Box<dyn Tree<N>>, script: &[S<N>], hashes: bool) -> Vec<String> {
    let mut roots: Vec<Option<[u8; N]>> = vec![];
    let mut values: Vec<BTreeMap<[u8; N], Vec<u8>>> = vec![];
    let unknown = [0x6d; N];
    let mut out = vec![];
    for s in script {
        let root = |i: usize| roots.get(i).copied().flatten().unwrap_or(unknown);
        let line = match s {
            S::Insert(prev, keys, vals, one) => {
                let p = prev.map(root);
                let r = if *one {
                    t.insert_one(p.as_ref(), &keys[0], &vals[0])
                } else {
                    t.insert(p.as_ref(), keys, vals)
                };
                let mut m = prev.and_then(|i| values.get(i).cloned()).unwrap_or_default();
                for (k, v) in keys.iter().zip(vals) {
                    m.insert(*k, v.clone());
                }
                values.push(m);
                roots.push(r.as_ref().ok().copied());
                fails(&r).unwrap_or_else(|| {
                    if hashes {
                        format!("root {}", hex(&r.unwrap()))
                    } else {
                        // Which earlier version it equals
                        let x = r.unwrap();
                        format!("version {}", roots.iter().position(|y| *y == Some(x)).unwrap())
                    }
                })
            }
            S::Get(i, k) => {
                let r = t.get(&root(*i), k);
                fails(&r).unwrap_or_else(|| {
                    format!(
                        "{:?}",
                        r.unwrap().iter().map(|(k, v)| (hex(k), v.as_ref().map(|v| hex(v)))).collect::<Vec<_>>()
                    )
                })
            }
            S::GetAt(r, k) => {
                let r = t.get(r, k);
                fails(&r).unwrap_or_else(|| format!("{:?}", r.unwrap().iter().map(|x| x.1.clone()).collect::<Vec<_>>()))
            }
            S::One(i, k) => {
                let r = t.get_one(&root(*i), k);
                fails(&r).unwrap_or_else(|| format!("{:?}", r.unwrap().map(|v| hex(&v))))
            }
            S::Prove(i, k, wrong) => {
                let r = t.prove(&root(*i), k);
                match fails(&r) {
                    Some(f) => f,
                    None => {
                        let p = r.unwrap();
                        let right = values.get(*i).and_then(|m| m.get(k)).cloned().unwrap_or_default();
                        let good = fails(&t.verify(&root(*i), k, &right, &p));
                        let bad = fails(&t.verify(&root(*i), k, wrong, &p));
                        let text = if hashes {
                            p.iter()
                                .enumerate()
                                .map(|(n, (h, s))| format!("{}{}", hex(h), if n < 2 { "" } else if *s { "+" } else { "-" }))
                                .collect::<Vec<_>>()
                                .join(" ")
                        } else {
                            format!("{} items", p.len())
                        };
                        format!("proof {text} right {good:?} wrong {bad:?}")
                    }
                }
            }
            S::Remove(i) => {
                let r = t.remove(&root(*i));
                fails(&r).unwrap_or_else(|| "removed".into())
            }
            S::Rebuild(depth) => match t.rebuild(*depth) {
                Ok((n, old)) => {
                    t = n;
                    format!("rebuilt, depth was {old}")
                }
                Err(f) => {
                    out.push(format!("rebuilding failed: {f}"));
                    return out;
                }
            },
        };
        out.push(line);
    }
    out
}

fn first_difference(a: &[String], b: &[String]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("step {i}: {x} / {y}");
        }
    }
    format!("{} and {} steps", a.len(), b.len())
}

/// What any tree with the library's hasher answers to the script of this case.
pub fn transcript<const N: usize>(
    seed: u64,
    long: bool,
    make: impl FnOnce(usize) -> V<Box<dyn Tree<N>>>,
) -> V<Vec<String>> {
    let (depth, s) = script::<N>(seed, long);
    Ok(play(make(depth)?, &s, true))
}

/// Runs the script of this case on the in-memory tree and on some other tree.
pub fn c15_with<const N: usize>(
    seed: u64,
    thorough: bool,
    st: &mut Stats,
    name: &str,
    dump: bool,
    make: impl FnOnce(usize) -> V<Box<dyn Tree<N>>>,
) -> V<()> {
    let (depth, s) = script::<N>(seed, thorough);
    let base = match mem(depth, seed % 2 == 0) {
        Ok(t) => t,
        Err(f) => viol!("no tree: {f}"),
    };
    let first = play(base, &s, true);
    let o = play(make(depth)?, &s, true);
    if dump {
        for (i, l) in o.iter().enumerate() {
            println!("{i} {:?}\n    {l}", s[i]);
        }
    }
    if o != first {
        viol!(
            "the in-memory tree and {name} differ on the same history (N={N}, depth {depth}): {}\n{}",
            first_difference(&first, &o),
            s.iter().zip(&first).zip(o.iter()).take(60).map(|((s, a), b)| format!("{s:?}\n   {a}\n   {b}")).collect::<Vec<_>>().join("\n")
        );
    }
    st.add("answers_compared", o.len() as u64);
    let mut d = N as u64;
    for l in &first {
        d = mix_bytes(d, l.as_bytes());
    }
    st.transcripts.push((seed, d));
    st.evaluations += 1;
    if first.len() > 10 {
        st.cases.insert(d);
    }
    if st.samples.is_empty() {
        st.samples.push(s.iter().zip(&first).take(6).map(|(s, l)| format!("{s:?} => {l}")).collect::<Vec<_>>().join("\n"));
    }
    Ok(())
}

pub fn c15<const N: usize>(seed: u64, thorough: bool, st: &mut Stats, dump: bool) -> V<()> {
    let (depth, s) = script::<N>(seed, thorough);
    let make = |x: Result<Box<dyn Tree<N>>, Fail>| -> V<Box<dyn Tree<N>>> {
        match x {
            Ok(t) => Ok(t),
            Err(f) => viol!("no tree: {f}"),
        }
    };
    let first = play(make(mem(depth, seed % 2 == 0))?, &s, true);
    if dump {
        for (i, l) in first.iter().enumerate() {
            println!("{i} {:?}\n    {l}", s[i]);
        }
    }
    let fail = |name: &str, o: &[String], like: &[String]| -> V<()> {
        viol!(
            "the in-memory tree and {name} differ on the same history (N={N}, depth {depth}): {}\n{}",
            first_difference(like, o),
            s.iter().zip(like).zip(o.iter()).take(60).map(|((s, a), b)| format!("{s:?}\n   {a}\n   {b}")).collect::<Vec<_>>().join("\n")
        )
    };
    for mode in MODES {
        let core = shared(Core::new(mode));
        let o = play(make(build(Spec::LibHash, &core, depth))?, &s, true);
        if o != first {
            fail(&format!("the generic tree over {mode:?} storage"), &o, &first)?;
        }
        st.add("answers_compared", o.len() as u64);
    }
    // Other hash functions: the same answers
    let plain = play(make(mem(depth, false))?, &s, false);
    for spec in [Spec::LibIntern, Spec::MyIntern] {
        intern::reset(seed);
        let mode = MODES[(seed % 4) as usize];
        let core = shared(Core::new(mode));
        let o = play(make(build(spec, &core, depth))?, &s, false);
        if o != plain && !intern::exhausted() {
            fail(&format!("the generic tree with {spec:?} over {mode:?} storage"), &o, &plain)?;
        }
        st.add("answers_compared", o.len() as u64);
    }
    let mut d = N as u64;
    for l in &first {
        d = mix_bytes(d, l.as_bytes());
    }
    st.transcripts.push((seed, d));
    st.evaluations += 1;
    let errors = first.iter().filter(|l| *l == "error").count() as u64;
    st.add("errors_among_the_answers", errors);
    st.add("proofs_among_the_answers", first.iter().filter(|l| l.starts_with("proof")).count() as u64);
    if first.len() > 10 {
        st.cases.insert(d);
    }
    if st.samples.len() < 2 {
        st.samples.push(
            s.iter().zip(&first).take(6).map(|(s, l)| format!("{s:?} => {l}")).collect::<Vec<_>>().join("\n"),
        );
    }
    Ok(())
}

// ---- C19 --------------------------------------------------------------------------------------

pub fn c19<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    if mix(&[seed, 12]) % 2500 == 0 {
        return very_deep::<1025>(rng, st);
    }
    match rng.below(12) {
        0 => return deep::<N>(rng, thorough, st),
        1 => return wide::<N>(rng, thorough, st),
        _ => {}
    }
    let mut e = Eng::<N>::random(rng.u64())?;
    e.w.max_live = 6;
    let mode = lock(&e.core).mode;
    let n = hist_len(&mut e, false) / 2 + 1;
    let mut log: Vec<String> = vec![];
    let mut calls = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..n {
            e.step()?;
            if e.over() {
                return Ok(());
            }
        }
        // Damage, and from now on only totality counts
        let damage = e.rng.below(4);
        let depth = if damage >= 2 { e.rng.range(0, 300) } else { *e.rng.pick(&[0, 1, 7, 255, N * 8, usize::MAX - 1, usize::MAX]) };
        if damage > 0 {
            let mut c = lock(&e.core);
            let mut at: Vec<[u8; N]> = c.nodes.keys().copied().collect();
            at.sort_unstable();
            if !at.is_empty() {
                let hits = match e.rng.below(3) {
                    0 => 1,
                    1 => e.rng.range(1, 4),
                    _ => e.rng.range(1, at.len()),
                };
                for _ in 0..hits {
                    let k = *e.rng.pick(&at);
                    if e.rng.chance(1, 6) {
                        if let Some(n) = c.nodes.get_mut(&k) {
                            n.refs = 0;
                            log.push(format!("no references to {}", hex(&k)));
                            st.add("reference_counts_zeroed", 1);
                        }
                    } else if damage == 1 {
                        c.nodes.remove(&k);
                        log.push(format!("deleted {}", hex(&k)));
                    } else {
                        // The body of a node of another kind
                        let from = *e.rng.pick(&at);
                        let (Some(a), Some(b)) = (c.nodes.get(&k), c.nodes.get(&from)) else { continue };
                        if std::mem::discriminant(&a.body) != std::mem::discriminant(&b.body) {
                            let s = Stored { refs: a.refs, body: b.body.clone() };
                            c.nodes.insert(k, s);
                            log.push(format!("the node of {} at {}", hex(&from), hex(&k)));
                        }
                    }
                }
            }
            c.budget = 2_000_000;
        }
        let all: Vec<[u8; N]> = {
            let c = lock(&e.core);
            let mut v: Vec<_> = c.nodes.keys().copied().collect();
            v.sort_unstable();
            v
        };
        let core = e.core.clone();
        let mut t = match build(e.spec, &core, depth) {
            Ok(t) => t,
            Err(f) => viol!("no tree: {f}"),
        };
        let mut seen: Vec<[u8; N]> = vec![];
        for _ in 0..60 {
            let start = lock(&core).total.total();
            let (what, result) = nonsense(&mut *t, e, &all, &mut seen, &|r| !in_circles(r, &|at| lock(&core).nodes.get(at).map(|n| n.body.clone())));
            calls += 1;
            let used = lock(&core).total.total() - start;
            st.max("most_storage_calls_in_one_call", used);
            log.push(what.clone());
            if let Err(Fail::Panic(m)) = &result {
                viol!("{what} (depth limit {depth}, {mode:?}) panicked: {m}\n{}", log.join("\n"));
            }
            if result.is_err() {
                st.add("calls_that_returned_an_error", 1);
            } else {
                st.add("calls_that_returned_a_result", 1);
            }
            if e.over() {
                return Ok(());
            }
        }
        if damage > 0 {
            st.add("damaged_storages", 1);
        }
        e.fp = mix(&[e.fp, damage as u64, depth as u64]);
        // Building and taking apart with any depth
        if let Err(f) = t.rebuild(depth.wrapping_add(1)) {
            viol!("taking the tree apart: {f}");
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("calls_with_arbitrary_arguments", calls);
    finish_case(&e, st, calls > 20);
    Ok(())
}

/// Whether nodes reachable from this one point back at one they are beneath.  Exchanged nodes can do
/// that; a removal ends there only if it sees at once what it has changed, which is not promised.
pub fn in_circles<const N: usize>(from: &[u8; N], node: &dyn Fn(&[u8; N]) -> Option<Body<N>>) -> bool {
    let mut state: HashMap<[u8; N], bool> = HashMap::new();
    let mut todo = vec![(*from, false)];
    while let Some((at, leaving)) = todo.pop() {
        if leaving {
            state.insert(at, true);
            continue;
        }
        match state.get(&at) {
            Some(true) => continue,
            Some(false) => return true,
            None => {}
        }
        state.insert(at, false);
        todo.push((at, true));
        match node(&at) {
            Some(Body::Branch { zero, one, .. }) => todo.extend([(zero, false), (one, false)]),
            Some(Body::Leaf { data, .. }) => todo.push((data, false)),
            _ => {}
        }
    }
    false
}

/// One call with arguments that need not make sense.  `all`: what is stored, `seen`: roots of such calls.
/// `may_remove`: whether a removal of something is asked for.
pub fn nonsense<const N: usize>(
    t: &mut dyn Tree<N>,
    e: &mut Eng<N>,
    all: &[[u8; N]],
    seen: &mut Vec<[u8; N]>,
    may_remove: &dyn Fn(&[u8; N]) -> bool,
) -> (String, Result<(), Fail>) {
    let rng = &mut e.rng;
    let anywhere = |rng: &mut Rng| -> [u8; N] {
        match rng.below(8) {
            0 => {
                let mut r = [0; N];
                rng.fill(&mut r);
                r
            }
            1 => [0; N],
            2 => [0xff; N],
            3 if !seen.is_empty() => *rng.pick(&seen),
            _ if !all.is_empty() => *rng.pick(&all),
            _ => [1; N],
        }
    };
    let r = anywhere(rng);
    let prev = if rng.chance(1, 5) { None } else { Some(anywhere(rng)) };
    let k = rng.below(9);
    let mut keys: Vec<[u8; N]> = (0..k)
        .map(|_| match rng.below(6) {
            0 => anywhere(rng),
            1 => {
                let b = *rng.pick(&e.pool);
                gen::near(rng, &b)
            }
            _ => *rng.pick(&e.pool),
        })
        .collect();
    if rng.chance(1, 10) && !keys.is_empty() {
        keys.push(keys[0]);
    }
    let mut vals: Vec<Vec<u8>> = (0..keys.len()).map(|_| rng.bytes(3)).collect();
    if rng.chance(1, 10) {
        vals.push(vec![]);
    }
    if rng.chance(1, 10) {
        vals.pop();
    }
    let key = keys.first().copied().unwrap_or(r);
    let what;
    let result: Result<(), Fail> = match rng.below(11) {
        9 | 10 if !e.live.is_empty() => {
            // Parts of a true proof
            let (root, l) = e.live.iter().nth(rng.below(e.live.len())).unwrap();
            let (k, v) = l.map.iter().nth(rng.below(l.map.len())).unwrap();
            match t.prove(root, k) {
                Ok(mut p) => {
                    match rng.below(5) {
                        0 | 1 => p.truncate(rng.below(p.len() + 1)),
                        2 => p.extend(vec![(anywhere(rng), rng.chance(1, 2)); rng.below(300)]),
                        3 => {
                            p.remove(rng.below(p.len()));
                        }
                        _ => {
                            let i = rng.below(p.len());
                            p[i].0 = anywhere(rng);
                        }
                    }
                    what = format!("verification of {} items of a true proof for {} at {}", p.len(), hex(k), hex(root));
                    let v = if rng.chance(1, 5) { vec![] } else { v.to_vec() };
                    t.verify(root, k, &v, &p)
                }
                Err(f) => {
                    what = format!("proof of {} at {}", hex(k), hex(root));
                    Err(f)
                }
            }
        }
        0 | 1 => {
            what = format!("get of {} keys at {}", keys.len(), hex(&r));
            t.get(&r, &keys).map(|_| ())
        }
        2 => {
            what = format!("get_one of {} at {}", hex(&key), hex(&r));
            t.get_one(&r, &key).map(|_| ())
        }
        3 | 4 => {
            what = format!("insert of {} keys, {} values on {:?}", keys.len(), vals.len(), prev.map(|p| hex(&p)));
            t.insert(prev.as_ref(), &keys, &vals).map(|r| seen.push(r))
        }
        5 => {
            what = format!("insert_one of {} on {:?}", hex(&key), prev.map(|p| hex(&p)));
            t.insert_one(prev.as_ref(), &key, b"one").map(|r| seen.push(r))
        }
        6 if may_remove(&r) => {
            what = format!("remove of {}", hex(&r));
            t.remove(&r)
        }
        6 | 7 => {
            what = format!("proof of {} at {}", hex(&key), hex(&r));
            match t.prove(&r, &key) {
                Ok(p) => t.verify(&r, &key, b"x", &p),
                Err(f) => Err(f),
            }
        }
        _ => {
            let n = match rng.below(4) {
                0 => rng.below(4),
                1 => rng.range(1, 3000),
                _ => rng.range(2, 40),
            };
            let p = (0..n).map(|_| (anywhere(rng), rng.chance(1, 2))).collect::<Vec<_>>();
            what = format!("verification of {n} random items for {} at {}", hex(&key), hex(&r));
            let v = rng.bytes(4);
            t.verify(&r, &key, &v, &p)
        }
    };
    (what, result)
}

/// Trees as deep as the keys allow.
fn deep<const N: usize>(mut rng: Rng, _thorough: bool, st: &mut Stats) -> V<()> {
    intern::reset(rng.u64());
    let core: Shared<N> = shared(Core::new(*rng.pick(&MODES)));
    let limit = *rng.pick(&[N * 8, usize::MAX, 10, 0]);
    let mut t = match build(Spec::LibIntern, &core, limit) {
        Ok(t) => t,
        Err(f) => viol!("no tree: {f}"),
    };
    let mut keys: Vec<[u8; N]> = (0..N * 8).map(|i| gen::with_flip(&[0; N], i)).collect();
    keys.push([0; N]);
    if rng.chance(1, 2) {
        rng.shuffle(&mut keys);
    }
    let chunk = *rng.pick(&[1, 7, 64, keys.len()]);
    let mut prev: Option<[u8; N]> = None;
    let mut n = 0_u64;
    let ok = |what: &str, r: Result<(), Fail>| -> V<()> {
        match r {
            Err(Fail::Panic(m)) => viol!("{what} on a tree of depth up to {} panicked: {m}", N * 8),
            Err(Fail::Err(e)) if limit >= N * 8 => viol!("{what} on a tree of depth up to {} failed: {e}", N * 8),
            _ => Ok(()),
        }
    };
    for c in keys.chunks(chunk) {
        let vals: Vec<Vec<u8>> = c.iter().map(|k| k[..1].to_vec()).collect();
        let r = if c.len() == 1 { t.insert_one(prev.as_ref(), &c[0], &vals[0]) } else { t.insert(prev.as_ref(), c, &vals) };
        if intern::exhausted() {
            return Ok(());
        }
        match r {
            Ok(r) => {
                if let Some(p) = prev {
                    if rng.chance(1, 2) && p != r {
                        ok("remove", t.remove(&p))?;
                    }
                }
                prev = Some(r);
            }
            Err(f) => {
                ok("insert", Err(f))?;
                break;
            }
        }
        n += 1;
    }
    if let Some(r) = prev {
        ok("get", t.get(&r, &keys).map(|_| ()))?;
        for k in keys.iter().take(40) {
            ok("get_one", t.get_one(&r, k).map(|_| ()))?;
            if let Ok(p) = t.prove(&r, k) {
                ok("verify", t.verify(&r, k, &k[..1], &p))?;
            }
        }
        ok("remove", t.remove(&r))?;
    }
    st.evaluations += 1;
    st.add("deep_trees", 1);
    st.max("deepest_tree", (N * 8) as u64);
    st.cases.insert(mix(&[3, n, limit as u64, chunk as u64]));
    Ok(())
}

/// A path of thousands of branches, which nothing that takes stack for each of them survives.
fn very_deep<const N: usize>(mut rng: Rng, st: &mut Stats) -> V<()> {
    let mut t = match mem::<N>(*rng.pick(&[N * 8, usize::MAX]), false) {
        Ok(t) => t,
        Err(f) => viol!("no tree: {f}"),
    };
    let mut keys: Vec<[u8; N]> = (0..N * 8).map(|i| gen::with_flip(&[0; N], i)).collect();
    keys.push([0; N]);
    if rng.chance(1, 2) {
        rng.shuffle(&mut keys);
    }
    let vals: Vec<Vec<u8>> = (0..keys.len()).map(|i| i.to_be_bytes().to_vec()).collect();
    macro_rules! ok {
        ($what:expr, $r:expr) => {
            match $r {
                Ok(r) => r,
                Err(f) => viol!("{} on a tree of depth {}: {f}", $what, N * 8),
            }
        };
    }
    let r = ok!("the insert", t.insert(None, &keys, &vals));
    for _ in 0..2 {
        let i = keys.len() - 1 - rng.below(4);
        for k in [keys[i], gen::with_flip(&[0; N], N * 8 - 1)] {
            let Some(v) = ok!("a single read", t.get_one(&r, &k)) else { viol!("a key beneath thousands of branches is absent") };
            let p = ok!("a proof", t.prove(&r, &k));
            ok!("the verification", t.verify(&r, &k, &v, &p));
            ok!("a batch read", t.get(&r, &[k]));
        }
    }
    let deep = gen::with_flip(&[0; N], N * 8 - 1);
    let one = rng.chance(1, 2);
    let s = if one {
        ok!("a single insert", t.insert_one(Some(&r), &deep, &vec![1]))
    } else {
        ok!("an insert", t.insert(Some(&r), &[deep], &[vec![1]]))
    };
    ok!("a removal", t.remove(if rng.chance(1, 2) { &r } else { &s }));
    ok!("a removal", t.remove(&r));
    ok!("a removal", t.remove(&s));
    st.evaluations += 1;
    st.add("very_deep_trees", 1);
    st.max("deepest_tree", (N * 8) as u64);
    st.cases.insert(rng.u64());
    Ok(())
}

/// Large batches and large values.
fn wide<const N: usize>(mut rng: Rng, thorough: bool, st: &mut Stats) -> V<()> {
    let mut t = match mem::<N>(*rng.pick(&[N * 8, usize::MAX]), false) {
        Ok(t) => t,
        Err(f) => viol!("no tree: {f}"),
    };
    let n = if thorough { rng.range(1000, 20000) } else { rng.range(500, 4000) };
    let f = *rng.pick(&[0, 9, 9, 7]);
    let n = if f == 7 { n.min(1500) } else { n };
    let pool = gen::pool::<N>(&mut rng, f, n);
    let vals: Vec<Vec<u8>> = pool
        .iter()
        .enumerate()
        .map(|(i, k)| if i == 0 { vec![7; 1 << 21] } else { k.to_vec() })
        .collect();
    let r = match t.insert(None, &pool, &vals) {
        Ok(r) => r,
        // Tiny keys: the real hash function collides
        Err(Fail::Err(_)) if N < 8 => return Ok(()),
        Err(f) => viol!("inserting {} keys at once: {f}", pool.len()),
    };
    if let Err(Fail::Panic(m)) = t.get(&r, &pool) {
        viol!("reading {} keys at once panicked: {m}", pool.len());
    }
    if let Err(Fail::Panic(m)) = t.prove(&r, &pool[0]) {
        viol!("proving one of {} keys panicked: {m}", pool.len());
    }
    let r2 = t.insert(Some(&r), &pool[..pool.len() / 2], &vals[pool.len() - pool.len() / 2..]);
    if let Err(Fail::Panic(m)) = &r2 {
        viol!("updating {} keys at once panicked: {m}", pool.len() / 2);
    }
    if let Err(Fail::Panic(m)) = t.remove(&r) {
        viol!("removing a version of {} keys panicked: {m}", pool.len());
    }
    st.evaluations += 1;
    st.add("large_batches", 1);
    st.max("largest_batch", pool.len() as u64);
    st.cases.insert(mix(&[5, pool.len() as u64, f as u64]));
    Ok(())
}

// ---- C22 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
struct B<const N: usize>(u64, [u8; N], [u8; N], usize, [u8; N]);

fn read_branch<const N: usize>(b: &TreeBranch<N>) -> B<N> {
    B(
        b.get_count(),
        (*b.get_zero()).into(),
        (*b.get_one()).into(),
        b.get_split_index(),
        (*b.get_key()).into(),
    )
}

pub fn c22<const N: usize>(seed: u64, _thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    // A panic in a component is a violation too
    let r = catch_unwind(AssertUnwindSafe(|| {
        crate::tree::IN_LIB.with(|c| c.set(true));
        let r = components::<N>(&mut rng, st);
        let r = r.and_then(|()| store::<N>(&mut rng, st));
        crate::tree::IN_LIB.with(|c| c.set(false));
        r
    }));
    crate::tree::IN_LIB.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(_) => viol!("a node component panicked"),
    }
}

fn any_bytes<const N: usize>(rng: &mut Rng) -> [u8; N] {
    let mut a = [0; N];
    match rng.below(5) {
        0 => {}
        1 => a = [0xff; N],
        2 => a[rng.below(N)] = 1 << rng.below(8),
        _ => rng.fill(&mut a),
    }
    a
}

fn any_u64(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => rng.below(4) as u64,
        1 => u64::MAX - rng.below(3) as u64,
        2 => 1 << rng.below(64),
        _ => rng.u64(),
    }
}

fn components<const N: usize>(rng: &mut Rng, st: &mut Stats) -> V<()> {
    // Branches
    let mut b = TreeBranch::<N>::new();
    let mut m = read_branch(&b);
    for _ in 0..24 {
        match rng.below(7) {
            0 => {
                m.0 = any_u64(rng);
                b.set_count(m.0);
            }
            1 => {
                m.1 = any_bytes(rng);
                b.set_zero(m.1.into());
            }
            2 => {
                m.2 = any_bytes(rng);
                b.set_one(m.2.into());
            }
            3 => {
                m.3 = any_u64(rng) as usize;
                b.set_split_index(m.3);
            }
            4 => {
                m.4 = any_bytes(rng);
                b.set_key(m.4.into());
            }
            5 => {
                #[allow(clippy::clone_on_copy)]
                let c = b.clone();
                if c != b {
                    viol!("a clone of {b:?} is {c:?}");
                }
                b.set_count(!m.0);
                if read_branch(&c) != m {
                    viol!("changing a branch changed its clone");
                }
                b = c;
            }
            _ => {
                let mut n: TreeNode<N> = Node::new(NodeVariant::Branch(b));
                if n.get_references() != 0 {
                    viol!("a new node has {} references", n.get_references());
                }
                let refs = any_u64(rng);
                n.set_references(refs);
                if rng.chance(1, 2) {
                    n.set_data(TreeData::new());
                    n.set_branch(b);
                }
                let n2 = n.clone();
                if n2 != n || n2.get_references() != refs {
                    viol!("a node with {refs} references has a clone with {}", n2.get_references());
                }
                match n2.get_variant() {
                    NodeVariant::Branch(x) => b = x,
                    other => viol!("a branch put into a node comes out as {other:?}"),
                }
            }
        }
        if read_branch(&b) != m {
            viol!("a branch should have {m:?} and has {:?}", read_branch(&b));
        }
        let d = b.decompose();
        let d = B(d.0, d.1.into(), d.2.into(), d.3, d.4.into());
        if d != m {
            viol!("a branch with {m:?} is taken apart into {d:?}");
        }
        // Equality looks at every field
        let mut o = b;
        match rng.below(5) {
            0 => o.set_count(m.0 ^ (1 << rng.below(64))),
            1 => o.set_zero(gen::with_flip(&m.1, rng.below(N * 8)).into()),
            2 => o.set_one(gen::with_flip(&m.2, rng.below(N * 8)).into()),
            3 => o.set_split_index(m.3 ^ (1 << rng.below(64))),
            _ => o.set_key(gen::with_flip(&m.4, rng.below(N * 8)).into()),
        }
        if o == b {
            viol!("two different branches are equal: {o:?} {b:?}");
        }
        st.add("fields_checked", 10);
    }
    // Leaves
    let mut l = TreeLeaf::<N>::new();
    let mut m: ([u8; N], [u8; N]) = ((*l.get_key()).into(), (*l.get_data()).into());
    for _ in 0..16 {
        match rng.below(4) {
            0 => {
                m.0 = any_bytes(rng);
                l.set_key(m.0.into());
            }
            1 => {
                m.1 = any_bytes(rng);
                l.set_data(m.1.into());
            }
            2 => {
                #[allow(clippy::clone_on_copy)]
                let c = l.clone();
                l.set_key([0x12; N].into());
                l = c;
            }
            _ => {
                let mut n: TreeNode<N> = Node::new(NodeVariant::Leaf(l));
                let refs = any_u64(rng);
                n.set_references(refs);
                if rng.chance(1, 2) {
                    n.set_branch(TreeBranch::new());
                    n.set_leaf(l);
                }
                if n.get_references() != refs {
                    viol!("a node was given {refs} references and has {}", n.get_references());
                }
                match n.get_variant() {
                    NodeVariant::Leaf(x) => l = x,
                    other => viol!("a leaf put into a node comes out as {other:?}"),
                }
            }
        }
        let g: ([u8; N], [u8; N]) = ((*l.get_key()).into(), (*l.get_data()).into());
        #[allow(clippy::clone_on_copy)]
        let d = l.clone().decompose();
        let d: ([u8; N], [u8; N]) = (d.0.into(), d.1.into());
        if g != m || d != m {
            viol!("a leaf should have {m:?}, its getters give {g:?} and taking it apart {d:?}");
        }
        st.add("fields_checked", 4);
    }
    // Values
    let mut d = TreeData::new();
    let mut m = d.get_value().to_vec();
    for _ in 0..10 {
        match rng.below(3) {
            0 => {
                let n = *rng.pick(&[0, 1, 2, 31, 32, 33, 1000, 70_000]);
                m = rng.bytes(n);
                d.set_value(&m);
            }
            1 => {
                let c = d.clone();
                if c != d {
                    viol!("a clone of a value differs");
                }
                d.set_value(b"changed");
                d = c;
            }
            _ => {
                let mut n: TreeNode<N> = Node::new(NodeVariant::Data(d));
                n.set_references(3);
                if rng.chance(1, 2) {
                    let mut x = TreeData::new();
                    x.set_value(&m);
                    n.set_leaf(TreeLeaf::new());
                    n.set_data(x);
                }
                match n.get_variant() {
                    NodeVariant::Data(x) => d = x,
                    other => viol!("a value put into a node comes out as {other:?}"),
                }
            }
        }
        if d.get_value() != m {
            viol!("a value of {} bytes comes back as {} bytes", m.len(), d.get_value().len());
        }
        st.add("fields_checked", 1);
    }
    Ok(())
}

fn any_stored<const N: usize>(rng: &mut Rng) -> Stored<N> {
    Stored {
        refs: any_u64(rng),
        body: match rng.below(3) {
            0 => Body::Branch {
                count: any_u64(rng),
                zero: any_bytes(rng),
                one: any_bytes(rng),
                split: any_u64(rng) as usize,
                key: any_bytes(rng),
            },
            1 => Body::Leaf {
                key: any_bytes(rng),
                data: any_bytes(rng),
            },
            _ => {
                let n = rng.below(40);
                Body::Data(rng.bytes(n))
            }
        },
    }
}

fn store<const N: usize>(rng: &mut Rng, st: &mut Stats) -> V<()> {
    let err = |x: starling::traits::Exception| crate::engine::Viol(format!("the hash map store failed: {x}"));
    let mut m: HashMap<[u8; N], Stored<N>> = HashMap::new();
    let mut db: HashTreeDB<N> = if rng.chance(1, 2) {
        Database::<N, TreeNode<N>>::open(std::path::Path::new("nowhere")).map_err(err)?
    } else {
        let k = any_bytes::<N>(rng);
        let s = any_stored::<N>(rng);
        m.insert(k, s.clone());
        HashTreeDB::new(std::iter::once((Array::<N>::from(k), crate::nodes::to_node(&s))).collect())
    };
    let locations: Vec<[u8; N]> = (0..6).map(|_| any_bytes(rng)).collect();
    let mut fp = 0;
    for _ in 0..40 {
        let k = *rng.pick(&locations);
        let op = rng.below(6);
        fp = mix(&[fp, op as u64]);
        match op {
            0 | 1 => {
                let s = any_stored::<N>(rng);
                db.insert(k.into(), crate::nodes::to_node(&s)).map_err(err)?;
                // Like any store, it may keep writes until they are confirmed
                db.batch_write().map_err(err)?;
                m.insert(k, s);
            }
            2 => {
                Database::<N, TreeNode<N>>::remove(&mut db, &k.into()).map_err(err)?;
                db.batch_write().map_err(err)?;
                m.remove(&k);
            }
            3 => {
                db.batch_write().map_err(err)?;
            }
            _ => {}
        }
        for k in &locations {
            let got: Option<TreeNode<N>> = db.get_node((*k).into()).map_err(err)?;
            let got = got.map(from_node);
            if got.as_ref() != m.get(k) {
                viol!("the hash map store has {got:?} at {} instead of {:?}", hex(k), m.get(k));
            }
            st.add("nodes_read_back", 1);
        }
    }
    let all: HashMap<[u8; N], Stored<N>> = db.decompose().into_iter().map(|(k, n)| (k.into(), from_node(n))).collect();
    if all != m {
        viol!("the hash map store hands over {} nodes instead of {}", all.len(), m.len());
    }
    st.evaluations += 1;
    st.cases.insert(fp);
    Ok(())
}

// ---- C23 --------------------------------------------------------------------------------------

pub fn c23<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let mode = *rng.pick(&MODES);
    let size = match rng.below(4) {
        0 => rng.range(2, 20),
        1 | 2 => rng.range(50, 400),
        _ if thorough => rng.range(1000, 20_000),
        _ => rng.range(1000, 3000),
    };
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), *rng.pick(&[Spec::LibIntern, Spec::MyIntern]), mode, 4)?;
    let f = *rng.pick(&[0, 0, 0, 9, 7, 4]);
    e.pool = gen::pool::<N>(&mut e.rng, f, if f == 7 { size.min(300) } else { size });
    if e.pool.len() > 500 {
        e.w.max_live = 4;
    }
    let mut u = 0;
    let mut checked = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        // A large version
        let mut first: Vec<([u8; N], Rc<Vec<u8>>)> = vec![];
        for k in e.pool.clone() {
            if e.rng.chance(9, 10) {
                u += 1;
                first.push((k, Rc::new(format!("value {u}").into_bytes())));
            }
        }
        if first.is_empty() {
            return Ok(());
        }
        e.insert(None, &first, false)?;
        if e.over() {
            return Ok(());
        }
        e.trace.clear();
        let rounds = if e.pool.len() <= 400 && e.rng.chance(1, 25) {
            e.rng.range(150, 500)
        } else if thorough {
            40
        } else {
            16
        };
        st.max("longest_history", rounds as u64);
        for _ in 0..rounds {
            let Some(r) = e.random_live() else { return Ok(()) };
            let map = e.map_of(&r);
            let keys: Vec<[u8; N]> = map.keys().copied().collect();
            match e.rng.below(6) {
                0 | 1 => {
                    for _ in 0..8 {
                        let mut k = if e.rng.chance(2, 3) { *e.rng.pick(&keys) } else { *e.rng.pick(&e.pool) };
                        if e.rng.chance(1, 3) {
                            k = gen::near(&mut e.rng, &k);
                        }
                        let w = model::walk_len(&keys, &k) as u64;
                        e.begin();
                        let _ = e.t().get_one(&r, &k);
                        cost(e, st, "single read", w + 1, 0, 0, keys.len())?;
                        e.begin();
                        let _ = e.t().prove(&r, &k);
                        cost(e, st, "proof", w + 1, 0, 0, keys.len())?;
                        checked += 2;
                    }
                }
                2 => {
                    let n = e.rng.range(1, 12);
                    let mut ks: Vec<[u8; N]> = (0..n).map(|_| *e.rng.pick(&e.pool)).collect();
                    if e.rng.chance(1, 2) {
                        let k = ks[0];
                        ks.push(gen::near(&mut e.rng, &k));
                    }
                    ks.sort_unstable();
                    ks.dedup();
                    let w = model::touched(&keys, &ks) as u64;
                    e.begin();
                    let _ = e.t().get(&r, &ks);
                    cost(e, st, "batch read", w + ks.len() as u64, 0, 0, keys.len())?;
                    checked += 1;
                }
                3 | 4 => {
                    let n = e.rng.range(1, 6);
                    let pairs = e.pairs(n);
                    let mut ks: Vec<[u8; N]> = pairs.iter().map(|p| p.0).collect();
                    ks.sort_unstable();
                    let w = model::touched(&keys, &ks) as u64 + ks.len() as u64;
                    let one = pairs.len() == 1 && e.rng.chance(1, 2);
                    e.insert(Some(r), &pairs, one)?;
                    if e.over() {
                        return Ok(());
                    }
                    cost(e, st, "insert", 2 * w, 2 * w, 0, keys.len())?;
                    checked += 1;
                }
                _ => {
                    if e.live.len() < 2 {
                        continue;
                    }
                    let last = e.live[&r].handles == 1;
                    let others: Vec<u64> = e
                        .live
                        .iter()
                        .filter(|(x, l)| **x != r || l.handles > 1)
                        .map(|(_, l)| l.id)
                        .collect();
                    let id = e.live[&r].id;
                    let (nodes, children) = if last { e.canon.released(id, &others) } else { (0, 0) };
                    let w = (nodes + children) as u64 + 1;
                    e.remove(r)?;
                    cost(e, st, "removal", w, children as u64 + 1, nodes as u64, keys.len())?;
                    checked += 1;
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("operations_measured", checked);
    finish_case(&e, st, checked > 4);
    Ok(())
}

/// Compares the storage calls of the last operation with what its paths allow.
fn cost<const N: usize>(e: &Eng<N>, st: &mut Stats, what: &'static str, gets: u64, inserts: u64, removes: u64, size: usize) -> V<()> {
    let o = lock(&e.core).op.clone();
    const FACTOR: u64 = 4;
    const EXTRA: u64 = 12;
    let bound = |x: u64| if x == 0 { 0 } else { FACTOR * x + EXTRA };
    let name = match what {
        "single read" => "reads_per_1000_allowed_single_read",
        "proof" => "reads_per_1000_allowed_proof",
        "batch read" => "reads_per_1000_allowed_batch_read",
        "insert" => "reads_per_1000_allowed_insert",
        _ => "reads_per_1000_allowed_removal",
    };
    st.max(name, o.gets * 1000 / gets.max(1));
    if what == "insert" {
        st.max("writes_per_1000_allowed_insert", o.inserts * 1000 / inserts.max(1));
    }
    st.max("largest_tree", size as u64);
    if o.gets > bound(gets) {
        viol!("a {what} in a version of {size} keys reads {} nodes; its paths consist of {gets}", o.gets);
    }
    if o.inserts > bound(inserts) {
        viol!("a {what} in a version of {size} keys writes {} nodes; its paths consist of {inserts}", o.inserts);
    }
    if o.removes > bound(removes) {
        viol!("a {what} in a version of {size} keys deletes {} nodes; {removes} are expected", o.removes);
    }
    Ok(())
}

