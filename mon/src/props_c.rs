//! C12 - C14: faults, crashes and commits.

use crate::db::{self, lock, shared, Call, Core, Fault, FaultKind, Mode, Shared};
use crate::engine::{hex, Done, Eng, Stats, V};
use crate::gen;
use crate::intern;
use crate::model::Map;
use crate::props_a::{finish_case, with_trace};
use crate::rng::Rng;
use crate::tree::{self, build, Answers, Fail, Proof, Spec, Tree, FAIL_DECODE, FAIL_ENCODE, R};
use crate::viol;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op<const N: usize> {
    Insert(Option<[u8; N]>, Vec<([u8; N], Rc<Vec<u8>>)>, bool),
    Remove([u8; N]),
    Get([u8; N], Vec<[u8; N]>),
    One([u8; N], [u8; N]),
    Prove([u8; N], [u8; N]),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<const N: usize> {
    Root([u8; N]),
    Unit,
    Answers(Answers<N>),
    One(Option<Vec<u8>>),
    Proof(Proof<N>),
}

impl<const N: usize> Op<N> {
    pub fn run(&self, t: &mut dyn Tree<N>) -> R<Out<N>> {
        match self {
            Op::Insert(prev, pairs, one) => {
                let keys: Vec<[u8; N]> = pairs.iter().map(|p| p.0).collect();
                let vals: Vec<Vec<u8>> = pairs.iter().map(|p| p.1.to_vec()).collect();
                if *one {
                    t.insert_one(prev.as_ref(), &keys[0], &vals[0]).map(Out::Root)
                } else {
                    t.insert(prev.as_ref(), &keys, &vals).map(Out::Root)
                }
            }
            Op::Remove(r) => t.remove(r).map(|()| Out::Unit),
            Op::Get(r, k) => t.get(r, k).map(Out::Answers),
            Op::One(r, k) => t.get_one(r, k).map(Out::One),
            Op::Prove(r, k) => t.prove(r, k).map(Out::Proof),
        }
    }

    pub fn show(&self) -> String {
        match self {
            Op::Insert(p, pairs, one) => format!(
                "{} on {}: {}",
                if *one { "insert_one" } else { "insert" },
                p.map_or("nothing".into(), |p| hex(&p)),
                pairs.iter().map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect::<Vec<_>>().join(", ")
            ),
            Op::Remove(r) => format!("remove {}", hex(r)),
            Op::Get(r, k) => format!("get {} keys of {}", k.len(), hex(r)),
            Op::One(r, k) => format!("get_one {} of {}", hex(k), hex(r)),
            Op::Prove(r, k) => format!("prove {} of {}", hex(k), hex(r)),
        }
    }

    fn is_write(&self) -> bool {
        matches!(self, Op::Insert(..) | Op::Remove(_))
    }
}

/// A valid operation on the present state.
pub fn random_op<const N: usize>(e: &mut Eng<N>, writes_only: bool) -> Option<Op<N>> {
    let live = e.random_live();
    Some(match e.rng.below(if writes_only { 6 } else { 9 }) {
        0..=2 => {
            let n = if e.pool.len() > 32 { e.rng.range(1, e.pool.len()) } else { e.rng.range(1, 8) };
            let mut pairs = e.pairs(n);
            if let Some(r) = live {
                if e.rng.chance(1, 3) {
                    let map = e.map_of(&r);
                    for (k, v) in map.iter().take(3) {
                        if pairs.iter().all(|p| p.0 != *k) {
                            pairs.push((*k, v.clone()));
                        }
                    }
                }
            }
            let prev = if e.rng.chance(1, 6) { None } else { live };
            let one = pairs.len() == 1 && e.rng.chance(2, 3);
            Op::Insert(prev, pairs, one)
        }
        3 => Op::Insert(live, e.pairs(1), true),
        4 | 5 => Op::Remove(live?),
        6 => {
            let r = live?;
            let map = e.map_of(&r);
            Op::Get(r, e.probes(&map, 6))
        }
        7 => {
            let r = live?;
            let map = e.map_of(&r);
            let p = e.probes(&map, 3);
            Op::One(r, p[0])
        }
        _ => {
            let r = live?;
            let map = e.map_of(&r);
            let k = *map.keys().nth(e.rng.below(map.len())).unwrap();
            Op::Prove(r, k)
        }
    })
}

/// The map an insert leads to.
pub fn result_map<const N: usize>(e: &Eng<N>, op: &Op<N>) -> Option<Map<N>> {
    if let Op::Insert(prev, pairs, _) = op {
        let mut m: BTreeMap<[u8; N], Rc<Vec<u8>>> = prev.map(|p| (*e.live[&p].map).clone()).unwrap_or_default();
        for (k, v) in pairs {
            m.insert(*k, v.clone());
        }
        Some(Rc::new(m))
    } else {
        None
    }
}

/// Reads all of `map` under `root`, in a batch and one key singly, and proves one key.
pub fn reads_as<const N: usize>(
    t: &dyn Tree<N>,
    rng: &mut Rng,
    root: &[u8; N],
    map: &Map<N>,
    when: &str,
    st: &mut Stats,
) -> V<()> {
    let mut keys: Vec<[u8; N]> = map.keys().copied().collect();
    let k = *rng.pick(&keys);
    let near = gen::near(rng, &k);
    keys.push(near);
    let want: Answers<N> = keys
        .iter()
        .map(|k| (*k, map.get(k).map(|v| v.to_vec())))
        .collect::<BTreeMap<_, _>>()
        .into_iter()
        .collect();
    match t.get(root, &keys) {
        Ok(got) if got == want => {}
        Ok(got) => viol!("{when}: root {}: {}", hex(root), crate::engine::diff(&want, &got)),
        Err(f) => viol!("{when}: reading root {} (map of {}) failed: {f}", hex(root), map.len()),
    }
    let k = *rng.pick(&keys);
    let got = t.get_one(root, &k);
    if got != Ok(map.get(&k).map(|v| v.to_vec())) {
        viol!("{when}: single read of {} under root {} gives {got:?}", hex(&k), hex(root));
    }
    if let Some(v) = map.get(&k) {
        match t.prove(root, &k) {
            Ok(p) => {
                if let Err(f) = t.verify(root, &k, v, &p) {
                    viol!("{when}: the proof of {} under root {} is not accepted: {f}", hex(&k), hex(root));
                }
            }
            Err(f) => viol!("{when}: proving {} under root {} failed: {f}", hex(&k), hex(root)),
        }
    }
    st.add("versions_read_back", 1);
    st.add("reads_compared", keys.len() as u64);
    Ok(())
}

/// All live versions, except one handle that is being removed.
fn others<const N: usize>(e: &Eng<N>, op: &Op<N>) -> Vec<([u8; N], Map<N>)> {
    e.live
        .iter()
        .filter(|(r, l)| !(matches!(op, Op::Remove(x) if x == *r) && l.handles == 1))
        .map(|(r, l)| (*r, l.map.clone()))
        .collect()
}

fn copy_core<const N: usize>(c: &Shared<N>) -> Shared<N> {
    shared(lock(c).clone())
}

/// A few more operations, all checked.
pub fn carry_on<const N: usize>(
    t: &mut dyn Tree<N>,
    rng: &mut Rng,
    e: &Eng<N>,
    mut alive: Vec<([u8; N], Map<N>)>,
    when: &str,
    st: &mut Stats,
) -> V<()> {
    // Handles on roots that were adopted more than once are not counted here: every root in
    // `alive` has at least one, and is removed at most once.
    let steps = rng.range(1, 5);
    let mut unique = 1_000_000;
    for _ in 0..steps {
        if alive.len() > 1 && rng.chance(1, 3) {
            let i = rng.below(alive.len());
            let (r, _) = alive.swap_remove(i);
            if alive.iter().any(|a| a.0 == r) {
                continue;
            }
            if let Err(f) = t.remove(&r) {
                viol!("{when}: removing root {} failed: {f}", hex(&r));
            }
        } else {
            let (prev, mut m) = if alive.is_empty() || rng.chance(1, 6) {
                (None, BTreeMap::new())
            } else {
                let a = rng.pick(&alive);
                (Some(a.0), (*a.1).clone())
            };
            let mut keys = vec![];
            let mut vals = vec![];
            for _ in 0..rng.range(1, 5) {
                let k = *rng.pick(&e.pool);
                if keys.contains(&k) {
                    continue;
                }
                let v = gen::value(rng, &e.pool, &mut unique);
                keys.push(k);
                vals.push(v.clone());
                m.insert(k, Rc::new(v));
            }
            let r = match t.insert(prev.as_ref(), &keys, &vals) {
                Ok(r) => r,
                Err(_) if intern::exhausted() => return Ok(()),
                Err(f) => viol!("{when}: a valid insert failed: {f}"),
            };
            alive.retain(|a| a.0 != r);
            alive.push((r, Rc::new(m)));
        }
        if intern::exhausted() {
            return Ok(());
        }
        for (r, m) in &alive {
            reads_as(t, rng, r, m, when, st)?;
        }
        st.add("later_operations", 1);
    }
    Ok(())
}

/// Operations of hundreds of nodes, of which a part of the calls are tried.
pub fn larger<const N: usize>(e: &mut Eng<N>) {
    let size = e.rng.range(40, 300);
    e.pool = if e.rng.chance(1, 4) { gen::deep::<N>(&mut e.rng, size) } else { gen::many::<N>(&mut e.rng, size) };
    e.w.max_batch = e.pool.len();
    e.w.max_live = 3;
}

pub fn indices(rng: &mut Rng, total: u64, cap: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..total).collect();
    if v.len() > cap {
        let last = total - 1;
        rng.shuffle(&mut v);
        v.truncate(cap);
        v.push(last);
        v.push(0);
        v.sort_unstable();
        v.dedup();
    }
    v
}

pub fn c12<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let spec = *rng.pick(&[Spec::LibIntern, Spec::MyIntern, Spec::MyIntern]);
    let mode = *rng.pick(&db::MODES);
    let size = rng.range(2, 24);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), spec, mode, size)?;
    e.w.max_live = 5;
    e.w.max_batch = 8;
    e.w.rebuild = 0;
    let large = e.rng.chance(1, 30);
    if large {
        larger(&mut e);
    }
    let cap = if thorough && !large { 10_000 } else { 40 };
    let mut injected = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 8) {
            e.step()?;
        }
        for _ in 0..4 {
            if e.over() {
                return Ok(());
            }
            let Some(op) = random_op(e, false) else { continue };
            // Without faults
            let base = copy_core(&e.core);
            {
                let mut c = lock(&base);
                c.begin_op();
                c.log_calls = true;
            }
            let mut t = match build(e.spec, &base, usize::MAX) {
                Ok(t) => t,
                Err(f) => viol!("cannot build a tree: {f}"),
            };
            tree::ENCODES.with(|c| c.set(0));
            tree::DECODES.with(|c| c.set(0));
            let good = match op.run(t.as_mut()) {
                Ok(o) => o,
                Err(_) if e.over() => return Ok(()),
                Err(f) => viol!("{} failed without a fault: {f}", op.show()),
            };
            let encodes = tree::ENCODES.with(std::cell::Cell::get);
            let decodes = tree::DECODES.with(std::cell::Cell::get);
            let calls = lock(&base).op_log.clone();
            let map = result_map(e, &op);
            let rest = others(e, &op);
            let mut plans: Vec<(u64, Option<u64>, u64)> = vec![];
            for at in indices(&mut e.rng, calls.len() as u64, cap) {
                if e.spec != Spec::MyIntern || e.rng.chance(9, 10) {
                    plans.push((at, None, 0));
                }
            }
            if e.spec == Spec::MyIntern {
                for i in indices(&mut e.rng, encodes, 12) {
                    plans.push((i, Some(0), 0));
                }
                for i in indices(&mut e.rng, decodes, 12) {
                    plans.push((i, Some(1), 0));
                }
            }
            for (at, value_fault, _) in plans {
                let core = copy_core(&e.core);
                let mut t = match build(e.spec, &core, usize::MAX) {
                    Ok(t) => t,
                    Err(f) => viol!("cannot build a tree: {f}"),
                };
                let what;
                {
                    let mut c = lock(&core);
                    c.begin_op();
                    match value_fault {
                        None => {
                            let call = calls[at as usize];
                            if call == Call::Commit && e_mode(&c) == Mode::Immediate && matches!(op, Op::Remove(_)) {
                                // All is done already: there is nothing left to fail, or to retry
                                continue;
                            }
                            let len = match e.rng.below(4) {
                                0 => u64::MAX,
                                1 => e.rng.range(1, 3) as u64,
                                _ => 1,
                            };
                            let keep = matches!(c.mode, Mode::Queued | Mode::QueuedAll) && e.rng.chance(1, 2);
                            c.fault = Some(Fault { kind: FaultKind::Error, at, len, keep });
                            what = format!(
                                "storage call {at} ({call:?}) and {} more failing{} during {}",
                                len - 1,
                                if keep { " (waiting writes kept)" } else { "" },
                                op.show()
                            );
                        }
                        Some(0) => {
                            FAIL_ENCODE.with(|c| c.set(at));
                            what = format!("encoding {at} failing during {}", op.show());
                        }
                        _ => {
                            FAIL_DECODE.with(|c| c.set(at));
                            what = format!("decoding {at} failing during {}", op.show());
                        }
                    }
                }
                let got = op.run(t.as_mut());
                FAIL_ENCODE.with(|c| c.set(u64::MAX));
                FAIL_DECODE.with(|c| c.set(u64::MAX));
                let fired = {
                    let mut c = lock(&core);
                    c.fault = None;
                    // What is left waiting would be dropped with the failed operation
                    c.fired
                };
                if value_fault.is_none() && fired == 0 {
                    // The calls came in another order (iteration over hash maps)
                    st.add("faults_not_reached", 1);
                    continue;
                }
                injected += 1;
                st.add(
                    match value_fault {
                        None => match calls[at as usize] {
                            Call::Get => "faults_in_reads",
                            Call::Insert => "faults_in_writes",
                            Call::Remove => "faults_in_deletes",
                            Call::Commit => "faults_in_commits",
                        },
                        Some(0) => "faults_in_encoding",
                        _ => "faults_in_decoding",
                    },
                    1,
                );
                match got {
                    Err(Fail::Err(_)) => {}
                    Err(Fail::Panic(m)) => viol!("{what}: panicked: {m}"),
                    Ok(o) => viol!("{what}: reported success: {o:?}"),
                }
                let mut rng = Rng::new(e.rng.u64());
                for (r, m) in &rest {
                    reads_as(t.as_ref(), &mut rng, r, m, &format!("after {what}"), st)?;
                }
                // Once more
                let again = op.run(t.as_mut());
                if e.over() {
                    return Ok(());
                }
                let when = format!("after {what} and a retry");
                if again.as_ref() != Ok(&good) && !(matches!(good, Out::Proof(_)) && again.is_ok()) {
                    viol!("{when}: the retry gives {again:?} instead of {good:?}");
                }
                let mut alive = rest.clone();
                if let (Out::Root(r), Some(m)) = (&good, &map) {
                    alive.retain(|a| a.0 != *r);
                    alive.push((*r, m.clone()));
                }
                for (r, m) in &alive {
                    reads_as(t.as_ref(), &mut rng, r, m, &when, st)?;
                }
                if op.is_write() && rng.chance(1, 3) {
                    // Further removals use up each handle at most once; a root that is being
                    // removed and is still alive has one left
                    carry_on(t.as_mut(), &mut rng, e, alive, &when, st)?;
                }
                if e.over() {
                    return Ok(());
                }
            }
            // The real step
            e.step()?;
        }
        // Verification encodes the value
        if e.spec == Spec::MyIntern {
            if let Some(r) = e.random_live() {
                let map = e.map_of(&r);
                let (k, v) = map.iter().next().map(|(k, v)| (*k, v.clone())).unwrap();
                if let Ok(p) = e.t().prove(&r, &k) {
                    FAIL_ENCODE.with(|c| c.set(0));
                    let x = e.t().verify(&r, &k, &v, &p);
                    FAIL_ENCODE.with(|c| c.set(u64::MAX));
                    if !matches!(x, Err(Fail::Err(_))) {
                        viol!("verifying a value that cannot be encoded gives {x:?}");
                    }
                    if let Err(f) = e.t().verify(&r, &k, &v, &p) {
                        viol!("after a failed encoding, verifying gives {f}");
                    }
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    FAIL_ENCODE.with(|c| c.set(u64::MAX));
    FAIL_DECODE.with(|c| c.set(u64::MAX));
    with_trace(&e, r)?;
    st.add("faults_injected", injected);
    finish_case(&e, st, injected > 10);
    Ok(())
}

fn e_mode<const N: usize>(c: &Core<N>) -> Mode {
    c.mode
}

// ---- C13 --------------------------------------------------------------------------------------

pub fn c13<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let spec = *rng.pick(&[Spec::LibIntern, Spec::LibIntern, Spec::MyIntern]);
    let mode = *rng.pick(&[Mode::Immediate, Mode::Queued, Mode::Queued, Mode::QueuedAll, Mode::Overlay]);
    let size = rng.range(2, 24);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), spec, mode, size)?;
    e.w.max_live = 5;
    e.w.max_batch = 8;
    e.w.rebuild = 0;
    e.w.noop = 3;
    e.w.revert = 3;
    let large = e.rng.chance(1, 30);
    if large {
        larger(&mut e);
    }
    let cap = if thorough && !large { 10_000 } else { 30 };
    let mut crashes = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 8) {
            e.step()?;
        }
        for _ in 0..3 {
            if e.over() {
                return Ok(());
            }
            let Some(op) = random_op(e, true) else { continue };
            let base = copy_core(&e.core);
            lock(&base).begin_op();
            let mut t = match build(e.spec, &base, usize::MAX) {
                Ok(t) => t,
                Err(f) => viol!("cannot build a tree: {f}"),
            };
            let good = match op.run(t.as_mut()) {
                Ok(o) => o,
                Err(_) if e.over() => return Ok(()),
                Err(f) => viol!("{} failed: {f}", op.show()),
            };
            let total = lock(&base).op.total();
            let map = result_map(e, &op);
            for at in indices(&mut e.rng, total, cap) {
                for variant in 0..3 {
                    let kind = match variant {
                        0 => FaultKind::Crash,
                        1 => FaultKind::CrashAfter,
                        _ => {
                            if at + 1 != total || mode == Mode::Immediate {
                                continue;
                            }
                            FaultKind::Torn(e.rng.below(12))
                        }
                    };
                    let core = copy_core(&e.core);
                    let mut rng = Rng::new(e.rng.u64());
                    let what = format!("{kind:?} at storage call {at} of {}", op.show());
                    let mut alive = others(e, &op);
                    crash_once(e, &core, &op, at, kind, &what)?;
                    crashes += 1;
                    st.add("crash_points", 1);
                    // A new process
                    let mut t = match build(e.spec, &core, usize::MAX) {
                        Ok(t) => t,
                        Err(f) => viol!("cannot build a tree: {f}"),
                    };
                    for (r, m) in &alive {
                        reads_as(t.as_ref(), &mut rng, r, m, &format!("after {what}"), st)?;
                    }
                    if let (Out::Root(r), Some(m)) = (&good, &map) {
                        let atomic = mode != Mode::Immediate && !matches!(kind, FaultKind::Torn(_));
                        if atomic {
                            let before = lock(&e.core).nodes.clone();
                            let now = lock(&core).nodes.clone();
                            let untouched = now == before;
                            if !untouched {
                                // Then it is all there
                                reads_as(t.as_ref(), &mut rng, r, m, &format!("after {what}, which left traces"), st)?;
                                alive.retain(|a| a.0 != *r);
                                alive.push((*r, m.clone()));
                                st.add("interrupted_inserts_complete", 1);
                            } else {
                                st.add("interrupted_inserts_without_trace", 1);
                            }
                        }
                        // Once more
                        let again = op.run(t.as_mut());
                        if e.over() {
                            return Ok(());
                        }
                        if again.as_ref() != Ok(&good) {
                            viol!("after {what}: the insert again gives {again:?} instead of {good:?}");
                        }
                        alive.retain(|a| a.0 != *r);
                        alive.push((*r, m.clone()));
                        for (r, m) in &alive {
                            reads_as(t.as_ref(), &mut rng, r, m, &format!("after {what} and the same insert again"), st)?;
                        }
                    } else if removal_repeatable(e, &op) && rng.chance(1, 2) {
                        let again = op.run(t.as_mut());
                        if !again.is_ok() {
                            viol!("after {what}: the removal again gives {again:?}");
                        }
                        for (r, m) in &alive {
                            reads_as(t.as_ref(), &mut rng, r, m, &format!("after {what} and the same removal again"), st)?;
                        }
                    }
                    if rng.chance(1, 4) {
                        carry_on(t.as_mut(), &mut rng, e, alive, &format!("after {what}"), st)?;
                    }
                    if e.over() {
                        return Ok(());
                    }
                }
            }
            e.step()?;
            if e.over() {
                return Ok(());
            }
            // The rest of the case goes on from one of the crashes
            if e.rng.chance(1, 2) {
                let Some(op) = random_op(e, true) else { continue };
                let at = e.rng.below(total as usize + 2) as u64;
                let kind = if e.rng.chance(1, 2) { FaultKind::Crash } else { FaultKind::CrashAfter };
                let core = e.core.clone();
                let what = format!("(continuing after) {kind:?} at storage call {at} of {}", op.show());
                let map = result_map(e, &op);
                let done = crash_once(e, &core, &op, at, kind, &what)?;
                e.trace.push(what);
                match (&op, done) {
                    (_, Some(Out::Root(r))) => {
                        e.adopt(r, map.unwrap());
                    }
                    (Op::Remove(r), _) => {
                        // Whether the handle is gone is open; do not use it again
                        let r = *r;
                        let l = e.live.get_mut(&r).unwrap();
                        l.handles -= 1;
                        if l.handles == 0 {
                            e.live.remove(&r);
                        }
                    }
                    _ => {}
                }
                let (spec, depth) = (e.spec, e.depth);
                e.tree = None;
                e.tree = Some(match build(spec, &core, depth) {
                    Ok(t) => t,
                    Err(f) => viol!("cannot build a tree: {f}"),
                });
                let roots: Vec<[u8; N]> = e.live.keys().copied().collect();
                for r in roots {
                    e.check_root(&r, st, false)?;
                }
                st.add("histories_continued_after_a_crash", 1);
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    finish_case(&e, st, crashes > 10);
    Ok(())
}

/// Whether the removal may be asked for again without knowing if it took place: nothing else may
/// hold the root.
fn removal_repeatable<const N: usize>(e: &Eng<N>, op: &Op<N>) -> bool {
    let Op::Remove(x) = op else { return false };
    if e.live[x].handles > 1 {
        return false;
    }
    let c = lock(&e.core);
    let mut todo: Vec<[u8; N]> = e.live.keys().filter(|r| *r != x).copied().collect();
    let mut seen = std::collections::HashSet::new();
    while let Some(l) = todo.pop() {
        if l == *x {
            return false;
        }
        if seen.insert(l) {
            if let Some(crate::nodes::Body::Branch { zero, one, .. }) = c.nodes.get(&l).map(|s| &s.body) {
                todo.extend([*zero, *one]);
            }
        }
    }
    true
}

/// Runs the operation on a storage that dies, and leaves what is on disk.  Returns what the
/// operation returned if it was over before.
fn crash_once<const N: usize>(e: &Eng<N>, core: &Shared<N>, op: &Op<N>, at: u64, kind: FaultKind, what: &str) -> V<Option<Out<N>>> {
    let mut t = match build(e.spec, core, usize::MAX) {
        Ok(t) => t,
        Err(f) => viol!("cannot build a tree: {f}"),
    };
    {
        let mut c = lock(core);
        c.begin_op();
        c.fault = Some(Fault { kind, at, len: 1, keep: false });
    }
    let r = op.run(t.as_mut());
    drop(t);
    let fired = lock(core).fired;
    lock(core).power_cycle();
    match r {
        Err(Fail::Panic(m)) => viol!("{what}: panicked: {m}"),
        Ok(o) if fired == 0 => Ok(Some(o)),
        _ => Ok(None),
    }
}

// ---- C14 --------------------------------------------------------------------------------------

pub fn c14<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut e = Eng::<N>::random(seed)?;
    e.w.rebuild = 3;
    e.w.remove = 5;
    let mode = lock(&e.core).mode;
    let n = crate::props_a::hist_len(&mut e, thorough);
    let mut reopened = 0;
    let path = format!("store-{seed:x}-{N}");
    db::forget_stores();
    let use_paths = e.rng.chance(1, 2);
    let mut run = |e: &mut Eng<N>| -> V<()> {
        if use_paths {
            // A store that is opened by path, empty at first
            let depth = *e.rng.pick(&[N * 8, usize::MAX]);
            db::default_mode(mode);
            e.tree = Some(match tree::open(e.spec, &path, depth) {
                Ok(t) => t,
                Err(f) => viol!("opening a new store failed: {f}"),
            });
            e.depth = depth;
            e.core = match db::store::<N>(&path) {
                Some(c) => c,
                None => viol!("opening {path} opened {:?}", db::opened()),
            };
            e.trace.push(format!("opened the new store {path} with depth {depth}"));
            if !lock(&e.core).nodes.is_empty() {
                viol!("a new store is not empty");
            }
            if tree::open::<N>(e.spec, "refuse", depth).is_ok() {
                viol!("a store that cannot be opened was opened");
            }
        }
        for _ in 0..n {
            lock(&e.core).begin_op();
            let d = e.step()?;
            if e.over() {
                return Ok(());
            }
            {
                let c = lock(&e.core);
                if !c.pending.is_empty() {
                    viol!("{} writes are still waiting after {d:?} returned", c.pending.len());
                }
                if matches!(d, Done::Insert { .. } | Done::Remove { .. }) && mode != Mode::Immediate {
                    st.add("commits_checked", 1);
                }
            }
            let lose = e.rng.chance(1, 2);
            if !lose && matches!(d, Done::Rebuild | Done::None) {
                continue;
            }
            // A new tree on what is committed, with the process gone or not
            let before = e.depth;
            let depth = *e.rng.pick(&[N * 8, N * 8 + 7, 1 << 40, usize::MAX]);
            let how;
            if use_paths && e.rng.chance(2, 3) {
                e.tree = None;
                lock(&e.core).power_cycle();
                how = "closing and opening the store";
                e.tree = Some(match tree::open(e.spec, &path, depth) {
                    Ok(t) => t,
                    Err(f) => viol!("opening the store again failed: {f}"),
                });
            } else if e.rng.chance(1, 2) {
                how = "taking the tree apart and rebuilding it";
                let t = e.tree.take().unwrap();
                match t.rebuild(depth) {
                    Ok((t, old)) => {
                        if old != before {
                            viol!("the tree was built with depth {before} and reports {old}");
                        }
                        e.tree = Some(t);
                    }
                    Err(f) => viol!("{how} failed: {f}"),
                }
            } else {
                how = "losing everything that was not committed";
                e.tree = None;
                lock(&e.core).power_cycle();
                let core = e.core.clone();
                e.tree = Some(match build(e.spec, &core, depth) {
                    Ok(t) => t,
                    Err(f) => viol!("cannot build a tree: {f}"),
                });
            }
            e.depth = depth;
            e.trace.push(format!("({how}, depth {depth})"));
            reopened += 1;
            let mut rng = Rng::new(e.rng.u64());
            for (r, l) in &e.live {
                reads_as(e.t(), &mut rng, r, &l.map, &format!("after {d:?} and {how}"), st)?;
            }
            if let Done::Remove { root, gone: true } = d {
                if e.t().get_one(&root, &e.pool[0]).is_ok() && !crate::props_a::closure(e)?.contains(&root) {
                    if let Ok(Some(_)) = e.t().get_one(&root, e.removed.last().unwrap().1.keys().next().unwrap()) {
                        viol!("after removing {} and {how}, it can still be read", hex(&root));
                    }
                }
                let need = crate::props_a::closure(e)?;
                let c = lock(&e.core);
                if c.nodes.len() != need.len() {
                    viol!("after removing {} and {how}, {} nodes are stored and {} needed", hex(&root), c.nodes.len(), need.len());
                }
            }
        }
        if use_paths {
            // Another path is another store
            let t = match tree::open::<N>(e.spec, &format!("{path}-other"), 8) {
                Ok(t) => t,
                Err(f) => viol!("opening a new store failed: {f}"),
            };
            for (r, l) in &e.live {
                if let Ok(Some(_)) = t.get_one(r, l.map.keys().next().unwrap()) {
                    viol!("a new store contains root {}", hex(r));
                }
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("trees_reopened", reopened);
    finish_case(&e, st, reopened > 2);
    Ok(())
}
