//! What only the RocksDB tree can show: faults of the file system, death of the process, reopening.

use crate::io;
use crate::rk::{fail_text, scratch, Dir, Rk};
use mon::db::Mode;
use mon::engine::{hex, Done, Eng, Stats, V};
use mon::model::Map;
use mon::props_a::{finish_case, hist_len, with_trace};
use mon::props_c::{carry_on, larger, random_op, reads_as, result_map, Op, Out};
use mon::rng::{mix, Rng};
use mon::gen;
use mon::nodes::{from_node, to_node, Body, Stored};
use mon::tree::{lib, Fail, Spec, Tree};
use mon::{is_send_sync, viol};
use starling::rocks_tree::RocksTree;
use starling::traits::{Database, Decode};
use starling::tree::tree_node::TreeNode;
use starling::tree_db::rocksdb::RocksDB;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use std::path::Path;

pub fn two(case: u64, ws: &[usize]) -> usize {
    ws[(mix(&[case, 77]) % ws.len() as u64) as usize]
}

/// An engine on the RocksDB tree.
pub fn eng<const N: usize>(seed: u64) -> V<Eng<N>> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 40);
    // (the in-memory tree serves as the other route)
    let mut e = Eng::<N>::new(rng, Spec::Mem, Mode::Immediate, size)?;
    e.tree = None;
    let r = Rk::<N>::fresh(e.depth);
    e.tree = Some(match r {
        Ok(t) => Box::new(t),
        Err(f) => viol!("opening a new store failed: {}", fail_text(&f)),
    });
    e.trace.push("(RocksDB)".into());
    if e.rng.chance(1, 4) {
        e.w.max_batch = 3;
    }
    if e.rng.chance(1, 8) {
        let size = e.rng.range(41, 200);
        e.pool = mon::gen::mixed::<N>(&mut e.rng, size);
        e.w.max_batch = size;
    }
    e.perhaps_large(false);
    Ok(e)
}

/// All live versions, except one handle that is being removed.
fn others<const N: usize>(e: &Eng<N>, op: &Op<N>) -> Vec<([u8; N], Map<N>)> {
    e.live
        .iter()
        .filter(|(r, l)| !(matches!(op, Op::Remove(x) if x == *r) && l.handles == 1))
        .map(|(r, l)| (*r, l.map.clone()))
        .collect()
}

fn follow<const N: usize>(e: &mut Eng<N>, op: &Op<N>, out: &Out<N>) {
    match (op, out) {
        (Op::Insert(..), Out::Root(r)) => {
            let m = result_map(e, op).unwrap();
            e.adopt(*r, m);
        }
        (Op::Remove(r), _) => {
            let l = e.live.get_mut(r).unwrap();
            l.handles -= 1;
            if l.handles == 0 {
                e.live.remove(r);
            }
        }
        _ => {}
    }
}

fn stored_count<const N: usize>(path: &Path) -> V<usize> {
    let t = match Rk::<N>::open(path, N * 8) {
        Ok(t) => t,
        Err(f) => viol!("opening the store again failed: {f}"),
    };
    match Box::new(t).dismantle() {
        Some(m) => Ok(m.len()),
        None => viol!("the store contains something that is no node"),
    }
}

/// A copy of the files of an open store, if they stayed the same meanwhile.
fn copied(path: &Path) -> Option<Dir> {
    let list = || -> Option<BTreeMap<std::ffi::OsString, u64>> {
        let mut m = BTreeMap::new();
        for f in std::fs::read_dir(path).ok()? {
            let f = f.ok()?;
            m.insert(f.file_name(), f.metadata().ok()?.len());
        }
        Some(m)
    };
    let before = list()?;
    let to = Dir::new();
    std::fs::create_dir_all(&to.0).expect("scratch");
    for f in before.keys() {
        // The lock and the messages are of no concern
        let name = f.to_string_lossy();
        if name == "LOCK" || name.starts_with("LOG") {
            continue;
        }
        std::fs::copy(path.join(f), to.0.join(f)).ok()?;
    }
    let mut after = list()?;
    let mut before = before;
    before.retain(|f, _| !f.to_string_lossy().starts_with("LOG"));
    after.retain(|f, _| !f.to_string_lossy().starts_with("LOG"));
    (before == after).then_some(to)
}

// ---- C12: the file system refuses writes --------------------------------------------------------

pub fn c12<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    if mix(&[seed, 12]) % 4 == 0 {
        return c12_bytes::<N>(seed, thorough, st);
    }
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 24);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), Spec::Mem, Mode::Immediate, size)?;
    let dir = Dir::new();
    let path = dir.0.clone();
    let open = |path: &Path| -> V<Box<dyn Tree<N>>> {
        match Rk::<N>::open(path, N * 8) {
            Ok(t) => Ok(Box::new(t)),
            Err(f) => viol!("opening the store failed: {f}"),
        }
    };
    e.tree = Some(open(&path)?);
    e.depth = N * 8;
    e.w.rebuild = 0;
    e.w.max_live = 5;
    e.w.max_batch = 8;
    if e.rng.chance(1, 8) {
        larger(&mut e);
    }
    let mut injected = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 6) {
            e.step()?;
        }
        for _ in 0..3 {
            let Some(op) = random_op(e, true) else { continue };
            let at = if e.rng.chance(1, 2) { 0 } else { e.rng.below(6) as i64 };
            let alive = others(e, &op);
            io::arm(io::FAIL, at, true);
            let r = op.run(e.tree.as_deref_mut().unwrap());
            let (seen, fired) = io::disarm();
            let what = format!("{} with write {at} of {seen} refused", op.show());
            e.trace.push(format!("({what}: {})", r.is_ok()));
            st.add("writes_of_the_store_seen", seen);
            match (&r, fired) {
                (Err(Fail::Panic(m)), _) => viol!("{what}: panicked: {m}"),
                (Ok(_), 1..) => viol!("{what}: reported success"),
                (Err(f), 0) => viol!("{what}: failed: {f}"),
                _ => {}
            }
            if let (Ok(o), 0) = (&r, fired) {
                follow(e, &op, o);
                continue;
            }
            injected += 1;
            let mut rng = Rng::new(e.rng.u64());
            // Reads still work, and after opening again everything does
            for (r, m) in &alive {
                reads_as(e.t(), &mut rng, r, m, &format!("after {what}"), st)?;
            }
            e.tree = None;
            e.tree = Some(open(&path)?);
            for (r, m) in &alive {
                reads_as(e.t(), &mut rng, r, m, &format!("after {what}, reopened"), st)?;
            }
            match &op {
                Op::Insert(..) => {
                    let again = op.run(e.tree.as_deref_mut().unwrap());
                    match again {
                        Ok(o) => follow(e, &op, &o),
                        Err(f) => viol!("after {what}, reopened: the same insert failed: {f}"),
                    }
                }
                _ => follow(e, &op, &Out::Unit),
            }
            for (r, l) in &e.live {
                reads_as(e.tree.as_deref().unwrap(), &mut rng, r, &l.map, &format!("after {what} and again"), st)?;
            }
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    drop(e.tree.take());
    st.add("faults_injected", injected);
    finish_case(&e, st, injected > 0);
    Ok(())
}

/// The locations that lie on the way to a key under a root, the root first.
fn way<const N: usize>(all: &HashMap<[u8; N], Stored<N>>, root: &[u8; N], key: &[u8; N]) -> Vec<[u8; N]> {
    let mut at = *root;
    let mut v = vec![];
    while let Some(n) = all.get(&at) {
        v.push(at);
        match &n.body {
            Body::Branch { zero, one, split, key: k, .. } => {
                if (0..*split).any(|i| mon::model::bit(k, i) != mon::model::bit(key, i)) {
                    break;
                }
                at = if mon::model::bit(key, *split) { *one } else { *zero };
            }
            Body::Leaf { key: k, data } if k == key => at = *data,
            _ => break,
        }
    }
    v
}

/// A copy of a closed store that cannot be opened, because a file of it is damaged or missing, or
/// because it is no store at all.  Gives the directory, what was done, and how to put it right.
fn ruined(of: &Path, rng: &mut Rng) -> (Dir, String, (std::path::PathBuf, Vec<u8>)) {
    let dir = Dir::new();
    if rng.chance(1, 6) {
        let bytes = rng.bytes(20);
        std::fs::write(&dir.0, &bytes).expect("scratch file");
        let at = dir.0.clone();
        return (dir, "a file in place of a store".into(), (at, bytes));
    }
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let mut tables = vec![];
    for f in std::fs::read_dir(of).expect("store").flatten() {
        let to = dir.0.join(f.file_name());
        std::fs::copy(f.path(), &to).expect("copy of a store");
        if to.extension().map_or(false, |x| x == "sst") {
            tables.push(to);
        }
    }
    tables.sort();
    let at = if rng.chance(1, 2) && !tables.is_empty() { rng.pick(&tables).clone() } else { dir.0.join("CURRENT") };
    let name = at.file_name().unwrap().to_string_lossy().into_owned();
    let good = std::fs::read(&at).expect("file of a store");
    if name == "CURRENT" {
        std::fs::write(&at, *rng.pick(&[&b""[..], b"no manifest", b"MANIFEST-999999\n"])).expect("file of a store");
    } else {
        std::fs::remove_file(&at).expect("file of a store");
    }
    (dir, format!("a store whose {name} is damaged or missing"), (at, good))
}

/// C12: what is stored in one location cannot be decoded for a while.
pub fn c12_bytes<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 30);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), Spec::Mem, Mode::Immediate, size)?;
    let dir = Dir::new();
    e.depth = N * 8;
    e.w.rebuild = 0;
    e.w.max_live = 4;
    e.w.max_batch = 8;
    e.tree = Some(match Rk::<N>::open(&dir.0, N * 8) {
        Ok(t) => Box::new(t),
        Err(f) => viol!("opening a new store failed: {f}"),
    });
    let mut damaged = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 8) {
            e.step()?;
        }
        e.tree = None;
        let mut db = match lib(|| RocksDB::<N>::open(&dir.0)) {
            Ok(d) => d,
            Err(f) => viol!("opening the store again failed: {f}"),
        };
        let mut rng = Rng::new(e.rng.u64());
        for _ in 0..if thorough { 30 } else { 10 } {
            let Ok(raw) = lib(|| Ok(db.decompose())) else { viol!("taking the store apart failed") };
            let mut all = HashMap::new();
            for (k, v) in raw.iterator(rocksdb::IteratorMode::Start) {
                let Ok(k) = <[u8; N]>::try_from(&k[..]) else { viol!("a location of {} bytes", k.len()) };
                match lib(|| TreeNode::<N>::decode(&v)) {
                    Ok(n) => all.insert(k, (v.to_vec(), from_node(n))),
                    Err(f) => viol!("what is stored at {} cannot be decoded: {f}", hex(&k)),
                };
            }
            let bytes: Vec<_> = all.iter().map(|(k, v)| (*k, v.0.clone())).collect();
            let nodes: HashMap<_, _> = all.into_iter().map(|(k, v)| (k, v.1)).collect();
            if bytes.is_empty() {
                db = RocksDB::new(raw);
                break;
            }
            let (at, good) = rng.pick(&bytes).clone();
            let bad = match rng.below(4) {
                0 => vec![],
                1 => good[..rng.below(good.len())].to_vec(),
                2 => {
                    let n = rng.range(1, 40);
                    rng.bytes(n)
                }
                _ => vec![0xff; rng.range(1, 300)],
            };
            if !matches!(lib(|| TreeNode::<N>::decode(&bad)), Err(Fail::Err(_))) {
                db = RocksDB::new(raw);
                continue;
            }
            raw.put(at, &bad).expect("store");
            damaged += 1;
            let what = format!("with {} undecodable bytes at {} ({:?})", bad.len(), hex(&at), nodes[&at]);
            {
                let mut t = match lib(|| RocksTree::<N, Vec<u8>>::from_db(RocksDB::new(raw), N * 8)) {
                    Ok(t) => Rk::on(t),
                    Err(f) => viol!("building a tree on the store: {f}"),
                };
                let roots: Vec<_> = e.live.iter().map(|(r, l)| (*r, l.map.clone())).collect();
                for (r, m) in &roots {
                    let mut keys: Vec<[u8; N]> = m.keys().copied().collect();
                    for k in keys.clone() {
                        if rng.chance(1, 3) {
                            keys.push(gen::near(&mut rng, &k));
                        }
                    }
                    let mut any = false;
                    for k in &keys {
                        let on = way(&nodes, r, k).contains(&at);
                        any |= on;
                        let want = m.get(k).map(|v| v.to_vec());
                        match t.get_one(r, k) {
                            Err(Fail::Err(_)) => {}
                            Ok(v) if !on && v == want => {}
                            got => viol!("{what}: single read of {} under root {} gives {got:?}", hex(k), hex(r)),
                        }
                        match t.get(r, &[*k]) {
                            Err(Fail::Err(_)) => {}
                            Ok(v) if !on && v == vec![(*k, want.clone())] => {}
                            got => viol!("{what}: a batch read of {} under root {} gives {got:?}", hex(k), hex(r)),
                        }
                        // (the value is not needed for a proof, but may be read)
                        let needed = on && at != *way(&nodes, r, k).last().unwrap();
                        match t.prove(r, k) {
                            Err(Fail::Err(_)) => {}
                            Ok(p) if !needed && want.is_some() => {
                                if let Err(f) = t.verify(r, k, want.as_ref().unwrap(), &p) {
                                    viol!("{what}: the proof of {} under root {} is not accepted: {f}", hex(k), hex(r));
                                }
                            }
                            got => viol!("{what}: proving {} under root {} gives {got:?}", hex(k), hex(r)),
                        }
                        st.add("reads_over_undecodable_bytes", u64::from(on));
                    }
                    match t.get(r, &keys) {
                        Err(Fail::Err(_)) => {}
                        Ok(_) if !any => {}
                        got => viol!("{what}: a batch read of {} keys under root {} gives {got:?}", keys.len(), hex(r)),
                    }
                    // An insert that has to follow a path over it, and the removal of it
                    let k = *rng.pick(&keys);
                    let w = way(&nodes, r, &k);
                    let is_data = matches!(nodes[&at].body, Body::Data(_));
                    if w.contains(&at) && !is_data {
                        match t.insert(Some(r), &[k], &[rng.bytes(5)]) {
                            Err(Fail::Err(_)) => {}
                            got => viol!("{what}: inserting {} on root {} gives {got:?}", hex(&k), hex(r)),
                        }
                    }
                    if *r == at {
                        match t.remove(r) {
                            Err(Fail::Err(_)) => {}
                            got => viol!("{what}: removing that root gives {got:?}"),
                        }
                    }
                }
                let Ok((d, _)) = lib(|| Ok(t.t.decompose())) else { viol!("taking the tree apart failed") };
                db = d;
            }
            let Ok(raw) = lib(|| Ok(db.decompose())) else { viol!("taking the store apart failed") };
            raw.put(at, &good).expect("store");
            let t = match lib(|| RocksTree::<N, Vec<u8>>::from_db(RocksDB::new(raw), N * 8)) {
                Ok(t) => Rk::on(t),
                Err(f) => viol!("building a tree on the store: {f}"),
            };
            for (r, l) in &e.live {
                reads_as(&t, &mut rng, r, &l.map, &format!("{what}, put right again"), st)?;
            }
            let Ok((d, _)) = lib(|| Ok(t.t.decompose())) else { viol!("taking the tree apart failed") };
            db = d;
        }
        drop(db);
        // A tree on a store that cannot be opened
        for _ in 0..2 {
            let (copy, what, (at, good)) = ruined(&dir.0, &mut rng);
            match lib(|| RocksTree::<N, Vec<u8>>::open(&copy.0, N * 8)).map(|_| ()) {
                Err(Fail::Err(_)) => {}
                got => viol!("opening a tree on {what} gives {got:?}"),
            }
            st.add("stores_that_cannot_be_opened", 1);
            if at == copy.0 {
                if std::fs::read(&at).ok() != Some(good) {
                    viol!("opening a tree on {what} changed the file");
                }
                let _ = std::fs::remove_file(&at);
                continue;
            }
            std::fs::write(&at, good).expect("file of a store");
            let t = match Rk::<N>::open(&copy.0, N * 8) {
                Ok(t) => t,
                Err(f) => viol!("opening a tree on {what}, put right again: {f}"),
            };
            for (r, l) in &e.live {
                reads_as(&t, &mut rng, r, &l.map, &format!("after opening a tree on {what} failed, and the store was put right again"), st)?;
            }
        }
        // The store serves on
        e.tree = Some(match Rk::<N>::open(&dir.0, N * 8) {
            Ok(t) => Box::new(t),
            Err(f) => viol!("opening the store again failed: {f}"),
        });
        for _ in 0..3 {
            e.step()?;
        }
        for (r, l) in &e.live {
            reads_as(e.t(), &mut rng, r, &l.map, "after all", st)?;
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    drop(e.tree.take());
    st.add("nodes_made_undecodable", damaged);
    finish_case(&e, st, damaged > 0);
    Ok(())
}

// ---- C13: the process dies ------------------------------------------------------------------------

struct Plan<const N: usize> {
    /// The state before the operation during which the process dies.
    e: Eng<N>,
    ops: Vec<(Op<N>, Out<N>)>,
    last: Op<N>,
    out: Out<N>,
}

/// A history and one more operation, the same in parent and child.
fn plan<const N: usize>(seed: u64) -> V<Option<Plan<N>>> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 24);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), Spec::Mem, Mode::Immediate, size)?;
    e.w.rebuild = 0;
    if e.rng.chance(1, 5) {
        larger(&mut e);
    }
    let mut ops = vec![];
    for _ in 0..e.rng.range(1, 10) {
        let Some(op) = random_op(&mut e, true) else { continue };
        let out = match op.run(e.tree.as_deref_mut().unwrap()) {
            Ok(o) => o,
            Err(f) => viol!("{} failed: {f}", op.show()),
        };
        e.trace.push(op.show());
        follow(&mut e, &op, &out);
        ops.push((op, out));
    }
    let Some(last) = random_op(&mut e, true) else { return Ok(None) };
    let out = match last.run(e.tree.as_deref_mut().unwrap()) {
        Ok(o) => o,
        Err(f) => viol!("{} failed: {f}", last.show()),
    };
    e.trace.push(format!("interrupted: {}", last.show()));
    Ok(Some(Plan { e, ops, last, out }))
}

/// `crash-child N CASE DIR PHASE KIND AT`
pub fn child(argv: &[String]) {
    let case: u64 = argv[1].parse().unwrap();
    let path = Path::new(&argv[2]);
    let (phase, kind, at) = (argv[3].as_str(), argv[4].parse().unwrap(), argv[5].parse().unwrap());
    match argv[0].as_str() {
        "8" => child_at::<8>(case, path, phase, kind, at),
        "33" => child_at::<33>(case, path, phase, kind, at),
        _ => child_at::<32>(case, path, phase, kind, at),
    }
}

fn child_at<const N: usize>(case: u64, path: &Path, phase: &str, kind: u8, at: i64) {
    if phase == "open" {
        io::arm(kind, at, false);
        let t = Rk::<N>::open(path, N * 8);
        let (seen, _) = io::disarm();
        io::say(1, &format!("opened {} {seen}\n", t.is_ok()));
        unsafe { libc::_exit(0) }
    }
    let Ok(Some(p)) = plan::<N>(case) else { unsafe { libc::_exit(5) } };
    let Ok(mut t) = Rk::<N>::open(path, N * 8) else {
        io::say(1, "cannot open\n");
        unsafe { libc::_exit(6) }
    };
    for (i, (op, want)) in p.ops.iter().enumerate() {
        let got = op.run(&mut t);
        if got.as_ref() != Ok(want) {
            io::say(1, &format!("WRONG {i} {}: {got:?} instead of {want:?}\n", op.show()));
            unsafe { libc::_exit(7) }
        }
        io::say(1, &format!("done {i}\n"));
    }
    io::arm(kind, at, true);
    let got = p.last.run(&mut t);
    let (seen, _) = io::disarm();
    io::say(1, &format!("last {} {seen}\n", got.as_ref() == Ok(&p.out)));
    // Without closing anything
    unsafe { libc::_exit(0) }
}

fn spawn(args: &[String]) -> (i32, String) {
    let me = std::env::current_exe().expect("own program");
    let mut c = std::process::Command::new(me)
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("child");
    let mut s = String::new();
    c.stdout.take().unwrap().read_to_string(&mut s).expect("pipe");
    (c.wait().expect("child").code().unwrap_or(-1), s)
}

pub fn c13<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let Some(p) = plan::<N>(seed)? else { return Ok(()) };
    let mut rng = Rng::new(mix(&[seed, 13]));
    let mut crashes = 0;
    for _ in 0..if thorough { 6 } else { 3 } {
        let r = crash_once(&p, seed, &mut rng, st);
        with_trace(&p.e, r)?;
        crashes += 1;
    }
    let mut e = p.e;
    e.ops = p.ops.len() as u64 + 1;
    e.fp = mix(&[seed]);
    finish_case(&e, st, crashes > 0);
    Ok(())
}

fn crash_once<const N: usize>(p: &Plan<N>, seed: u64, rng: &mut Rng, st: &mut Stats) -> V<()> {
    let dir = Dir::new();
    let kind = *rng.pick(&[io::DIE_BEFORE, io::DIE_AFTER, io::DIE_TORN]);
    let at = match p.last {
        Op::Insert(..) => rng.below(3),
        _ => rng.below(9),
    };
    let path = dir.0.to_string_lossy().into_owned();
    std::fs::create_dir_all(dir.0.parent().unwrap()).expect("scratch");
    let (code, said) = spawn(&[
        "crash-child".into(),
        N.to_string(),
        seed.to_string(),
        path.clone(),
        "op".into(),
        kind.to_string(),
        at.to_string(),
    ]);
    let what = format!(
        "{} with death {} its write {at}",
        p.last.show(),
        match kind {
            io::DIE_BEFORE => "before",
            io::DIE_AFTER => "after",
            _ => "in the middle of",
        }
    );
    if said.contains("WRONG") {
        viol!("the RocksDB tree answers differently from the in-memory tree: {said}");
    }
    if said.contains("cannot open") {
        viol!("a new store cannot be opened");
    }
    if !matches!(code, 0 | 77) {
        viol!("{what}: the process ended with {code}: {said}");
    }
    let finished = code == 0;
    if finished && !said.contains("last true") {
        viol!("{what}: {said}");
    }
    st.add("processes_killed", 1);
    if !finished {
        st.add("processes_killed_during_a_write", 1);
    }
    // Death while opening what is left
    if rng.chance(1, 4) {
        let k = rng.below(12);
        let (code, said) = spawn(&[
            "crash-child".into(),
            N.to_string(),
            seed.to_string(),
            path.clone(),
            "open".into(),
            kind.to_string(),
            k.to_string(),
        ]);
        if !matches!(code, 0 | 77) || said.contains("opened false") {
            viol!("{what}: opening the store ended with {code}: {said}");
        }
        if code == 77 {
            st.add("processes_killed_while_opening", 1);
        }
    }
    let mut alive: Vec<([u8; N], Map<N>)> = if finished {
        // The whole operation had returned
        let mut live: BTreeMap<[u8; N], (usize, Map<N>)> =
            p.e.live.iter().map(|(r, l)| (*r, (l.handles, l.map.clone()))).collect();
        match (&p.last, &p.out) {
            (Op::Insert(..), Out::Root(r)) => {
                live.insert(*r, (9, result_map(&p.e, &p.last).unwrap()));
            }
            (Op::Remove(r), _) => {
                let l = live.get_mut(r).unwrap();
                l.0 -= 1;
                if l.0 == 0 {
                    live.remove(r);
                }
            }
            _ => {}
        }
        live.into_iter().map(|(r, l)| (r, l.1)).collect()
    } else {
        others(&p.e, &p.last)
    };
    // What is stored
    let mut canon = mon::model::Canon::<N>::default();
    let now = stored_count::<N>(&dir.0)?;
    let before: Vec<u64> = p.e.live.values().map(|l| canon.id(&l.map)).collect();
    let ids: Vec<u64> = alive.iter().map(|a| canon.id(&a.1)).collect();
    let want = canon.distinct_nodes(&ids);
    let mut t = match Rk::<N>::open(&dir.0, N * 8) {
        Ok(t) => t,
        Err(f) => viol!("after {what}: opening the store failed: {f}"),
    };
    for (r, m) in &alive {
        reads_as(&t, rng, r, m, &format!("after {what}"), st)?;
    }
    if finished {
        if now != want {
            viol!("after {what}, which had returned: {now} nodes are stored, the live versions consist of {want}");
        }
    } else if let (Op::Insert(..), Out::Root(r)) = (&p.last, &p.out) {
        let m = result_map(&p.e, &p.last).unwrap();
        let mut with = before.clone();
        with.push(canon.id(&m));
        let (none, all) = (canon.distinct_nodes(&before), canon.distinct_nodes(&with));
        if now == all && now != none {
            reads_as(&t, rng, r, &m, &format!("after {what}, which is all there"), st)?;
            st.add("interrupted_inserts_complete", 1);
        } else if now == none {
            st.add("interrupted_inserts_without_trace", 1);
        } else {
            viol!("after {what}: {now} nodes are stored, {none} without and {all} with the insert");
        }
        let again = p.last.run(&mut t);
        if again.as_ref() != Ok(&p.out) {
            viol!("after {what}: the insert again gives {again:?} instead of {:?}", p.out);
        }
        alive.retain(|a| a.0 != *r);
        alive.push((*r, m));
        for (r, m) in &alive {
            reads_as(&t, rng, r, m, &format!("after {what} and the same insert again"), st)?;
        }
    }
    if rng.chance(1, 2) {
        carry_on(&mut t, rng, &p.e, alive, &format!("after {what}"), st)?;
    }
    Ok(())
}

/// C19: calls that make no sense, on a store of which nodes are missing, exchanged or undecodable.
pub fn c19<const N: usize>(seed: u64, _thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(1, 30);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), Spec::Mem, Mode::Immediate, size)?;
    let dir = Dir::new();
    e.depth = N * 8;
    e.w.rebuild = 0;
    e.w.max_live = 6;
    e.w.max_batch = 8;
    e.tree = Some(match Rk::<N>::open(&dir.0, N * 8) {
        Ok(t) => Box::new(t),
        Err(f) => viol!("opening a new store failed: {f}"),
    });
    let mut log: Vec<String> = vec![];
    let mut calls = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        for _ in 0..e.rng.range(1, 12) {
            e.step()?;
        }
        e.tree = None;
        let raw = match lib(|| RocksDB::<N>::open(&dir.0).map(RocksDB::decompose)) {
            Ok(d) => d,
            Err(f) => viol!("opening the store again failed: {f}"),
        };
        let mut stored: Vec<([u8; N], Vec<u8>)> = vec![];
        for (k, v) in raw.iterator(rocksdb::IteratorMode::Start) {
            if let Ok(k) = <[u8; N]>::try_from(&k[..]) {
                stored.push((k, v.to_vec()));
            }
        }
        let all: Vec<[u8; N]> = stored.iter().map(|s| s.0).collect();
        let damaged = e.rng.chance(3, 4) && !all.is_empty();
        if damaged {
            for _ in 0..e.rng.range(1, 4) {
                let (k, _) = e.rng.pick(&stored).clone();
                match e.rng.below(4) {
                    0 => {
                        raw.delete(k).expect("store");
                        log.push(format!("deleted {}", hex(&k)));
                    }
                    1 | 2 => {
                        let (from, v) = e.rng.pick(&stored).clone();
                        raw.put(k, v).expect("store");
                        log.push(format!("the node of {} at {}", hex(&from), hex(&k)));
                    }
                    _ => {
                        let n = e.rng.below(60);
                        let v = e.rng.bytes(n);
                        // (what happens to decode is a node with invented contents)
                        if matches!(lib(|| TreeNode::<N>::decode(&v)), Err(Fail::Err(_))) {
                            raw.put(k, v).expect("store");
                            log.push(format!("{n} undecodable bytes at {}", hex(&k)));
                        }
                    }
                }
            }
            st.add("damaged_storages", 1);
        }
        let depth = if damaged { e.rng.range(0, 300) } else { *e.rng.pick(&[0, 1, 7, 255, N * 8, usize::MAX - 1, usize::MAX]) };
        let mut bodies: HashMap<[u8; N], Body<N>> = HashMap::new();
        for (k, v) in raw.iterator(rocksdb::IteratorMode::Start) {
            if let (Ok(k), Ok(n)) = (<[u8; N]>::try_from(&k[..]), lib(|| TreeNode::<N>::decode(&v))) {
                bodies.insert(k, from_node(n).body);
            }
        }
        let circles = all.iter().any(|r| mon::props_d::in_circles(r, &|at| bodies.get(at).cloned()));
        let mut t: Box<dyn Tree<N>> = match lib(|| RocksTree::<N, Vec<u8>>::from_db(RocksDB::new(raw), depth)) {
            Ok(t) => Box::new(Rk::on(t)),
            Err(f) => viol!("building a tree on the store: {f}"),
        };
        let mut seen: Vec<[u8; N]> = vec![];
        for _ in 0..60 {
            let (what, result) = mon::props_d::nonsense(&mut *t, e, &all, &mut seen, &|_| !circles);
            calls += 1;
            log.push(what.clone());
            match result {
                Err(Fail::Panic(m)) => viol!("{what} (depth limit {depth}) panicked: {m}\n{}", log.join("\n")),
                Err(_) => st.add("calls_that_returned_an_error", 1),
                Ok(()) => st.add("calls_that_returned_a_result", 1),
            }
        }
        e.fp = mix(&[e.fp, u64::from(damaged), depth as u64]);
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    st.add("calls_with_arbitrary_arguments", calls);
    finish_case(&e, st, calls > 20);
    Ok(())
}

// ---- C14: closing and reopening ----------------------------------------------------------------

pub fn c14<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 30);
    let mut e = Eng::<N>::new(Rng::new(rng.u64()), Spec::Mem, Mode::Immediate, size)?;
    e.w.remove = 5;
    e.w.max_live = 6;
    let dir = Dir::new();
    let path = dir.0.clone();
    let mut n = hist_len(&mut e, thorough).min(60);
    // One handle for a long time
    let long = e.rng.chance(1, 20);
    if long {
        n = e.rng.range(110, 330);
        e.w.rebuild = 0;
    }
    let mut reopened = 0;
    let mut run = |e: &mut Eng<N>| -> V<()> {
        e.tree = None;
        e.tree = Some(match Rk::<N>::open(&path, e.depth) {
            Ok(t) => Box::new(t),
            Err(f) => viol!("opening a new store failed: {f}"),
        });
        e.trace.push("(a new store)".into());
        if let Ok(Some(_)) = e.t().get_one(&[3; N], &[3; N]) {
            viol!("a new store contains something");
        }
        for _ in 0..n {
            let d = e.step()?;
            if matches!(d, Done::None) {
                continue;
            }
            if long && e.rng.chance(60, 61) {
                st.add("operations_on_a_long_handle", 1);
                if let Done::Insert { root, .. } = &d {
                    let mut rng = Rng::new(e.rng.u64());
                    reads_as(e.t(), &mut rng, root, &e.live[root].map, &format!("after {d:?}, operation {} on one handle", e.ops), st)?;
                }
                continue;
            }
            let depth = *e.rng.pick(&[N * 8, N * 8 + 7, 1 << 40, usize::MAX]);
            let close = e.rng.chance(3, 4);
            // The files as a process that ended right now would leave them
            if e.rng.chance(1, 3) {
                if let Some(copy) = copied(&path) {
                    let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
                    let want = e.canon.distinct_nodes(&ids);
                    let now = stored_count::<N>(&copy.0)?;
                    if now != want {
                        viol!("after {d:?}, {now} nodes are stored in the files of the open store, the live versions consist of {want}");
                    }
                    if e.rng.chance(1, 2) {
                        let t = match Rk::<N>::open(&copy.0, depth) {
                            Ok(t) => t,
                            Err(f) => viol!("opening a copy of the open store failed: {f}"),
                        };
                        let mut rng = Rng::new(e.rng.u64());
                        for (r, l) in &e.live {
                            reads_as(&t, &mut rng, r, &l.map, &format!("after {d:?}, in a copy of the open store"), st)?;
                        }
                    }
                    st.add("open_stores_copied", 1);
                }
            }
            let how = if close { "closing and opening the store" } else { "taking the tree apart and rebuilding it" };
            if close {
                e.tree = None;
                if e.rng.chance(1, 2) {
                    let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
                    let want = e.canon.distinct_nodes(&ids);
                    let now = stored_count::<N>(&path)?;
                    if now != want {
                        viol!("after {d:?} and closing the store, {now} nodes are stored, the live versions consist of {want}");
                    }
                    st.add("storage_states_checked", 1);
                }
                e.tree = Some(match Rk::<N>::open(&path, depth) {
                    Ok(t) => Box::new(t),
                    Err(f) => viol!("opening the store again failed: {f}"),
                });
            } else {
                let before = e.depth;
                match e.tree.take().unwrap().rebuild(depth) {
                    Ok((t, old)) => {
                        if old != before {
                            viol!("the tree was built with depth {before} and reports {old}");
                        }
                        e.tree = Some(t);
                    }
                    Err(f) => viol!("{how} failed: {f}"),
                }
            }
            e.depth = depth;
            reopened += 1;
            e.trace.push(format!("({how}, depth {depth})"));
            let mut rng = Rng::new(e.rng.u64());
            for (r, l) in &e.live {
                reads_as(e.t(), &mut rng, r, &l.map, &format!("after {d:?} and {how}"), st)?;
            }
            if let Done::Remove { root, gone: true } = d {
                let map = &e.removed.last().unwrap().1;
                let k = map.keys().next().unwrap();
                let ids: Vec<u64> = e.live.values().map(|l| l.id).collect();
                let id = e.id_of[&root];
                let mut with = ids.clone();
                with.push(id);
                let part = e.canon.distinct_nodes(&ids) == e.canon.distinct_nodes(&with);
                if !part {
                    if let Ok(Some(_)) = e.t().get_one(&root, k) {
                        viol!("after removing {} and {how}, it can still be read", hex(&root));
                    }
                }
            }
        }
        // Another directory is another store
        let other = match Rk::<N>::fresh(N * 8) {
            Ok(t) => t,
            Err(f) => viol!("opening a new store failed: {f}"),
        };
        for (r, l) in &e.live {
            if let Ok(Some(_)) = other.get_one(r, l.map.keys().next().unwrap()) {
                viol!("a new store contains root {}", hex(r));
            }
        }
        // A place where no store can be
        let file = scratch().join("a-file");
        std::fs::write(&file, b"x").expect("scratch");
        match Rk::<N>::open(&file, 8) {
            Ok(_) => viol!("a store was opened in a file"),
            Err(Fail::Panic(m)) => viol!("opening a store in a file panicked: {m}"),
            Err(Fail::Err(_)) => {}
        }
        Ok(())
    };
    let r = run(&mut e);
    with_trace(&e, r)?;
    drop(e.tree.take());
    drop(dir);
    st.add("trees_reopened", reopened);
    finish_case(&e, st, reopened > 2);
    Ok(())
}

// ---- C15 ----------------------------------------------------------------------------------------

pub fn c15<const N: usize>(seed: u64, thorough: bool, st: &mut Stats, dump: bool) -> V<()> {
    mon::props_d::c15_with::<N>(seed, thorough, st, "the RocksDB tree", dump, |depth| {
        let mut rng = Rng::new(1);
        let _ = rng.u64();
        match Rk::<N>::fresh(depth) {
            Ok(t) => Ok(Box::new(t)),
            Err(f) => viol!("opening a new store failed: {f}"),
        }
    })
}

// ---- C20 ----------------------------------------------------------------------------------------

/// A RocksDB tree goes from thread to thread (it holds a batch of writes, which cannot be shared).
pub fn c20<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let (send, _) = is_send_sync!(RocksTree<32, Vec<u8>>);
    if !send {
        viol!("a RocksTree cannot be sent to another thread");
    }
    st.add("types_probed", 1);
    let mut e = eng::<N>(seed)?;
    let n = hist_len(&mut e, thorough);
    let e = std::sync::Mutex::new(Force((e, Stats::default())));
    let failed = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for i in 0..4 {
            let (e, failed) = (&e, &failed);
            s.spawn(move || {
                for _ in 0..n {
                    let mut g = e.lock().unwrap_or_else(|x| x.into_inner());
                    let (e, st) = &mut g.0;
                    let r = e.step().and_then(|_| match e.random_live() {
                        Some(r) => e.check_root(&r, st, false),
                        None => Ok(()),
                    });
                    if let Err(v) = r {
                        *failed.lock().unwrap() = Some(format!("thread {i}: {}", v.0));
                        return;
                    }
                    drop(g);
                    std::thread::yield_now();
                }
            });
        }
    });
    if let Some(m) = failed.into_inner().unwrap() {
        viol!("{m}");
    }
    let (e, seen) = e.into_inner().unwrap_or_else(|x| x.into_inner()).0;
    for (k, v) in seen.n {
        st.add(k, v);
    }
    st.add("trees_passed_between_threads", 1);
    finish_case(&e, st, true);
    Ok(())
}

/// The reference holds things that cannot be sent; one thread has it at a time.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}

// ---- C26: the storage by itself -----------------------------------------------------------------

fn some_node<const N: usize>(rng: &mut Rng) -> Stored<N> {
    let mut h = || {
        let mut k = gen::base::<N>(rng);
        if rng.chance(1, 3) {
            rng.fill(&mut k);
        }
        k
    };
    let (a, b, c) = (h(), h(), h());
    let num = |rng: &mut Rng| *rng.pick(&[0, 1, 2, 127, 128, 250, 251, 65_535, 65_536, u64::from(u32::MAX), 1 << 32, u64::MAX]);
    let body = match rng.below(3) {
        0 => Body::Branch { count: num(rng), zero: a, one: b, split: rng.below(N * 8), key: c },
        1 => Body::Leaf { key: a, data: b },
        _ => {
            let n = match rng.below(60) {
                0 => rng.range(1000, 70_000),
                1 => 0,
                _ => rng.below(90),
            };
            Body::Data(rng.bytes(n))
        }
    };
    Stored { refs: num(rng), body }
}

type Shelf<const N: usize> = BTreeMap<[u8; N], Stored<N>>;

/// A store and what is known of it: what it held when it was last committed, and what it will
/// hold after the next commit.  In between either may be seen.
struct Shop<const N: usize> {
    db: Option<RocksDB<N>>,
    dir: Dir,
    before: Shelf<N>,
    after: Shelf<N>,
    /// Locations written since the last commit.
    waiting: BTreeSet<[u8; N]>,
}

impl<const N: usize> Shop<N> {
    fn db(&mut self) -> &mut RocksDB<N> {
        self.db.as_mut().unwrap()
    }

    fn look(&mut self, k: &[u8; N], when: &str, st: &mut Stats) -> V<Option<Stored<N>>> {
        let got = match lib(|| self.db().get_node((*k).into())) {
            Ok(n) => n.map(from_node),
            Err(f) => viol!("{when}, get_node of {} failed: {f}", hex(k)),
        };
        let (b, a) = (self.before.get(k), self.after.get(k));
        if got.as_ref() != b && got.as_ref() != a {
            viol!("{when}, location {} holds {got:?}, expected {a:?}", hex(k));
        }
        st.add("stored_nodes_read", 1);
        Ok(got)
    }

    /// Nothing is waiting any more, in whatever way the waiting writes came out.
    fn settle(&mut self, when: &str, st: &mut Stats) -> V<()> {
        let keys: Vec<[u8; N]> = self.before.keys().chain(self.after.keys()).copied().collect();
        for k in keys {
            match self.look(&k, when, st)? {
                Some(s) => self.after.insert(k, s),
                None => self.after.remove(&k),
            };
        }
        self.before = self.after.clone();
        self.waiting.clear();
        Ok(())
    }

    fn settled(&self) -> bool {
        self.waiting.is_empty() && self.before == self.after
    }

    /// Everything is there, and nothing else.
    fn audit(&mut self, when: &str, st: &mut Stats) -> V<()> {
        let db = self.db.take().unwrap();
        let inner = match lib(|| Ok(db.decompose())) {
            Ok(d) => d,
            Err(f) => viol!("taking the store apart: {f}"),
        };
        let mut seen = 0;
        for (k, v) in inner.iterator(rocksdb::IteratorMode::Start) {
            let Ok(k) = <[u8; N]>::try_from(&k[..]) else { viol!("{when}, the store has a location of {} bytes", k.len()) };
            let node = lib(|| TreeNode::<N>::decode(&v)).map(from_node);
            if node.as_ref().ok() != self.after.get(&k) {
                viol!("{when}, the store holds {node:?} at {}, expected {:?}", hex(&k), self.after.get(&k));
            }
            seen += 1;
        }
        if seen != self.after.len() {
            viol!("{when}, the store holds {seen} nodes instead of {}", self.after.len());
        }
        self.db = Some(match lib(|| Ok(RocksDB::new(inner))) {
            Ok(d) => d,
            Err(f) => viol!("building the store again: {f}"),
        });
        st.add("stores_audited", 1);
        Ok(())
    }
}

pub fn c26<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let open = |dir: &Dir| -> V<RocksDB<N>> {
        match lib(|| RocksDB::<N>::open(&dir.0)) {
            Ok(d) => Ok(d),
            Err(f) => viol!("opening a store: {f}"),
        }
    };
    let mut shops = vec![];
    for _ in 0..rng.range(1, 2) {
        let dir = Dir::new();
        shops.push(Shop::<N> { db: Some(open(&dir)?), dir, before: Shelf::new(), after: Shelf::new(), waiting: BTreeSet::new() });
    }
    let size = rng.range(1, 40);
    let mut keys = gen::mixed::<N>(&mut rng, size);
    let mut trace: Vec<String> = vec![];
    let mut fp = mix(&[N as u64, 26]);
    let mut commits = 0;
    let steps = rng.range(5, if thorough { 160 } else { 80 });
    let mut run = |rng: &mut Rng, st: &mut Stats, trace: &mut Vec<String>| -> V<()> {
        for _ in 0..steps {
            let i = rng.below(shops.len());
            let k = *rng.pick(&keys);
            let what = rng.below(20);
            fp = mix(&[fp, what as u64, i as u64, k[0].into(), k[N - 1].into()]);
            let s = &mut shops[i];
            match what {
                0..=7 => {
                    let n = if what == 0 { rng.range(1, 30) } else { 1 };
                    for _ in 0..n {
                        let k = *rng.pick(&keys);
                        let mut node = some_node::<N>(rng);
                        if rng.chance(1, 3) {
                            if let Some(old) = s.after.get(&k) {
                                node = Stored { refs: rng.u64() % 9, body: old.body.clone() };
                            }
                        }
                        trace.push(format!("{i}: insert {} {node:?}", hex(&k)));
                        if let Err(f) = lib(|| s.db().insert(k.into(), to_node(&node))) {
                            viol!("storing a node: {f}");
                        }
                        s.after.insert(k, node);
                        s.waiting.insert(k);
                        st.add("nodes_stored", 1);
                    }
                }
                8 => {
                    // Very many at once
                    if !rng.chance(1, 12) {
                        continue;
                    }
                    let n = rng.range(1000, 6000);
                    let more = gen::pool::<N>(rng, 0, n);
                    trace.push(format!("{i}: insert {n} nodes"));
                    for k in &more {
                        let node = some_node::<N>(rng);
                        if let Err(f) = lib(|| s.db().insert((*k).into(), to_node(&node))) {
                            viol!("storing a node: {f}");
                        }
                        s.after.insert(*k, node);
                        s.waiting.insert(*k);
                    }
                    keys.extend_from_slice(&more[..20]);
                    st.max("most_nodes_in_one_commit", n as u64);
                }
                9 | 10 => {
                    // (what becomes of a location that is written and removed before a commit is left open)
                    if s.waiting.contains(&k) {
                        continue;
                    }
                    trace.push(format!("{i}: remove {}", hex(&k)));
                    if let Err(f) = lib(|| s.db().remove(&k.into())) {
                        viol!("removing a node: {f}");
                    }
                    s.after.remove(&k);
                    // A removal may wait for the commit or not
                    if s.look(&k, "after a removal", st)?.is_none() {
                        s.before.remove(&k);
                    } else {
                        s.waiting.insert(k);
                    }
                }
                11..=13 => {
                    trace.push(format!("{i}: commit"));
                    for _ in 0..if what == 13 { 2 } else { 1 } {
                        if let Err(f) = lib(|| s.db().batch_write()) {
                            viol!("committing: {f}");
                        }
                    }
                    s.before = s.after.clone();
                    s.waiting.clear();
                    commits += 1;
                    if rng.chance(1, 2) {
                        s.settle("after a commit", st)?;
                    }
                }
                14 => {
                    trace.push(format!("{i}: close and open"));
                    let sure = s.settled();
                    s.db = None;
                    s.db = Some(open(&s.dir)?);
                    s.settle(if sure { "after closing and opening" } else { "after closing with writes waiting and opening" }, st)?;
                    st.add("stores_reopened", 1);
                }
                15 => {
                    let sure = s.settled();
                    if sure {
                        trace.push(format!("{i}: audit"));
                        s.audit("taken apart", st)?;
                    }
                }
                16 => {
                    // A store that is open cannot be opened once more
                    trace.push(format!("{i}: open twice"));
                    match lib(|| RocksDB::<N>::open(&s.dir.0)) {
                        Err(Fail::Err(_)) => {}
                        Err(Fail::Panic(m)) => viol!("opening a store twice panicked: {m}"),
                        Ok(_) => viol!("a store was opened twice"),
                    }
                }
                17 => {
                    if !s.settled() || !rng.chance(1, 4) {
                        continue;
                    }
                    // A store that cannot be opened
                    s.db = None;
                    let (copy, what, (at, good)) = ruined(&s.dir.0, rng);
                    trace.push(format!("{i}: open {what}"));
                    match lib(|| RocksDB::<N>::open(&copy.0)).map(|_| ()) {
                        Err(Fail::Err(_)) => {}
                        got => viol!("opening {what} gives {got:?}"),
                    }
                    st.add("stores_that_cannot_be_opened", 1);
                    if at == copy.0 {
                        if std::fs::read(&at).ok() != Some(good) {
                            viol!("opening {what} changed the file");
                        }
                        let _ = std::fs::remove_file(&at);
                        s.db = Some(open(&s.dir)?);
                    } else {
                        // The copy, put right again, serves in place of the store
                        std::fs::write(&at, good).expect("file of a store");
                        s.dir = copy;
                        s.db = Some(open(&s.dir)?);
                    }
                    s.settle("after an opening that failed", st)?;
                }
                _ => {
                    let k = if rng.chance(1, 4) { gen::near(rng, &k) } else { k };
                    s.look(&k, "in between", st)?;
                }
            }
        }
        for s in &mut shops {
            if let Err(f) = lib(|| s.db().batch_write()) {
                viol!("committing: {f}");
            }
            s.before = s.after.clone();
            s.waiting.clear();
            s.settle("at the end", st)?;
            s.db = None;
            s.db = Some(open(&s.dir)?);
            s.settle("at the end, after closing and opening", st)?;
            s.audit("at the end", st)?;
        }
        Ok(())
    };
    if let Err(v) = run(&mut rng, st, &mut trace) {
        let from = trace.len().saturating_sub(30);
        viol!("N={N}, {}\nafter:\n{}", v.0, trace[from..].join("\n"));
    }
    st.add("commits", commits);
    st.evaluations += 1;
    if commits > 0 {
        st.cases.insert(fp);
    }
    if st.samples.len() < 3 {
        st.samples.push(format!("N={N}, {} stores, {steps} steps, {commits} commits", shops.len()));
    }
    Ok(())
}
