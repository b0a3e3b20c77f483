//! C20: concurrent readers.

use crate::db::{shared, Core, Mode, SimDb};
use crate::engine::{hex, Stats, V};
use crate::gen;
use crate::intern;
use crate::rng::{mix, Rng};
use crate::viol;
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use std::time::{Duration, Instant};

/// Asks at run time what the compiler knows: whether a type can be sent and shared.
/// Method resolution prefers inherent methods, which exist only under the bound.
#[macro_export]
macro_rules! is_send_sync {
    ($t:ty) => {{
        struct P<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn is_send(&self) -> bool {
                false
            }
            fn is_sync(&self) -> bool {
                false
            }
        }
        impl<T> No for P<T> {}
        #[allow(dead_code)]
        impl<T: Send> P<T> {
            fn is_send(&self) -> bool {
                true
            }
        }
        struct Q<T>(std::marker::PhantomData<T>);
        impl<T> No for Q<T> {}
        #[allow(dead_code)]
        impl<T: Sync> Q<T> {
            fn is_sync(&self) -> bool {
                true
            }
        }
        (
            P::<$t>(std::marker::PhantomData).is_send(),
            Q::<$t>(std::marker::PhantomData).is_sync(),
        )
    }};
}

/// So that the harness compiles even when the tree cannot be shared; never used then.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

/// The generic tree over a storage of our own, with the library's hasher.
struct Sim<const N: usize>;
impl<const N: usize> MerkleTree<N> for Sim<N> {
    type Database = SimDb<N, TreeNode<N>>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}

/// What a thread may do with a shared tree.
pub trait Api<const N: usize>: Sized + 'static {
    fn make(seed: u64) -> Option<Self>;
    fn get(&self, r: &[u8; N], k: &[[u8; N]]) -> Result<BTreeMap<[u8; N], Option<Vec<u8>>>, String>;
    fn one(&self, r: &[u8; N], k: &[u8; N]) -> Result<Option<Vec<u8>>, String>;
    fn prove(&self, r: &[u8; N], k: &[u8; N]) -> Result<Vec<(Array<N>, bool)>, String>;
    fn verify(r: &[u8; N], k: &[u8; N], v: &[u8], p: &[(Array<N>, bool)]) -> Result<(), String>;
    fn insert(&mut self, prev: Option<&[u8; N]>, k: &[[u8; N]], v: &[Vec<u8>]) -> Result<[u8; N], String>;
    fn remove(&mut self, r: &[u8; N]) -> Result<(), String>;
}

macro_rules! api {
    ($t:ty, $make:expr) => {
        impl<const N: usize> Api<N> for $t {
            fn make(seed: u64) -> Option<Self> {
                #[allow(clippy::redundant_closure_call)]
                ($make)(seed)
            }
            fn get(&self, r: &[u8; N], k: &[[u8; N]]) -> Result<BTreeMap<[u8; N], Option<Vec<u8>>>, String> {
                let mut k = crate::tree::arrays(k);
                match <$t>::get(self, &(*r).into(), &mut k) {
                    Ok(m) => Ok(m.into_iter().map(|(k, v)| (k.into(), v)).collect()),
                    Err(e) => Err(e.to_string()),
                }
            }
            fn one(&self, r: &[u8; N], k: &[u8; N]) -> Result<Option<Vec<u8>>, String> {
                self.get_one(&(*r).into(), &(*k).into()).map_err(|e| e.to_string())
            }
            fn prove(&self, r: &[u8; N], k: &[u8; N]) -> Result<Vec<(Array<N>, bool)>, String> {
                self.generate_inclusion_proof(&(*r).into(), (*k).into()).map_err(|e| e.to_string())
            }
            fn verify(r: &[u8; N], k: &[u8; N], v: &[u8], p: &[(Array<N>, bool)]) -> Result<(), String> {
                <$t>::verify_inclusion_proof(&(*r).into(), (*k).into(), &v.to_vec(), p).map_err(|e| e.to_string())
            }
            fn insert(&mut self, prev: Option<&[u8; N]>, k: &[[u8; N]], v: &[Vec<u8>]) -> Result<[u8; N], String> {
                let mut k = crate::tree::arrays(k);
                let p = prev.map(|p| Array::<N>::from(*p));
                <$t>::insert(self, p.as_ref(), &mut k, &v.to_vec()).map(Into::into).map_err(|e| e.to_string())
            }
            fn remove(&mut self, r: &[u8; N]) -> Result<(), String> {
                <$t>::remove(self, &(*r).into()).map_err(|e| e.to_string())
            }
        }
    };
}

api!(HashTree<N>, |_| HashTree::<N>::new(N * 8).ok());

/// `verify_inclusion_proof` of the generic tree takes its arguments by reference.
struct SimTree<const N: usize>(MerkleBIT<Sim<N>, N>);
impl<const N: usize> Api<N> for SimTree<N> {
    fn make(seed: u64) -> Option<Self> {
        let mut core = Core::new(if seed % 2 == 0 { Mode::Queued } else { Mode::Immediate });
        core.jitter = true;
        MerkleBIT::from_db(SimDb::new(shared(core)), N * 8).ok().map(SimTree)
    }
    fn get(&self, r: &[u8; N], k: &[[u8; N]]) -> Result<BTreeMap<[u8; N], Option<Vec<u8>>>, String> {
        let mut k = crate::tree::arrays(k);
        match self.0.get(&(*r).into(), &mut k) {
            Ok(m) => Ok(m.into_iter().map(|(k, v)| (k.into(), v)).collect()),
            Err(e) => Err(e.to_string()),
        }
    }
    fn one(&self, r: &[u8; N], k: &[u8; N]) -> Result<Option<Vec<u8>>, String> {
        self.0.get_one(&(*r).into(), &(*k).into()).map_err(|e| e.to_string())
    }
    fn prove(&self, r: &[u8; N], k: &[u8; N]) -> Result<Vec<(Array<N>, bool)>, String> {
        self.0.generate_inclusion_proof(&(*r).into(), (*k).into()).map_err(|e| e.to_string())
    }
    fn verify(r: &[u8; N], k: &[u8; N], v: &[u8], p: &[(Array<N>, bool)]) -> Result<(), String> {
        MerkleBIT::<Sim<N>, N>::verify_inclusion_proof(&(*r).into(), (*k).into(), &v.to_vec(), p).map_err(|e| e.to_string())
    }
    fn insert(&mut self, prev: Option<&[u8; N]>, k: &[[u8; N]], v: &[Vec<u8>]) -> Result<[u8; N], String> {
        let mut k = crate::tree::arrays(k);
        let p = prev.map(|p| Array::<N>::from(*p));
        self.0.insert(p.as_ref(), &mut k, v).map(Into::into).map_err(|e| e.to_string())
    }
    fn remove(&mut self, r: &[u8; N]) -> Result<(), String> {
        self.0.remove(&(*r).into()).map_err(|e| e.to_string())
    }
}

type Version<const N: usize> = ([u8; N], Arc<BTreeMap<[u8; N], Vec<u8>>>);

/// One read under `root`, compared with the map.
fn read_once<const N: usize, T: Api<N>>(t: &T, rng: &mut Rng, v: &Version<N>, pool: &[[u8; N]], seen: &mut u64) -> Result<(), String> {
    let (root, map) = v;
    let pick = |rng: &mut Rng| -> [u8; N] {
        let k = *rng.pick(pool);
        if rng.chance(1, 6) {
            gen::near(rng, &k)
        } else {
            k
        }
    };
    match rng.below(4) {
        0 => {
            let keys: Vec<[u8; N]> = (0..rng.range(1, 8)).map(|_| pick(rng)).collect();
            let want: BTreeMap<[u8; N], Option<Vec<u8>>> = keys.iter().map(|k| (*k, map.get(k).cloned())).collect();
            let got = t.get(root, &keys);
            *seen += keys.len() as u64;
            if got.as_ref() != Ok(&want) {
                return Err(format!("batch read of {} keys under {} gives {got:?} instead of {want:?}", keys.len(), hex(root)));
            }
        }
        1 | 2 => {
            let k = pick(rng);
            let got = t.one(root, &k);
            *seen += 1;
            if got != Ok(map.get(&k).cloned()) {
                return Err(format!("reading {} under {} gives {got:?} instead of {:?}", hex(&k), hex(root), map.get(&k)));
            }
        }
        _ => {
            let k = pick(rng);
            let p = t.prove(root, &k);
            *seen += 1;
            match (map.get(&k), p) {
                (Some(v), Ok(p)) => {
                    if let Err(e) = T::verify(root, &k, v, &p) {
                        return Err(format!("the proof of {} under {} is not accepted: {e}", hex(&k), hex(root)));
                    }
                    let mut other = v.clone();
                    other.push(1);
                    if T::verify(root, &k, &other, &p).is_ok() {
                        return Err(format!("a proof of {} under {} is accepted for another value", hex(&k), hex(root)));
                    }
                }
                (None, Err(_)) => {}
                (want, got) => return Err(format!("proving {} under {}: present {}, result {got:?}", hex(&k), hex(root), want.is_some())),
            }
        }
    }
    Ok(())
}

fn next_version<const N: usize, T: Api<N>>(t: &mut T, rng: &mut Rng, versions: &[Version<N>], pool: &[[u8; N]], tag: u64) -> Result<Version<N>, String> {
    let (prev, mut map) = if versions.is_empty() || rng.chance(1, 8) {
        (None, BTreeMap::new())
    } else {
        let v = rng.pick(versions);
        (Some(v.0), (*v.1).clone())
    };
    let (mut keys, mut vals) = (vec![], vec![]);
    for _ in 0..rng.range(1, 8) {
        let k = *rng.pick(pool);
        if !keys.contains(&k) {
            let v = format!("{tag}-{}", rng.u64()).into_bytes();
            keys.push(k);
            vals.push(v.clone());
            map.insert(k, v);
        }
    }
    let r = t.insert(prev.as_ref(), &keys, &vals)?;
    Ok((r, Arc::new(map)))
}

struct Watch {
    steps: AtomicU64,
    reads: AtomicU64,
    stop: AtomicBool,
    failed: Mutex<Option<String>>,
    switches: AtomicU64,
    last: AtomicU64,
}

impl Watch {
    fn new() -> Arc<Self> {
        Arc::new(Self {
            steps: AtomicU64::new(0),
            reads: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            failed: Mutex::new(None),
            switches: AtomicU64::new(0),
            last: AtomicU64::new(0),
        })
    }
    fn fail(&self, m: String) {
        let mut f = self.failed.lock().unwrap_or_else(|e| e.into_inner());
        if f.is_none() {
            *f = Some(m);
        }
        self.stop.store(true, Ordering::SeqCst);
    }
    fn step(&self, me: u64) {
        self.steps.fetch_add(1, Ordering::Relaxed);
        // How often another thread was served in between
        if self.last.swap(me, Ordering::Relaxed) != me {
            self.switches.fetch_add(1, Ordering::Relaxed);
        }
    }
}

/// Waits for the threads; a minute of wall time without a single step anywhere is a deadlock.
fn wait(w: &Watch, handles: Vec<std::thread::JoinHandle<()>>, what: &str) -> V<()> {
    let mut last = u64::MAX;
    let mut idle = 0;
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(10));
        let now = w.steps.load(Ordering::Relaxed);
        if now == last {
            idle += 1;
        } else {
            idle = 0;
            last = now;
        }
        if idle > 9000 {
            viol!("{what}: no thread has finished a single call for 90 seconds");
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let f = w.failed.lock().unwrap_or_else(|e| e.into_inner()).take();
    match f {
        Some(m) => viol!("{what}: {m}"),
        None => Ok(()),
    }
}

fn guarded(w: &Watch, f: impl FnOnce()) {
    crate::tree::IN_LIB.with(|c| c.set(true));
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        w.fail("a thread panicked".into());
    }
}

pub fn readers<const N: usize, T: Api<N>>(seed: u64, st: &mut Stats, name: &str, thorough: bool) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(4, 60);
    let pool = gen::mixed::<N>(&mut rng, size);
    let Some(mut t) = T::make(seed) else { viol!("cannot build {name}") };
    let mut versions: Vec<Version<N>> = vec![];
    for i in 0..rng.range(2, 8) {
        match next_version(&mut t, &mut rng, &versions, &pool, i as u64) {
            Ok(v) => versions.push(v),
            Err(e) => viol!("{name}: a valid insert failed: {e}"),
        }
    }
    let shared_tree = Arc::new(Force(t));
    let w = Watch::new();
    let n = rng.range(2, 8);
    let per = if thorough { 3000 } else { 600 };
    let gate = Arc::new(Barrier::new(n));
    let versions = Arc::new(versions);
    let pool = Arc::new(pool);
    // All threads at one version, or each anywhere
    let one_version = rng.chance(1, 2);
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let (t, w, gate, versions, pool) = (shared_tree.clone(), w.clone(), gate.clone(), versions.clone(), pool.clone());
            let mut rng = Rng::new(mix(&[seed, i as u64, 99]));
            std::thread::spawn(move || {
                let t = &t;
                gate.wait();
                guarded(&w, || {
                    let mut seen = 0;
                    for _ in 0..per {
                        if w.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let v = if one_version { versions[0].clone() } else { rng.pick(&versions).clone() };
                        if let Err(m) = read_once(&t.0, &mut rng, &v, &pool, &mut seen) {
                            w.fail(format!("thread {i} of {n}: {m}"));
                        }
                        w.step(i as u64);
                        if rng.chance(1, 16) {
                            std::thread::yield_now();
                        }
                    }
                    w.reads.fetch_add(seen, Ordering::Relaxed);
                });
            })
        })
        .collect();
    wait(&w, handles, &format!("{n} readers of {name}"))?;
    st.add("concurrent_reads_compared", w.reads.load(Ordering::Relaxed));
    st.add("thread_switches_seen", w.switches.load(Ordering::Relaxed));
    st.max("most_threads", n as u64);
    st.cases.insert(mix(&[seed, w.switches.load(Ordering::Relaxed)]));
    Ok(())
}

pub fn locked<const N: usize, T: Api<N>>(seed: u64, st: &mut Stats, name: &str, thorough: bool) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(4, 50);
    let pool = Arc::new(gen::mixed::<N>(&mut rng, size));
    let Some(mut t) = T::make(seed) else { viol!("cannot build {name}") };
    let mut first: Vec<Version<N>> = vec![];
    match next_version(&mut t, &mut rng, &first, &pool, 0) {
        Ok(v) => first.push(v),
        Err(e) => viol!("{name}: a valid insert failed: {e}"),
    }
    // The roots known, together with the tree, under one lock
    let state = Arc::new(RwLock::new((Force(t), first)));
    let w = Watch::new();
    let n = rng.range(3, 7);
    let writers = rng.range(1, 2);
    let per = if thorough { 1500 } else { 300 };
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let (state, w, pool) = (state.clone(), w.clone(), pool.clone());
            let mut rng = Rng::new(mix(&[seed, i as u64, 98]));
            std::thread::spawn(move || {
                let state = &state;
                guarded(&w, || {
                    let mut seen = 0;
                    for step in 0..per {
                        if w.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if i < writers {
                            let mut s = state.write().unwrap_or_else(|e| e.into_inner());
                            let (t, versions) = &mut *s;
                            if versions.len() > 6 || (versions.len() > 1 && rng.chance(1, 3)) {
                                let at = rng.below(versions.len());
                                let (r, _) = versions.swap_remove(at);
                                if let Err(e) = t.0.remove(&r) {
                                    w.fail(format!("removing a version failed: {e}"));
                                }
                            } else {
                                match next_version(&mut t.0, &mut rng, versions, &pool, step as u64) {
                                    Ok(v) => versions.push(v),
                                    Err(e) => w.fail(format!("a valid insert failed: {e}")),
                                }
                            }
                        } else {
                            let s = state.read().unwrap_or_else(|e| e.into_inner());
                            for _ in 0..3 {
                                let v = rng.pick(&s.1).clone();
                                if let Err(m) = read_once(&s.0 .0, &mut rng, &v, &pool, &mut seen) {
                                    w.fail(format!("reader {i} of {n}: {m}"));
                                }
                            }
                        }
                        w.step(i as u64);
                        if rng.chance(1, 4) {
                            std::thread::yield_now();
                        }
                    }
                    w.reads.fetch_add(seen, Ordering::Relaxed);
                });
            })
        })
        .collect();
    wait(&w, handles, &format!("{n} threads sharing {name} under a lock"))?;
    st.add("reads_between_writes_compared", w.reads.load(Ordering::Relaxed));
    st.add("thread_switches_seen", w.switches.load(Ordering::Relaxed));
    st.cases.insert(mix(&[seed, w.switches.load(Ordering::Relaxed)]));
    Ok(())
}

/// Several trees in several threads, which must not know of each other.
pub fn separate<const N: usize, T: Api<N>>(seed: u64, st: &mut Stats, name: &str, thorough: bool) -> V<()> {
    let w = Watch::new();
    let n = 6;
    let per = if thorough { 400 } else { 80 };
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let w = w.clone();
            // The same keys, other values
            let mut krng = Rng::new(seed);
            let mut rng = Rng::new(mix(&[seed, i as u64, 97]));
            let name = name.to_string();
            std::thread::spawn(move || {
                guarded(&w, || {
                    let size = krng.range(4, 30);
                    let pool = gen::mixed::<N>(&mut krng, size);
                    let Some(mut t) = T::make(seed) else { return w.fail(format!("cannot build {name}")) };
                    let mut versions: Vec<Version<N>> = vec![];
                    let mut seen = 0;
                    for step in 0..per {
                        if w.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if versions.len() > 4 {
                            let at = rng.below(versions.len());
                            let (r, _) = versions.swap_remove(at);
                            if let Err(e) = t.remove(&r) {
                                w.fail(format!("removing a version failed: {e}"));
                            }
                        }
                        match next_version(&mut t, &mut rng, &versions, &pool, step) {
                            Ok(v) => versions.push(v),
                            Err(e) => w.fail(format!("tree {i}: a valid insert failed: {e}")),
                        }
                        for _ in 0..4 {
                            let v = rng.pick(&versions).clone();
                            if let Err(m) = read_once(&t, &mut rng, &v, &pool, &mut seen) {
                                w.fail(format!("tree {i}: {m}"));
                            }
                        }
                        w.step(i as u64);
                    }
                    w.reads.fetch_add(seen, Ordering::Relaxed);
                });
            })
        })
        .collect();
    wait(&w, handles, &format!("{n} separate trees ({name})"))?;
    st.add("reads_of_separate_trees_compared", w.reads.load(Ordering::Relaxed));
    st.cases.insert(mix(&[seed, 4]));
    Ok(())
}

type Job<T> = Box<dyn FnOnce(&mut T) + Send>;

/// One tree behind a lock, used by several threads by turns: whatever a thread has seen earlier, it
/// has to notice what the others did since.
pub fn relay<const N: usize, T: Api<N>>(seed: u64, st: &mut Stats, name: &str, thorough: bool) -> V<()> {
    let mut rng = Rng::new(seed);
    let size = rng.range(1, 24);
    let pool = Arc::new(gen::mixed::<N>(&mut rng, size));
    let Some(t) = T::make(seed) else { viol!("cannot build {name}") };
    let tree = Arc::new(Mutex::new(Force(t)));
    let n = rng.range(2, 4);
    let mut crew = vec![];
    let mut handles = vec![];
    for _ in 0..n {
        let (tx, rx) = std::sync::mpsc::channel::<Job<T>>();
        let tree = tree.clone();
        crew.push(tx);
        handles.push(std::thread::spawn(move || {
            crate::tree::IN_LIB.with(|c| c.set(true));
            while let Ok(job) = rx.recv() {
                let tree = &tree;
                let mut t = tree.lock().unwrap_or_else(|e| e.into_inner());
                let _ = catch_unwind(AssertUnwindSafe(|| job(&mut t.0)));
            }
        }));
    }
    // Runs something in one of the threads, and waits for it
    fn at<T: 'static, R: Send + 'static>(tx: &std::sync::mpsc::Sender<Job<T>>, f: impl FnOnce(&mut T) -> R + Send + 'static) -> Result<R, String> {
        let (back, answer) = std::sync::mpsc::channel();
        tx.send(Box::new(move |t: &mut T| {
            let _ = back.send(f(t));
        }))
        .map_err(|_| "a thread is gone".to_string())?;
        answer.recv().map_err(|_| "a call panicked".to_string())
    }
    // Every handle is listed, so that a root may be there several times
    let mut versions: Vec<Version<N>> = vec![];
    let mut seen = 0;
    let mut fp = mix(&[seed, 5]);
    let mut last = n;
    let mut run = || -> Result<(), String> {
        for step in 0..if thorough { 300 } else { 60 } {
            let i = rng.below(n);
            st.add("handovers_between_threads", u64::from(i != last));
            last = i;
            let what = rng.below(10);
            fp = mix(&[fp, i as u64, what as u64]);
            let told = |m: String| format!("step {step}, thread {i} of {n}: {m}");
            if what < 4 || versions.is_empty() {
                let (prev, mut map) = if versions.is_empty() || rng.chance(1, 3) {
                    (None, BTreeMap::new())
                } else {
                    let v = rng.pick(&versions);
                    (Some(v.0), (*v.1).clone())
                };
                // Few keys and few values, so that the same contents come again
                let mut more = BTreeMap::new();
                if rng.chance(1, 4) && !versions.is_empty() {
                    more = (*rng.pick(&versions).1).clone();
                } else {
                    for _ in 0..rng.range(1, 3) {
                        more.insert(*rng.pick(&pool), vec![rng.below(2) as u8]);
                    }
                }
                map.extend(more.clone());
                let r = at(&crew[i], move |t: &mut T| {
                    let keys: Vec<[u8; N]> = more.keys().copied().collect();
                    let values: Vec<Vec<u8>> = more.values().cloned().collect();
                    t.insert(prev.as_ref(), &keys, &values)
                });
                match r {
                    Ok(Ok(r)) => versions.push((r, Arc::new(map))),
                    Ok(Err(e)) | Err(e) => return Err(told(format!("a valid insert failed: {e}"))),
                }
            } else if what < 6 && versions.len() > 1 {
                let v = rng.below(versions.len());
                let (r, map) = versions.swap_remove(v);
                match at(&crew[i], move |t: &mut T| t.remove(&r)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => return Err(told(format!("removing a version failed: {e}"))),
                }
                if versions.iter().all(|v| v.0 != r) {
                    // Whatever is left of it, all threads find the same
                    let Some(k) = map.keys().next().copied() else { continue };
                    let mut first = None;
                    for tx in &crew {
                        let got = at(tx, move |t: &mut T| (t.one(&r, &k).ok(), t.get(&r, &[k]).ok()))?;
                        if *first.get_or_insert(got.clone()) != got {
                            return Err(told(format!("after removing {} the threads read {got:?} and {:?}", hex(&r), first.unwrap())));
                        }
                        seen += 2;
                    }
                }
            } else {
                let v = rng.pick(&versions).clone();
                let pool = pool.clone();
                let mut rng = Rng::new(rng.u64());
                let r = at(&crew[i], move |t: &mut T| {
                    let mut seen = 0;
                    let r = (0..3).try_for_each(|_| read_once(t, &mut rng, &v, &pool, &mut seen));
                    r.map(|()| seen)
                });
                match r {
                    Ok(Ok(s)) => seen += s,
                    Ok(Err(e)) | Err(e) => return Err(told(e)),
                }
            }
            // Now and then everything is read in one of the threads
            if rng.chance(1, 6) {
                let i = rng.below(n);
                for (r, map) in versions.clone() {
                    let got = at(&crew[i], move |t: &mut T| {
                        let keys: Vec<[u8; N]> = map.keys().copied().collect();
                        let want: BTreeMap<_, _> = map.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
                        let got = t.get(&r, &keys);
                        (got.as_ref() == Ok(&want), format!("{got:?} instead of {want:?}"), keys.len() as u64)
                    })?;
                    seen += got.2;
                    if !got.0 {
                        return Err(format!("after step {step}, thread {i} of {n} reads {} under {}", got.1, hex(&r)));
                    }
                }
            }
        }
        Ok(())
    };
    let r = run();
    drop(crew);
    for h in handles {
        let _ = h.join();
    }
    if let Err(m) = r {
        viol!("{name} used by threads in turn: {m}");
    }
    st.add("reads_by_threads_in_turn_compared", seen);
    st.cases.insert(fp);
    Ok(())
}

pub fn c20<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    intern::reset(seed);
    let start = Instant::now();
    // The compiler's view
    for (what, (send, sync)) in [
        ("HashTree<32>", is_send_sync!(HashTree<32>)),
        ("HashTree<8>", is_send_sync!(HashTree<8>)),
        ("MerkleBIT over a storage that can be shared", is_send_sync!(MerkleBIT<Sim<32>, 32>)),
        ("TreeNode", is_send_sync!(TreeNode<32>)),
        ("HashTreeDB", is_send_sync!(starling::tree_db::HashTreeDB<32>)),
    ] {
        if !send {
            viol!("{what} cannot be sent to another thread");
        }
        if !sync {
            viol!("{what} cannot be shared between threads");
        }
        st.add("types_probed", 1);
    }
    if mix(&[seed, 21]) % 4 == 0 {
        if mix(&[seed, 22]) % 3 == 0 {
            relay::<N, SimTree<N>>(seed, st, "the generic tree", thorough)?;
        } else {
            relay::<N, HashTree<N>>(seed, st, "the in-memory tree", thorough)?;
        }
        st.evaluations += 1;
        return Ok(());
    }
    match seed % 6 {
        0 | 1 => readers::<N, HashTree<N>>(seed, st, "the in-memory tree", thorough)?,
        2 => readers::<N, SimTree<N>>(seed, st, "the generic tree", thorough)?,
        3 => locked::<N, HashTree<N>>(seed, st, "the in-memory tree", thorough)?,
        4 => locked::<N, SimTree<N>>(seed, st, "the generic tree", thorough)?,
        _ => separate::<N, HashTree<N>>(seed, st, "the in-memory tree", thorough)?,
    }
    st.max("slowest_case_ms", start.elapsed().as_millis() as u64);
    st.evaluations += 1;
    if st.samples.len() < 3 {
        st.samples.push(format!("case {seed}: kind {}, N={N}", seed % 6));
    }
    Ok(())
}
