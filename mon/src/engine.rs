//! Histories of operations on one tree, mirrored in the reference model.

use crate::db::{lock, shared, Core, Mode, Shared, MODES};
use crate::gen;
use crate::intern;
use crate::model::{Canon, Map};
use crate::rng::{mix, Rng};
use crate::tree::{build, Answers, Fail, Proof, Spec, Tree, R};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

/// A violation of the property under check.
#[derive(Debug)]
pub struct Viol(pub String);
pub type V<T> = Result<T, Viol>;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(80) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::engine::Viol(format!($($a)*))) };
}

/// Calls may reorder their caller's keys, nothing else.
pub fn keys_watched(f: impl FnOnce() -> V<()>) -> V<()> {
    crate::tree::watch_keys();
    let r = f();
    let harm = crate::tree::harmed();
    r?;
    match harm {
        Some(text) => viol!("{text}"),
        None => Ok(()),
    }
}

/// What was observed.
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    /// Fingerprints of non-trivial cases.
    pub cases: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
    /// Digests of what the library answered, by case.
    pub transcripts: Vec<(u64, u64)>,
}

impl Stats {
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.n.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.n.entry(what).or_insert(0);
        *e = (*e).max(n);
    }
}

pub struct Snapshot<const N: usize> {
    pub asked: Vec<[u8; N]>,
    pub batch: R<Answers<N>>,
    pub single: Vec<([u8; N], R<Option<Vec<u8>>>)>,
    pub proofs: Vec<([u8; N], Vec<u8>, R<Proof<N>>)>,
}

/// A read of one key, and its result.
pub struct Warm<const N: usize> {
    pub root: [u8; N],
    pub key: [u8; N],
    kind: usize,
    was: Option<Option<Vec<u8>>>,
}

pub struct Live<const N: usize> {
    pub map: Map<N>,
    pub id: u64,
    pub handles: usize,
    pub snap: Option<Snapshot<N>>,
}

#[derive(Clone, Debug)]
pub struct Weights {
    pub insert: usize,
    pub one: usize,
    pub noop: usize,
    pub revert: usize,
    pub remove: usize,
    pub rebuild: usize,
    pub max_live: usize,
    pub max_batch: usize,
    pub max_handles: usize,
}

impl Default for Weights {
    fn default() -> Self {
        Self {
            insert: 8,
            one: 5,
            noop: 2,
            revert: 2,
            remove: 3,
            rebuild: 1,
            max_live: 10,
            max_batch: 24,
            max_handles: 3,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Done<const N: usize> {
    Insert { root: [u8; N], prev: Option<[u8; N]>, fresh: bool },
    Remove { root: [u8; N], gone: bool },
    Rebuild,
    None,
}

pub struct Eng<const N: usize> {
    pub rng: Rng,
    pub spec: Spec,
    pub depth: usize,
    pub core: Shared<N>,
    pub tree: Option<Box<dyn Tree<N>>>,
    pub live: BTreeMap<[u8; N], Live<N>>,
    pub removed: Vec<([u8; N], Map<N>)>,
    pub canon: Canon<N>,
    pub root_of: HashMap<u64, [u8; N]>,
    pub id_of: HashMap<[u8; N], u64>,
    pub pool: Vec<[u8; N]>,
    pub recent: Vec<Rc<Vec<u8>>>,
    pub unique: u64,
    pub w: Weights,
    pub trace: Vec<String>,
    pub fp: u64,
    pub snapshots: bool,
    pub ops: u64,
    /// The first insert takes every key.
    pub all_first: bool,
    /// The keys of the first versions, where a few come first and many others then
    pub first: Vec<Vec<[u8; N]>>,
    /// What was read last before an insert or a removal, and what came of it.
    pub warmed: Option<Warm<N>>,
    /// The shapes of the versions made, and the size of the largest.
    pub shapes: HashSet<u64>,
    pub largest: usize,
}

impl<const N: usize> Eng<N> {
    pub fn new(mut rng: Rng, spec: Spec, mode: Mode, size: usize) -> V<Self> {
        intern::reset(rng.u64());
        let core = shared(Core::new(mode));
        let depth = *rng.pick(&[N * 8, N * 8 + 1, 1 << 20, usize::MAX]);
        let tree = match build(spec, &core, depth) {
            Ok(t) => t,
            Err(e) => viol!("cannot build a tree on an open storage: {e}"),
        };
        let pool = gen::mixed::<N>(&mut rng, size);
        Ok(Self {
            rng,
            spec,
            depth,
            core,
            tree: Some(tree),
            live: BTreeMap::new(),
            removed: vec![],
            canon: Canon::default(),
            root_of: HashMap::new(),
            id_of: HashMap::new(),
            pool,
            recent: vec![],
            unique: 0,
            w: Weights::default(),
            trace: vec![format!("tree N={N} {spec:?} {mode:?} depth={depth}")],
            fp: 0,
            snapshots: false,
            ops: 0,
            all_first: false,
            first: vec![],
            warmed: None,
            shapes: HashSet::new(),
            largest: 0,
        })
    }

    /// A random engine for the usual histories.
    pub fn random(seed: u64) -> V<Self> {
        let mut rng = Rng::new(seed);
        let spec = *rng.pick(&[Spec::LibIntern, Spec::LibIntern, Spec::MyIntern]);
        let mode = *rng.pick(&MODES);
        let size = if N == 1 {
            rng.range(2, 12)
        } else {
            match rng.below(10) {
                0 => rng.range(2, 4),
                1..=5 => rng.range(4, 20),
                6..=8 => rng.range(16, 64),
                _ => rng.range(64, 160),
            }
        };
        let mut e = Self::new(rng, spec, mode, size)?;
        if size > 64 {
            e.w.max_batch = size;
            e.w.max_live = 5;
        }
        if e.rng.chance(1, 4) {
            e.w.max_batch = 3;
        }
        e.perhaps_large(true);
        Ok(e)
    }

    /// Now and then, many keys or deep trees instead.
    pub fn perhaps_large(&mut self, very: bool) {
        match self.rng.below(if very { 2000 } else { 500 }) {
            0..=19 if N >= 3 => {
                let n = self.rng.range(257, 1400);
                self.large(n);
            }
            20 if N >= 4 && very => {
                let n = self.rng.range(65_540, 67_000);
                self.large(n);
            }
            21..=70 => {
                let top = (N * 8 + 1).min(520);
                let n = self.rng.range(top / 3, top);
                self.pool = gen::deep::<N>(&mut self.rng, n);
                self.all_first = self.rng.chance(2, 3);
                self.w.max_batch = n;
                self.w.max_live = 5;
            }
            71..=170 if N >= 2 => {
                let n = self.rng.range(70, 400);
                let mut v = gen::dense::<N>(&mut self.rng, n);
                self.pool = v.clone();
                // A few, and then others around and beneath them
                let i = self.rng.below(v.len());
                let mut few = vec![];
                let mut many = vec![];
                if self.rng.chance(1, 2) {
                    // A round number of those before them, and something far away
                    let m = 1 << self.rng.range(3, 8);
                    for _ in 0..self.rng.range(2, 4) {
                        few.push(v[i + self.rng.below(v.len() - i)]);
                    }
                    many.extend_from_slice(&v[i.saturating_sub(m)..i]);
                    for _ in 0..self.rng.range(0, 2) {
                        let k = v[0];
                        many.push(gen::near(&mut self.rng, &k));
                    }
                } else {
                    let span = if self.rng.chance(1, 3) { 4 } else { v.len() };
                    for _ in 0..self.rng.range(1, 5) {
                        few.push(v[(i + self.rng.below(span)) % v.len()]);
                    }
                    match self.rng.below(4) {
                        0 => v.truncate(i),
                        1 => {
                            v.drain(..i);
                        }
                        _ => {}
                    }
                    many = v;
                }
                many.retain(|k| !few.contains(k));
                few.sort_unstable();
                few.dedup();
                many.sort_unstable();
                many.dedup();
                self.rng.shuffle(&mut many);
                self.first = if many.is_empty() { vec![few] } else { vec![many, few] };
                self.w.max_batch = n;
                self.w.max_live = 5;
            }
            _ => {}
        }
    }

    pub fn large(&mut self, n: usize) {
        self.pool = gen::many::<N>(&mut self.rng, n);
        self.all_first = n > 2000 || self.rng.chance(2, 3);
        self.w.max_batch = n;
        self.w.max_live = 3;
    }

    /// As `random`, or an engine on the in-memory tree.
    pub fn random_any(seed: u64) -> V<Self> {
        if N >= 8 && mix(&[seed, 5]) % 5 == 0 {
            return Self::random_mem(seed);
        }
        Self::random(seed)
    }

    /// An engine on the library's in-memory tree.
    pub fn random_mem(seed: u64) -> V<Self> {
        let mut rng = Rng::new(seed);
        let size = if rng.chance(1, 2) { rng.range(2, 12) } else { rng.range(8, 50) };
        let mut e = Self::new(rng, Spec::Mem, Mode::Immediate, size)?;
        if e.rng.chance(1, 4) {
            e.w.max_batch = 3;
        }
        e.perhaps_large(false);
        Ok(e)
    }

    pub fn t(&self) -> &dyn Tree<N> {
        self.tree.as_deref().unwrap()
    }

    pub fn tm(&mut self) -> &mut dyn Tree<N> {
        self.tree.as_deref_mut().unwrap()
    }

    pub fn begin(&self) {
        lock(&self.core).begin_op();
    }

    pub fn over(&self) -> bool {
        intern::exhausted()
    }

    pub fn random_live(&mut self) -> Option<[u8; N]> {
        if self.live.is_empty() {
            return None;
        }
        let i = self.rng.below(self.live.len());
        self.live.keys().nth(i).copied()
    }

    pub fn map_of(&self, root: &[u8; N]) -> Map<N> {
        self.live[root].map.clone()
    }

    pub fn new_value(&mut self) -> Rc<Vec<u8>> {
        if !self.recent.is_empty() && self.rng.chance(1, 5) {
            return self.rng.pick(&self.recent).clone();
        }
        let v = Rc::new(gen::value(&mut self.rng, &self.pool, &mut self.unique));
        if self.recent.len() < 40 {
            self.recent.push(v.clone());
        }
        v
    }

    /// Keys present in the map, their neighbours, and keys of the pool; repeated at times.
    pub fn probes(&mut self, map: &Map<N>, max_present: usize) -> Vec<[u8; N]> {
        let keys: Vec<[u8; N]> = map.keys().copied().collect();
        let mut v: Vec<[u8; N]> = vec![];
        if keys.len() <= max_present {
            v.extend(&keys);
        } else {
            for _ in 0..max_present {
                v.push(*self.rng.pick(&keys));
            }
        }
        for _ in 0..self.rng.below(8) {
            v.push(*self.rng.pick(&self.pool));
        }
        for _ in 0..self.rng.below(8) {
            let k = *self.rng.pick(&keys);
            v.push(gen::near(&mut self.rng, &k));
        }
        if self.rng.chance(1, 4) {
            v.push([0; N]);
            v.push([0xff; N]);
        }
        v
    }

    fn snapshot(&mut self, root: &[u8; N], map: &Map<N>) -> Snapshot<N> {
        let asked = self.probes(map, 48);
        let batch = self.t().get(root, &asked);
        let mut single = vec![];
        let mut proofs = vec![];
        for i in 0..4 {
            let k = *self.rng.pick(&asked);
            single.push((k, self.t().get_one(root, &k)));
            if i < 2 {
                let v = map.get(&k).map(|v| v.to_vec()).unwrap_or_default();
                proofs.push((k, v, self.t().prove(root, &k)));
            }
        }
        Snapshot {
            asked,
            batch,
            single,
            proofs,
        }
    }

    /// Reads a version again and compares with what it read when it was new.
    pub fn compare_snapshot(&self, root: &[u8; N], st: &mut Stats, after: &str) -> V<()> {
        let Some(s) = &self.live[root].snap else {
            return Ok(());
        };
        let now = self.t().get(root, &s.asked);
        if same(&now) != same(&s.batch) {
            viol!(
                "after {after}: batch read of root {} changed: was {}, now {}",
                hex(root),
                show(&s.batch),
                show(&now)
            );
        }
        st.add("reads_compared", s.asked.len() as u64);
        for (k, was) in &s.single {
            let now = self.t().get_one(root, k);
            st.add("reads_compared", 1);
            if same(&now) != same(was) {
                viol!(
                    "after {after}: reading {} under root {} changed: was {:?}, now {:?}",
                    hex(k),
                    hex(root),
                    was,
                    now
                );
            }
        }
        for (k, v, was) in &s.proofs {
            let now = self.t().prove(root, k);
            st.add("proofs_compared", 1);
            if now.is_ok() != was.is_ok() || matches!(now, Err(Fail::Panic(_))) {
                viol!(
                    "after {after}: proving {} under root {} changed: was {:?}, now {:?}",
                    hex(k),
                    hex(root),
                    was,
                    now
                );
            }
            // The proof made earlier and the one made now are equally good
            if let (Ok(old), Ok(new)) = (was, &now) {
                let a = self.t().verify(root, k, v, old).is_ok();
                let b = self.t().verify(root, k, v, new).is_ok();
                if !a || !b {
                    viol!(
                        "after {after}: proof of {} under root {}: made before accepted {a}, made now accepted {b}",
                        hex(k),
                        hex(root)
                    );
                }
            }
        }
        Ok(())
    }

    /// Reads `keys` under `root` in one batch and compares with the map.
    pub fn check_batch(&self, root: &[u8; N], map: &Map<N>, keys: &[[u8; N]], st: &mut Stats) -> V<()> {
        let want: BTreeMap<[u8; N], Option<Vec<u8>>> = keys
            .iter()
            .map(|k| (*k, map.get(k).map(|v| v.to_vec())))
            .collect();
        match self.t().get(root, keys) {
            Ok(got) => {
                let want: Answers<N> = want.into_iter().collect();
                if got != want {
                    viol!(
                        "batch read of {:?} under root {} (map of {}): {}",
                        keys.iter().map(|k| hex(k)).collect::<Vec<_>>(),
                        hex(root),
                        map.len(),
                        diff(&want, &got)
                    );
                }
            }
            Err(e) => viol!(
                "batch read of {:?} under root {} (map of {}) failed: {e}",
                keys.iter().map(|k| hex(k)).collect::<Vec<_>>(),
                hex(root),
                map.len()
            ),
        }
        st.add("batch_reads", 1);
        st.add("reads_compared", keys.len() as u64);
        Ok(())
    }

    pub fn check_one(&self, root: &[u8; N], map: &Map<N>, key: &[u8; N], st: &mut Stats) -> V<()> {
        let want = map.get(key).map(|v| v.to_vec());
        let got = self.t().get_one(root, key);
        st.add("single_reads", 1);
        if got != Ok(want.clone()) {
            viol!(
                "single read of {} under root {} (map of {}): expected {:?}, got {:?}",
                hex(key),
                hex(root),
                map.len(),
                want.map(|v| hex(&v)),
                got
            );
        }
        Ok(())
    }

    /// Reads a whole version in several ways.
    pub fn check_root(&mut self, root: &[u8; N], st: &mut Stats, thorough: bool) -> V<()> {
        let map = self.map_of(root);
        let most = if map.len() > 5_000 && self.rng.chance(1, 3) { map.len() } else { 400 };
        let mut keys = self.probes(&map, most);
        self.rng.shuffle(&mut keys);
        self.check_batch(root, &map, &keys, st)?;
        let rounds = if thorough { 6 } else { 2 };
        for _ in 0..rounds {
            // A few keys only
            let n = self.rng.range(1, 5.min(keys.len()));
            let mut some: Vec<[u8; N]> = (0..n).map(|_| *self.rng.pick(&keys)).collect();
            if self.rng.chance(1, 3) {
                let k = *self.rng.pick(&some);
                some.push(gen::near(&mut self.rng, &k));
                some.push(k);
            }
            self.check_batch(root, &map, &some, st)?;
        }
        for (i, k) in keys.iter().enumerate() {
            if (thorough && i < 3_000) || i < 6 {
                self.check_one(root, &map, k, st)?;
            }
        }
        Ok(())
    }

    fn read_one(&self, kind: usize, root: &[u8; N], key: &[u8; N]) -> Option<Option<Vec<u8>>> {
        match kind {
            0 => self.t().get_one(root, key).ok(),
            1 => self.t().get(root, &[*key]).ok().and_then(|a| a.into_iter().next()).map(|a| a.1),
            _ => self.t().prove(root, key).ok().map(|_| None),
        }
    }

    /// A read right before an operation, as if to fill whatever may be kept of it.
    fn warm(&mut self, near: Option<[u8; N]>) {
        self.warmed = None;
        if !self.rng.chance(1, 2) {
            return;
        }
        let root = match near {
            Some(r) if self.rng.chance(3, 4) => r,
            _ => match self.random_live() {
                Some(r) => r,
                None => return,
            },
        };
        let map = self.map_of(&root);
        let key = if self.rng.chance(3, 4) {
            let i = self.rng.below(map.len().min(3000));
            *map.keys().nth(i).unwrap()
        } else {
            *self.rng.pick(&self.pool)
        };
        let kind = self.rng.below(3);
        let was = self.read_one(kind, &root, &key);
        self.warmed = Some(Warm { root, key, kind, was });
    }

    /// The read from before the operation gives the same as then, if its version is still there.
    pub fn check_warmed(&self, st: &mut Stats) -> V<()> {
        let Some(w) = &self.warmed else { return Ok(()) };
        if !self.live.contains_key(&w.root) {
            return Ok(());
        }
        let now = self.read_one(w.kind, &w.root, &w.key);
        st.add("reads_around_an_operation", 1);
        if now != w.was {
            viol!(
                "{} of {} under root {} gave {:?} right before the operation, and gives {:?} right after it",
                ["a single read", "a batch read", "a proof"][w.kind],
                hex(&w.key),
                hex(&w.root),
                w.was,
                now
            );
        }
        Ok(())
    }

    /// Inserts, mirrors, and returns the root.  `Err` in the outer result is a violation: the call
    /// was valid.
    pub fn insert(&mut self, prev: Option<[u8; N]>, pairs: &[([u8; N], Rc<Vec<u8>>)], one: bool) -> V<Done<N>> {
        let mut map = match prev {
            Some(p) => (*self.live[&p].map).clone(),
            None => BTreeMap::new(),
        };
        for (k, v) in pairs {
            map.insert(*k, v.clone());
        }
        let keys: Vec<[u8; N]> = pairs.iter().map(|p| p.0).collect();
        let vals: Vec<Vec<u8>> = pairs.iter().map(|p| p.1.to_vec()).collect();
        self.trace.push(format!(
            "{} on {} : {}",
            if one { "insert_one" } else { "insert" },
            prev.map_or("nothing".into(), |p| hex(&p)),
            pairs
                .iter()
                .take(300)
                .map(|(k, v)| format!("{}={}", hex(k), hex(v)))
                .collect::<Vec<_>>()
                .join(", ")
        ));
        self.warm(prev);
        self.begin();
        let r = if one {
            self.tm().insert_one(prev.as_ref(), &keys[0], &vals[0])
        } else {
            self.tm().insert(prev.as_ref(), &keys, &vals)
        };
        let root = match r {
            Ok(r) => r,
            Err(_) if intern::exhausted() => return Ok(Done::None),
            Err(e) => viol!("a valid insert of {} pairs into a map of {} failed: {e}", keys.len(), map.len()),
        };
        if intern::exhausted() {
            return Ok(Done::None);
        }
        self.trace.push(format!("  -> root {} ({} keys)", hex(&root), map.len()));
        self.fp = mix(&[self.fp, 1, keys.len() as u64, map.len() as u64, u64::from(prev.is_some())]);
        let fresh = self.adopt(root, Rc::new(map));
        Ok(Done::Insert { root, prev, fresh })
    }

    /// Takes a new handle on `root` into the model.
    pub fn adopt(&mut self, root: [u8; N], map: Map<N>) -> bool {
        let id = self.canon.id(&map);
        if self.ops % 4 == 0 {
            let keys: Vec<[u8; N]> = map.keys().copied().collect();
            self.shapes.insert(crate::model::shape(&keys));
        }
        self.largest = self.largest.max(map.len());
        self.root_of.entry(id).or_insert(root);
        self.id_of.entry(root).or_insert(id);
        if let Some(l) = self.live.get_mut(&root) {
            l.handles += 1;
            l.map = map;
            l.id = id;
            false
        } else {
            let snap = if self.snapshots {
                Some(self.snapshot(&root, &map))
            } else {
                None
            };
            self.live.insert(
                root,
                Live {
                    map,
                    id,
                    handles: 1,
                    snap,
                },
            );
            true
        }
    }

    pub fn remove(&mut self, root: [u8; N]) -> V<Done<N>> {
        self.trace.push(format!("remove {}", hex(&root)));
        self.warm(Some(root));
        self.begin();
        if let Err(e) = self.tm().remove(&root) {
            viol!("removing the live root {} failed: {e}", hex(&root));
        }
        self.fp = mix(&[self.fp, 2]);
        let l = self.live.get_mut(&root).unwrap();
        l.handles -= 1;
        let gone = l.handles == 0;
        if gone {
            let l = self.live.remove(&root).unwrap();
            self.removed.push((root, l.map));
            if self.removed.len() > 12 {
                self.removed.remove(0);
            }
        }
        Ok(Done::Remove { root, gone })
    }

    pub fn rebuild(&mut self) -> V<Done<N>> {
        let depth = *self.rng.pick(&[N * 8, 1 << 30, usize::MAX]);
        self.trace.push(format!("take apart and rebuild with depth {depth}"));
        let t = self.tree.take().unwrap();
        match t.rebuild(depth) {
            Ok((t, old)) => {
                if old != self.depth {
                    viol!("the tree was built with depth {} and reports {old}", self.depth);
                }
                self.tree = Some(t);
                self.depth = depth;
                Ok(Done::Rebuild)
            }
            Err(e) => viol!("taking the tree apart and rebuilding it failed: {e}"),
        }
    }

    pub fn pairs(&mut self, n: usize) -> Vec<([u8; N], Rc<Vec<u8>>)> {
        let mut seen = BTreeSet::new();
        let mut v = vec![];
        for _ in 0..n {
            let mut k = *self.rng.pick(&self.pool);
            if self.rng.chance(1, 25) && N > 1 {
                k = gen::near(&mut self.rng, &k);
            }
            if seen.insert(k) {
                let val = self.new_value();
                v.push((k, val));
            }
        }
        v
    }

    fn start(&mut self) -> Option<[u8; N]> {
        if self.live.is_empty() || self.rng.chance(1, 9) {
            None
        } else {
            self.random_live()
        }
    }

    /// One random operation.
    pub fn step(&mut self) -> V<Done<N>> {
        self.ops += 1;
        if self.all_first {
            self.all_first = false;
            let keys = self.pool.clone();
            let pairs: Vec<_> = keys.into_iter().map(|k| (k, self.new_value())).collect();
            return self.insert(None, &pairs, false);
        }
        if let Some(keys) = self.first.pop() {
            let prev = self.random_live();
            let pairs: Vec<_> = keys.into_iter().map(|k| (k, self.new_value())).collect();
            return self.insert(prev, &pairs, false);
        }
        let w = self.w.clone();
        if self.live.len() >= w.max_live {
            let r = self.random_live().unwrap();
            return self.remove(r);
        }
        let total = w.insert + w.one + w.noop + w.revert + w.remove + w.rebuild;
        let mut x = self.rng.below(total);
        if x < w.insert {
            let prev = self.start();
            let max = match self.rng.below(4) {
                0 => 2,
                1 => 6.min(w.max_batch),
                _ => w.max_batch,
            };
            let n = self.rng.range(1, max);
            let pairs = self.pairs(n);
            return self.insert(prev, &pairs, false);
        }
        x -= w.insert;
        if x < w.one {
            let prev = self.start();
            let pairs = self.pairs(1);
            return self.insert(prev, &pairs, true);
        }
        x -= w.one;
        if x < w.noop {
            // Writes what is already there (perhaps with something new)
            let Some(prev) = self.random_live() else {
                return Ok(Done::None);
            };
            if self.live[&prev].handles >= w.max_handles {
                return Ok(Done::None);
            }
            let map = self.map_of(&prev);
            let mut pairs: Vec<_> = map.iter().map(|(k, v)| (*k, v.clone())).collect();
            self.rng.shuffle(&mut pairs);
            let n = self.rng.range(1, pairs.len());
            pairs.truncate(n);
            if self.rng.chance(1, 3) {
                let more = self.pairs(1);
                pairs.retain(|p| p.0 != more[0].0);
                pairs.extend(more);
            }
            let one = pairs.len() == 1 && self.rng.chance(1, 2);
            let from = if self.rng.chance(1, 4) { None } else { Some(prev) };
            return self.insert(from, &pairs, one);
        }
        x -= w.noop;
        if x < w.revert {
            // Brings values of another version back
            let (Some(prev), Some(other)) = (self.random_live(), self.random_live()) else {
                return Ok(Done::None);
            };
            let src = if !self.removed.is_empty() && self.rng.chance(1, 2) {
                let i = self.rng.below(self.removed.len());
                self.removed[i].1.clone()
            } else {
                self.map_of(&other)
            };
            let mut pairs: Vec<_> = src.iter().map(|(k, v)| (*k, v.clone())).collect();
            if self.rng.chance(1, 2) {
                self.rng.shuffle(&mut pairs);
                let n = self.rng.range(1, pairs.len());
                pairs.truncate(n);
            }
            let from = if self.rng.chance(1, 4) { None } else { Some(prev) };
            let one = pairs.len() == 1 && self.rng.chance(1, 2);
            return self.insert(from, &pairs, one);
        }
        x -= w.revert;
        if x < w.remove {
            if let Some(r) = self.random_live() {
                return self.remove(r);
            }
            return Ok(Done::None);
        }
        self.rebuild()
    }

    /// The nodes currently stored (after a commit).
    pub fn stored(&self) -> std::sync::MutexGuard<'_, Core<N>> {
        lock(&self.core)
    }
}

/// Results compare equal if both are the same value, or both are errors.
pub fn same<T: Clone>(r: &R<T>) -> Option<T> {
    r.as_ref().ok().cloned()
}

fn show<const N: usize>(r: &R<Answers<N>>) -> String {
    match r {
        Ok(a) => a
            .iter()
            .map(|(k, v)| format!("{}={}", hex(k), v.as_ref().map_or("-".into(), |v| hex(v))))
            .collect::<Vec<_>>()
            .join(" "),
        Err(e) => e.to_string(),
    }
}

pub fn diff<const N: usize>(want: &Answers<N>, got: &Answers<N>) -> String {
    let w: BTreeMap<_, _> = want.iter().cloned().collect();
    let g: BTreeMap<_, _> = got.iter().cloned().collect();
    for (k, v) in &w {
        match g.get(k) {
            None => return format!("no answer for {}", hex(k)),
            Some(x) if x != v => {
                return format!(
                    "for {} expected {:?}, got {:?}",
                    hex(k),
                    v.as_ref().map(|v| hex(v)),
                    x.as_ref().map(|v| hex(v))
                )
            }
            _ => {}
        }
    }
    for k in g.keys() {
        if !w.contains_key(k) {
            return format!("an answer for {}, which was not asked for", hex(k));
        }
    }
    "differs".into()
}
