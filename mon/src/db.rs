//! Model storage: an in-memory `Database` with several write disciplines, fault and crash
//! injection at any call, and full visibility of what is stored.

use crate::nodes::{from_node, to_node, Body, Stored};
use starling::traits::{Database, Exception, Node};
use starling::Array;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Every write takes effect at once; committing does nothing.
    Immediate,
    /// Inserts wait for the commit, removals take effect at once, reads see what is committed
    /// (the discipline of the RocksDB adapter).
    Queued,
    /// Inserts and removals wait for the commit, reads see what is committed.
    QueuedAll,
    /// Inserts and removals wait for the commit, reads see what is waiting as well.
    Overlay,
}

pub const MODES: [Mode; 4] = [Mode::Immediate, Mode::Queued, Mode::QueuedAll, Mode::Overlay];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// The call fails; waiting writes are discarded, or kept for the next commit.
    Error,
    /// The process dies before the call takes effect.
    Crash,
    /// The process dies just after the call took effect.
    CrashAfter,
    /// As `Crash`, but a commit may have written a prefix of the waiting writes.
    Torn(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub kind: FaultKind,
    /// Index of the first affected call.
    pub at: u64,
    /// How many calls in a row fail (`Error` only).
    pub len: u64,
    /// A failing call leaves the waiting writes waiting (`Error` only).
    pub keep: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Get,
    Insert,
    Remove,
    Commit,
}

#[derive(Clone, Debug, Default)]
pub struct Counts {
    pub gets: u64,
    pub inserts: u64,
    pub removes: u64,
    pub commits: u64,
}

impl Counts {
    pub fn total(&self) -> u64 {
        self.gets + self.inserts + self.removes + self.commits
    }
    pub fn writes(&self) -> u64 {
        self.inserts + self.removes
    }
}

#[derive(Clone, Debug)]
pub struct Core<const N: usize> {
    pub mode: Mode,
    pub nodes: HashMap<[u8; N], Stored<N>>,
    pub pending: Vec<([u8; N], Option<Stored<N>>)>,
    /// Where in `pending` the latest write of a location is.
    latest: HashMap<[u8; N], usize>,
    /// Calls of the running operation.
    pub op: Counts,
    pub op_log: Vec<Call>,
    pub log_calls: bool,
    pub total: Counts,
    pub budget: u64,
    pub fault: Option<Fault>,
    pub fired: u64,
    pub dead: bool,
    /// Locations that were given two different contents.
    pub conflicts: Vec<String>,
    pub contents: HashMap<[u8; N], Body<N>>,
    pub track_contents: bool,
    /// Lets other threads run now and then.
    pub jitter: bool,
}

/// Whether two nodes stand for the same thing.  A branch may keep any of the keys beneath it.
fn same_contents<const N: usize>(a: &Body<N>, b: &Body<N>) -> bool {
    match (a, b) {
        (Body::Branch { count: c, zero: z, one: o, split: s, .. }, Body::Branch { count, zero, one, split, .. }) => {
            (c, z, o, s) == (count, zero, one, split)
        }
        _ => a == b,
    }
}

impl<const N: usize> Core<N> {
    pub fn new(mode: Mode) -> Self {
        Self {
            mode,
            nodes: HashMap::new(),
            pending: vec![],
            latest: HashMap::new(),
            op: Counts::default(),
            op_log: vec![],
            log_calls: false,
            total: Counts::default(),
            budget: 3_000_000,
            fault: None,
            fired: 0,
            dead: false,
            conflicts: vec![],
            contents: HashMap::new(),
            track_contents: false,
            jitter: false,
        }
    }

    /// Starts counting for a new operation.
    pub fn begin_op(&mut self) {
        self.op = Counts::default();
        self.op_log.clear();
    }

    /// What is left after the process stopped and the storage was opened again.
    pub fn power_cycle(&mut self) {
        self.drop_pending();
        self.fault = None;
        self.dead = false;
        self.fired = 0;
    }

    fn take_pending(&mut self) -> Vec<([u8; N], Option<Stored<N>>)> {
        self.latest.clear();
        std::mem::take(&mut self.pending)
    }

    fn drop_pending(&mut self) {
        self.take_pending();
    }

    fn push(&mut self, k: [u8; N], v: Option<Stored<N>>) {
        self.latest.insert(k, self.pending.len());
        self.pending.push((k, v));
    }

    fn apply(&mut self, k: [u8; N], v: Option<Stored<N>>) {
        match v {
            Some(s) => {
                self.nodes.insert(k, s);
            }
            None => {
                self.nodes.remove(&k);
            }
        }
    }

    /// Counts the call; returns whether it takes effect, or an error, or both.
    fn enter(&mut self, call: Call) -> (bool, Option<Exception>) {
        let index = self.op.total();
        match call {
            Call::Get => {
                self.op.gets += 1;
                self.total.gets += 1;
            }
            Call::Insert => {
                self.op.inserts += 1;
                self.total.inserts += 1;
            }
            Call::Remove => {
                self.op.removes += 1;
                self.total.removes += 1;
            }
            Call::Commit => {
                self.op.commits += 1;
                self.total.commits += 1;
            }
        }
        if self.log_calls {
            self.op_log.push(call);
        }
        if self.op.total() > self.budget {
            self.budget = u64::MAX; // only once
            panic!("STEP BUDGET: more than {} storage calls in one operation", index);
        }
        if self.dead {
            return (false, Some(Exception::new("storage is gone")));
        }
        if let Some(f) = self.fault {
            match f.kind {
                FaultKind::Error => {
                    if index >= f.at && index < f.at.saturating_add(f.len) {
                        self.fired += 1;
                        if !f.keep {
                            self.drop_pending();
                        }
                        return (false, Some(Exception::new("injected storage failure")));
                    }
                }
                FaultKind::Crash => {
                    if index >= f.at {
                        self.fired += 1;
                        self.dead = true;
                        return (false, Some(Exception::new("crash")));
                    }
                }
                FaultKind::CrashAfter => {
                    if index >= f.at {
                        self.fired += 1;
                        self.dead = true;
                        return (true, Some(Exception::new("crash")));
                    }
                }
                FaultKind::Torn(n) => {
                    if index >= f.at {
                        self.fired += 1;
                        self.dead = true;
                        if call == Call::Commit {
                            let p = self.take_pending();
                            for (k, v) in p.into_iter().take(n) {
                                self.apply(k, v);
                            }
                        }
                        return (false, Some(Exception::new("crash")));
                    }
                }
            }
        }
        (true, None)
    }

    fn note(&mut self, k: &[u8; N], s: &Stored<N>) {
        if !self.track_contents {
            return;
        }
        if let Some(old) = self.contents.get(k) {
            if !same_contents(old, &s.body) {
                self.conflicts
                    .push(format!("location {:02x?}: {:?} and {:?}", k, old, s.body));
            }
        } else {
            self.contents.insert(*k, s.body.clone());
        }
    }
}

pub type Shared<const N: usize> = Arc<Mutex<Core<N>>>;

pub fn shared<const N: usize>(core: Core<N>) -> Shared<N> {
    Arc::new(Mutex::new(core))
}

pub fn lock<const N: usize>(c: &Shared<N>) -> MutexGuard<'_, Core<N>> {
    c.lock().unwrap_or_else(|e| e.into_inner())
}

thread_local! {
    static STORES: RefCell<HashMap<String, Box<dyn Any>>> = RefCell::new(HashMap::new());
    static OPENED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static DEFAULT_MODE: Cell<Mode> = const { Cell::new(Mode::Queued) };
}

/// The store that was opened under this path.
pub fn store<const N: usize>(path: &str) -> Option<Shared<N>> {
    STORES.with(|s| s.borrow().get(path).and_then(|b| b.downcast_ref::<Shared<N>>().cloned()))
}

pub fn opened() -> Vec<String> {
    OPENED.with(|o| o.borrow().clone())
}

pub fn forget_stores() {
    STORES.with(|s| s.borrow_mut().clear());
    OPENED.with(|o| o.borrow_mut().clear());
}

/// The discipline of stores opened from now on.
pub fn default_mode(mode: Mode) {
    DEFAULT_MODE.with(|m| m.set(mode));
}

pub struct SimDb<const N: usize, X> {
    pub core: Shared<N>,
    _p: PhantomData<fn() -> X>,
}

impl<const N: usize, X> SimDb<N, X> {
    pub fn new(core: Shared<N>) -> Self {
        Self {
            core,
            _p: PhantomData,
        }
    }
}

impl<const N: usize, X: Node<N>> Database<N, X> for SimDb<N, X> {
    type EntryType = ();

    fn open(path: &Path) -> Result<Self, Exception> {
        if path.to_string_lossy().contains("refuse") {
            return Err(Exception::new("cannot open"));
        }
        let name = path.to_string_lossy().into_owned();
        OPENED.with(|o| o.borrow_mut().push(name.clone()));
        if let Some(core) = store::<N>(&name) {
            return Ok(Self::new(core));
        }
        let core: Shared<N> = shared(Core::new(DEFAULT_MODE.with(std::cell::Cell::get)));
        STORES.with(|s| s.borrow_mut().insert(name, Box::new(core.clone())));
        Ok(Self::new(core))
    }

    fn get_node(&self, key: Array<N>) -> Result<Option<X>, Exception> {
        let key: [u8; N] = key.into();
        let mut c = lock(&self.core);
        if c.jitter && c.total.gets % 7 == 0 {
            drop(c);
            std::thread::yield_now();
            c = lock(&self.core);
        }
        let (_, err) = c.enter(Call::Get);
        if let Some(e) = err {
            return Err(e);
        }
        if c.mode == Mode::Overlay {
            if let Some(i) = c.latest.get(&key) {
                return Ok(c.pending[*i].1.as_ref().map(to_node));
            }
        }
        Ok(c.nodes.get(&key).map(to_node))
    }

    fn insert(&mut self, key: Array<N>, node: X) -> Result<(), Exception> {
        let key: [u8; N] = key.into();
        let s = from_node(node);
        let mut c = lock(&self.core);
        let (effect, err) = c.enter(Call::Insert);
        if effect {
            c.note(&key, &s);
            if c.mode == Mode::Immediate {
                c.apply(key, Some(s));
            } else {
                c.push(key, Some(s));
            }
        }
        err.map_or(Ok(()), Err)
    }

    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        let key: [u8; N] = (*key).into();
        let mut c = lock(&self.core);
        let (effect, err) = c.enter(Call::Remove);
        if effect {
            match c.mode {
                Mode::Immediate | Mode::Queued => c.apply(key, None),
                Mode::QueuedAll | Mode::Overlay => c.push(key, None),
            }
        }
        err.map_or(Ok(()), Err)
    }

    fn batch_write(&mut self) -> Result<(), Exception> {
        let mut c = lock(&self.core);
        let (effect, err) = c.enter(Call::Commit);
        if effect {
            let p = c.take_pending();
            for (k, v) in p {
                c.apply(k, v);
            }
        }
        err.map_or(Ok(()), Err)
    }
}
