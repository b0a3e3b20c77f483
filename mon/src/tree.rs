//! One face for all trees under test, and the guard around every call into the library.

use crate::db::{Shared, SimDb};
use crate::intern::Intern;
use crate::nodes::{from_node, MyNode, Stored};
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Decode, Encode, Exception};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fs::File;
use std::marker::PhantomData;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Err(String),
    Panic(String),
}

pub type R<T> = Result<T, Fail>;

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Err(e) => write!(f, "error {e:?}"),
            Fail::Panic(p) => write!(f, "PANIC {p:?}"),
        }
    }
}

/// Calls into the library so far; odd while one is running.
pub static SEQ: AtomicU64 = AtomicU64::new(0);
static STATE: OnceLock<File> = OnceLock::new();
/// What is running, for the watchdog.
pub static CURRENT: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

/// Records panics instead of printing them.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_LIB.with(Cell::get) {
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        } else {
            eprintln!("HARNESS PANIC {m} at {loc}");
        }
    }));
}

pub fn set_state_file(path: &str) {
    if let Ok(f) = File::create(path) {
        let _ = STATE.set(f);
    }
}

/// Names the running case, for the driver in case this process dies.
pub fn set_current(text: &str) {
    if let Ok(mut c) = CURRENT.lock() {
        *c = text.to_string();
    }
    if let Some(f) = STATE.get() {
        let line = format!("{:<200}\n", text);
        let _ = f.write_at(line.as_bytes(), 2);
    }
}

pub fn lib_calls() -> u64 {
    SEQ.load(Ordering::Relaxed) / 2
}

/// Runs a call into the library.
pub fn lib<T>(f: impl FnOnce() -> Result<T, Exception>) -> R<T> {
    SEQ.fetch_add(1, Ordering::SeqCst);
    if let Some(s) = STATE.get() {
        let _ = s.write_at(b"1\n", 0);
    }
    let was = IN_LIB.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(was));
    if let Some(s) = STATE.get() {
        let _ = s.write_at(b"0\n", 0);
    }
    SEQ.fetch_add(1, Ordering::SeqCst);
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fail::Err(e.to_string())),
        Err(_) => Err(Fail::Panic(PANIC_MSG.with(|p| p.borrow().clone()))),
    }
}

pub type Answers<const N: usize> = Vec<([u8; N], Option<Vec<u8>>)>;
pub type Proof<const N: usize> = Vec<([u8; N], bool)>;

/// Any tree from 256-bit (or other) keys to byte strings.
pub trait Tree<const N: usize> {
    /// The answers, sorted by key.
    fn get(&self, root: &[u8; N], keys: &[[u8; N]]) -> R<Answers<N>>;
    fn get_one(&self, root: &[u8; N], key: &[u8; N]) -> R<Option<Vec<u8>>>;
    fn insert(&mut self, prev: Option<&[u8; N]>, keys: &[[u8; N]], values: &[Vec<u8>])
        -> R<[u8; N]>;
    fn insert_one(&mut self, prev: Option<&[u8; N]>, key: &[u8; N], value: &[u8]) -> R<[u8; N]>;
    fn remove(&mut self, root: &[u8; N]) -> R<()>;
    fn prove(&self, root: &[u8; N], key: &[u8; N]) -> R<Proof<N>>;
    fn verify(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &Proof<N>) -> R<()>;
    /// Takes the tree apart and puts it together again with another depth limit; returns the
    /// limit that the old tree reported.
    fn rebuild(self: Box<Self>, depth: usize) -> R<(Box<dyn Tree<N>>, usize)>;
    /// Takes the tree apart and returns everything that is stored, if it can be told.
    fn dismantle(self: Box<Self>) -> Option<HashMap<[u8; N], Stored<N>>> {
        None
    }
}

thread_local! {
    static WATCH_KEYS: Cell<bool> = const { Cell::new(false) };
    static HARMED: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// From now on, what calls do to the caller's lists of keys is watched.
pub fn watch_keys() {
    WATCH_KEYS.with(|c| c.set(true));
}

/// What a call did to its caller's list of keys, other than reordering it.
pub fn harmed() -> Option<String> {
    HARMED.with(|h| h.borrow_mut().take())
}

pub fn keys_after<const N: usize>(what: &str, before: &[[u8; N]], after: &[Array<N>]) {
    if !WATCH_KEYS.with(Cell::get) {
        return;
    }
    let mut b = before.to_vec();
    let mut a: Vec<[u8; N]> = after.iter().map(|k| (*k).into()).collect();
    a.sort_unstable();
    b.sort_unstable();
    if a != b {
        let text = format!("{what} changed its caller's keys: {} keys before {before:02x?}, afterwards {after:02x?}", b.len());
        HARMED.with(|h| *h.borrow_mut() = Some(text));
    }
}

pub fn arrays<const N: usize>(k: &[[u8; N]]) -> Vec<Array<N>> {
    k.iter().map(|k| Array::<N>::from(*k)).collect()
}

/// How values of the facade map to values of a tree.
pub trait Val: Encode + Decode {
    fn wrap(b: &[u8]) -> Self;
    fn unwrap(self) -> Vec<u8>;
}

impl Val for Vec<u8> {
    fn wrap(b: &[u8]) -> Self {
        b.to_vec()
    }
    fn unwrap(self) -> Vec<u8> {
        self
    }
}

/// A structured value whose encoding differs from its contents, and which can be told to fail.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub body: Vec<u8>,
}

thread_local! {
    /// Encodings left until one fails.
    pub static FAIL_ENCODE: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static FAIL_DECODE: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static ENCODES: Cell<u64> = const { Cell::new(0) };
    pub static DECODES: Cell<u64> = const { Cell::new(0) };
}

impl Encode for Rec {
    fn encode(&self) -> Result<Vec<u8>, Exception> {
        ENCODES.with(|c| c.set(c.get() + 1));
        let left = FAIL_ENCODE.with(Cell::get);
        if left == 0 {
            return Err(Exception::new("injected encoding failure"));
        }
        FAIL_ENCODE.with(|c| c.set(left.saturating_sub(u64::from(left != u64::MAX))));
        let mut v = vec![0xEE, self.body.len() as u8];
        v.extend(self.body.iter().map(|b| b ^ 0x5A));
        Ok(v)
    }
}

impl Decode for Rec {
    fn decode(buffer: &[u8]) -> Result<Self, Exception> {
        DECODES.with(|c| c.set(c.get() + 1));
        let left = FAIL_DECODE.with(Cell::get);
        if left == 0 {
            return Err(Exception::new("injected decoding failure"));
        }
        FAIL_DECODE.with(|c| c.set(left.saturating_sub(u64::from(left != u64::MAX))));
        if buffer.len() < 2 || buffer[0] != 0xEE || buffer[1] != (buffer.len() - 2) as u8 {
            return Err(Exception::new("not a record"));
        }
        Ok(Self {
            body: buffer[2..].iter().map(|b| b ^ 0x5A).collect(),
        })
    }
}

impl Val for Rec {
    fn wrap(b: &[u8]) -> Self {
        Self { body: b.to_vec() }
    }
    fn unwrap(self) -> Vec<u8> {
        self.body
    }
}

// ---- the generic tree ------------------------------------------------------------------------

pub struct Gen<M: MerkleTree<N>, const N: usize>(pub MerkleBIT<M, N>);

impl<M: MerkleTree<N> + 'static, const N: usize> Tree<N> for Gen<M, N>
where
    M::Value: Val,
{
    fn get(&self, root: &[u8; N], keys: &[[u8; N]]) -> R<Answers<N>> {
        let mut held = arrays(keys);
        let root = Array::<N>::from(*root);
        let m = lib(|| self.0.get(&root, &mut held));
        keys_after("a read", keys, &held);
        let m = m?;
        let mut v: Answers<N> = m
            .into_iter()
            .map(|(k, v)| (k.into(), v.map(Val::unwrap)))
            .collect();
        v.sort();
        Ok(v)
    }
    fn get_one(&self, root: &[u8; N], key: &[u8; N]) -> R<Option<Vec<u8>>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        lib(|| self.0.get_one(&root, &key)).map(|o| o.map(Val::unwrap))
    }
    fn insert(
        &mut self,
        prev: Option<&[u8; N]>,
        keys: &[[u8; N]],
        values: &[Vec<u8>],
    ) -> R<[u8; N]> {
        let mut held = arrays(keys);
        let values: Vec<M::Value> = values.iter().map(|v| Val::wrap(v)).collect();
        let prev = prev.map(|p| Array::<N>::from(*p));
        let r = lib(|| self.0.insert(prev.as_ref(), &mut held, &values)).map(Into::into);
        keys_after("an insert", keys, &held);
        r
    }
    fn insert_one(&mut self, prev: Option<&[u8; N]>, key: &[u8; N], value: &[u8]) -> R<[u8; N]> {
        let key = Array::<N>::from(*key);
        let value: M::Value = Val::wrap(value);
        let prev = prev.map(|p| Array::<N>::from(*p));
        lib(|| self.0.insert_one(prev.as_ref(), &key, &value)).map(Into::into)
    }
    fn remove(&mut self, root: &[u8; N]) -> R<()> {
        let root = Array::<N>::from(*root);
        lib(|| self.0.remove(&root))
    }
    fn prove(&self, root: &[u8; N], key: &[u8; N]) -> R<Proof<N>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let p = lib(|| self.0.generate_inclusion_proof(&root, key))?;
        Ok(p.into_iter().map(|(h, s)| (h.into(), s)).collect())
    }
    fn verify(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &Proof<N>) -> R<()> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let value: M::Value = Val::wrap(value);
        let proof: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| ((*h).into(), *s)).collect();
        lib(|| MerkleBIT::<M, N>::verify_inclusion_proof(&root, key, &value, &proof))
    }
    fn rebuild(self: Box<Self>, depth: usize) -> R<(Box<dyn Tree<N>>, usize)> {
        let me = *self;
        let (db, old) = lib(|| Ok(me.0.decompose()))?;
        let t = lib(|| MerkleBIT::<M, N>::from_db(db, depth))?;
        Ok((Box::new(Gen(t)), old))
    }
}

macro_rules! config {
    ($name:ident, $node:ty, $branch:ty, $leaf:ty, $data:ty, $hasher:ty, $value:ty) => {
        pub struct $name<const N: usize>(PhantomData<[u8; N]>);
        impl<const N: usize> MerkleTree<N> for $name<N> {
            type Database = SimDb<N, $node>;
            type Branch = $branch;
            type Leaf = $leaf;
            type Data = $data;
            type Node = $node;
            type Hasher = $hasher;
            type Value = $value;
        }
    };
}

config!(LibIntern, TreeNode<N>, TreeBranch<N>, TreeLeaf<N>, TreeData, Intern, Vec<u8>);
config!(
    MyIntern,
    MyNode<N>,
    crate::nodes::MyBranch<N>,
    crate::nodes::MyLeaf<N>,
    crate::nodes::MyData,
    Intern,
    Rec
);
config!(LibHash, TreeNode<N>, TreeBranch<N>, TreeLeaf<N>, TreeData, TreeHasher, Vec<u8>);

/// Which types the generic tree is built from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spec {
    /// The library's nodes, injective hashing, plain bytes as values.
    LibIntern,
    /// Our own nodes, injective hashing, structured values.
    MyIntern,
    /// The library's nodes and hasher, plain bytes as values.
    LibHash,
    /// The library's in-memory tree (the storage given is not used).
    Mem,
}

pub fn build<const N: usize>(spec: Spec, core: &Shared<N>, depth: usize) -> R<Box<dyn Tree<N>>> {
    let core = core.clone();
    Ok(match spec {
        Spec::LibIntern => Box::new(Gen::<LibIntern<N>, N>(lib(|| {
            MerkleBIT::from_db(SimDb::new(core), depth)
        })?)),
        Spec::MyIntern => Box::new(Gen::<MyIntern<N>, N>(lib(|| {
            MerkleBIT::from_db(SimDb::new(core), depth)
        })?)),
        Spec::LibHash => Box::new(Gen::<LibHash<N>, N>(lib(|| {
            MerkleBIT::from_db(SimDb::new(core), depth)
        })?)),
        Spec::Mem => mem(depth, depth % 2 == 1)?,
    })
}

pub fn open<const N: usize>(spec: Spec, path: &str, depth: usize) -> R<Box<dyn Tree<N>>> {
    let path = std::path::Path::new(path);
    Ok(match spec {
        Spec::LibIntern => Box::new(Gen::<LibIntern<N>, N>(lib(|| MerkleBIT::new(path, depth))?)),
        Spec::MyIntern => Box::new(Gen::<MyIntern<N>, N>(lib(|| MerkleBIT::new(path, depth))?)),
        Spec::LibHash => Box::new(Gen::<LibHash<N>, N>(lib(|| MerkleBIT::new(path, depth))?)),
        Spec::Mem => Box::new(Mem(lib(|| HashTree::<N>::open(path, depth))?)),
    })
}

// ---- the library's in-memory tree ---------------------------------------------------------------

pub struct Mem<const N: usize>(pub HashTree<N>);

impl<const N: usize> Tree<N> for Mem<N> {
    fn get(&self, root: &[u8; N], keys: &[[u8; N]]) -> R<Answers<N>> {
        let mut held = arrays(keys);
        let root = Array::<N>::from(*root);
        let m = lib(|| self.0.get(&root, &mut held));
        keys_after("a read", keys, &held);
        let m = m?;
        let mut v: Answers<N> = m.into_iter().map(|(k, v)| (k.into(), v)).collect();
        v.sort();
        Ok(v)
    }
    fn get_one(&self, root: &[u8; N], key: &[u8; N]) -> R<Option<Vec<u8>>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        lib(|| self.0.get_one(&root, &key))
    }
    fn insert(
        &mut self,
        prev: Option<&[u8; N]>,
        keys: &[[u8; N]],
        values: &[Vec<u8>],
    ) -> R<[u8; N]> {
        let mut held = arrays(keys);
        let values = values.to_vec();
        let prev = prev.map(|p| Array::<N>::from(*p));
        let r = lib(|| self.0.insert(prev.as_ref(), &mut held, &values)).map(Into::into);
        keys_after("an insert", keys, &held);
        r
    }
    fn insert_one(&mut self, prev: Option<&[u8; N]>, key: &[u8; N], value: &[u8]) -> R<[u8; N]> {
        let key = Array::<N>::from(*key);
        let value = value.to_vec();
        let prev = prev.map(|p| Array::<N>::from(*p));
        lib(|| self.0.insert_one(prev.as_ref(), &key, &value)).map(Into::into)
    }
    fn remove(&mut self, root: &[u8; N]) -> R<()> {
        let root = Array::<N>::from(*root);
        lib(|| self.0.remove(&root))
    }
    fn prove(&self, root: &[u8; N], key: &[u8; N]) -> R<Proof<N>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let p = lib(|| self.0.generate_inclusion_proof(&root, key))?;
        Ok(p.into_iter().map(|(h, s)| (h.into(), s)).collect())
    }
    fn verify(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &Proof<N>) -> R<()> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let value = value.to_vec();
        let proof: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| ((*h).into(), *s)).collect();
        lib(|| HashTree::<N>::verify_inclusion_proof(&root, key, &value, &proof))
    }
    fn rebuild(self: Box<Self>, depth: usize) -> R<(Box<dyn Tree<N>>, usize)> {
        let me = *self;
        let (db, old) = lib(|| Ok(me.0.decompose()))?;
        // `HashTree` cannot be built from a database; the generic tree over its types can.
        let t = lib(|| MerkleBIT::<HashTree<N>, N>::from_db(db, depth))?;
        Ok((Box::new(Gen(t)), old))
    }
    fn dismantle(self: Box<Self>) -> Option<HashMap<[u8; N], Stored<N>>> {
        let (db, _) = lib(|| Ok(self.0.decompose())).ok()?;
        let m = lib(|| Ok(db.decompose())).ok()?;
        Some(m.into_iter().map(|(k, n)| (k.into(), from_node(n))).collect())
    }
}

pub fn mem<const N: usize>(depth: usize, open: bool) -> R<Box<dyn Tree<N>>> {
    let t = if open {
        lib(|| HashTree::<N>::open(std::path::Path::new("unused"), depth))?
    } else {
        lib(|| HashTree::<N>::new(depth))?
    };
    Ok(Box::new(Mem(t)))
}
