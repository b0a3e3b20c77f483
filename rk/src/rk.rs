//! The RocksDB tree behind the face that all monitors use.

use mon::nodes::{from_node, Stored};
use mon::tree::{arrays, keys_after, lib, Answers, Fail, Proof, Tree, Val, R};
use rocksdb::IteratorMode;
use starling::rocks_tree::RocksTree;
use starling::traits::Decode;
use starling::tree::tree_node::TreeNode;
use starling::tree_db::rocksdb::RocksDB;
use starling::Array;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory of this process, which is deleted when it is dropped.
pub struct Dir(pub PathBuf);

pub fn scratch() -> PathBuf {
    let base = std::env::var("RK_DIR").map_or_else(|_| std::env::temp_dir(), PathBuf::from);
    let d = base.join(format!("rk-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

impl Dir {
    pub fn new() -> Self {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        Dir(scratch().join(format!("rkdb-{n}")))
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Rk<const N: usize, W: Val = Vec<u8>> {
    pub t: RocksTree<N, W>,
    dir: Option<Dir>,
}

impl<const N: usize, W: Val> Rk<N, W> {
    pub fn open(path: &Path, depth: usize) -> R<Self> {
        let t = lib(|| RocksTree::<N, W>::open(path, depth))?;
        Ok(Self { t, dir: None })
    }
    /// On a store that lies elsewhere.
    pub fn on(t: RocksTree<N, W>) -> Self {
        Self { t, dir: None }
    }
    /// On a new directory, which goes away with the tree.
    pub fn fresh(depth: usize) -> R<Self> {
        let d = Dir::new();
        let mut s = Self::open(&d.0, depth)?;
        s.dir = Some(d);
        Ok(s)
    }
}

/// Everything in the store.
pub fn contents<const N: usize>(db: RocksDB<N>) -> Option<HashMap<[u8; N], Stored<N>>> {
    let db = lib(|| Ok(db.decompose())).ok()?;
    let mut out = HashMap::new();
    for (k, v) in db.iterator(IteratorMode::Start) {
        let k: [u8; N] = (*k).try_into().ok()?;
        let node = lib(|| TreeNode::<N>::decode(&v)).ok()?;
        out.insert(k, from_node(node));
    }
    Some(out)
}

impl<const N: usize, W: Val + 'static> Tree<N> for Rk<N, W> {
    fn get(&self, root: &[u8; N], keys: &[[u8; N]]) -> R<Answers<N>> {
        let mut held = arrays(keys);
        let root = Array::<N>::from(*root);
        let m = lib(|| self.t.get(&root, &mut held));
        keys_after("a read", keys, &held);
        let m = m?;
        let mut v: Answers<N> = m.into_iter().map(|(k, v)| (k.into(), v.map(Val::unwrap))).collect();
        v.sort();
        Ok(v)
    }
    fn get_one(&self, root: &[u8; N], key: &[u8; N]) -> R<Option<Vec<u8>>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        lib(|| self.t.get_one(&root, &key)).map(|o| o.map(Val::unwrap))
    }
    fn insert(&mut self, prev: Option<&[u8; N]>, keys: &[[u8; N]], values: &[Vec<u8>]) -> R<[u8; N]> {
        let mut held = arrays(keys);
        let values: Vec<W> = values.iter().map(|v| Val::wrap(v)).collect();
        let prev = prev.map(|p| Array::<N>::from(*p));
        let r = lib(|| self.t.insert(prev.as_ref(), &mut held, &values)).map(Into::into);
        keys_after("an insert", keys, &held);
        r
    }
    fn insert_one(&mut self, prev: Option<&[u8; N]>, key: &[u8; N], value: &[u8]) -> R<[u8; N]> {
        let key = Array::<N>::from(*key);
        let value: W = Val::wrap(value);
        let prev = prev.map(|p| Array::<N>::from(*p));
        lib(|| self.t.insert_one(prev.as_ref(), &key, &value)).map(Into::into)
    }
    fn remove(&mut self, root: &[u8; N]) -> R<()> {
        let root = Array::<N>::from(*root);
        lib(|| self.t.remove(&root))
    }
    fn prove(&self, root: &[u8; N], key: &[u8; N]) -> R<Proof<N>> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let p = lib(|| self.t.generate_inclusion_proof(&root, key))?;
        Ok(p.into_iter().map(|(h, s)| (h.into(), s)).collect())
    }
    fn verify(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &Proof<N>) -> R<()> {
        let root = Array::<N>::from(*root);
        let key = Array::<N>::from(*key);
        let value: W = Val::wrap(value);
        let proof: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| ((*h).into(), *s)).collect();
        lib(|| RocksTree::<N, W>::verify_inclusion_proof(&root, key, &value, &proof))
    }
    fn rebuild(self: Box<Self>, depth: usize) -> R<(Box<dyn Tree<N>>, usize)> {
        let Rk { t, dir } = *self;
        let (db, old) = lib(|| Ok(t.decompose()))?;
        let t = lib(|| RocksTree::<N, W>::from_db(db, depth))?;
        Ok((Box::new(Rk { t, dir }), old))
    }
    fn dismantle(self: Box<Self>) -> Option<HashMap<[u8; N], Stored<N>>> {
        let Rk { t, dir: _dir } = *self;
        let (db, _) = lib(|| Ok(t.decompose())).ok()?;
        contents(db)
    }
}

pub fn fail_text(f: &Fail) -> String {
    f.to_string()
}
