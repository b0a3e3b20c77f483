//! C16: what is stored survives the serialization format that this program was built with.

use mon::db::Mode;
use mon::engine::{hex, Eng, Stats, V};
use mon::gen;
use mon::nodes::{from_node, to_node, Body, Stored};
use mon::rng::{mix, mix_bytes, Rng};
use mon::tree::{lib, Fail, Gen, Spec, Tree, R};
use mon::{props_a as a, props_d as d, report, viol};
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Branch, Data, Database, Decode, Encode, Exception, Leaf, Node};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::collections::HashMap;
use std::path::Path;

pub const FORMAT: &str = if cfg!(feature = "bincode") {
    "bincode"
} else if cfg!(feature = "json") {
    "json"
} else if cfg!(feature = "cbor") {
    "cbor"
} else if cfg!(feature = "yaml") {
    "yaml"
} else if cfg!(feature = "pickle") {
    "pickle"
} else {
    "ron"
};

// ---- a storage that holds encoded bytes ----------------------------------------------------------

#[derive(Default)]
struct EncDb<const N: usize> {
    stored: HashMap<[u8; N], Vec<u8>>,
    waiting: HashMap<[u8; N], Vec<u8>>,
}

impl<const N: usize> Database<N, TreeNode<N>> for EncDb<N> {
    type EntryType = ();
    fn open(_: &Path) -> Result<Self, Exception> {
        Ok(Self::default())
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        let key: [u8; N] = key.into();
        match self.stored.get(&key) {
            Some(b) => Ok(Some(TreeNode::decode(b)?)),
            None => Ok(None),
        }
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        self.waiting.insert(key.into(), node.encode()?);
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        let key: [u8; N] = (*key).into();
        self.stored.remove(&key);
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        self.stored.extend(self.waiting.drain());
        Ok(())
    }
}

struct Config<const N: usize>;

impl<const N: usize> MerkleTree<N> for Config<N> {
    type Database = EncDb<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = TreeHasher;
    type Value = Vec<u8>;
}

/// The generic tree, which can tell what it stores.
struct Enc<const N: usize>(Gen<Config<N>, N>);

impl<const N: usize> Tree<N> for Enc<N> {
    fn get(&self, root: &[u8; N], keys: &[[u8; N]]) -> R<mon::tree::Answers<N>> {
        self.0.get(root, keys)
    }
    fn get_one(&self, root: &[u8; N], key: &[u8; N]) -> R<Option<Vec<u8>>> {
        self.0.get_one(root, key)
    }
    fn insert(&mut self, prev: Option<&[u8; N]>, keys: &[[u8; N]], values: &[Vec<u8>]) -> R<[u8; N]> {
        self.0.insert(prev, keys, values)
    }
    fn insert_one(&mut self, prev: Option<&[u8; N]>, key: &[u8; N], value: &[u8]) -> R<[u8; N]> {
        self.0.insert_one(prev, key, value)
    }
    fn remove(&mut self, root: &[u8; N]) -> R<()> {
        self.0.remove(root)
    }
    fn prove(&self, root: &[u8; N], key: &[u8; N]) -> R<mon::tree::Proof<N>> {
        self.0.prove(root, key)
    }
    fn verify(&self, root: &[u8; N], key: &[u8; N], value: &[u8], proof: &mon::tree::Proof<N>) -> R<()> {
        self.0.verify(root, key, value, proof)
    }
    fn rebuild(self: Box<Self>, depth: usize) -> R<(Box<dyn Tree<N>>, usize)> {
        let (db, old) = lib(|| Ok(self.0 .0.decompose()))?;
        Ok((Box::new(Enc(Gen(lib(|| MerkleBIT::from_db(db, depth))?))), old))
    }
    fn dismantle(self: Box<Self>) -> Option<HashMap<[u8; N], Stored<N>>> {
        let (db, _) = lib(|| Ok(self.0 .0.decompose())).ok()?;
        let mut out = HashMap::new();
        for (k, b) in db.stored {
            out.insert(k, from_node(lib(|| TreeNode::<N>::decode(&b)).ok()?));
        }
        Some(out)
    }
}

fn enc<const N: usize>(depth: usize) -> V<Box<dyn Tree<N>>> {
    match lib(|| MerkleBIT::from_db(EncDb::default(), depth)) {
        Ok(t) => Ok(Box::new(Enc(Gen(t)))),
        Err(f) => viol!("no tree: {f}"),
    }
}

fn eng<const N: usize>(seed: u64) -> V<Eng<N>> {
    let mut rng = Rng::new(seed);
    let size = rng.range(2, 40);
    let mut e = Eng::<N>::new(rng, Spec::Mem, Mode::Immediate, size)?;
    e.tree = Some(enc(e.depth)?);
    e.perhaps_large(false);
    e.trace.push(format!("(storage of bytes, {FORMAT})"));
    Ok(e)
}

// ---- single nodes ---------------------------------------------------------------------------------

fn array<const N: usize>(rng: &mut Rng) -> [u8; N] {
    let mut a = [0; N];
    match rng.below(7) {
        0 => {}
        1 => a = [0xff; N],
        2 => {
            // Text-like bytes: quotes, separators, digits
            for x in &mut a {
                *x = *rng.pick(b"\"'\\,:[]{}()#-0123456789 \n\t\r~!&*|>%@`");
            }
        }
        3 => {
            for (i, x) in a.iter_mut().enumerate() {
                *x = i as u8;
            }
        }
        _ => rng.fill(&mut a),
    }
    if rng.chance(1, 4) {
        let i = rng.below(N);
        a[i] = rng.below(256) as u8;
    }
    if rng.chance(1, 4) {
        // Trailing zeros are data, too
        for x in a.iter_mut().skip(rng.below(N)) {
            *x = 0;
        }
    }
    a
}

/// Counts and reference counts, as far as every format can hold them.
fn number(rng: &mut Rng) -> u64 {
    let edge = [0, 1, 2, 23, 24, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, u64::from(u32::MAX), 1 << 32, (1 << 53) + 1, i64::MAX as u64 - 1, i64::MAX as u64];
    match rng.below(3) {
        0 => *rng.pick(&edge),
        1 => rng.below(5000) as u64,
        _ => rng.u64() >> (1 + rng.below(63)),
    }
}

fn value(rng: &mut Rng, large: bool) -> Vec<u8> {
    match rng.below(10) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0xff; rng.range(1, 40)],
        3 => b"null".to_vec(),
        4 => (0..=255).collect(),
        5 => b"\"quoted\" 'text': [1, 2]\n- a\n...\n---\n".to_vec(),
        6..=9 if large => {
            let n = match rng.below(4) {
                0 => rng.range(60_000, 300_000),
                1 => *rng.pick(&[4095, 4096, 4097, 32_767, 32_768, 65_535, 65_536, 65_537]),
                _ => rng.range(1000, 70_000),
            };
            rng.bytes(n)
        }
        7 => {
            let n = *rng.pick(&[23, 24, 31, 32, 127, 128, 255, 256, 257]);
            rng.bytes(n)
        }
        _ => {
            let n = rng.range(1, 80);
            rng.bytes(n)
        }
    }
}

fn show<const N: usize>(s: &Stored<N>) -> String {
    let t = format!("{s:?}");
    t.chars().take(600).collect()
}

/// Decoding bytes that may be no node: anything but a panic, and what it gives is a node like any
/// other.
fn hostile<const N: usize>(b: &[u8], what: &str, st: &mut Stats) -> V<Option<Stored<N>>> {
    st.add("hostile_inputs_decoded", 1);
    match lib(|| TreeNode::<N>::decode(b)) {
        Err(Fail::Panic(m)) => viol!("{FORMAT}, key width {N}: decoding {what} panicked: {m}; bytes {}", hex(b)),
        Err(Fail::Err(_)) => {
            st.add("hostile_inputs_refused", 1);
            Ok(None)
        }
        Ok(n) => {
            let s = from_node(n);
            match lib(|| to_node::<N, TreeNode<N>>(&s).encode()) {
                Ok(_) => Ok(Some(s)),
                // A count that the format cannot hold
                Err(Fail::Err(_)) => Ok(Some(s)),
                Err(f) => viol!("{FORMAT}, key width {N}: {what} decodes to {}, which encodes with {f}", show(&s)),
            }
        }
    }
}

fn parts<const N: usize>(b: &[u8], what: &str, st: &mut Stats) -> V<()> {
    let mut all = vec![];
    all.push(("branch", lib(|| TreeBranch::<N>::decode(b)).err()));
    all.push(("leaf", lib(|| TreeLeaf::<N>::decode(b)).err()));
    all.push(("value", lib(|| TreeData::decode(b)).err()));
    for (kind, e) in all {
        st.add("hostile_inputs_decoded", 1);
        if let Some(Fail::Panic(m)) = e {
            viol!("{FORMAT}, key width {N}: decoding {what} as a {kind} panicked: {m}; bytes {}", hex(b));
        }
    }
    Ok(())
}

fn one_node<const N: usize>(rng: &mut Rng, large: bool, st: &mut Stats) -> V<()> {
    let refs = number(rng);
    let body = match if large { 4 } else { rng.below(5) } {
        0 | 1 => Body::Branch {
            count: number(rng),
            zero: array(rng),
            one: array(rng),
            split: match rng.below(4) {
                0 => 0,
                1 => N * 8 - 1,
                2 => *rng.pick(&[255, 256, 65535, 65536, i64::MAX as usize]),
                _ => rng.below(N * 8),
            },
            key: array(rng),
        },
        2 | 3 => Body::Leaf { key: array(rng), data: array(rng) },
        _ => Body::Data(value(rng, large)),
    };
    let s = Stored { refs, body };
    let node: TreeNode<N> = to_node(&s);
    let bytes = match lib(|| node.encode()) {
        Ok(b) => b,
        Err(f) => viol!("{FORMAT}, key width {N}: encoding {} failed: {f}", show(&s)),
    };
    let back = match lib(|| TreeNode::<N>::decode(&bytes)) {
        Ok(n) => n,
        Err(f) => viol!("{FORMAT}, key width {N}: {} is encoded as {} and then not decoded: {f}", show(&s), hex(&bytes)),
    };
    if back != node || from_node(back.clone()) != s {
        viol!("{FORMAT}, key width {N}: {} comes back as {}", show(&s), show(&from_node(back)));
    }
    match lib(|| back.encode()) {
        Ok(b) if b == bytes => {}
        Ok(b) => viol!("{FORMAT}, key width {N}: {} encodes as {} and, read back, as {}", show(&s), hex(&bytes), hex(&b)),
        Err(f) => viol!("{FORMAT}, key width {N}: {}, read back, cannot be encoded: {f}", show(&s)),
    }
    st.add("nodes_round_tripped", 1);
    st.cases.insert(mix_bytes(N as u64, &bytes));
    // The components have encodings of their own
    match &s.body {
        Body::Branch { count, zero, one, split, key } => {
            let mut b = TreeBranch::<N>::new();
            b.set_count(*count);
            b.set_zero((*zero).into());
            b.set_one((*one).into());
            b.set_split_index(*split);
            b.set_key((*key).into());
            match lib(|| TreeBranch::<N>::decode(&b.encode()?)) {
                Ok(x) if x == b => {}
                o => viol!("{FORMAT}, key width {N}: the branch {b:?} comes back as {o:?}"),
            }
        }
        Body::Leaf { key, data } => {
            let mut l = TreeLeaf::<N>::new();
            l.set_key((*key).into());
            l.set_data((*data).into());
            match lib(|| TreeLeaf::<N>::decode(&l.encode()?)) {
                Ok(x) if x == l => {}
                o => viol!("{FORMAT}, key width {N}: the leaf {l:?} comes back as {o:?}"),
            }
        }
        Body::Data(v) => {
            let mut d = TreeData::new();
            d.set_value(v);
            match lib(|| TreeData::decode(&d.encode()?)) {
                Ok(x) if x == d && x.get_value() == &v[..] => {}
                o => viol!("{FORMAT}: the value {} comes back as {:?}", hex(v), o.map(|x| hex(x.get_value()))),
            }
        }
    }
    st.add("components_round_tripped", 1);
    // Cut short
    let cuts: Vec<usize> = if bytes.len() <= 120 && rng.chance(1, 3) { (0..bytes.len()).collect() } else { (0..12).map(|_| rng.below(bytes.len())).collect() };
    for n in cuts {
        if let Some(x) = hostile::<N>(&bytes[..n], "a node cut short", st)? {
            // A branch or a leaf is never a smaller one
            let _ = x;
            st.add("cut_nodes_decoded_as_nodes", 1);
        }
    }
    let n = rng.below(bytes.len());
    parts::<N>(&bytes[..n], "a node cut short", st)?;
    parts::<N>(&bytes, "a node", st)?;
    // Bytes that were never a node
    for _ in 0..3 {
        let n = rng.below(40);
        let b = rng.bytes(n);
        hostile::<N>(&b, "random bytes", st)?;
    }
    st.evaluations += 1;
    if st.samples.len() < 3 {
        st.samples.push(format!("{FORMAT}: {} <-> {}", show(&s), hex(&bytes)));
    }
    Ok(())
}

/// A node of one width read as one of another.
fn cross<const N: usize, const M: usize>(rng: &mut Rng, st: &mut Stats) -> V<()> {
    let s: Stored<N> = Stored {
        refs: number(rng),
        body: if rng.chance(1, 2) {
            Body::Branch { count: number(rng), zero: array(rng), one: array(rng), split: rng.below(N * 8), key: array(rng) }
        } else {
            Body::Leaf { key: array(rng), data: array(rng) }
        },
    };
    let node: TreeNode<N> = to_node(&s);
    if let Ok(b) = lib(|| node.encode()) {
        hostile::<M>(&b, &format!("a node of key width {N}"), st)?;
        parts::<M>(&b, &format!("a node of key width {N}"), st)?;
    }
    Ok(())
}

fn nodes(case: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(case);
    let n = if thorough { 60 } else { 25 };
    for i in 0..n {
        let large = i == 0 && rng.chance(1, if matches!(FORMAT, "yaml" | "ron" | "json") { 25 } else { 5 });
        let r = &mut rng;
        match r.below(10) {
            0 => one_node::<1>(r, large, st),
            1 | 2 => one_node::<8>(r, large, st),
            3 => one_node::<20>(r, large, st),
            4 | 5 => one_node::<33>(r, large, st),
            6 => one_node::<129>(r, large, st),
            _ => one_node::<32>(r, large, st),
        }?;
        cross::<32, 33>(r, st)?;
        cross::<33, 32>(r, st)?;
        cross::<32, 8>(r, st)?;
        cross::<1, 20>(r, st)?;
    }
    Ok(())
}

fn history<const N: usize>(case: u64, th: bool, st: &mut Stats) -> V<()> {
    st.add("histories_on_stored_bytes", 1);
    match mix(&[case, 3]) % 5 {
        0 => a::c01_on(eng::<N>(case)?, th, st),
        1 => a::c03_on(eng::<N>(case)?, th, st),
        2 => a::c07_on(eng::<N>(case)?, th, st),
        3 => a::c04_blind(eng::<N>(case)?, st),
        _ => d::c15_with::<N>(case, th, st, "the tree on stored bytes", false, enc::<N>),
    }
}

fn main() {
    let args = report::args();
    let code = report::run(&args, move |case, th, st: &mut Stats| -> V<()> {
        // (so that the values of histories do not depend on an earlier case)
        mon::intern::reset(1);
        let _ = gen::FAMILIES;
        let r = match mix(&[case, 2]) % 4 {
            0 | 1 => nodes(case, th, st),
            _ => history::<32>(case, th, st),
        };
        r.map_err(|v| mon::engine::Viol(format!("({FORMAT}) {}", v.0)))
    });
    std::process::exit(code);
}
