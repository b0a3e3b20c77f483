//! Records what the hash option that this program was built with computes, and what trees built
//! with it store, for an independent judge to look at.
//!
//! Output, one record per line:
//!   D <type> <N> <chunk>,<chunk>,... <digest>          a digest
//!   T <N>                                              a tree begins
//!   R <root> <key>=<value>,...                         a version that is live at its end
//!   P <root> <key> <value> <hash>:<side>,...           a proof that was generated and verified
//!   N <location> <references> B <count> <zero> <one> <split> <key> | L <key> <data> | V <value>
//!   E                                                  the tree ends
//!   X <text>                                           something that must not happen
//!   S <calls>                                          all done

#[path = "../../mon/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use rng::{mix, Rng};
use starling::hash_tree::HashTree;
use starling::traits::{Branch, Data, Hasher, Leaf, Node, NodeVariant};
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn digest<H: Hasher<N>, const N: usize>(chunks: &[&[u8]]) -> Result<[u8; N], String> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut h = <H as Hasher<N>>::new(N);
        for c in chunks {
            <H as Hasher<N>>::update(&mut h, c);
        }
        <H as Hasher<N>>::finalize(h).into()
    }))
    .map_err(|_| format!("hashing {} chunks to {N} bytes panicked", chunks.len()))
}

/// Message lengths around the block sizes of the usual algorithms.
fn length(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(4) {
        0 => rng.below(20),
        1 => {
            let b = *rng.pick(&[8, 16, 32, 55, 56, 63, 64, 72, 111, 112, 119, 127, 128, 135, 136, 143, 144, 192, 255, 256, 272]);
            b + rng.below(3) - 1
        }
        _ => rng.below(300),
    };
    n.min(max)
}

fn split<'a>(rng: &mut Rng, m: &'a [u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut at = 0;
    let style = rng.below(4);
    while at < m.len() {
        let n = match style {
            0 => m.len(),
            1 => 1,
            2 => rng.below(10),
            _ => rng.below(140),
        }
        .min(m.len() - at);
        v.push(&m[at..at + n]);
        at += n;
    }
    if rng.chance(1, 4) {
        let i = rng.below(v.len() + 1);
        v.insert(i, &m[..0]);
    }
    v
}

struct Out {
    text: String,
    calls: u64,
}

impl Out {
    fn line(&mut self, s: &str) {
        self.text.push_str(s);
        self.text.push('\n');
    }
}

fn digests<H: Hasher<N>, const N: usize>(name: &str, seed: u64, n: usize, joined: bool, out: &mut Out) {
    let mut rng = Rng::new(mix(&[seed, N as u64, 11]));
    for i in 0..n {
        let len = if i == 0 { 0 } else { length(&mut rng, 400) };
        let m = match rng.below(6) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            _ => rng.bytes(len),
        };
        let chunks = split(&mut rng, &m);
        out.calls += 1;
        match digest::<H, N>(&chunks) {
            Ok(d) => {
                let c: Vec<String> = chunks.iter().map(|c| hex(c)).collect();
                out.line(&format!("D {name} {N} {} {}", if c.is_empty() { "-".into() } else { c.join(",") }, hex(&d)));
                // However it is split, it is the same message
                for _ in 0..if joined { 3 } else { 0 } {
                    let again = split(&mut rng, &m);
                    out.calls += 1;
                    if digest::<H, N>(&again).as_ref() != Ok(&d) {
                        let c2: Vec<String> = again.iter().map(|c| hex(c)).collect();
                        out.line(&format!("X {name} {N}: the chunks {} and {} give different digests", c.join(","), c2.join(",")));
                    }
                }
            }
            Err(e) => out.line(&format!("X {name}: {e}")),
        }
    }
}

/// Messages beyond what buffers and counters of two or (at `most`) three bytes hold: no part of them
/// may be without effect, and their division into chunks is as free as that of short ones.
fn long<H: Hasher<N>, const N: usize>(name: &str, seed: u64, most: usize, joined: bool, out: &mut Out) {
    let mut rng = Rng::new(mix(&[seed, N as u64, 17]));
    for len in [rng.range(4_097, 9_000), rng.range(65_537, 140_000), most] {
        let mut m = rng.bytes(len);
        out.calls += 2;
        let whole = digest::<H, N>(&[&m]);
        if let Err(e) = &whole {
            out.line(&format!("X {name}: {e}"));
        }
        let size = *rng.pick(&[1_000, 4_096, 65_536, 100_000]);
        let pieces: Vec<&[u8]> = m.chunks(size).collect();
        let apart = digest::<H, N>(&pieces);
        if joined && apart != whole {
            out.line(&format!("X {name} {N}: {len} bytes in one chunk and in chunks of {size} have different digests"));
        }
        for at in [len - 1 - rng.below(8), rng.below(len), len - 1 - rng.below(len / 3)] {
            let bit = 1 << rng.below(8);
            m[at] ^= bit;
            out.calls += 2;
            let near = digest::<H, N>(&[&m]);
            let pieces: Vec<&[u8]> = m.chunks(size).collect();
            let near_apart = digest::<H, N>(&pieces);
            m[at] ^= bit;
            if near == whole || near_apart == apart {
                out.line(&format!("X {name} {N}: a change of byte {at} of {len} bytes does not change the digest"));
            }
        }
        if len < 10_000 {
            if let Ok(d) = whole {
                out.line(&format!("D {name} {N} {} {}", hex(&m), hex(&d)));
            }
        }
    }
}

fn key<const N: usize>(rng: &mut Rng, pool: &[[u8; N]]) -> [u8; N] {
    if !pool.is_empty() && rng.chance(3, 4) {
        let mut k = *rng.pick(pool);
        if rng.chance(2, 3) {
            let p = rng.below(N * 8);
            k[p / 8] ^= 0x80 >> (p % 8);
        }
        return k;
    }
    let mut k = [0; N];
    rng.fill(&mut k);
    k
}

type Version<const N: usize> = ([u8; N], BTreeMap<[u8; N], Vec<u8>>);

fn tree<const N: usize>(seed: u64, size: usize, out: &mut Out) -> Result<(), String> {
    let mut rng = Rng::new(mix(&[seed, N as u64, 13]));
    let mut t = HashTree::<N>::new(N * 8).map_err(|e| e.to_string())?;
    let mut live: Vec<Version<N>> = vec![];
    let mut pool: Vec<[u8; N]> = vec![];
    let mut number = 0_u64;
    while pool.len() < size {
        let k = key(&mut rng, &pool);
        pool.push(k);
    }
    for _ in 0..rng.range(2, 7) {
        let prev = if live.is_empty() || rng.chance(1, 5) { None } else { Some(rng.below(live.len())) };
        let mut map = BTreeMap::new();
        for _ in 0..rng.range(1, size) {
            number += 1;
            let k = *rng.pick(&pool);
            let v = match rng.below(5) {
                0 => vec![],
                1 => {
                    let n = length(&mut rng, 300);
                    rng.bytes(n)
                }
                _ => number.to_be_bytes().to_vec(),
            };
            map.insert(k, v);
        }
        let mut keys: Vec<Array<N>> = map.keys().map(|k| (*k).into()).collect();
        let vals: Vec<Vec<u8>> = map.values().cloned().collect();
        let from: Option<Array<N>> = prev.map(|i| live[i].0.into());
        out.calls += 1;
        let root = t.insert(from.as_ref(), &mut keys, &vals).map_err(|e| format!("an insert failed: {e}"))?;
        let mut whole = prev.map(|i| live[i].1.clone()).unwrap_or_default();
        whole.extend(map);
        live.push((root.into(), whole));
        if live.len() > 3 && rng.chance(1, 2) {
            let i = rng.below(live.len());
            let (r, _) = live.remove(i);
            out.calls += 1;
            t.remove(&r.into()).map_err(|e| format!("a removal failed: {e}"))?;
        }
    }
    out.line(&format!("T {N}"));
    for (r, m) in &live {
        let mut keys: Vec<Array<N>> = m.keys().map(|k| (*k).into()).collect();
        out.calls += 1;
        let got = t.get(&(*r).into(), &mut keys).map_err(|e| format!("a read failed: {e}"))?;
        for (k, v) in got {
            let k: [u8; N] = k.into();
            if v.as_ref() != m.get(&k) {
                return Err(format!("root {}: {} reads {v:?}", hex(r), hex(&k)));
            }
        }
        let kv: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", hex(k), hex(v))).collect();
        out.line(&format!("R {} {}", hex(r), kv.join(",")));
        for (k, v) in m.iter().take(4) {
            out.calls += 2;
            let p = t
                .generate_inclusion_proof(&(*r).into(), (*k).into())
                .map_err(|e| format!("a proof failed: {e}"))?;
            HashTree::<N>::verify_inclusion_proof(&(*r).into(), (*k).into(), v, &p).map_err(|e| format!("a proof was refused: {e}"))?;
            let steps: Vec<String> = p.iter().map(|(h, s)| format!("{}:{}", hex(h.as_ref()), u8::from(*s))).collect();
            out.line(&format!("P {} {} {} {}", hex(r), hex(k), hex(v), if steps.is_empty() { "-".into() } else { steps.join(",") }));
        }
    }
    let (db, _) = t.decompose();
    for (loc, node) in db.decompose() {
        let refs = node.get_references();
        let what = match node.get_variant() {
            NodeVariant::Branch(b) => {
                let (count, zero, one, split, key) = b.decompose();
                format!("B {count} {} {} {split} {}", hex(zero.as_ref()), hex(one.as_ref()), hex(key.as_ref()))
            }
            NodeVariant::Leaf(l) => {
                let (key, data) = l.decompose();
                format!("L {} {}", hex(key.as_ref()), hex(data.as_ref()))
            }
            NodeVariant::Data(d) => format!("V {}", hex(d.get_value())),
            _ => "? unknown".into(),
        };
        out.line(&format!("N {} {refs} {what}", hex(loc.as_ref())));
    }
    out.line("E");
    Ok(())
}

fn trees<const N: usize>(seed: u64, n: usize, size: usize, out: &mut Out) {
    for i in 0..n {
        let mark = out.text.len();
        match catch_unwind(AssertUnwindSafe(|| tree::<N>(mix(&[seed, i as u64]), size, out))) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                out.text.truncate(mark);
                out.line(&format!("X a tree at key width {N}: {e}"));
            }
            Err(_) => {
                out.text.truncate(mark);
                out.line(&format!("X a tree at key width {N}: panic"));
            }
        }
    }
}

const JOINED: bool = !cfg!(feature = "fxhash");

macro_rules! each_width {
    ($h:ty, $name:expr, $seed:expr, $n:expr, $out:expr, $($w:literal)*) => {
        $(digests::<$h, $w>($name, $seed, $n, JOINED, $out);)*
    };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let n_trees: usize = a[3].parse().unwrap();
    let size: usize = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out { text: String::new(), calls: 0 };
    let o = &mut out;
    each_width!(TreeHasher, "own", seed, n, o, 1 2 3 7 8 9 15 16 17 20 21 28 31 32 33 40 41 48 63 64);
    #[cfg(not(feature = "blake2-rfc"))]
    each_width!(TreeHasher, "own", seed, n, o, 65 80 100 128 137 200 256);
    // Other digests through the general implementation
    #[cfg(feature = "rust_sha2")]
    {
        each_width!(sha2_::Sha512, "sha512", seed, n, o, 1 16 32 63 64 65 100);
        each_width!(sha2_::Sha384, "sha384", seed, n, o, 32 47 48 49 64);
        each_width!(sha2_::Sha224, "sha224", seed, n, o, 27 28 29 32);
    }
    #[cfg(feature = "rust_sha3")]
    {
        each_width!(sha3_::Sha3_512, "sha3_512", seed, n, o, 32 64 65);
        each_width!(sha3_::Sha3_224, "sha3_224", seed, n, o, 28 29 32);
    }
    #[cfg(feature = "blake2b")]
    each_width!(blake2_::Blake2s256, "blake2s", seed, n, o, 16 31 32 33 64);
    let most = if n > 20 { 5_000_000 } else { 1_100_000 };
    long::<TreeHasher, 32>("own", seed, most, JOINED, o);
    long::<TreeHasher, 16>("own", seed, 200_000, JOINED, o);
    trees::<8>(seed, n_trees, size, o);
    trees::<16>(seed, n_trees, size, o);
    trees::<20>(seed, n_trees, size, o);
    trees::<32>(seed, n_trees * 2, size, o);
    trees::<48>(seed, n_trees, size, o);
    trees::<64>(seed, n_trees, size, o);
    #[cfg(not(feature = "blake2-rfc"))]
    trees::<80>(seed, n_trees, size, o);
    let calls = out.calls;
    out.line(&format!("S {calls}"));
    std::io::stdout().write_all(out.text.as_bytes()).unwrap();
}
