//! The array type of the library, compared with the byte array that it wraps.

use mon::engine::{hex, Stats, V};
use mon::gen;
use mon::rng::{mix, Rng};
use mon::tree::{lib, Fail};
use mon::viol;
use starling::Array;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn call<T>(what: &str, f: impl FnOnce() -> T) -> V<T> {
    match lib(|| Ok(f())) {
        Ok(v) => Ok(v),
        Err(e) => viol!("{what}: {e}"),
    }
}

fn raw<const N: usize>(a: Array<N>) -> V<[u8; N]> {
    call("into", || a.into())
}

fn digest<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Two arrays that are equal, near each other, or unrelated.
fn pair<const N: usize>(rng: &mut Rng) -> ([u8; N], [u8; N]) {
    let mut a = gen::base::<N>(rng);
    if rng.chance(1, 4) {
        rng.fill(&mut a);
    }
    let b = match rng.below(8) {
        0 => a,
        1 | 2 => {
            let i = rng.below(N * 8);
            gen::with_flip(&a, i)
        }
        3 => {
            // The same up to somewhere
            let mut b = a;
            let i = rng.below(N);
            let r = rng.bytes(N);
            b[i..].copy_from_slice(&r[i..]);
            b
        }
        4 => {
            // The same from somewhere on
            let mut b = a;
            let i = rng.below(N);
            let r = rng.bytes(N);
            b[..=i].copy_from_slice(&r[..=i]);
            b
        }
        5 => {
            // Two opposite changes
            let mut b = a;
            let (i, j) = (rng.below(N), rng.below(N));
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
            b
        }
        6 => {
            // The same bytes elsewhere
            let mut b = a;
            b.rotate_left(rng.below(N));
            b
        }
        _ => {
            let mut b = [0; N];
            rng.fill(&mut b);
            b
        }
    };
    (a, b)
}

fn compare<const N: usize>(a: &[u8; N], b: &[u8; N]) -> V<()> {
    let (x, y) = call("from", || (Array::<N>::from(*a), Array::<N>::from(*b)))?;
    let got = call("comparisons", || {
        (x == y, x != y, x.cmp(&y), x.partial_cmp(&y), x < y, x <= y, x > y, x >= y, x.max(y) == y, x.min(y) == y)
    })?;
    let o = a.cmp(b);
    let want = (a == b, a != b, o, Some(o), a < b, a <= b, a > b, a >= b, a <= b, b <= a);
    if got != want {
        viol!("comparing {} with {}: {got:?}, as byte arrays {want:?}", hex(a), hex(b));
    }
    if a == b && digest(&x) != digest(&y) {
        viol!("two equal arrays hash differently: {}", hex(a));
    }
    Ok(())
}

fn views<const N: usize>(rng: &mut Rng, a: &[u8; N]) -> V<()> {
    let x = call("from", || Array::<N>::from(*a))?;
    let same = |what: &str, got: &[u8], want: &[u8]| -> V<()> {
        if got != want {
            viol!("{what} of {}: {}, expected {}", hex(a), hex(got), hex(want));
        }
        Ok(())
    };
    same("into", &raw(x)?, a)?;
    same("as_ref", call("as_ref", || -> &[u8] { x.as_ref() })?, a)?;
    same("iter", &call("iter", || x.iter().copied().collect::<Vec<u8>>())?, a)?;
    same("iter backwards", &call("iter", || x.iter().rev().copied().collect::<Vec<u8>>())?, &a.iter().rev().copied().collect::<Vec<u8>>())?;
    same("into_iter", &call("into_iter", || x.into_iter().collect::<Vec<u8>>())?, a)?;
    same("to_vec", &call("to_vec", || x.to_vec())?, a)?;
    let (n, e) = call("len", || (x.len(), x.is_empty()))?;
    if n != N || e != (N == 0) {
        viol!("an array of {N} bytes has length {n}, empty: {e}");
    }
    let (i, j) = (rng.below(N + 1), rng.below(N + 1));
    let (i, j) = (i.min(j), i.max(j));
    same("index by range", call("index", || &x[i..j])?, &a[i..j])?;
    same("index from", call("index", || &x[i..])?, &a[i..])?;
    same("index to", call("index", || &x[..j])?, &a[..j])?;
    same("index full", call("index", || &x[..])?, &a[..])?;
    for i in [0, N - 1, rng.below(N), N, N + rng.below(300), usize::MAX] {
        let got = call("get", || x.get(i).copied())?;
        if got != a.get(i).copied() {
            viol!("get({i}) of {}: {got:?}", hex(a));
        }
        let got = lib(|| Ok(x[i]));
        match (got, a.get(i)) {
            (Ok(v), Some(w)) if v == *w => {}
            (Err(Fail::Panic(_)), None) => {}
            (got, w) => viol!("index {i} of {}: {got:?}, expected {w:?}", hex(a)),
        }
    }
    if let Some(b) = a.first() {
        if call("first", || x.first().copied())? != Some(*b) || call("last", || x.last().copied())? != a.last().copied() {
            viol!("first or last byte of {}", hex(a));
        }
    }
    Ok(())
}

/// A random sequence of changes, on the array and on the bytes.
fn changes<const N: usize>(rng: &mut Rng) -> V<u64> {
    let mut x = call("default", Array::<N>::default_or_zero)?;
    let mut a = [0_u8; N];
    let mut saved: Vec<(Array<N>, [u8; N])> = vec![(x, a)];
    let steps = rng.range(1, 24);
    for _ in 0..steps {
        let (i, v) = (rng.below(N), rng.u64() as u8);
        let j = rng.range(i, N);
        match rng.below(9) {
            0 | 1 => {
                call("change by index", || x[i] = v)?;
                a[i] = v;
            }
            2 => {
                let b = rng.bytes(j - i);
                call("change by range", || x[i..j].copy_from_slice(&b))?;
                a[i..j].copy_from_slice(&b);
            }
            3 => {
                call("fill", || x[i..].fill(v))?;
                a[i..].fill(v);
            }
            4 => {
                call("iter_mut", || x.iter_mut().enumerate().for_each(|(k, b)| *b ^= (k as u8) & v))?;
                a.iter_mut().enumerate().for_each(|(k, b)| *b ^= (k as u8) & v);
            }
            5 => {
                let k = rng.below(N);
                call("swap", || x.swap(i, k))?;
                a.swap(i, k);
            }
            6 => {
                call("reverse", || x.reverse())?;
                a.reverse();
            }
            7 => saved.push((call("copy", || x)?, a)),
            _ => {
                let k = rng.below(saved.len());
                x = call("clone", || saved[k].0.clone())?;
                a = saved[k].1;
            }
        }
        if raw(x)? != a {
            viol!("after a change: {} instead of {}", hex(&raw(x)?), hex(&a));
        }
        compare(&raw(x)?, &a)?;
    }
    // Copies are on their own
    for (y, b) in &saved {
        if raw(*y)? != *b {
            viol!("a copy changed with its original: {} instead of {}", hex(&raw(*y)?), hex(b));
        }
    }
    Ok(steps as u64)
}

fn collections<const N: usize>(rng: &mut Rng) -> V<()> {
    let size = rng.range(1, 60);
    let f = rng.below(gen::FAMILIES);
    let mut keys = gen::pool::<N>(rng, f, size);
    keys.extend_from_within(..rng.below(keys.len()));
    let arr: Vec<Array<N>> = keys.iter().map(|k| Array::<N>::from(*k)).collect();
    // Sorted as the byte arrays are
    let mut s = keys.clone();
    s.sort();
    let mut t = arr.clone();
    call("sort", || t.sort())?;
    let mut u = arr.clone();
    call("sort_unstable", || u.sort_unstable())?;
    for v in [&t, &u] {
        for (x, k) in v.iter().zip(&s) {
            if raw(*x)? != *k {
                viol!("sorting {} keys gives {} where it should be {}", s.len(), hex(&raw(*x)?), hex(k));
            }
        }
    }
    let k = *rng.pick(&keys);
    let probe = if rng.chance(1, 2) { k } else { gen::near(rng, &k) };
    let px = Array::<N>::from(probe);
    if call("binary search", || t.binary_search(&px).is_ok())? != s.binary_search(&probe).is_ok() {
        viol!("searching {} in sorted keys", hex(&probe));
    }
    // Keys of maps
    let (mut h, mut b) = (HashMap::new(), BTreeMap::new());
    let (mut hw, mut hs, mut bs) = (BTreeMap::new(), HashSet::new(), BTreeSet::new());
    for (i, (k, x)) in keys.iter().zip(&arr).enumerate() {
        let old = hw.insert(*k, i);
        if call("map insert", || (h.insert(*x, i), b.insert(*x, i)))? != (old, old) {
            viol!("a map does not find {} again", hex(k));
        }
        call("set insert", || (hs.insert(*x), bs.insert(*x)))?;
    }
    if h.len() != hw.len() || b.len() != hw.len() || hs.len() != hw.len() || bs.len() != hw.len() {
        viol!("maps of {} different keys have {}, {}, {} and {} entries", hw.len(), h.len(), b.len(), hs.len(), bs.len());
    }
    for (k, i) in &hw {
        let x = Array::<N>::from(*k);
        if call("map get", || (h.get(&x) == Some(i), b.get(&x) == Some(i)))? != (true, true) {
            viol!("a map does not find {}", hex(k));
        }
    }
    if call("map get", || (h.contains_key(&px), b.contains_key(&px)))? != (hw.contains_key(&probe), hw.contains_key(&probe)) {
        viol!("a map is wrong about {}", hex(&probe));
    }
    let order: Vec<Array<N>> = bs.into_iter().collect();
    for w in order.windows(2) {
        if w[0].cmp(&w[1]) != Ordering::Less {
            viol!("a sorted set is out of order");
        }
    }
    Ok(())
}

trait DefaultOrZero {
    fn default_or_zero() -> Self;
}

#[cfg(feature = "bincode")]
impl<const N: usize> DefaultOrZero for Array<N> {
    fn default_or_zero() -> Self {
        Self::default()
    }
}

#[cfg(not(feature = "bincode"))]
impl<const N: usize> DefaultOrZero for Array<N> {
    fn default_or_zero() -> Self {
        [0; N]
    }
}

#[cfg(feature = "bincode")]
fn formats<const N: usize>(rng: &mut Rng, a: &[u8; N]) -> V<u64> {
    use serde::de::value::{BytesDeserializer, Error as ValueError, SeqDeserializer};
    use serde::Deserialize;
    let x = Array::<N>::from(*a);
    let bytes = match lib(|| bincode::serialize(&x).map_err(|e| starling::traits::Exception::new(&e.to_string()))) {
        Ok(b) => b,
        Err(e) => viol!("serializing {}: {e}", hex(a)),
    };
    let back = |b: &[u8]| lib(|| bincode::deserialize::<Array<N>>(b).map_err(|e| starling::traits::Exception::new(&e.to_string())));
    match back(&bytes) {
        Ok(y) if raw(y)? == *a => {}
        other => viol!("{} comes back from its serialized form as {other:?}", hex(a)),
    }
    let cut = rng.below(bytes.len());
    match back(&bytes[..cut]) {
        Err(Fail::Err(_)) => {}
        other => viol!("a serialized form of {N} bytes cut to {cut} of {} bytes: {other:?}", bytes.len()),
    }
    // As any format would hand it over: as a sequence
    let n = match rng.below(4) {
        0 => N,
        1 => N.saturating_sub(1),
        2 => N + 1,
        _ => rng.below(2 * N + 3),
    };
    let mut v = a.to_vec();
    while v.len() < n {
        v.push(if rng.chance(1, 2) { 0 } else { rng.u64() as u8 });
    }
    v.truncate(n);
    let got = lib(|| {
        Array::<N>::deserialize(SeqDeserializer::<_, ValueError>::new(v.iter().copied())).map_err(|e| starling::traits::Exception::new(&e.to_string()))
    });
    match got {
        Ok(y) if n == N && raw(y)? == *a => {}
        Err(Fail::Err(_)) if n != N => {}
        other => viol!("a sequence of {n} elements as an array of {N}: {other:?} from {}", hex(&v)),
    }
    // Elements that are no bytes
    let mut w: Vec<u64> = a.iter().map(|b| u64::from(*b)).collect();
    let i = rng.below(N);
    w[i] = *rng.pick(&[256, 257, 300, 511, 512, 65_536, u64::from(u32::MAX), u64::MAX]);
    let got = lib(|| {
        Array::<N>::deserialize(SeqDeserializer::<_, ValueError>::new(w.iter().copied())).map_err(|e| starling::traits::Exception::new(&e.to_string()))
    });
    match got {
        Err(Fail::Err(_)) => {}
        other => viol!("a sequence with an element {}: {other:?}", w[i]),
    }
    // ... or as bytes of the right length; a format that does may also be refused
    let got = lib(|| {
        Array::<N>::deserialize(BytesDeserializer::<ValueError>::new(a)).map_err(|e| starling::traits::Exception::new(&e.to_string()))
    });
    match got {
        Ok(y) if raw(y)? == *a => {}
        Err(Fail::Err(_)) => {}
        other => viol!("the bytes {} as an array: {other:?}", hex(a)),
    }
    Ok(5)
}

#[cfg(not(feature = "bincode"))]
fn formats<const N: usize>(_: &mut Rng, _: &[u8; N]) -> V<u64> {
    Ok(0)
}

pub fn case<const N: usize>(seed: u64, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let mut fp = mix(&[N as u64]);
    for _ in 0..8 {
        let (a, b) = pair::<N>(&mut rng);
        fp = mon::rng::mix_bytes(fp, &[&a[..], &b[..]].concat());
        compare(&a, &b)?;
        compare(&b, &a)?;
        compare(&a, &a)?;
        views(&mut rng, &a)?;
        st.add("pairs_compared", 3);
        st.add("serialized_forms_checked", formats(&mut rng, &a)?);
    }
    st.add("changes_followed", changes::<N>(&mut rng)?);
    collections::<N>(&mut rng)?;
    st.max("widest_array", N as u64);
    st.evaluations += 1;
    st.cases.insert(fp);
    if st.samples.len() < 3 {
        st.samples.push(format!("N={N}: 8 pairs, a sequence of changes, and maps of arrays"));
    }
    Ok(())
}
