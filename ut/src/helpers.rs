//! The public helpers on bits and keys, compared with bit-by-bit definitions.

use mon::engine::{hex, Stats, V};
use mon::gen;
use mon::model::{bit, first_diff};
use mon::rng::{mix, mix_bytes, Rng};
use mon::tree::{lib, Fail};
use mon::viol;
use starling::utils::tree_ref::TreeRef;
use starling::utils::tree_utils as u;
use starling::Array;
use std::collections::{BTreeMap, BTreeSet};

fn arr<const N: usize>(k: &[[u8; N]]) -> Vec<Array<N>> {
    k.iter().map(|k| Array::<N>::from(*k)).collect()
}

fn raw<const N: usize>(k: &[Array<N>]) -> Vec<[u8; N]> {
    k.iter().map(|k| (*k).into()).collect()
}

fn show<const N: usize>(k: &[[u8; N]]) -> String {
    let v: Vec<String> = k.iter().take(6).map(|k| hex(k)).collect();
    format!("{} keys {}", k.len(), v.join(" "))
}

/// Different keys, sorted, that share a prefix of some length with each other (often none).
fn keys<const N: usize>(rng: &mut Rng) -> Vec<[u8; N]> {
    let size = match rng.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => rng.range(1, 40),
    };
    let mut v = gen::mixed::<N>(rng, size);
    if rng.chance(1, 3) {
        // All in one place
        let p = rng.below(N * 8);
        let b = gen::base::<N>(rng);
        for k in &mut v {
            for i in 0..p {
                if bit(k, i) != bit(&b, i) {
                    *k = gen::with_flip(k, i);
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v.truncate(size.max(1));
    v
}

/// Many keys that first differ in one bit, with a number of zeros there that is likely to be special.
fn many<const N: usize>(rng: &mut Rng) -> Vec<[u8; N]> {
    let bits = N * 8;
    let width = (bits - 1).min(10);
    let at = rng.below(bits - width);
    let room = (1_usize << width).min(1 << (bits - at - 1).min(20));
    let mut count = |rng: &mut Rng| {
        let n = match rng.below(3) {
            0 => (1 << rng.below(11)) + rng.below(3),
            1 => rng.range(1, 20),
            _ => rng.range(1, 600),
        };
        n.saturating_sub(1).clamp(1, room)
    };
    let base = gen::base::<N>(rng);
    let mut v = vec![];
    for one in [false, true] {
        let n = count(rng);
        let first = rng.below(room - n + 1);
        for i in first..first + n {
            let mut k = base;
            for (b, on) in std::iter::once((at, one)).chain((0..width).map(|j| (at + 1 + j, i >> (width - 1 - j) & 1 == 1))) {
                if b < bits && bit(&k, b) != on {
                    k = gen::with_flip(&k, b);
                }
            }
            v.push(k);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The number of leading bits that all of them share.
fn shared<const N: usize>(v: &[[u8; N]]) -> usize {
    v.iter().map(|k| first_diff(k, &v[0])).min().unwrap_or(N * 8)
}

fn zero<const N: usize>(rng: &mut Rng, k: &[u8; N]) -> V<()> {
    let bits = N * 8;
    let mut at: Vec<usize> = (0..bits).collect();
    if bits > 64 {
        at = (0..32).map(|_| gen::bit_pos::<N>(rng)).collect();
    }
    at.extend([bits, bits + 1, bits + 7, bits + 8, bits + rng.below(1000), usize::MAX, usize::MAX / 8 * 8]);
    for b in at {
        match lib(|| u::choose_zero(Array::<N>::from(*k), b)) {
            Ok(z) if b < bits && z != bit(k, b) => {}
            Err(Fail::Err(_)) if b >= bits => {}
            other => viol!("choose_zero of {} at bit {b}: {other:?}", hex(k)),
        }
    }
    Ok(())
}

fn pairs<const N: usize>(rng: &mut Rng, v: &[[u8; N]]) -> V<u64> {
    let s = shared(v);
    let a = arr(v);
    let mut n = 0;
    for b in [s, rng.below(s + 1), 0, N * 8, N * 8 + rng.below(20)] {
        let got = lib(|| u::split_pairs(&a, b).map(|(x, y)| (raw(x), raw(y))));
        if b >= N * 8 {
            match got {
                Err(Fail::Err(_)) => {}
                other => viol!("split_pairs of {} at bit {b}: {other:?}", show(v)),
            }
        } else if b <= s {
            let want: (Vec<_>, Vec<_>) = v.iter().partition(|k| !bit(k, b));
            if got != Ok(want) {
                viol!("split_pairs of {} at bit {b} gives {got:?}", show(v));
            }
            n += 1;
        }
        let none: &[Array<N>] = &[];
        match lib(|| u::split_pairs(none, b).map(|(x, y)| (x.len(), y.len()))) {
            Ok((0, 0)) => {}
            other => viol!("split_pairs of nothing at bit {b}: {other:?}"),
        }
    }
    Ok(n)
}

fn descendants<const N: usize>(rng: &mut Rng, v: &[[u8; N]]) -> V<u64> {
    let mut all = v.to_vec();
    // A branch key near one of them, or one of them
    let k = *rng.pick(v);
    let key = match rng.below(4) {
        0 => k,
        1 => gen::base::<N>(rng),
        _ => gen::near(rng, &k),
    };
    all.push(key);
    let s = shared(&all);
    let mut n = 0;
    let a = arr(v);
    let bk = Array::<N>::from(key);
    let min = lib(|| u::calc_min_split_index(&a, &bk));
    let want = if s == N * 8 { s - 1 } else { s };
    if min != Ok(want) {
        viol!("calc_min_split_index of {} and {}: {min:?}, expected {want}", show(v), hex(&key));
    }
    for _ in 0..4 {
        let m = if rng.chance(1, 2) { want } else { rng.below(s.min(N * 8 - 1) + 1) };
        let split = match rng.below(4) {
            0 => rng.below(N * 8),
            1 => s.min(N * 8 - 1),
            2 => (first_diff(&key, rng.pick(v)) + rng.below(2)).min(N * 8 - 1),
            _ => rng.range(m, N * 8 - 1),
        };
        let got = lib(|| u::check_descendants(&a, split, &bk, m).map(raw));
        // All of them agree with the branch on the bits before `m`
        let want: Vec<[u8; N]> = v.iter().filter(|k| first_diff(k, &key) >= split).copied().collect();
        if got != Ok(want.clone()) {
            viol!("check_descendants of {} under {} at {split}, from {m}: {got:?}, expected {}", show(v), hex(&key), show(&want));
        }
        n += 1;
    }
    let none: &[Array<N>] = &[];
    match lib(|| u::calc_min_split_index(none, &bk)) {
        Err(Fail::Err(_)) => {}
        other => viol!("calc_min_split_index of no keys: {other:?}"),
    }
    Ok(n)
}

fn queue<const N: usize>(rng: &mut Rng, v: &[[u8; N]]) -> V<u64> {
    let mut ks = v.to_vec();
    let twice = rng.chance(1, 6) && N > 0;
    if twice {
        let i = rng.below(ks.len());
        ks.insert(i, ks[i]);
    }
    let mut refs: Vec<TreeRef<N>> = vec![];
    for (i, k) in ks.iter().enumerate() {
        let loc = gen::base::<N>(rng);
        let (c, d) = (rng.u64(), rng.u64() as u32);
        match lib(|| Ok(TreeRef::new(Array::<N>::from(*k), Array::<N>::from(loc), c, d))) {
            Ok(r) => {
                if <[u8; N]>::from(r.key) != *k || <[u8; N]>::from(r.location) != loc || r.node_count != c || r.count != d {
                    viol!("TreeRef {i} does not hold what it was made of: {r:?}");
                }
                refs.push(r);
            }
            Err(e) => viol!("TreeRef::new: {e}"),
        }
    }
    // They are ordered by key
    let (i, j) = (rng.below(refs.len()), rng.below(refs.len()));
    let got = lib(|| Ok((refs[i].cmp(&refs[j]), refs[i].partial_cmp(&refs[j]))));
    let o = ks[i].cmp(&ks[j]);
    if got != Ok((o, Some(o))) {
        viol!("comparing references to {} and {}: {got:?}", hex(&ks[i]), hex(&ks[j]));
    }
    let mut shuffled = refs.clone();
    rng.shuffle(&mut shuffled);
    if lib(|| {
        shuffled.sort();
        Ok(())
    })
    .is_err()
        || raw(&shuffled.iter().map(|r| r.key).collect::<Vec<_>>()) != ks
    {
        viol!("sorting references to {} does not sort their keys", show(&ks));
    }
    let before = refs.clone();
    // (the map type depends on the configuration)
    let mut q = Default::default();
    let got = lib(|| u::generate_tree_ref_queue::<std::collections::hash_map::RandomState, N>(&mut refs, &mut q));
    if twice {
        return match got {
            Err(Fail::Err(_)) => Ok(1),
            other => viol!("generate_tree_ref_queue of {} with one twice: {other:?}", show(&ks)),
        };
    }
    let mut want: BTreeMap<usize, Vec<(usize, usize, usize)>> = BTreeMap::new();
    for i in 0..ks.len() - 1 {
        let s = first_diff(&ks[i], &ks[i + 1]);
        want.entry(s).or_default().push((s, i, i + 1));
    }
    let bits: BTreeSet<usize> = match got {
        Ok(s) => s.into_iter().collect(),
        Err(e) => viol!("generate_tree_ref_queue of {}: {e}", show(&ks)),
    };
    let q: BTreeMap<usize, Vec<(usize, usize, usize)>> = q.into_iter().collect();
    if bits != want.keys().copied().collect() || q != want {
        viol!("generate_tree_ref_queue of {}: positions {bits:?}, queue {q:?}, expected {want:?}", show(&ks));
    }
    if refs != before {
        viol!("generate_tree_ref_queue changed the references");
    }
    Ok(1)
}

fn leaf_map<const N: usize>(rng: &mut Rng, v: &[[u8; N]]) -> V<()> {
    let mut ks = v.to_vec();
    if rng.chance(1, 2) {
        ks.push(v[0]);
    }
    if rng.chance(1, 8) {
        ks.clear();
    }
    rng.shuffle(&mut ks);
    let a = arr(&ks);
    let m = match lib(|| Ok(u::generate_leaf_map::<Vec<u8>, N>(&a))) {
        Ok(m) => m,
        Err(e) => viol!("generate_leaf_map: {e}"),
    };
    let got: BTreeMap<[u8; N], Option<Vec<u8>>> = m.into_iter().map(|(k, v)| (k.into(), v)).collect();
    let want: BTreeMap<[u8; N], Option<Vec<u8>>> = ks.iter().map(|k| (*k, None)).collect();
    if got != want {
        viol!("generate_leaf_map of {} gives {} entries", show(&ks), got.len());
    }
    Ok(())
}

pub fn case<const N: usize>(seed: u64, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    for n in 1..=255_u8 {
        match lib(|| Ok(u::fast_log_2(n))) {
            Ok(l) if u32::from(l) == n.ilog2() => {}
            other => viol!("fast_log_2({n}): {other:?}"),
        }
    }
    let mut fp = mix(&[N as u64]);
    for _ in 0..6 {
        let v = if rng.chance(1, 8) { many::<N>(&mut rng) } else { keys::<N>(&mut rng) };
        fp = mix_bytes(fp, &v.concat());
        zero(&mut rng, &v[0])?;
        st.add("key_sets_split", pairs(&mut rng, &v)?);
        st.add("descendant_slices_checked", descendants(&mut rng, &v)?);
        st.add("queues_checked", queue(&mut rng, &v)?);
        leaf_map(&mut rng, &v)?;
        st.max("largest_key_set", v.len() as u64);
    }
    st.evaluations += 1;
    st.cases.insert(fp);
    if st.samples.len() < 3 {
        st.samples.push(format!("N={N}: six sets of keys"));
    }
    Ok(())
}
