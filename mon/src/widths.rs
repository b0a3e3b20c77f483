//! C21: the same monitors at many key widths, and a monitor of its own: every single bit and byte
//! of the key counts.

use mon::db::{lock, shared, Core, MODES};
use mon::engine::{hex, Eng, Stats, V};
use mon::gen;
use mon::intern;
use mon::rng::{mix, Rng};
use mon::tree::{build, Fail, Spec};
use mon::{props_a as a, props_b as b, props_d as d, report, viol};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

/// Which bits of the key are looked at in this case: all, or (wide keys) both ends, the byte
/// boundaries and some others.
fn positions(rng: &mut Rng, bits: usize, max: usize) -> Vec<usize> {
    if bits <= max {
        return (0..bits).collect();
    }
    let mut v: Vec<usize> = (0..12).chain(bits - 12..bits).collect();
    while v.len() < max {
        let p = rng.below(bits);
        v.push(if rng.chance(1, 3) {
            p / 8 * 8 + 7 * rng.below(2)
        } else {
            p
        });
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Every bit of a key counts, whatever the operation.
fn every_bit<const N: usize>(seed: u64, thorough: bool, st: &mut Stats) -> V<()> {
    let mut rng = Rng::new(seed);
    let spec = if N >= 8 {
        *rng.pick(&[Spec::LibIntern, Spec::MyIntern, Spec::LibHash, Spec::Mem])
    } else {
        *rng.pick(&[Spec::LibIntern, Spec::MyIntern])
    };
    let mode = *rng.pick(&MODES);
    intern::reset(rng.u64());
    let core = shared(Core::<N>::new(mode));
    let depth = *rng.pick(&[N * 8, N * 8, N * 8 + 1, usize::MAX]);
    let mut t = match build(spec, &core, depth) {
        Ok(t) => t,
        Err(f) => viol!("N={N}: cannot build a tree: {f}"),
    };
    let bits = N * 8;
    let base = gen::base::<N>(&mut rng);
    let most = if N > 1000 { 36 } else if thorough { 600 } else { 160 };
    let pos = positions(&mut rng, bits, most);
    // A hash of one byte tells 256 nodes apart
    let pos: Vec<usize> = if N == 1 { pos.into_iter().take(8).collect() } else { pos };
    let val = |i: usize| vec![i as u8, (i >> 8) as u8];
    let mut roots: HashMap<[u8; N], usize> = HashMap::new();
    let mut log = String::new();
    let _ = write!(log, "N={N} {spec:?} {mode:?} depth={depth} base={}", hex(&base));
    let over = || intern::exhausted();
    macro_rules! must {
        ($e:expr, $($a:tt)*) => {
            match $e {
                Ok(v) => v,
                Err(_) if over() => return Ok(()),
                Err(f) => viol!("{log}: {} failed: {f}", format!($($a)*)),
            }
        };
    }
    // Pairs of keys that differ in one bit
    for &p in &pos {
        let k = gen::with_flip(&base, p);
        let keys = if rng.chance(1, 2) { [base, k] } else { [k, base] };
        let vals: Vec<Vec<u8>> = keys
            .iter()
            .map(|x| if *x == base { b"base".to_vec() } else { val(p) })
            .collect();
        let r = must!(t.insert(None, &keys, &vals), "inserting {} and {}", hex(&base), hex(&k));
        let first = must!(t.insert_one(None, &keys[0], &vals[0]), "inserting {}", hex(&keys[0]));
        // The second key is absent so far
        match t.get_one(&first, &keys[1]) {
            Ok(None) => {}
            o => viol!(
                "{log}: with only {} stored, reading {} gives {o:?}",
                hex(&keys[0]),
                hex(&keys[1])
            ),
        }
        match t.prove(&first, &keys[1]) {
            Err(Fail::Err(_)) => {}
            o => viol!(
                "{log}: with only {} stored, proving {} gives {o:?}",
                hex(&keys[0]),
                hex(&keys[1])
            ),
        }
        let r2 = must!(
            t.insert_one(Some(&first), &keys[1], &vals[1]),
            "inserting {} next to {}",
            hex(&keys[1]),
            hex(&keys[0])
        );
        if r2 != r && !over() {
            viol!(
                "{log}: {} and {} give root {} in one batch and {} one after the other",
                hex(&base),
                hex(&k),
                hex(&r),
                hex(&r2)
            );
        }
        if let Some(q) = roots.insert(r, p) {
            if !over() {
                viol!("{log}: the same root for the base with bit {p} flipped and with bit {q} flipped");
            }
        }
        let got = must!(t.get(&r, &keys), "reading {} and {}", hex(&base), hex(&k));
        for (x, v) in keys.iter().zip(&vals) {
            let want = Some(v.clone());
            let one = must!(t.get_one(&r, x), "reading {}", hex(x));
            let many = got.iter().find(|(y, _)| y == x).and_then(|(_, v)| v.clone());
            if (one != want || many != want) && !over() {
                viol!(
                    "{log}: next to bit {p} flipped, {} reads {one:?} and in a batch {many:?}, not {}",
                    hex(x),
                    hex(v)
                );
            }
            let proof = must!(t.prove(&r, x), "proving {}", hex(x));
            must!(t.verify(&r, x, v, &proof), "verifying the proof of {}", hex(x));
            let other = if *x == base { k } else { base };
            if t.verify(&r, &other, v, &proof).is_ok() && !over() {
                viol!("{log}: a proof for {} is accepted for {}", hex(x), hex(&other));
            }
            if t.verify(&gen::with_flip(&r, p), x, v, &proof).is_ok() && !over() {
                viol!(
                    "{log}: a proof under root {} is accepted for the root with bit {p} flipped",
                    hex(&r)
                );
            }
        }
        if roots.len() > 1 || rng.chance(1, 2) {
            // Any other single bit leads to an absent key
            for _ in 0..4 {
                let q = gen::bit_pos::<N>(&mut rng);
                let absent = gen::with_flip(if rng.chance(1, 2) { &base } else { &k }, q);
                if absent == base || absent == k {
                    continue;
                }
                match t.get_one(&r, &absent) {
                    Ok(None) => {}
                    _ if over() => return Ok(()),
                    o => viol!(
                        "{log}: with {} and {} stored, reading {} gives {o:?}",
                        hex(&base),
                        hex(&k),
                        hex(&absent)
                    ),
                }
                match t.get(&r, &[absent]) {
                    Ok(g) if g == vec![(absent, None)] => {}
                    _ if over() => return Ok(()),
                    o => viol!(
                        "{log}: with {} and {} stored, batch reading {} gives {o:?}",
                        hex(&base),
                        hex(&k),
                        hex(&absent)
                    ),
                }
            }
        }
        for (x, times) in [(r, 2), (first, 1)] {
            for _ in 0..times {
                must!(t.remove(&x), "removing {}", hex(&x));
            }
        }
        if let Ok(Some(_)) = t.get_one(&r, &k) {
            if !over() {
                viol!("{log}: a removed root can still be read");
            }
        }
        st.add("bits_told_apart", 1);
    }
    // All of them together, a path through every bit
    let mut all: BTreeMap<[u8; N], Vec<u8>> = pos.iter().map(|p| (gen::with_flip(&base, *p), val(*p))).collect();
    all.insert(base, b"base".to_vec());
    let mut keys: Vec<[u8; N]> = all.keys().copied().collect();
    rng.shuffle(&mut keys);
    let vals: Vec<Vec<u8>> = keys.iter().map(|k| all[k].clone()).collect();
    let whole = must!(t.insert(None, &keys, &vals), "inserting {} keys", keys.len());
    let cut = rng.range(1, keys.len() - 1);
    let half = must!(t.insert(None, &keys[..cut], &vals[..cut]), "inserting {cut} keys");
    let again = must!(
        t.insert(Some(&half), &keys[cut..], &vals[cut..]),
        "inserting the other {} keys",
        keys.len() - cut
    );
    if again != whole && !over() {
        viol!(
            "{log}: all {} keys at once give root {}, in two batches {}",
            keys.len(),
            hex(&whole),
            hex(&again)
        );
    }
    let got = must!(t.get(&whole, &keys), "reading {} keys", keys.len());
    for (k, v) in got {
        if v.as_ref() != all.get(&k) && !over() {
            viol!("{log}: with {} keys, {} reads {v:?}", keys.len(), hex(&k));
        }
    }
    for (k, v) in &all {
        let one = must!(t.get_one(&whole, k), "reading {}", hex(k));
        if one.as_ref() != Some(v) && !over() {
            viol!("{log}: with {} keys, {} alone reads {one:?}", keys.len(), hex(k));
        }
        if rng.chance(1, 4) {
            let proof = must!(t.prove(&whole, k), "proving {}", hex(k));
            must!(t.verify(&whole, k, v, &proof), "verifying the proof of {}", hex(k));
            st.max("longest_proof", proof.len() as u64);
        }
    }
    for (x, times) in [(half, 1), (whole, 2)] {
        for _ in 0..times {
            must!(t.remove(&x), "removing {}", hex(&x));
        }
    }
    if !matches!(spec, Spec::Mem) && !over() {
        let c = lock(&core);
        if !c.nodes.is_empty() {
            viol!("{log}: {} nodes remain after every root was removed", c.nodes.len());
        }
    }
    st.evaluations += 1;
    st.cases.insert(mix(&[seed, N as u64]));
    st.add("monitor_every_bit", 1);
    if st.samples.len() < 4 {
        st.samples.push(format!(
            "every bit: {log}, {} positions, {} keys together",
            pos.len(),
            keys.len()
        ));
    }
    Ok(())
}

/// A history under one of the other monitors.
fn history<const N: usize>(case: u64, _thorough: bool, st: &mut Stats) -> V<()> {
    let x = mix(&[case, 9]) % 6 + 2;
    let what = match x {
        2 => "C01",
        3 => "C03",
        4 => "C04",
        5 => "C05",
        6 => "C07",
        _ => "C18",
    };
    let r = match x {
        2 => a::c01_on(Eng::<N>::random_any(case)?, false, st),
        3 => a::c03_on(Eng::<N>::random_any(case)?, false, st),
        4 => a::c04::<N>(case, false, st),
        5 => a::c05_on(Eng::<N>::random_any(case)?, false, st),
        6 => {
            if case % 2 == 0 {
                a::c07_on(Eng::<N>::random_any(case)?, false, st)
            } else {
                b::c11::<N>(case, false, st)
            }
        }
        _ => d::c18::<N>(case, false, st),
    };
    st.add("monitor_histories", 1);
    r.map_err(|v| mon::engine::Viol(format!("at key width {N}, by the rules of {what}: {}", v.0)))
}

macro_rules! at {
    ($f:ident, $case:expr, $th:expr, $st:expr, $($n:literal)*) => {{
        const WIDTHS: &[usize] = &[$($n),*];
        let w = WIDTHS[(mix(&[$case, 41]) % WIDTHS.len() as u64) as usize];
        $st.max("widest_key_bytes", w as u64);
        match w {
            $($n => $f::<$n>($case, $th, $st),)*
            _ => unreachable!(),
        }
    }};
}

fn main() {
    let args = report::args();
    let code = report::run(&args, move |case, th, st: &mut Stats| -> V<()> {
        // (widths other than these have their histories in the other checks)
        #[cfg(all(feature = "wa", not(feature = "wb")))]
        return if mix(&[case, 9]) % 3 == 0 {
            at!(every_bit, case, th, st, 1 3 7 9 16 31 33 63 65 128 255 1025)
        } else {
            at!(history, case, th, st, 1 7 17 65)
        };
        #[cfg(all(feature = "wb", not(feature = "wa")))]
        return if mix(&[case, 9]) % 3 == 0 {
            at!(every_bit, case, th, st, 2 5 8 15 17 24 32 48 64 129 257 8200)
        } else {
            at!(history, case, th, st, 5 9 31 129)
        };
        #[cfg(not(any(all(feature = "wa", not(feature = "wb")), all(feature = "wb", not(feature = "wa")))))]
        return if mix(&[case, 9]) % 3 == 0 {
            at!(every_bit, case, th, st, 1 2 3 5 7 8 9 15 16 17 24 31 32 33 48 63 64 65 128 129 255 257 1025 8200)
        } else {
            at!(history, case, th, st, 1 5 7 9 17 31 65 129)
        };
    });
    std::process::exit(code);
}
