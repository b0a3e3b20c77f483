//! Key and value generation.

use crate::intern;
use crate::model::bit;
use crate::rng::Rng;

fn flip<const N: usize>(k: &mut [u8; N], i: usize) {
    k[i / 8] ^= 0x80 >> (i % 8);
}

pub fn with_flip<const N: usize>(k: &[u8; N], i: usize) -> [u8; N] {
    let mut k = *k;
    flip(&mut k, i);
    k
}

/// A bit position, with a liking for byte boundaries and both ends.
pub fn bit_pos<const N: usize>(rng: &mut Rng) -> usize {
    let bits = N * 8;
    match rng.below(6) {
        0 => rng.below(bits.min(24)),
        1 => bits - 1 - rng.below(bits.min(12)),
        2 => {
            let b = rng.below(N) * 8;
            if rng.chance(1, 2) {
                b
            } else {
                b + 7
            }
        }
        _ => rng.below(bits),
    }
}

pub fn base<const N: usize>(rng: &mut Rng) -> [u8; N] {
    let mut k = [0; N];
    match rng.below(5) {
        0 => {}
        1 => k = [0xff; N],
        2 => k = [if rng.chance(1, 2) { 0x55 } else { 0xaa }; N],
        _ => rng.fill(&mut k),
    }
    k
}

pub const FAMILIES: usize = 10;

/// A set of different keys, of at most `size`.
pub fn pool<const N: usize>(rng: &mut Rng, family: usize, size: usize) -> Vec<[u8; N]> {
    let bits = N * 8;
    let mut v: Vec<[u8; N]> = vec![];
    match family {
        // Uniform
        0 => {
            for _ in 0..size {
                let mut k = [0; N];
                rng.fill(&mut k);
                v.push(k);
            }
        }
        // A subcube: all combinations of a few bit positions
        1 => {
            let b = base::<N>(rng);
            let mut pos: Vec<usize> = (0..rng.range(2, 7)).map(|_| bit_pos::<N>(rng)).collect();
            pos.sort_unstable();
            pos.dedup();
            for m in 0..(1_usize << pos.len()) {
                let mut k = b;
                for (i, p) in pos.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        flip(&mut k, *p);
                    }
                }
                v.push(k);
            }
        }
        // A comb: one bit set each (deep chain), perhaps with a base
        2 => {
            let b = base::<N>(rng);
            let step = *rng.pick(&[1, 1, 2, 3, 7, 8, 9]);
            let mut i = rng.below(8.min(bits));
            while i < bits && v.len() < size {
                v.push(with_flip(&b, i));
                i += step;
            }
            v.push(b);
        }
        // Staircase: ones up to a position
        3 => {
            let mut k = [0; N];
            v.push(k);
            let start = if rng.chance(1, 2) { 0 } else { rng.below(bits) };
            for i in start..bits {
                if v.len() >= size {
                    break;
                }
                flip(&mut k, i);
                v.push(k);
            }
        }
        // Clusters: a few bases, each with a few flipped bits
        4 => {
            let bases: Vec<[u8; N]> = (0..rng.range(1, 4)).map(|_| base(rng)).collect();
            for _ in 0..size {
                let mut k = *rng.pick(&bases);
                for _ in 0..rng.below(4) {
                    let p = bit_pos::<N>(rng);
                    flip(&mut k, p);
                }
                v.push(k);
            }
        }
        // Small numbers in the last, first or some byte
        5 => {
            let b = base::<N>(rng);
            let at = match rng.below(3) {
                0 => N - 1,
                1 => 0,
                _ => rng.below(N),
            };
            let from = rng.below(200);
            for i in 0..size.min(56) {
                let mut k = b;
                k[at] = (from + i) as u8;
                v.push(k);
            }
        }
        // Two adjacent bytes
        6 => {
            let b = base::<N>(rng);
            let at = rng.below(N);
            for _ in 0..size {
                let mut k = b;
                k[at] = *rng.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff]);
                if at + 1 < N {
                    k[at + 1] = *rng.pick(&[0, 1, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xff]);
                }
                v.push(k);
            }
        }
        // Grown one by one, each leaving an earlier key at a random bit
        7 => {
            v.push(base(rng));
            while v.len() < size {
                let mut k = *rng.pick(&v);
                let p = bit_pos::<N>(rng);
                flip(&mut k, p);
                if rng.chance(1, 2) {
                    for i in p + 1..bits {
                        if rng.chance(1, 2) {
                            flip(&mut k, i);
                        }
                    }
                }
                v.push(k);
            }
        }
        // Recorded hashes (and uniform keys, if there are none yet)
        8 => {
            for _ in 0..size {
                let n = intern::len();
                let mut k = [0; N];
                rng.fill(&mut k);
                if n > 0 && rng.chance(3, 4) {
                    let i = intern::input(rng.below(n));
                    if let Some(o) = intern::output(N, &i) {
                        k.copy_from_slice(&o);
                    }
                }
                v.push(k);
            }
        }
        // Numbers counting upwards over the whole key, big endian, from a base
        _ => {
            let mut k = base::<N>(rng);
            for _ in 0..size {
                v.push(k);
                for b in k.iter_mut().rev() {
                    *b = b.wrapping_add(1);
                    if *b != 0 {
                        break;
                    }
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    rng.shuffle(&mut v);
    v.truncate(size.max(2));
    v
}

/// A mixture of families.
pub fn mixed<const N: usize>(rng: &mut Rng, size: usize) -> Vec<[u8; N]> {
    let mut v = vec![];
    let parts = if rng.chance(2, 3) { 1 } else { rng.range(2, 3) };
    for _ in 0..parts {
        let f = rng.below(FAMILIES);
        v.extend(pool::<N>(rng, f, size.div_ceil(parts)));
    }
    v.sort_unstable();
    v.dedup();
    rng.shuffle(&mut v);
    v
}

/// Many keys.
pub fn many<const N: usize>(rng: &mut Rng, size: usize) -> Vec<[u8; N]> {
    let mut v = vec![];
    if N >= 8 && rng.chance(1, 3) {
        // Nearly all of them on one side, at some depth
        let top = rng.u64() as u8;
        while v.len() < size {
            let mut k = [0; N];
            rng.fill(&mut k);
            if v.len() >= 6 {
                k[0] = top;
            }
            v.push(k);
        }
        rng.shuffle(&mut v);
        return v;
    }
    for _ in 0..4 {
        let f = *rng.pick(&[0, 0, 4, 7, 9]);
        v.extend(pool::<N>(rng, f, if f == 7 { size.min(800) } else { size }));
        if v.len() >= size {
            break;
        }
    }
    v.sort_unstable();
    v.dedup();
    rng.shuffle(&mut v);
    v.truncate(size);
    v
}

/// Many keys that differ within a few neighbouring bits, sorted.
pub fn dense<const N: usize>(rng: &mut Rng, size: usize) -> Vec<[u8; N]> {
    let bits = N * 8;
    let width = (bits - 1).min(11);
    let at = rng.below(bits - width + 1);
    let b = base::<N>(rng);
    let rest = rng.chance(1, 2);
    let mut v = vec![];
    for _ in 0..size {
        let mut k = b;
        for i in at..bits {
            if (i < at + width || rest) && rng.chance(1, 2) {
                flip(&mut k, i);
            }
        }
        v.push(k);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Keys whose tree is as deep as the number of keys allows, or nearly.
pub fn deep<const N: usize>(rng: &mut Rng, size: usize) -> Vec<[u8; N]> {
    let mut v = vec![];
    let b = if rng.chance(1, 2) { [0; N] } else { base::<N>(rng) };
    let size = size.min(N * 8 + 1);
    let from = rng.below(N * 8 + 2 - size);
    let stairs = rng.chance(1, 2);
    let mut k = b;
    v.push(k);
    for i in from..(from + size - 1).min(N * 8) {
        if stairs {
            flip(&mut k, i);
            v.push(k);
        } else {
            v.push(with_flip(&b, i));
        }
    }
    v.sort_unstable();
    v.dedup();
    rng.shuffle(&mut v);
    v
}

/// A key near `k`: it leaves it at a random bit.
pub fn near<const N: usize>(rng: &mut Rng, k: &[u8; N]) -> [u8; N] {
    let mut k = *k;
    let p = bit_pos::<N>(rng);
    flip(&mut k, p);
    if rng.chance(1, 3) {
        for i in p + 1..N * 8 {
            if rng.chance(1, 2) {
                flip(&mut k, i);
            }
        }
    }
    k
}

pub fn value<const N: usize>(rng: &mut Rng, keys: &[[u8; N]], unique: &mut u64) -> Vec<u8> {
    *unique += 1;
    match rng.below(3000) {
        // Around the sizes at which lengths need another byte, or buffers another page
        0..=19 => {
            let n = *rng.pick(&[251, 252, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097]);
            return rng.bytes(n);
        }
        20..=23 => {
            let n = *rng.pick(&[8192, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 70_001]);
            return rng.bytes(n);
        }
        24 => {
            let n = rng.range(100_000, 300_000);
            return rng.bytes(n);
        }
        _ => {}
    }
    match rng.below(16) {
        0 => vec![],
        1 => vec![0],
        2 => vec![rng.below(3) as u8],
        3 if !keys.is_empty() => rng.pick(keys).to_vec(),
        4 | 5 => {
            // A piece of something that was hashed
            let n = intern::len();
            if n == 0 {
                return vec![1];
            }
            let mut i = intern::input(rng.below(n));
            match rng.below(4) {
                0 => {
                    i.drain(..(1 + N).min(i.len()));
                }
                1 => {
                    i.drain(..N.min(i.len()));
                }
                2 => {
                    i.drain(..1.min(i.len()));
                }
                _ => {}
            }
            i.truncate(200);
            i
        }
        6 => {
            // A recorded hash
            let n = intern::len();
            if n == 0 {
                return vec![2];
            }
            let i = intern::input(rng.below(n));
            intern::output(N, &i).unwrap_or_default()
        }
        7 => {
            let n = rng.range(1, 250);
            rng.bytes(n)
        }
        _ => {
            let mut v = b"v".to_vec();
            v.extend_from_slice(&unique.to_be_bytes());
            v
        }
    }
}

pub fn differ_only_late<const N: usize>(a: &[u8; N], b: &[u8; N]) -> bool {
    (0..N * 8 - 1).all(|i| bit(a, i) == bit(b, i))
}

/// A value that differs little from another one.
pub fn near_value(rng: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match rng.below(4) {
        0 => v.push(*rng.pick(&[0, 1, 0xff])),
        1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            let i = v.len() - 1 - rng.below(v.len().min(4));
            v[i] ^= 1 << rng.below(8);
        }
        _ if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(8);
        }
        _ => v.push(0),
    }
    v
}

/// A hash that agrees with another one in all but a bit, a byte or one end.
pub fn near_hash<const N: usize>(rng: &mut Rng, h: &[u8; N]) -> [u8; N] {
    let mut h = *h;
    match rng.below(4) {
        0 | 1 => {
            let b = rng.below(N * 8);
            h = with_flip(&h, b);
        }
        2 => {
            let i = rng.below(N);
            h[i] = h[i].wrapping_add(1 + rng.below(255) as u8);
        }
        _ => {
            let i = rng.below(N);
            let bytes = rng.bytes(N);
            if rng.chance(1, 2) {
                h[i..].copy_from_slice(&bytes[i..]);
            } else {
                h[..=i].copy_from_slice(&bytes[..=i]);
            }
        }
    }
    h
}
