//! An injective "hash function": equal inputs give equal outputs, different inputs always give
//! different outputs.  It records every input, so that an output can be traced back to what was
//! hashed.  With it, a root shared by two different contents is a structural confusion in the
//! tree, never an accident of the hash function.

use crate::rng::{mix_bytes, Rng};
use starling::traits::Hasher;
use starling::Array;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Table {
    seed: u64,
    by_input: HashMap<(usize, Vec<u8>), Vec<u8>>,
    by_output: HashMap<Vec<u8>, Vec<u8>>,
    pub order: Vec<Vec<u8>>,
    pub calls: u64,
    pub exhausted: bool,
    watching: bool,
    watched: Vec<Vec<u8>>,
}

thread_local! {
    static TABLE: RefCell<Table> = RefCell::new(Table::default());
}

/// Forgets everything and starts a new function.
pub fn reset(seed: u64) {
    TABLE.with(|t| {
        *t.borrow_mut() = Table {
            seed,
            ..Table::default()
        }
    });
}

pub fn exhausted() -> bool {
    TABLE.with(|t| t.borrow().exhausted)
}

pub fn calls() -> u64 {
    TABLE.with(|t| t.borrow().calls)
}

/// What was hashed to get `output`, if anything.
pub fn input_of(output: &[u8]) -> Option<Vec<u8>> {
    TABLE.with(|t| t.borrow().by_output.get(output).cloned())
}

/// The number of different inputs seen.
pub fn len() -> usize {
    TABLE.with(|t| t.borrow().order.len())
}

/// The `i`th recorded input.
pub fn input(i: usize) -> Vec<u8> {
    TABLE.with(|t| t.borrow().order[i].clone())
}

pub fn output(n: usize, input: &[u8]) -> Option<Vec<u8>> {
    TABLE.with(|t| t.borrow().by_input.get(&(n, input.to_vec())).cloned())
}

/// Starts recording outputs in the order in which they are produced.
pub fn watch() {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        t.watching = true;
        t.watched.clear();
    });
}

/// Stops recording, and returns what was recorded.
pub fn watched() -> Vec<Vec<u8>> {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        t.watching = false;
        std::mem::take(&mut t.watched)
    })
}

impl Table {
    fn hash(&mut self, n: usize, input: &[u8]) -> Vec<u8> {
        self.calls += 1;
        let out = self.hash_inner(n, input);
        if self.watching {
            self.watched.push(out.clone());
        }
        out
    }

    fn hash_inner(&mut self, n: usize, input: &[u8]) -> Vec<u8> {
        if let Some(o) = self.by_input.get(&(n, input.to_vec())) {
            return o.clone();
        }
        let mut rng = Rng::new(mix_bytes(self.seed ^ n as u64, input));
        let mut out = rng.bytes(n);
        // Outputs often begin with bytes that are meaningful elsewhere
        if n >= 3 {
            match rng.below(8) {
                0 => out[0] = b'd',
                1 => out[0] = b'l',
                2 => out[0] = b'b',
                3 => out[0] = 0,
                4 => out[0] = 0xff,
                _ => {}
            }
            if rng.chance(1, 6) {
                out[n - 1] = 0;
            }
        }
        let mut tries = 0_u32;
        while self.by_output.contains_key(&out) {
            tries += 1;
            // Next value, as a little endian counter
            for b in &mut out {
                *b = b.wrapping_add(1);
                if *b != 0 {
                    break;
                }
            }
            if n < 3 && tries > 70_000 {
                self.exhausted = true;
                break;
            }
        }
        self.by_input.insert((n, input.to_vec()), out.clone());
        self.by_output.insert(out.clone(), input.to_vec());
        self.order.push(input.to_vec());
        out
    }
}

pub struct Intern {
    buf: Vec<u8>,
}

impl<const N: usize> Hasher<N> for Intern {
    fn new(_size: usize) -> Self {
        Self { buf: vec![] }
    }
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
    fn finalize(self) -> Array<N> {
        let out = TABLE.with(|t| t.borrow_mut().hash(N, &self.buf));
        let mut a = [0; N];
        a.copy_from_slice(&out);
        a.into()
    }
}
