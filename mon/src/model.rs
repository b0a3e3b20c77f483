//! The reference: versions as sorted maps, and the canonical shape of the tree over a map.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Map<const N: usize> = Rc<BTreeMap<[u8; N], Rc<Vec<u8>>>>;

pub fn bit<const N: usize>(k: &[u8; N], i: usize) -> bool {
    k[i / 8] & (0x80 >> (i % 8)) != 0
}

/// The first bit in which two different keys differ.
pub fn first_diff<const N: usize>(a: &[u8; N], b: &[u8; N]) -> usize {
    for i in 0..N {
        let x = a[i] ^ b[i];
        if x != 0 {
            return i * 8 + x.leading_zeros() as usize;
        }
    }
    N * 8
}

/// Splits sorted different keys (at least two) at their first differing bit.
pub fn split<const N: usize>(keys: &[[u8; N]]) -> (usize, usize) {
    let s = first_diff(&keys[0], &keys[keys.len() - 1]);
    (s, keys.partition_point(|k| !bit(k, s)))
}

/// The number of branches above each key.
pub fn depths<const N: usize>(keys: &[[u8; N]]) -> Vec<usize> {
    let mut out = vec![0; keys.len()];
    let mut todo = vec![(0, keys.len(), 0)];
    while let Some((a, b, d)) = todo.pop() {
        if b - a == 1 {
            out[a] = d;
        } else if b > a {
            let (_, p) = split(&keys[a..b]);
            todo.push((a, a + p, d + 1));
            todo.push((a + p, b, d + 1));
        }
    }
    out
}

/// The number of nodes (branches and at most one leaf) on the walk towards `key`.
pub fn walk_len<const N: usize>(keys: &[[u8; N]], key: &[u8; N]) -> usize {
    let (mut a, mut b) = (0, keys.len());
    let mut n = 0;
    while b - a > 1 {
        n += 1;
        let (s, p) = split(&keys[a..b]);
        if first_diff(&keys[a], key) < s {
            return n;
        }
        if bit(key, s) {
            a += p;
        } else {
            b = a + p;
        }
    }
    n + 1
}

/// The number of different branches on the walks towards all of `keys`.
pub fn touched<const N: usize>(tree: &[[u8; N]], keys: &[[u8; N]]) -> usize {
    fn go<const N: usize>(tree: &[[u8; N]], keys: &[[u8; N]]) -> usize {
        if keys.is_empty() || tree.is_empty() {
            return 0;
        }
        if tree.len() == 1 {
            return 1;
        }
        let (s, p) = split(tree);
        let on: Vec<[u8; N]> = keys
            .iter()
            .filter(|k| first_diff(*k, &tree[0]) >= s)
            .copied()
            .collect();
        let zero: Vec<_> = on.iter().filter(|k| !bit(*k, s)).copied().collect();
        let one: Vec<_> = on.iter().filter(|k| bit(*k, s)).copied().collect();
        1 + go(&tree[..p], &zero) + go(&tree[p..], &one)
    }
    go(tree, keys)
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Form<const N: usize> {
    Leaf([u8; N], Rc<Vec<u8>>),
    Branch(u64, u64),
}

/// Numbers the different subtrees of any number of maps.
#[derive(Default)]
pub struct Canon<const N: usize> {
    ids: HashMap<Form<N>, u64>,
    branch: Vec<Option<(u64, u64)>>,
}

impl<const N: usize> Canon<N> {
    fn put(&mut self, f: Form<N>) -> u64 {
        if let Some(i) = self.ids.get(&f) {
            return *i;
        }
        let i = self.branch.len() as u64;
        self.branch.push(match f {
            Form::Branch(a, b) => Some((a, b)),
            Form::Leaf(..) => None,
        });
        self.ids.insert(f, i);
        i
    }

    /// A number that stands for the contents of the map.
    pub fn id(&mut self, map: &BTreeMap<[u8; N], Rc<Vec<u8>>>) -> u64 {
        let keys: Vec<[u8; N]> = map.keys().copied().collect();
        let vals: Vec<Rc<Vec<u8>>> = map.values().cloned().collect();
        // Post-order without recursion
        let mut done: Vec<u64> = vec![];
        let mut todo: Vec<(usize, usize, bool)> = vec![(0, keys.len(), false)];
        while let Some((a, b, merge)) = todo.pop() {
            if merge {
                let one = done.pop().unwrap();
                let zero = done.pop().unwrap();
                let id = self.put(Form::Branch(zero, one));
                done.push(id);
            } else if b - a == 1 {
                let id = self.put(Form::Leaf(keys[a], vals[a].clone()));
                done.push(id);
            } else {
                let (_, p) = split(&keys[a..b]);
                todo.push((a, b, true));
                todo.push((a + p, b, false));
                todo.push((a, a + p, false));
            }
        }
        done.pop().unwrap()
    }

    /// How many different nodes (branches, leaves, values) the given trees consist of.
    pub fn distinct_nodes(&self, roots: &[u64]) -> usize {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut todo: Vec<u64> = roots.to_vec();
        let mut n = 0;
        while let Some(r) = todo.pop() {
            if !seen.insert(r) {
                continue;
            }
            if let Some((a, b)) = self.branch[r as usize] {
                n += 1;
                todo.push(a);
                todo.push(b);
            } else {
                n += 2;
            }
        }
        n
    }

    /// Nodes of `root` that are in none of the `others`, and all their children.
    pub fn released(&self, root: u64, others: &[u64]) -> (usize, usize) {
        let mut keep: HashSet<u64> = HashSet::new();
        let mut todo: Vec<u64> = others.to_vec();
        while let Some(r) = todo.pop() {
            if keep.insert(r) {
                if let Some((a, b)) = self.branch[r as usize] {
                    todo.push(a);
                    todo.push(b);
                }
            }
        }
        let (mut nodes, mut children) = (0, 0);
        let mut todo = vec![root];
        let mut seen = HashSet::new();
        while let Some(r) = todo.pop() {
            if keep.contains(&r) || !seen.insert(r) {
                continue;
            }
            if let Some((a, b)) = self.branch[r as usize] {
                nodes += 1;
                children += 2;
                todo.push(a);
                todo.push(b);
            } else {
                nodes += 2;
                children += 1;
            }
        }
        (nodes, children)
    }
}

/// A number that stands for the shape of a tree (not its values).
pub fn shape<const N: usize>(keys: &[[u8; N]]) -> u64 {
    let mut h = keys.len() as u64;
    for w in keys.windows(2) {
        h = crate::rng::mix(&[h, first_diff(&w[0], &w[1]) as u64]);
    }
    h
}
