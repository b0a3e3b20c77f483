//! A node implementation of our own for the generic tree, and a neutral form of stored nodes.

use starling::traits::{Branch, Data, Leaf, Node, NodeVariant};
use starling::Array;

/// A stored node in neutral form.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body<const N: usize> {
    Branch {
        count: u64,
        zero: [u8; N],
        one: [u8; N],
        split: usize,
        key: [u8; N],
    },
    Leaf {
        key: [u8; N],
        data: [u8; N],
    },
    Data(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Stored<const N: usize> {
    pub refs: u64,
    pub body: Body<N>,
}

pub fn from_node<const N: usize, X: Node<N>>(node: X) -> Stored<N> {
    let refs = node.get_references();
    let body = match node.get_variant() {
        NodeVariant::Branch(b) => {
            let (count, zero, one, split, key) = b.decompose();
            Body::Branch {
                count,
                zero: zero.into(),
                one: one.into(),
                split,
                key: key.into(),
            }
        }
        NodeVariant::Leaf(l) => {
            let (key, data) = l.decompose();
            Body::Leaf {
                key: key.into(),
                data: data.into(),
            }
        }
        NodeVariant::Data(d) => Body::Data(d.get_value().to_vec()),
        _ => unreachable!("unknown kind of node"),
    };
    Stored { refs, body }
}

pub fn to_node<const N: usize, X: Node<N>>(s: &Stored<N>) -> X {
    let v = match &s.body {
        Body::Branch {
            count,
            zero,
            one,
            split,
            key,
        } => {
            let mut b = X::Branch::new();
            b.set_key((*key).into());
            b.set_split_index(*split);
            b.set_one((*one).into());
            b.set_zero((*zero).into());
            b.set_count(*count);
            NodeVariant::Branch(b)
        }
        Body::Leaf { key, data } => {
            let mut l = X::Leaf::new();
            l.set_data((*data).into());
            l.set_key((*key).into());
            NodeVariant::Leaf(l)
        }
        Body::Data(v) => {
            let mut d = X::Data::new();
            d.set_value(v);
            NodeVariant::Data(d)
        }
    };
    let mut n = X::new(v);
    n.set_references(s.refs);
    n
}

// ---- our own node types --------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct MyBranch<const N: usize> {
    f: (u64, [u8; N], [u8; N], usize, [u8; N]),
    view: Box<(Array<N>, Array<N>, Array<N>)>,
}

impl<const N: usize> MyBranch<N> {
    fn sync(&mut self) {
        *self.view = (self.f.1.into(), self.f.2.into(), self.f.4.into());
    }
}

impl<const N: usize> Branch<N> for MyBranch<N> {
    fn new() -> Self {
        // Fields that are not set show up
        let mut s = Self {
            f: (u64::MAX >> 2, [0xA5; N], [0x5A; N], usize::MAX >> 2, [0x3C; N]),
            view: Box::new(([0; N].into(), [0; N].into(), [0; N].into())),
        };
        s.sync();
        s
    }
    fn get_count(&self) -> u64 {
        self.f.0
    }
    fn get_zero(&self) -> &Array<N> {
        &self.view.0
    }
    fn get_one(&self) -> &Array<N> {
        &self.view.1
    }
    fn get_split_index(&self) -> usize {
        self.f.3
    }
    fn get_key(&self) -> &Array<N> {
        &self.view.2
    }
    fn set_count(&mut self, count: u64) {
        self.f.0 = count;
    }
    fn set_zero(&mut self, zero: Array<N>) {
        self.f.1 = zero.into();
        self.sync();
    }
    fn set_one(&mut self, one: Array<N>) {
        self.f.2 = one.into();
        self.sync();
    }
    fn set_split_index(&mut self, index: usize) {
        self.f.3 = index;
    }
    fn set_key(&mut self, key: Array<N>) {
        self.f.4 = key.into();
        self.sync();
    }
    fn decompose(self) -> (u64, Array<N>, Array<N>, usize, Array<N>) {
        let f = self.f;
        (f.0, f.1.into(), f.2.into(), f.3, f.4.into())
    }
}

#[derive(Clone, Debug)]
pub struct MyLeaf<const N: usize> {
    key: Array<N>,
    data: Array<N>,
}

impl<const N: usize> Leaf<N> for MyLeaf<N> {
    fn new() -> Self {
        Self {
            key: [0x77; N].into(),
            data: [0x88; N].into(),
        }
    }
    fn get_key(&self) -> &Array<N> {
        &self.key
    }
    fn get_data(&self) -> &Array<N> {
        &self.data
    }
    fn set_key(&mut self, key: Array<N>) {
        self.key = key;
    }
    fn set_data(&mut self, data: Array<N>) {
        self.data = data;
    }
    fn decompose(self) -> (Array<N>, Array<N>) {
        (self.key, self.data)
    }
}

#[derive(Clone, Debug)]
pub struct MyData(Vec<u8>);

impl Data for MyData {
    fn new() -> Self {
        Self(b"unset".to_vec())
    }
    fn get_value(&self) -> &[u8] {
        &self.0
    }
    fn set_value(&mut self, value: &[u8]) {
        self.0 = value.to_vec();
    }
}

#[derive(Clone, Debug)]
pub struct MyNode<const N: usize> {
    refs: u64,
    v: NodeVariant<MyBranch<N>, MyLeaf<N>, MyData, N>,
}

impl<const N: usize> Node<N> for MyNode<N> {
    type Branch = MyBranch<N>;
    type Leaf = MyLeaf<N>;
    type Data = MyData;
    fn new(v: NodeVariant<MyBranch<N>, MyLeaf<N>, MyData, N>) -> Self {
        Self { refs: 0, v }
    }
    fn get_references(&self) -> u64 {
        self.refs
    }
    fn get_variant(self) -> NodeVariant<MyBranch<N>, MyLeaf<N>, MyData, N> {
        self.v
    }
    fn set_references(&mut self, references: u64) {
        self.refs = references;
    }
    fn set_branch(&mut self, b: MyBranch<N>) {
        self.v = NodeVariant::Branch(b);
    }
    fn set_leaf(&mut self, l: MyLeaf<N>) {
        self.v = NodeVariant::Leaf(l);
    }
    fn set_data(&mut self, d: MyData) {
        self.v = NodeVariant::Data(d);
    }
}
