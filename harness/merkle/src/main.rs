//! Merkle tree, proof and path harnesses.  The hashes are byte strings that spell out what was
//! hashed (injective), so that two roots are equal only if the trees are.
mod path;
mod proof;
mod tree;

pub type Hash = Vec<u8>;
pub type Item = u8;

pub fn leaf(i: Item) -> Hash {
    vec![b'l', i]
}
/// injective in both children and the height
pub fn node(l: &[u8], r: &[u8], h: u32) -> Hash {
    let mut v = Vec::with_capacity(4 + l.len() + r.len());
    v.push(b'n');
    v.push(h as u8);
    v.push((l.len() >> 8) as u8);
    v.push(l.len() as u8);
    v.extend_from_slice(l);
    v.extend_from_slice(r);
    v
}

use mina_merkle::*;
pub struct LeafHasher;
impl MerkleHasher for LeafHasher {
    type Item = Item;
    type Hash = Hash;
    fn hash(i: &Item, m: MerkleTreeNodeMetadata) -> Hash {
        sym::check(m.height() == 0, 90);
        leaf(*i)
    }
}

/// what a tree hashes absent subtrees to
pub trait Rule: 'static {
    fn merge(l: Option<Hash>, r: Option<Hash>, h: u32) -> Option<Hash>;
}
/// as Mina: an absent subtree stands for a subtree of empty leaves
pub struct Filled;
pub fn empty(h: u32) -> Hash {
    if h == 0 {
        vec![b'e']
    } else {
        let e = empty(h - 1);
        node(&e, &e, h)
    }
}
impl Rule for Filled {
    fn merge(l: Option<Hash>, r: Option<Hash>, h: u32) -> Option<Hash> {
        let l = l.unwrap_or_else(|| empty(h - 1));
        let r = r.unwrap_or_else(|| empty(h - 1));
        Some(node(&l, &r, h))
    }
}
/// as snarky's example: an absent subtree has no hash, a lone child is marked
pub struct Sparse;
impl Rule for Sparse {
    fn merge(l: Option<Hash>, r: Option<Hash>, h: u32) -> Option<Hash> {
        match (l, r) {
            (Some(l), Some(r)) => Some(node(&l, &r, h)),
            (Some(l), None) => Some(node(&l, &[], h)),
            (None, Some(r)) => Some(node(&[], &r, h)),
            (None, None) => None,
        }
    }
}
pub struct Merger<R>(std::marker::PhantomData<R>);
impl<R: Rule> MerkleMerger for Merger<R> {
    type Hash = Hash;
    fn merge(h: [Option<Hash>; 2], m: MerkleTreeNodeMetadata) -> Option<Hash> {
        let [l, r] = h;
        R::merge(l, r, m.height())
    }
}
pub type Tree<R, M> = MinaMerkleTree<Item, Hash, LeafHasher, Merger<R>, M>;

/// every level of the complete tree of height `h` over `items`, leaves first
pub fn levels<R: Rule>(items: &[Item], h: u32) -> Vec<Vec<Option<Hash>>> {
    let mut row: Vec<Option<Hash>> = (0..1usize << h).map(|i| items.get(i).map(|x| leaf(*x))).collect();
    let mut all = vec![];
    for k in 1..=h {
        let mut up = Vec::with_capacity(row.len() / 2);
        for p in row.chunks(2) {
            up.push(R::merge(p[0].clone(), p[1].clone(), k));
        }
        all.push(row);
        row = up;
    }
    all.push(row);
    all
}
pub fn root_of<R: Rule>(items: &[Item], h: u32) -> Option<Hash> {
    levels::<R>(items, h).pop().unwrap().pop().unwrap()
}
/// least height whose complete tree has room for n leaves
pub fn height_for(n: usize) -> u32 {
    let mut h = 0;
    while 1usize << h < n {
        h += 1;
    }
    h
}

fn run(n: &str) -> bool {
    tree::run(n) || proof::run(n) || path::run(n)
}
sym::entry!(run);
