use crate::*;
type Proof<R> = DefaultMerkleProof<Item, Hash, LeafHasher, Merger<R>>;

fn complete<R: Rule, M: HeightMode + Default>(t: Tree<R, M>, n: usize, fixed: Option<u32>)
where
    Tree<R, M>: MerkleTree<Item = Item, Hash = Hash>,
{
    let mut t = t;
    let items: Vec<Item> = (0..n).map(|_| sym::u8()).collect();
    // the leaves may arrive in two steps, with the caches filled in between
    let cut = sym::choose(n as u8 + 1) as usize;
    t.add_batch(items[..cut].to_vec());
    if sym::choose(2) == 1 {
        t.root();
    }
    t.add_batch(items[cut..].to_vec());
    let i = sym::choose(n as u8) as usize;
    let h = fixed.unwrap_or_else(|| height_for(n));
    let p = match t.get_proof(i) {
        Some(p) => p,
        None => {
            // only a leaf that is the root itself has no proof
            sym::check(h == 0, 1);
            return;
        }
    };
    sym::check(h > 0, 2);
    sym::check(p.index == (1usize << h) - 1 + i, 3);
    sym::check(p.item == items[i], 4);
    sym::check(p.peer_indices.len() == h as usize && p.peer_hashes.len() == h as usize, 5);
    let mut at = p.index;
    for k in &p.peer_indices {
        sym::check(*k == if at % 2 == 1 { at + 1 } else { at - 1 }, 6);
        at = (at - 1) / 2;
    }
    let root = t.root().unwrap();
    sym::check(root == root_of::<R>(&items, h).unwrap(), 7);
    sym::check(p.root_hash() == Ok(root.clone()), 8);
    sym::check(p.verify(&root), 9);
    sym::cover(1);
}
fn h_proof_var() {
    let n = 1 + sym::choose(9) as usize;
    complete::<Sparse, _>(Tree::<Sparse, VariableHeightMode>::new(), n, None)
}
fn h_proof_var_filled() {
    let n = 1 + sym::choose(6) as usize;
    complete::<Filled, _>(Tree::<Filled, VariableHeightMode>::new(), n, None)
}
fn h_proof_fix() {
    let h = 1 + sym::choose(4) as u32;
    let n = 1 + sym::choose(8) as usize;
    sym::assume(n <= 1 << h);
    complete::<Filled, _>(Tree::<Filled, FixedHeightMode>::new(h), n, Some(h))
}
fn h_proof_fix_sparse() {
    let h = 1 + sym::choose(3) as u32;
    let n = 1 + sym::choose(6) as usize;
    sym::assume(n <= 1 << h);
    complete::<Sparse, _>(Tree::<Sparse, FixedHeightMode>::new(h), n, Some(h))
}

/// a small index or one at the end of the range
fn idx() -> usize {
    match sym::choose(4) {
        0 => usize::MAX,
        1 => (1 << 63) + 1,
        2 => (1 << 32) + 2,
        _ => sym::u8() as usize,
    }
}

/// any proof that verifies against the root of a tree names a leaf of that tree, at its place
fn sound<R: Rule>(n: usize, maxlen: u8) {
    let items: Vec<Item> = (0..n).map(|_| sym::u8()).collect();
    let h = height_for(n);
    let lv = levels::<R>(&items, h);
    let root = lv[h as usize][0].clone().unwrap();
    let index = idx();
    let item = sym::u8();
    let len = sym::choose(maxlen + 1) as usize;
    let mut peer_indices = vec![];
    let mut peer_hashes = vec![];
    for k in 0..len {
        peer_indices.push(sym::u64() as usize);
        // a hash of the right shape for its level, of the tree or not, or none
        let lvl = k.min(h as usize);
        let c = sym::choose(lv[lvl].len() as u8 + 2) as usize;
        peer_hashes.push(if c == 0 {
            None
        } else if c == 1 {
            Some(leaf(sym::u8()))
        } else {
            lv[lvl][c - 2].clone()
        });
    }
    let p: Proof<R> = Proof { index, item, peer_indices, peer_hashes, _hasher: Default::default(), _merger: Default::default() };
    if p.verify(&root) {
        sym::cover(1);
        let off = (1usize << h) - 1;
        sym::check(index >= off && index - off < n, 1);
        if index >= off && index - off < n {
            sym::check(item == items[sym::concretize((index - off) as u64) as usize], 2);
        }
        sym::check(len == h as usize, 3);
    } else {
        sym::cover(2);
    }
}
fn h_sound2() {
    sound::<Sparse>(2, 2)
}
fn h_sound3() {
    sound::<Sparse>(3, 3)
}
fn h_sound4() {
    sound::<Filled>(4, 3)
}
fn h_sound6() {
    sound::<Sparse>(6, 4)
}
/// lists of peers of different lengths are no proof
fn h_ragged() {
    let a = sym::choose(4) as usize;
    let b = sym::choose(4) as usize;
    sym::assume(a != b);
    let p: Proof<Filled> = Proof {
        index: idx(),
        item: sym::u8(),
        peer_indices: (0..a).map(|_| sym::u64() as usize).collect(),
        peer_hashes: (0..b).map(|_| Some(leaf(sym::u8()))).collect(),
        _hasher: Default::default(),
        _merger: Default::default(),
    };
    let root = root_of::<Filled>(&[1, 2, 3], 2).unwrap();
    sym::check(!p.verify(&root), 1);
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_proof_var, h_proof_var_filled, h_proof_fix, h_proof_fix_sparse, h_sound2, h_sound3, h_sound4, h_sound6, h_ragged)
}
