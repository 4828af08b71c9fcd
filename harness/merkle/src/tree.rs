use crate::*;

/// three batches, each followed by nothing, a root or a proof request; then the root is the root
/// of the tree built at once
fn history<R: Rule, M: HeightMode + Default>(t: Tree<R, M>, fixed: Option<u32>, batches: usize, sizes: &[usize])
where
    Tree<R, M>: MerkleTree<Item = Item, Hash = Hash>,
{
    let mut t = t;
    let cap = fixed.map(|h| 1usize << h).unwrap_or(usize::MAX);
    let mut items: Vec<Item> = vec![];
    for _ in 0..batches {
        let k = sizes[sym::choose(sizes.len() as u8) as usize];
        sym::assume(items.len() + k <= cap);
        let new: Vec<Item> = (0..k).map(|_| sym::u8()).collect();
        items.extend_from_slice(&new);
        if k == 1 {
            t.add(new[0]);
        } else {
            t.add_batch(new);
        }
        match sym::choose(3) {
            0 => (),
            1 => {
                let h = fixed.unwrap_or_else(|| height_for(items.len()));
                sym::check(t.root() == if items.is_empty() && fixed.is_none() { None } else { root_of::<R>(&items, h) }, 1);
            }
            _ => {
                if items.len() >= 2 {
                    let p = t.get_proof(items.len() - 1);
                    sym::check(p.is_some(), 2);
                }
            }
        }
    }
    let h = fixed.unwrap_or_else(|| height_for(items.len()));
    sym::check(t.count() == items.len(), 3);
    sym::check(t.height() == h, 4);
    let want = root_of::<R>(&items, h);
    sym::check(t.root() == want, 5);
    // asking again changes nothing
    sym::check(t.root() == want, 6);
    sym::cover(1);
    if items.len() > 4 {
        sym::cover(2);
    }
}
const SIZES: [usize; 5] = [0, 1, 2, 3, 5];
fn h_var_filled() {
    history::<Filled, _>(Tree::<Filled, VariableHeightMode>::new(), None, 3, &SIZES)
}
fn h_var_sparse() {
    history::<Sparse, _>(Tree::<Sparse, VariableHeightMode>::new(), None, 3, &SIZES)
}
fn h_var_one() {
    history::<Sparse, _>(Tree::<Sparse, VariableHeightMode>::new(), None, 5, &[1, 2])
}
fn h_var_cap() {
    let c = sym::choose(9) as usize;
    history::<Sparse, _>(Tree::<Sparse, VariableHeightMode>::with_capacity(c), None, 2, &[0, 1, 3])
}
fn h_fix_filled() {
    let h = 2 + sym::choose(3) as u32;
    history::<Filled, _>(Tree::<Filled, FixedHeightMode>::new(h), Some(h), 3, &[0, 1, 2, 4])
}
fn h_fix_sparse() {
    let h = 2 + sym::choose(3) as u32;
    history::<Sparse, _>(Tree::<Sparse, FixedHeightMode>::new(h), Some(h), 3, &[0, 1, 2, 4])
}
/// longer histories
fn h_var_long() {
    history::<Sparse, _>(Tree::<Sparse, VariableHeightMode>::new(), None, 4, &SIZES)
}
fn h_fix_long() {
    let h = 4 + sym::choose(2) as u32;
    history::<Sparse, _>(Tree::<Sparse, FixedHeightMode>::new(h), Some(h), 4, &SIZES)
}
/// one batch of every size up to 33
fn h_sizes() {
    let n = sym::choose(34) as usize;
    let items: Vec<Item> = (0..n).map(|_| sym::u8()).collect();
    let mut t = Tree::<Sparse, VariableHeightMode>::new();
    t.add_batch(items.clone());
    let h = height_for(n);
    sym::check(t.height() == h, 1);
    sym::check(t.count() == n, 2);
    sym::check(t.root() == root_of::<Sparse>(&items, h), 3);
    sym::cover(1);
}
/// position of a node: depth and height for every index and tree height
fn h_metadata() {
    let i = sym::u64() as usize;
    let h = sym::u32();
    sym::assume(i < 1 << 24);
    // depth d: 2^d - 1 <= i < 2^(d+1) - 1
    let d = sym::choose(25) as u32;
    sym::assume(i + 1 >= 1usize << d && i + 1 < 1usize << (d + 1));
    sym::assume(h >= d);
    let m = MerkleTreeNodeMetadata::new(i, h);
    sym::check(m.depth() == d, 1);
    sym::check(m.height() == h - d, 2);
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_var_filled, h_var_sparse, h_var_one, h_var_cap, h_fix_filled, h_fix_sparse, h_var_long, h_fix_long, h_sizes, h_metadata)
}
