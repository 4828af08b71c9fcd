use crate::*;
use ark_ff::BigInteger256;
use proof_systems::mina_hasher::{Fp, Hashable, ROInput};
use proof_systems::FpJson;

pub struct FpLeaf;
impl MerkleHasher for FpLeaf {
    type Item = Fp;
    type Hash = Fp;
    fn hash(i: &Fp, _: MerkleTreeNodeMetadata) -> Fp {
        *i
    }
}
fn fnode(l: Fp, r: Fp, h: u32) -> Fp {
    let (a, b): (BigInteger256, BigInteger256) = (l.into(), r.into());
    let mut w = [0u64; 4];
    for i in 0..4 {
        w[i] = a.0[i].rotate_left(9).wrapping_mul(5) ^ b.0[i].rotate_left(3) ^ (h as u64 + 1) << i;
    }
    w[3] &= 0x3fff_ffff_ffff_ffff;
    Fp::from(BigInteger256(w))
}
pub struct FpMerger;
impl MerkleMerger for FpMerger {
    type Hash = Fp;
    fn merge(h: [Option<Fp>; 2], m: MerkleTreeNodeMetadata) -> Option<Fp> {
        match h {
            [Some(l), Some(r)] => Some(fnode(l, r, m.height())),
            _ => None,
        }
    }
}
pub fn fp() -> Fp {
    let mut w = [sym::u64(), sym::u64(), sym::u64(), sym::u64()];
    w[3] &= 0x3fff_ffff_ffff_ffff;
    Fp::from(BigInteger256(w))
}
/// a path from the leaf up becomes the proof of the leaf at the place the sides spell out
fn conv(max: u8) {
    let n = sym::choose(max + 1) as usize;
    let item = fp();
    let mut nodes = vec![];
    let mut shape = vec![];
    for _ in 0..n {
        let s = sym::choose(4);
        let f = fp();
        shape.push((s, f));
        nodes.push(MerklePathNode {
            left: if s == 0 || s == 2 { Some(FpJson(f)) } else { None },
            right: if s == 1 || s == 2 { Some(FpJson(f)) } else { None },
        });
    }
    let p = MerklePath(nodes).to_proof::<Fp, FpLeaf, FpMerger>(item);
    let well = n > 0 && shape.iter().all(|(s, _)| *s < 2);
    let p = match p {
        Ok(p) => p,
        Err(_) => {
            sym::check(!well, 1);
            sym::cover(2);
            return;
        }
    };
    sym::check(well, 2);
    let mut pos = 0usize;
    let mut h = item;
    for (k, (s, f)) in shape.iter().enumerate() {
        // `left` carries the sibling of a left child
        if *s == 0 {
            h = fnode(h, *f, k as u32 + 1);
        } else {
            pos |= 1 << k;
            h = fnode(*f, h, k as u32 + 1);
        }
    }
    sym::check(p.index == (1usize << n) - 1 + pos, 3);
    sym::check(p.root_hash() == Ok(h), 4);
    sym::check(p.verify(&h), 5);
    sym::cover(1);
}
fn h_path() {
    conv(4)
}
fn h_path_deep() {
    conv(6)
}
/// no path, however long, breaks the conversion
fn h_path_any() {
    let n = sym::choose(70) as usize;
    let right = sym::choose(2) == 1;
    let f = Fp::from(7u64);
    let nodes = (0..n)
        .map(|_| MerklePathNode { left: if right { None } else { Some(FpJson(f)) }, right: if right { Some(FpJson(f)) } else { None } })
        .collect();
    let p = MerklePath(nodes).to_proof::<Fp, FpLeaf, FpMerger>(f);
    if let Ok(p) = p {
        sym::cover(1);
        sym::check(n > 0 && n < 64, 1);
        sym::check(p.peer_indices.len() == n, 2);
        let mut h = f;
        for k in 0..n as u32 {
            h = if right { fnode(f, h, k + 1) } else { fnode(h, f, k + 1) };
        }
        sym::check(p.root_hash() == Ok(h), 3);
    } else {
        sym::cover(2);
        // Mina ledgers are at most 35 levels deep
        sym::check(n == 0 || n > 35, 4);
    }
}

#[derive(Clone)]
struct Acc(Fp);
impl Hashable for Acc {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_field(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        None
    }
}
/// a Mina ledger tree: leaves that are not there hash like the empty account, and node hashes are
/// separated by height
fn ledger<L: MerkleHasher<Item = Acc, Hash = Fp>, G: MerkleMerger<Hash = Fp>>(empty: Fp) {
    let h = 1 + sym::choose(3) as u32;
    let n = sym::choose(5) as usize;
    sym::assume(n <= 1 << h);
    let items: Vec<Acc> = (0..n).map(|_| Acc(fp())).collect();
    let mut t = MinaMerkleTree::<Acc, Fp, L, G, FixedHeightMode>::new(h);
    t.add_batch(items.clone());
    // the same tree with the empty leaves spelled out
    let mut row: Vec<Fp> = (0..1usize << h).map(|i| items.get(i).map(|x| L::hash(x, MerkleTreeNodeMetadata::new(0, 0))).unwrap_or(empty)).collect();
    for k in 1..=h {
        row = row.chunks(2).map(|p| G::merge([Some(p[0]), Some(p[1])], MerkleTreeNodeMetadata::new(0, k)).unwrap()).collect();
    }
    sym::check(t.root() == Some(row[0]), 1);
    sym::cover(1);
}
fn known_empty() -> Fp {
    Fp::from(BigInteger256::new([618825277339585648, 17206846358602357477, 11135808194678189552, 2326690702673829595]))
}
fn h_ledger_legacy() {
    ledger::<MinaPoseidonMerkleHasherLegacy<Acc>, MinaPoseidonMerkleMergerLegacy>(known_empty())
}
fn h_ledger_kimchi() {
    // 9572980593872981109373931329129826339992116007886182568766828232902813999143
    let e = BigInteger256::new([17222659083400437799, 16271203913493378952, 8137184135467838648, 1525063794952698544]);
    ledger::<MinaPoseidonMerkleHasher<Acc>, MinaPoseidonMerkleMerger>(Fp::from(e))
}
/// the domain of a node hash names its height, three digits at least
fn h_prefix() {
    sym::stub_fmt(false);
    let h = sym::choose(64) as u32 + if sym::choose(2) == 1 { 90 } else { 0 };
    let digits = [b'0' + (h / 100) as u8, b'0' + (h / 10 % 10) as u8, b'0' + (h % 10) as u8];
    let mut a = b"CodaMklTree".to_vec();
    a.extend_from_slice(&digits);
    let mut b = b"CodaCbMklTree".to_vec();
    b.extend_from_slice(&digits);
    sym::check(prefixes::make_prefix_merkle_tree(h).as_bytes() == &a[..], 1);
    sym::check(prefixes::make_prefix_coinbase_merkle_tree(h).as_bytes() == &b[..], 2);
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_path, h_path_deep, h_path_any, h_ledger_legacy, h_ledger_kimchi, h_prefix)
}
