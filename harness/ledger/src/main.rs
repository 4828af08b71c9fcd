//! Genesis ledgers: accounts in the database, their bytes, and the tree over them.
use ark_ff::BigInteger256;
use mina_crypto::hash::*;
use mina_ledger::*;
use mina_merkle::*;
use mina_rs_base::{account::*, BinProtSerializationType};
use mina_serialization_types::v1::*;
use proof_systems::mina_hasher::{Fp, Hashable};
use proof_systems::mina_signer::CompressedPubKey;
use rocksdb::DB;

/// bytes in the order of the protocol, and what they mean
struct W {
    b: Vec<u8>,
    wide: u8,
}
impl W {
    fn v(&mut self, n: usize) {
        for _ in 0..n {
            self.b.push(1)
        }
    }
    fn num(&mut self, n: usize, big: bool) -> u64 {
        self.v(n);
        let (tag, v, k) = match (self.wide, big) {
            (0, _) => (None, (sym::u8() & 0x7f) as u64, 1),
            (1, _) => (Some(0xfe), (sym::u16() & 0x3fff | 0x4000) as u64, 2),
            (3, true) => (Some(0xfc), sym::u64() & 0x3fff_ffff_ffff_ffff | 0x4000_0000_0000_0000, 8),
            _ => (Some(0xfd), (sym::u32() & 0x3fff_ffff | 0x4000_0000) as u64, 4),
        };
        self.b.extend(tag);
        self.b.extend_from_slice(&v.to_le_bytes()[..k]);
        v
    }
    fn bool(&mut self) -> bool {
        let v = sym::bool();
        self.b.push(v as u8);
        v
    }
    fn raw(&mut self, n: usize) -> [u8; 32] {
        self.v(n);
        let mut h = sym::bytes::<32>();
        h[31] &= 0x3f;
        self.b.extend_from_slice(&h);
        h
    }
    fn tag(&mut self, n: u8) -> u8 {
        let t = sym::choose(n);
        self.b.push(t);
        t
    }
    fn key(&mut self, n: usize) -> ([u8; 32], bool) {
        (self.raw(n), self.bool())
    }
}
fn fp(h: &[u8; 32]) -> Fp {
    let mut w = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&h[8 * i..8 * i + 8]);
        w[i] = u64::from_le_bytes(x);
    }
    Fp::from(BigInteger256::new(w))
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0, |d, (x, y)| d | (x ^ y)) == 0
}
fn is_key(a: &CompressedPubKey, b: &([u8; 32], bool)) -> bool {
    (a.x == fp(&b.0)) & (a.is_odd == b.1)
}
fn auth(a: &AuthRequired) -> u8 {
    match a {
        AuthRequired::None => 0,
        AuthRequired::Either => 1,
        AuthRequired::Proof => 2,
        AuthRequired::Signature => 3,
        AuthRequired::Both => 4,
        AuthRequired::Impossible => 5,
    }
}
/// permission number i is any level, the others a fixed distinct pattern
fn auths(w: &mut W, n: usize, k: usize) -> Vec<u8> {
    let (i, l) = (sym::choose(k as u8) as usize, sym::choose(6));
    (0..k)
        .map(|j| {
            w.v(n);
            let t = if i == j { l } else { ((i + j) % 6) as u8 };
            w.b.push(t);
            t
        })
        .collect()
}
fn place(i: usize) -> Vec<u8> {
    vec![0xfe, 0, 0, i as u8]
}
fn one<A: 'static + Hashable + for<'a> BinProtSerializationType<'a>>(b: &[u8]) -> Option<A>
where
    A::D: Default,
{
    let db: &'static DB = Box::leak(Box::new(DB::of(vec![(place(0), Ok(b.to_vec()))])));
    let l: &'static RocksDbGenesisLedger<'static, 20, A> = Box::leak(Box::new(RocksDbGenesisLedger::new(db)));
    sym::check(l.depth() == 20, 50);
    let mut it = l.accounts();
    let a = it.next()?.ok();
    sym::check(it.next().is_none(), 51);
    a
}

fn timed(w: &mut W, legacy: bool) -> Option<[u64; 5]> {
    let l = |n| if legacy { n } else { 0 };
    w.v(l(2));
    match w.tag(2) {
        0 => None,
        _ => Some([w.num(l(3), true), w.num(l(2), !legacy), w.num(l(2), true), w.num(l(2), !legacy), w.num(l(2), true)]),
    }
}
fn is_timed(t: &Timing, want: &Option<[u64; 5]>) -> bool {
    match (t, want) {
        (Timing::Untimed, None) => true,
        (Timing::Timed(t), Some(w)) => {
            (t.initial_minimum_balance.0 == w[0]) & (t.cliff_time.0 == w[1]) & (t.cliff_amount.0 == w[2]) & (t.vesting_period.0 == w[3]) & (t.vesting_increment.0 == w[4])
        }
        _ => false,
    }
}

/// an account of the mainnet ledger
fn h_account_legacy() {
    let mut w = W { b: vec![], wide: sym::choose(4) };
    w.v(3);
    let pk = w.key(3);
    let token = w.num(3, true);
    w.v(1);
    let (tp, flag) = (w.tag(2), w.bool());
    let balance = w.num(3, true);
    let nonce = w.num(2, false);
    let receipt = w.raw(1);
    let del = w.tag(2) == 1;
    let delegate = if del { Some(w.key(2)) } else { None };
    let voting = w.raw(1);
    let timing = timed(&mut w, true);
    w.v(2);
    let stake = w.bool();
    let perms = auths(&mut w, 1, 6);
    w.b.push(0);
    let a: AccountLegacy = match one(&w.b) {
        Some(a) => a,
        None => {
            sym::check(false, 1);
            return;
        }
    };
    sym::check(is_key(&a.public_key, &pk), 2);
    sym::check(a.token_id.0 == token, 3);
    sym::check(
        match &a.token_permissions {
            TokenPermissions::TokenOwned { disable_new_accounts } => (tp == 0) & (*disable_new_accounts == flag),
            TokenPermissions::NotOwned { account_disabled } => (tp == 1) & (*account_disabled == flag),
        },
        4,
    );
    sym::check((a.balance.0 == balance) & (a.nonce.0 as u64 == nonce), 5);
    sym::check((a.receipt_chain_hash == ChainHash::from(HashV1::from(receipt))) & (a.voting_for == StateHash::from(HashV1::from(voting))), 6);
    sym::check(
        match (&a.delegate, &delegate) {
            (Some(d), Some(k)) => is_key(d, k),
            (None, None) => true,
            _ => false,
        },
        7,
    );
    sym::check(is_timed(&a.timing, &timing), 8);
    let p = &a.permissions;
    sym::check(p.stake == stake, 9);
    let got: Vec<u8> = [&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key].iter().map(|x| auth(x)).collect();
    sym::check(eq(&got, &perms), 10);
    sym::check(a.snapp.is_none(), 11);
    let v: AccountV1 = a.into();
    let mut o = vec![];
    sym::check(bin_prot::to_writer(&mut o, &v).is_ok(), 12);
    sym::check(eq(&o, &w.b), 13);
    sym::cover(1);
}

/// an account of the Berkeley ledger; `plain`: of the default token, whose owner it is not, enabled, with no symbol
fn account(plain: bool) {
    let mut w = W { b: vec![], wide: if plain { sym::choose(4) } else { 0 } };
    let pk = w.key(0);
    let (mut disabled, mut owned) = (false, false);
    let mut symbol = vec![];
    if plain {
        w.b.push(1);
        w.b.extend([0; 31]);
        w.b.extend([1, 0, 0]);
    } else {
        w.b.push(1);
        w.b.extend([0; 31]);
        owned = w.tag(2) == 0;
        disabled = w.bool();
        let n = sym::choose(3);
        w.b.push(n);
        for _ in 0..n {
            let c = sym::u8() & 0x7f;
            w.b.push(c);
            symbol.push(c);
        }
    }
    if !plain {
        // balance 5, nonce 6, no delegate, untimed
        w.b.extend([5, 6]);
        w.b.extend([9; 32]);
        w.b.push(0);
        w.b.extend([3; 32]);
        w.b.push(0);
        w.b.extend([3; 11]);
        w.b.extend([0, 0]);
        let ok = match one::<Account>(&w.b) {
            Some(a) => {
                let t = match &a.token_permissions {
                    TokenPermissions::TokenOwned { disable_new_accounts } => owned & (*disable_new_accounts == disabled),
                    TokenPermissions::NotOwned { account_disabled } => !owned & (*account_disabled == disabled),
                };
                let s: [u8; 32] = a.token_symbol.into();
                t & eq(&s[..symbol.len()], &symbol)
            }
            None => false,
        };
        sym::check(ok, 14);
        return;
    }
    let balance = w.num(0, true);
    let nonce = w.num(0, false);
    let receipt = w.raw(0);
    let del = w.tag(2) == 1;
    let delegate = if del { Some(w.key(0)) } else { None };
    let voting = w.raw(0);
    let timing = timed(&mut w, false);
    let perms = auths(&mut w, 0, 11);
    w.b.extend([0, 0]);
    let a: Account = match one(&w.b) {
        Some(a) => a,
        None => {
            sym::check(false, 1);
            return;
        }
    };
    sym::check(is_key(&a.public_key, &pk), 2);
    sym::check(a.token_id.0 == 1, 3);
    sym::check(matches!(a.token_permissions, TokenPermissions::NotOwned { account_disabled: false }), 4);
    sym::check((a.balance.0 == balance) & (a.nonce.0 as u64 == nonce), 5);
    sym::check((a.receipt_chain_hash == ChainHash::from(HashV1::from(receipt))) & (a.voting_for == StateHash::from(HashV1::from(voting))), 6);
    sym::check(
        match (&a.delegate, &delegate) {
            (Some(d), Some(k)) => is_key(d, k),
            (None, None) => true,
            _ => false,
        },
        7,
    );
    sym::check(is_timed(&a.timing, &timing), 8);
    let p = &a.permissions;
    let got: Vec<u8> = [
        &p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri, &p.edit_sequence_state, &p.set_token_symbol, &p.increment_nonce,
        &p.set_voting_for,
    ]
    .iter()
    .map(|x| auth(x))
    .collect();
    sym::check(eq(&got, &perms), 10);
    sym::check(a.zkapp.is_none() && a.zkapp_uri.is_none(), 11);
    sym::cover(1);
}
fn h_account() {
    account(true)
}
/// known finding: any other token, permission or symbol
fn h_account_token() {
    sym::cover(1);
    account(false)
}

/// bytes of a mainnet account told apart by its nonce
fn small(nonce: u8) -> Vec<u8> {
    let mut b = vec![1; 6];
    b.extend([7; 31]);
    b.extend([0, 1]);
    b.extend([1, 1, 1, 1]);
    b.extend([1, 1, 0]);
    b.extend([1, 1, 1, 5]);
    b.extend([1, 1, nonce]);
    b.push(1);
    b.extend([9; 32]);
    b.push(0);
    b.push(1);
    b.extend([3; 32]);
    b.extend([1, 1, 0]);
    b.extend([1, 1, 1]);
    for i in 0..6 {
        b.extend([1, i]);
    }
    b.push(0);
    b
}
type L = RocksDbGenesisLedger<'static, 20, AccountLegacy>;
fn ledger(p: Vec<(Vec<u8>, Result<Vec<u8>, rocksdb::Error>)>) -> &'static L {
    let db: &'static DB = Box::leak(Box::new(DB::of(p)));
    Box::leak(Box::new(RocksDbGenesisLedger::new(db)))
}
/// a database with other records around the accounts
fn others(p: &mut Vec<(Vec<u8>, Result<Vec<u8>, rocksdb::Error>)>, k: u8) {
    if k & 1 == 1 {
        p.push((vec![0, 0, 0, 0], Ok(small(100))));
        p.push((vec![0xfd, 0xfe, 0xfe, 0], Ok(vec![1; 32])));
    }
    if k & 2 == 2 {
        p.push((vec![0xff, 0xfe, 0, 0], Ok(small(101))));
        p.push((vec![0xff, 0xff, 0xff, 0xff], Ok(vec![])));
    }
    if k & 4 == 4 {
        p.push((vec![], Ok(small(102))));
    }
}
/// the accounts are the records under the account prefix, in the order of their keys; what cannot
/// be read is an error in its place
fn h_accounts() {
    let n = sym::choose(5) as usize;
    let mut p = vec![];
    others(&mut p, sym::choose(8));
    let mut want: Vec<Option<u8>> = vec![];
    let bad = sym::choose(n as u8 + 1) as usize;
    let kind = if bad < n { sym::choose(4) } else { 0 };
    for i in 0..n {
        let nonce = sym::u8() & 0x7f;
        let mut v = small(nonce);
        if i == bad {
            want.push(None);
            match kind {
                0 => {
                    p.push((place(i), Err(rocksdb::Error("io".into()))));
                    continue;
                }
                1 => v.truncate([0, 1, 6, 40, 86, v.len() - 1][sym::choose(6) as usize]),
                2 => v.push(sym::u8()),
                _ => {
                    // the delegate is neither there nor not
                    let x = sym::u8();
                    sym::assume(x > 1);
                    v[86] = x
                }
            }
        } else {
            want.push(Some(nonce));
        }
        p.push((place(i), Ok(v)));
    }
    if sym::bool() {
        p.reverse();
    }
    let l = ledger(p);
    for round in 0..2 {
        let mut i = 0;
        for a in l.accounts() {
            match (a, want.get(i)) {
                (Ok(a), Some(Some(nonce))) => sym::check(a.nonce.0 == *nonce as u32, 1),
                (Err(_), Some(None)) => {}
                _ => sym::check(false, 2),
            }
            i += 1;
        }
        sym::check(i == want.len(), 3 + round);
    }
    sym::cover(if bad < n { 2 } else { 1 });
}

fn tree<H: MerkleHasher<Item = A, Hash = Fp>, G: MerkleMerger<Hash = Fp>, A>(accounts: &[A], empty: BigInteger256) -> Fp {
    let mut row: Vec<Fp> = accounts.iter().map(|a| H::hash(a, MerkleTreeNodeMetadata::new(0, 0))).collect();
    let mut e = Fp::from(empty);
    for k in 1..=20 {
        let m = || MerkleTreeNodeMetadata::new(0, k);
        if row.len() % 2 == 1 {
            row.push(e);
        }
        row = row.chunks(2).map(|p| G::merge([Some(p[0]), Some(p[1])], m()).unwrap_or(e)).collect();
        e = G::merge([Some(e), Some(e)], m()).unwrap_or(e);
    }
    row.first().copied().unwrap_or(e)
}
const EMPTY_LEGACY: [u64; 4] = [618825277339585648, 17206846358602357477, 11135808194678189552, 2326690702673829595];
const EMPTY: [u64; 4] = [17222659083400437799, 16271203913493378952, 8137184135467838648, 1525063794952698544];

/// the tree of a ledger has height 20 and its accounts as leaves in order
fn h_tree_legacy() {
    let n = sym::choose(6) as usize;
    let mut p = vec![];
    others(&mut p, sym::choose(4));
    for i in 0..n {
        let mut v = small(sym::u8() & 0x7f);
        // the token and the balance are what the legacy hash covers
        v[42] = sym::u8() & 0x7f;
        v[49] = sym::u8() & 0x7f;
        p.push((place(i), Ok(v)));
    }
    let l = ledger(p);
    let a: Vec<AccountLegacy> = l.accounts().filter_map(|a| a.ok()).collect();
    sym::check(a.len() == n, 1);
    let mut t = l.to_mina_merkle_ledger_legacy();
    sym::check(t.height() == 20, 2);
    sym::check(t.count() as usize == n, 3);
    sym::check(n == 0 || t.root() == Some(tree::<MinaLedgerMerkleHasherLegacy<AccountLegacy>, MinaPoseidonMerkleMergerLegacy, _>(&a, BigInteger256::new(EMPTY_LEGACY))), 4);
    sym::cover(1);
}
fn h_tree() {
    let n = sym::choose(4) as usize;
    let mut p = vec![];
    for i in 0..n {
        let mut v = vec![8; 31];
        v.extend([1, sym::bool() as u8, 1]);
        v.extend([0; 31]);
        v.extend([1, 0, 0, sym::u8() & 0x7f, sym::u8() & 0x7f]);
        v.extend([9; 32]);
        v.push(0);
        v.extend([3; 32]);
        v.push(0);
        v.extend([3; 11]);
        v.extend([0, 0]);
        p.push((place(i), Ok(v)));
    }
    let db: &'static DB = Box::leak(Box::new(DB::of(p)));
    let l: &'static RocksDbGenesisLedger<'static, 20, Account> = Box::leak(Box::new(RocksDbGenesisLedger::new(db)));
    let a: Vec<Account> = l.accounts().filter_map(|a| a.ok()).collect();
    sym::check(a.len() == n, 1);
    let mut t = l.to_mina_merkle_ledger();
    sym::check(t.height() == 20, 2);
    sym::check(t.count() as usize == n, 3);
    sym::check(n == 0 || t.root() == Some(tree::<MinaLedgerMerkleHasher<Account>, MinaPoseidonMerkleMerger, _>(&a, BigInteger256::new(EMPTY))), 4);
    sym::cover(1);
}
/// known finding: a tree is built over what could be read
fn h_tree_bad() {
    let mut p = vec![];
    for i in 0..3 {
        p.push((place(i), Ok(small(i as u8))));
    }
    let bad = sym::choose(3) as usize;
    p[bad].1 = if sym::bool() { Ok(vec![2]) } else { Err(rocksdb::Error("io".into())) };
    let l = ledger(p);
    sym::cover(1);
    let a: Vec<AccountLegacy> = l.accounts().filter_map(|a| a.ok()).collect();
    let r = tree::<MinaLedgerMerkleHasherLegacy<AccountLegacy>, MinaPoseidonMerkleMergerLegacy, _>(&a, BigInteger256::new(EMPTY_LEGACY));
    sym::panic_ok(true);
    let mut t = l.to_mina_merkle_ledger_legacy();
    sym::check(t.root() != Some(r), 1);
}

fn run(n: &str) -> bool {
    sym::dispatch!(n, h_account_legacy, h_account, h_account_token, h_accounts, h_tree_legacy, h_tree, h_tree_bad)
}
sym::entry!(run);
