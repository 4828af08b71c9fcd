//! What the hashed types feed to the random oracle: every field, in protocol order.
use crate::pack::{expect, fp};
use ark_ff::{BigInteger256, PrimeField};
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::account::timing::TimedData;
use mina_rs_base::types::*;
use mina_serialization_types::v1::HashV1;
use proof_systems::mina_hasher::{create_kimchi, create_legacy, Fp, Hashable, Hasher, ROInput};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::ToChunkedROInput;

type W = [u64; 4];
/// the listed input; `legacy` inputs are fields and bits, the others fields and packed items
#[derive(Default)]
pub struct R {
    legacy: bool,
    fields: Vec<Fp>,
    packed: Vec<(W, u32)>,
    bits: Vec<bool>,
}
impl R {
    fn new(legacy: bool) -> Self {
        R { legacy, ..Default::default() }
    }
    pub fn f(&mut self, f: Fp) {
        self.fields.push(f)
    }
    pub fn n(&mut self, x: u64, n: u32) {
        if self.legacy {
            for i in 0..n {
                self.bits.push(x >> i & 1 == 1);
            }
        } else {
            self.packed.push(([x, 0, 0, 0], n));
        }
    }
    fn bool(&mut self, b: bool) {
        self.n(b as u64, 1)
    }
    fn bytes(&mut self, b: &[u8]) {
        for x in b {
            for i in 0..8 {
                self.bool(x >> i & 1 == 1);
            }
        }
    }
    fn fields(&self) -> Vec<Fp> {
        expect(&self.fields, &self.packed).into_iter().map(|w| Fp::from(BigInteger256::new(w))).collect()
    }
    pub fn chunked(&self, t: &impl ToChunkedROInput) {
        let v = t.to_chunked_roinput().into_fields();
        self.same(&v, &self.fields());
        sym::check(t.roinput() == roinput(&v), 3);
        sym::cover(1);
    }
    fn same(&self, v: &[Fp], e: &[Fp]) {
        sym::check(v.len() == e.len(), 1);
        let mut same = true;
        for (a, b) in v.iter().zip(e) {
            let (a, b) = (a.into_repr().0, b.into_repr().0);
            same &= (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]);
        }
        sym::check(same, 2);
    }
    fn roinput(&self, r: ROInput) {
        self.same(&r.fields, &self.fields);
        sym::check(r.bits.len() == self.bits.len(), 4);
        let mut same = true;
        for (a, b) in r.bits.iter().zip(&self.bits) {
            same &= a == b;
        }
        sym::check(same, 5);
        sym::cover(1);
    }
    pub fn hashable(&self, t: &impl Hashable<D = ()>) {
        self.roinput(t.to_roinput())
    }
}
fn roinput(v: &[Fp]) -> ROInput {
    let mut r = ROInput::new();
    for f in v {
        r = r.append_field(*f);
    }
    r
}
pub fn bytes_of(f: Fp) -> [u8; 32] {
    let w = f.into_repr().0;
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes());
    }
    b
}
pub fn h1(f: Fp) -> HashV1 {
    bytes_of(f).into()
}
fn hash<T: From<HashV1>>(r: &mut R) -> T {
    let f = fp();
    r.f(f);
    h1(f).into()
}
fn u32_(r: &mut R) -> u32 {
    let x = sym::u32();
    r.n(x as u64, 32);
    x
}
fn u64_(r: &mut R) -> u64 {
    let x = sym::u64();
    r.n(x, 64);
    x
}
fn bool_(r: &mut R) -> bool {
    let x = sym::bool();
    r.bool(x);
    x
}
fn pk(r: &mut R) -> CompressedPubKey {
    let k = CompressedPubKey { x: fp(), is_odd: sym::bool() };
    r.f(k.x);
    r.bool(k.is_odd);
    k
}
fn token(r: &mut R) -> TokenId {
    if r.legacy {
        TokenId(u64_(r))
    } else {
        let x = sym::u64();
        r.f(Fp::from(x));
        TokenId(x)
    }
}
fn slot(r: &mut R) -> GlobalSlot {
    GlobalSlot { slot_number: GlobalSlotNumber(u32_(r)), slots_per_epoch: Length(u32_(r)) }
}
fn epoch_ledger(r: &mut R) -> EpochLedger {
    EpochLedger { hash: hash(r), total_currency: Amount(u64_(r)) }
}
fn epoch_data(r: &mut R) -> EpochData {
    let seed = hash(r);
    let start_checkpoint = hash(r);
    let epoch_length = Length(u32_(r));
    let ledger = epoch_ledger(r);
    let lock_checkpoint = hash(r);
    EpochData { ledger, seed, start_checkpoint, lock_checkpoint, epoch_length }
}
fn vrf(r: &mut R, n: usize) -> VrfOutputTruncated {
    let b: [u8; 40] = sym::bytes();
    let b = b[..n].to_vec();
    r.bytes(&b[..n.min(31)]);
    if n > 31 {
        for i in 0..5 {
            r.bool(b[31] >> i & 1 == 1);
        }
    }
    VrfOutputTruncated(b)
}
fn consensus(r: &mut R, windows: usize, vrf_len: usize) -> ConsensusState {
    let blockchain_length = Length(u32_(r));
    let epoch_count = Length(u32_(r));
    let min_window_density = Length(u32_(r));
    let sub_window_densities = (0..windows).map(|_| Length(u32_(r))).collect();
    let last_vrf_output = vrf(r, vrf_len);
    let total_currency = Amount(u64_(r));
    let curr_global_slot = slot(r);
    let global_slot_since_genesis = GlobalSlotNumber(u32_(r));
    let has_ancestor_in_same_checkpoint_window = bool_(r);
    let supercharge_coinbase = bool_(r);
    let staking_epoch_data = epoch_data(r);
    let next_epoch_data = epoch_data(r);
    let block_stake_winner = pk(r);
    let block_creator = pk(r);
    let coinbase_receiver = pk(r);
    ConsensusState {
        blockchain_length,
        epoch_count,
        min_window_density,
        sub_window_densities,
        last_vrf_output,
        total_currency,
        curr_global_slot,
        global_slot_since_genesis,
        staking_epoch_data,
        next_epoch_data,
        has_ancestor_in_same_checkpoint_window,
        block_stake_winner,
        block_creator,
        coinbase_receiver,
        supercharge_coinbase,
    }
}
fn constants(r: &mut R) -> ProtocolConstants {
    let k = Length(u32_(r));
    let delta = Length(u32_(r));
    let slots_per_epoch = Length(u32_(r));
    let slots_per_sub_window = Length(u32_(r));
    let genesis_state_timestamp = BlockTime(u64_(r));
    ProtocolConstants { k, slots_per_epoch, slots_per_sub_window, delta, genesis_state_timestamp }
}
fn staged(r: &mut R, a: usize, p: usize, free: bool) -> StagedLedgerHash {
    // the digest of ledger hash (most significant byte first), aux hash, pending coinbase aux
    let l = if free { fp() } else { Fp::from(0x1122_3344_5566_7788u64) };
    let (aux, pend): ([u8; 4], [u8; 4]) = if free { (sym::bytes(), sym::bytes()) } else { ([1, 2, 3, 4], [5, 6, 7, 8]) };
    let mut m = bytes_of(l).to_vec();
    m.reverse();
    m.extend(&aux[..a]);
    m.extend(&pend[..p]);
    r.bytes(&sha2::sha256(&m));
    let non_snark = NonSnarkStagedLedgerHash { ledger_hash: h1(l).into(), aux_hash: AuxHash(aux[..a].to_vec()), pending_coinbase_aux: PendingCoinbaseAuxHash(pend[..p].to_vec()) };
    StagedLedgerHash { non_snark, pending_coinbase_hash: hash(r) }
}
fn legacy_chain(r: &mut R) -> BlockchainStateLegacy {
    let staged_ledger_hash = staged(r, 4, 4, false);
    let snarked_ledger_hash = hash(r);
    let genesis_ledger_hash = hash(r);
    let snarked_next_available_token = token(r);
    let timestamp = BlockTime(u64_(r));
    BlockchainStateLegacy { staged_ledger_hash, snarked_ledger_hash, genesis_ledger_hash, snarked_next_available_token, timestamp }
}
fn field(r: &mut R) -> Field {
    let f = fp();
    r.f(f);
    bytes_of(f).into()
}
fn local_state(r: &mut R) -> BlockchainStateRegistersLocalState {
    let stack_frame = field(r);
    let call_stack = field(r);
    let transaction_commitment = field(r);
    let full_transaction_commitment = field(r);
    let token_id = token(r);
    let excess = SignedAmount(u64_(r), bool_(r));
    let ledger = hash(r);
    let party_index = MinaIndex(u32_(r));
    let success = bool_(r);
    BlockchainStateRegistersLocalState {
        stack_frame,
        call_stack,
        transaction_commitment,
        full_transaction_commitment,
        token_id,
        excess,
        ledger,
        success,
        party_index,
        failure_status_tbl: Default::default(),
    }
}
fn registers(r: &mut R) -> BlockchainStateRegisters {
    BlockchainStateRegisters { ledger: hash(r), pending_coinbase_stack: (), local_state: local_state(r) }
}
fn chain(r: &mut R) -> BlockchainState {
    let staged_ledger_hash = staged(r, 4, 4, false);
    let genesis_ledger_hash = hash(r);
    let registers = registers(r);
    let timestamp = BlockTime(u64_(r));
    let body: [u8; 32] = sym::bytes();
    r.bytes(&body);
    BlockchainState { staged_ledger_hash, genesis_ledger_hash, registers, timestamp, body_reference: BodyReference(body) }
}

fn two(f: impl Fn(bool)) {
    f(sym::choose(2) == 1)
}
macro_rules! both {
    ($name:ident, $f:expr) => {
        fn $name() {
            two(|l| {
                let mut r = R::new(l);
                let x = $f(&mut r);
                if l {
                    r.hashable(&x)
                } else {
                    r.chunked(&x)
                }
            })
        }
    };
}
fn numbers(r: &mut R) {
    match sym::choose(6) {
        0 => {
            let x = Length(u32_(r));
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
        1 => {
            let x = Amount(u64_(r));
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
        2 => {
            let x = token(r);
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
        3 => {
            let x = AccountNonce(u32_(r));
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
        4 => {
            let x = GlobalSlotNumber(u32_(r));
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
        _ => {
            let x = BlockTime(u64_(r));
            if r.legacy { r.hashable(&x) } else { r.chunked(&x) }
        }
    }
}
fn h_roi_numbers() {
    two(|l| numbers(&mut R::new(l)))
}
fn h_roi_signed() {
    let mut r = R::new(false);
    let x = SignedAmount(u64_(&mut r), bool_(&mut r));
    r.chunked(&x);
    let mut r = R::new(false);
    let x = MinaIndex(u32_(&mut r));
    r.chunked(&x);
    let mut r = R::new(false);
    let x = field(&mut r);
    r.chunked(&x);
}
fn h_roi_hashes() {
    two(|l| {
        let mut r = R::new(l);
        macro_rules! h {
            ($t:ty) => {{
                let x: $t = hash(&mut r);
                if l {
                    r.hashable(&x)
                } else {
                    r.chunked(&x)
                }
            }};
        }
        match sym::choose(5) {
            0 => h!(StateHash),
            1 => h!(LedgerHash),
            2 => h!(ChainHash),
            3 => h!(CoinBaseHash),
            _ => h!(EpochSeed),
        }
    })
}
both!(h_roi_slot, slot);
both!(h_roi_epoch_ledger, epoch_ledger);
both!(h_roi_epoch, epoch_data);
both!(h_roi_constants, constants);
both!(h_roi_vrf, |r: &mut R| vrf(r, [0, 1, 30, 31, 32, 33, 40][sym::choose(7) as usize]));
both!(h_roi_staged, |r: &mut R| {
    let (a, p) = [(4, 4), (0, 4), (3, 0), (0, 0), (1, 2)][sym::choose(5) as usize];
    staged(r, a, p, true)
});
both!(h_roi_consensus, |r: &mut R| {
    let (w, v) = [(11, 32), (0, 32), (1, 0), (11, 31)][sym::choose(4) as usize];
    consensus(r, w, v)
});
fn h_roi_chain_legacy() {
    let mut r = R::new(true);
    let x = legacy_chain(&mut r);
    r.hashable(&x);
}
fn h_roi_chain() {
    let mut r = R::new(false);
    let x = chain(&mut r);
    r.chunked(&x);
}
fn h_roi_registers() {
    let mut r = R::new(false);
    let x = registers(&mut r);
    r.chunked(&x);
}
/// something with a listed input and a domain string
#[derive(Clone)]
struct Listed(ROInput, &'static str);
impl Hashable for Listed {
    type D = &'static str;
    fn to_roinput(&self) -> ROInput {
        self.0.clone()
    }
    fn domain_string(d: &'static str) -> Option<String> {
        Some(d.to_string())
    }
}
fn kimchi(i: ROInput, d: &'static str) -> Fp {
    create_kimchi::<Listed>(d).hash(&Listed(i, d))
}
fn legacy(i: ROInput, d: &'static str) -> Fp {
    create_legacy::<Listed>(d).hash(&Listed(i, d))
}
fn eq(a: Fp, b: Fp) -> bool {
    let (a, b) = (a.into_repr().0, b.into_repr().0);
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
}
fn body_legacy(r: &mut R) -> ProtocolStateBodyLegacy {
    let constants = constants(r);
    let genesis_state_hash = hash(r);
    let blockchain_state = legacy_chain(r);
    let consensus_state = consensus(r, 2, 32);
    ProtocolStateBodyLegacy { genesis_state_hash, blockchain_state, consensus_state, constants }
}
fn body(r: &mut R) -> ProtocolStateBody {
    let constants = constants(r);
    let genesis_state_hash = hash(r);
    let blockchain_state = chain(r);
    let consensus_state = consensus(r, 2, 32);
    ProtocolStateBody { genesis_state_hash, blockchain_state, consensus_state, constants }
}
fn h_roi_body_legacy() {
    let mut r = R::new(true);
    let b = body_legacy(&mut r);
    r.hashable(&b);
    sym::check(ProtocolStateBodyLegacy::domain_string(()).as_deref() == Some("CodaProtoStateBody"), 6);
}
fn h_roi_body() {
    let mut r = R::new(false);
    let b = body(&mut r);
    r.chunked(&b);
    sym::check(b.to_roinput() == roinput(&r.fields()), 5);
    sym::check(ProtocolStateBody::domain_string(()).as_deref() == Some("CodaProtoStateBody"), 6);
}
/// a body of which few parts are free, to hash
fn small_consensus() -> ConsensusState {
    let k = CompressedPubKey { x: Fp::from(7u64), is_odd: true };
    let c = ConsensusState {
        blockchain_length: Length(sym::u32()),
        epoch_count: Length(3),
        min_window_density: Length(4),
        sub_window_densities: vec![Length(5)],
        last_vrf_output: VrfOutputTruncated(vec![1, 2, 3]),
        total_currency: Amount(6),
        curr_global_slot: Default::default(),
        global_slot_since_genesis: GlobalSlotNumber(8),
        staking_epoch_data: Default::default(),
        next_epoch_data: Default::default(),
        has_ancestor_in_same_checkpoint_window: false,
        block_stake_winner: k.clone(),
        block_creator: k.clone(),
        coinbase_receiver: k,
        supercharge_coinbase: true,
    };
    c
}
fn h_state_hash_legacy() {
    let prev = fp();
    let s = ProtocolStateLegacy {
        previous_state_hash: h1(prev).into(),
        body: ProtocolStateBodyLegacy { genesis_state_hash: h1(Fp::from(9u64)).into(), consensus_state: small_consensus(), ..Default::default() },
    };
    let b = legacy(s.body.to_roinput(), "CodaProtoStateBody");
    let mut r = R::new(true);
    r.f(prev);
    r.f(b);
    r.hashable(&s);
    let want = legacy(s.to_roinput(), "CodaProtoState");
    sym::check(eq(s.state_hash_fp(), want), 6);
    sym::check(s.state_hash() == h1(want).into(), 7);
    sym::check(eq(ProtocolStateHeader::state_hash_fp(&s), want), 8);
}
fn h_state_hash() {
    let prev = fp();
    let s = ProtocolState {
        previous_state_hash: h1(prev).into(),
        body: ProtocolStateBody { genesis_state_hash: h1(Fp::from(9u64)).into(), consensus_state: small_consensus(), ..Default::default() },
    };
    let b = kimchi(s.body.roinput(), "CodaProtoStateBody");
    let mut r = R::new(false);
    r.f(prev);
    r.f(b);
    r.chunked(&s);
    let want = kimchi(roinput(&[prev, b]), "CodaProtoState");
    sym::check(s.to_roinput() == s.roinput(), 5);
    sym::check(eq(s.state_hash_fp(), want), 6);
    sym::check(s.state_hash() == h1(want).into(), 7);
    sym::check(eq(ProtocolStateHeader::state_hash_fp(&s), want), 8);
}
/// what a header answers is what the state says
fn headers(h: &impl ProtocolStateHeader, c: &ConsensusState, k: &ProtocolConstants) {
    sym::check(h.get_height().0 == c.blockchain_length.0, 1);
    sym::check(h.min_window_density().0 == c.min_window_density.0, 2);
    let (a, b) = (h.sub_window_densities(), &c.sub_window_densities);
    sym::check(a.len() == b.len(), 3);
    let mut same = true;
    for (x, y) in a.iter().zip(b) {
        same &= x.0 == y.0;
    }
    sym::check(same, 4);
    let g = h.consensus_state();
    sym::check((g.blockchain_length.0 == c.blockchain_length.0) & (g.epoch_count.0 == c.epoch_count.0) & (g.curr_global_slot.slot_number.0 == c.curr_global_slot.slot_number.0), 5);
    let p = h.constants();
    sym::check((p.k.0 == k.k.0) & (p.delta.0 == k.delta.0) & (p.genesis_state_timestamp.0 == k.genesis_state_timestamp.0), 6);
    sym::cover(1);
}
fn h_header() {
    let mut r = R::new(false);
    let c = consensus(&mut r, 3, 4);
    let k = constants(&mut r);
    let genesis_state_hash: StateHash = hash(&mut r);
    if sym::choose(2) == 1 {
        let s = ProtocolStateLegacy {
            previous_state_hash: Default::default(),
            body: ProtocolStateBodyLegacy { genesis_state_hash, consensus_state: c.clone(), constants: k.clone(), ..Default::default() },
        };
        headers(&s, &c, &k);
        let (a, b) = (s.curr_global_slot(), &c.curr_global_slot);
        sym::check((a.slot_number.0 == b.slot_number.0) & (a.slots_per_epoch.0 == b.slots_per_epoch.0), 7);
    } else {
        let s = ProtocolState {
            previous_state_hash: Default::default(),
            body: ProtocolStateBody { genesis_state_hash, consensus_state: c.clone(), constants: k.clone(), ..Default::default() },
        };
        headers(&s, &c, &k);
    }
}

fn auth(r: &mut R, k: u8) -> AuthRequired {
    // constant, signature necessary, signature sufficient
    let (x, b) = match k {
        0 => (AuthRequired::None, [true, false, true]),
        1 => (AuthRequired::Either, [false, false, true]),
        2 => (AuthRequired::Proof, [false, false, false]),
        3 => (AuthRequired::Signature, [false, true, true]),
        4 => (AuthRequired::Both, [false, true, false]),
        _ => (AuthRequired::Impossible, [true, true, false]),
    };
    for b in b {
        r.bool(b);
    }
    x
}
fn h_roi_auth() {
    let mut r = R::new(false);
    let k = sym::choose(6);
    let x = auth(&mut r, k);
    r.chunked(&x);
}
/// one entry is any value, the others follow a pattern
fn permissions(r: &mut R, at: u8, k: u8) -> Permissions {
    let mut i = 0;
    let mut a = |r: &mut R| {
        i += 1;
        auth(r, if i - 1 == at { k } else { (i * 5 + i / 6) % 6 })
    };
    Permissions {
        edit_state: a(r),
        send: a(r),
        receive: a(r),
        set_delegate: a(r),
        set_permissions: a(r),
        set_verification_key: a(r),
        set_zkapp_uri: a(r),
        edit_sequence_state: a(r),
        set_token_symbol: a(r),
        increment_nonce: a(r),
        set_voting_for: a(r),
    }
}
fn h_roi_permissions() {
    let mut r = R::new(false);
    let (at, k) = (sym::choose(11), sym::choose(6));
    let x = permissions(&mut r, at, k);
    r.chunked(&x);
}
fn timed(r: &mut R) -> TimedData {
    TimedData {
        initial_minimum_balance: Amount(u64_(r)),
        cliff_time: BlockTime(u32_(r) as u64),
        cliff_amount: Amount(u64_(r)),
        vesting_period: BlockTime(u32_(r) as u64),
        vesting_increment: Amount(u64_(r)),
    }
}
fn timing(r: &mut R, t: bool) -> Timing {
    r.bool(t);
    if t {
        Timing::Timed(timed(r))
    } else {
        r.n(0, 64);
        r.n(0, 32);
        r.n(0, 64);
        r.n(1, 32);
        r.n(0, 64);
        Timing::Untimed
    }
}
fn h_roi_timing() {
    let mut r = R::new(false);
    let t = sym::choose(2) == 1;
    let x = timing(&mut r, t);
    r.chunked(&x);
}
fn token_permissions(r: &mut R, k: u8) -> TokenPermissions {
    let b = sym::bool();
    r.n((k & 1) as u64 | (b as u64) << 1, 2);
    if k & 1 == 1 {
        TokenPermissions::TokenOwned { disable_new_accounts: b }
    } else {
        TokenPermissions::NotOwned { account_disabled: b }
    }
}
fn h_roi_token_permissions() {
    let mut r = R::new(false);
    let k = sym::choose(2);
    let x = token_permissions(&mut r, k);
    r.chunked(&x);
}
fn symbol(r: &mut R) -> TokenSymbol {
    let b: [u8; 6] = sym::bytes();
    let mut w = [0u8; 8];
    w[..6].copy_from_slice(&b);
    r.n(u64::from_le_bytes(w), 48);
    let mut s = [0u8; 32];
    s[..6].copy_from_slice(&b);
    s.into()
}
fn h_roi_symbol() {
    let mut r = R::new(false);
    let x = symbol(&mut r);
    r.chunked(&x);
}
const KEY_X: W = [0xf7478bbfef03e7cd, 0xcd474c46594b9bb5, 0x5db7c656113db04a, 0x1c98fcae93f3ae13];
const KEY_Y: W = [0xecd23504a965a1bd, 0x61e32ec3027057d2, 0xc94504cbbbb38fe0, 0x2303472a99366d31];
fn zkapp_default() -> Fp {
    let mut r = R::new(false);
    for _ in 0..5 {
        r.f(Fp::from(BigInteger256::new(KEY_X)));
    }
    r.f(Fp::from(BigInteger256::new(KEY_Y)));
    for _ in 0..8 {
        r.f(Fp::from(0u64));
    }
    r.n(0, 1);
    r.n(0, 32);
    r.n(0, 32);
    kimchi(roinput(&r.fields()), "CodaZkappAccount")
}
fn uri_default() -> Fp {
    let mut r = R::new(false);
    r.n(1, 1);
    kimchi(roinput(&r.fields()), "MinaZkappUri")
}
fn account(r: &mut R) -> Account {
    r.f(uri_default());
    r.f(zkapp_default());
    let k = sym::choose(12);
    let permissions = permissions(r, k, 4);
    let timing = timing(r, k & 1 == 1);
    let voting_for = hash(r);
    let delegate = if k & 2 == 2 {
        Some(pk(r))
    } else {
        r.f(Fp::from(0u64));
        r.bool(false);
        None
    };
    let receipt_chain_hash = hash(r);
    let nonce = AccountNonce(u32_(r));
    let balance = Amount(u64_(r));
    let token_symbol = symbol(r);
    let token_permissions = token_permissions(r, k >> 2);
    let token_id = token(r);
    let public_key = pk(r);
    Account {
        public_key,
        token_id,
        balance,
        token_permissions,
        token_symbol,
        nonce,
        receipt_chain_hash,
        delegate,
        voting_for,
        timing,
        permissions,
        zkapp: if k & 1 == 1 { None } else { Some(ZkApp::default()) },
        zkapp_uri: if k & 2 == 2 { None } else { Some(ZkAppUri::default()) },
    }
}
fn h_roi_account() {
    let mut r = R::new(false);
    let a = account(&mut r);
    r.chunked(&a);
    sym::check(a.to_roinput() == roinput(&r.fields()), 5);
    sym::check(Account::domain_string(()).as_deref() == Some("CodaAccount"), 6);
}
/// hashing what a peer sent does not panic: the bytes of a hash are any bytes
fn h_hash_any() {
    let b: [u8; 32] = sym::bytes();
    let h: StateHash = HashV1::from(b).into();
    if sym::choose(2) == 1 {
        h.to_roinput();
    } else {
        h.to_chunked_roinput();
    }
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(
        n, h_roi_numbers, h_roi_signed, h_roi_hashes, h_roi_slot, h_roi_epoch_ledger, h_roi_epoch, h_roi_constants, h_roi_vrf, h_roi_staged, h_roi_consensus, h_roi_chain_legacy, h_roi_chain,
        h_roi_registers, h_roi_body_legacy, h_roi_body, h_state_hash_legacy, h_state_hash, h_header, h_roi_auth, h_roi_permissions, h_roi_timing, h_roi_token_permissions, h_roi_symbol, h_roi_account, h_hash_any
    )
}
