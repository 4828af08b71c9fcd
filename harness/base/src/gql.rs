//! Reading GraphQL answers: every field from its own key, or an error.
use crate::roi::bytes_of;
use crate::text::{digits, txt};
use mina_rs_base::account::timing::TimedData;
use mina_rs_base::account::*;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use mina_serialization_types::v1::HashV1;
use proof_systems::mina_signer::CompressedPubKey;
use serde_json::{Map, Value};

pub fn b58(version: u8, payload: &[u8]) -> String {
    bs58::encode(payload).with_check_version(version).into_string()
}
/// 32 bytes, two of them any
pub fn h32(tag: u8) -> [u8; 32] {
    let mut b = [tag; 32];
    b[tag as usize % 30] = sym::u8();
    b[30] = sym::u8();
    b[31] = 1;
    b
}
fn vers(b: &[u8]) -> Vec<u8> {
    let mut v = vec![1];
    v.extend_from_slice(b);
    v
}
struct Obj(Map<String, Value>);
impl Obj {
    fn new() -> Self {
        bs58::transparent(true);
        Obj(Map::new())
    }
    fn put(&mut self, k: &str, v: Value) {
        self.0.insert(k.to_string(), v);
    }
    fn hash(&mut self, k: &str, version: u8, tag: u8) -> HashV1 {
        let b = h32(tag);
        self.put(k, Value::String(b58(version, &vers(&b))));
        b.into()
    }
    fn num(&mut self, k: &str) -> u64 {
        let d = digits::<2>();
        self.put(k, Value::String(txt(&d).to_string()));
        (d[0] - b'0') as u64 * 10 + (d[1] - b'0') as u64
    }
    fn bool(&mut self, k: &str) -> bool {
        let b = sym::concretize(sym::bool() as u64) == 1;
        self.put(k, Value::Bool(b));
        b
    }
    fn key(&mut self, k: &str, tag: u8) -> CompressedPubKey {
        let b = h32(tag);
        let is_odd = sym::bool();
        let mut p = vec![1, 1];
        p.extend_from_slice(&b);
        p.push(is_odd as u8);
        self.put(k, Value::String(b58(0xcb, &p)));
        CompressedPubKey { x: ark_ff::BigInteger256::from_le(&b).into(), is_odd }
    }
    fn json(self) -> Value {
        Value::Object(self.0)
    }
}
fn same_key(a: &CompressedPubKey, b: &CompressedPubKey) -> bool {
    (bytes_of(a.x) == bytes_of(b.x)) & (a.is_odd == b.is_odd)
}
fn ledger(v: &mut Obj, tag: u8) -> EpochLedger {
    let mut o = Obj::new();
    let e = EpochLedger { hash: o.hash("hash", 5, tag).into(), total_currency: Amount(o.num("totalCurrency")) };
    v.put("ledger", o.json());
    e
}
fn epoch(tag: u8) -> (Obj, EpochData) {
    let mut o = Obj::new();
    let ledger = ledger(&mut o, tag);
    let e = EpochData {
        ledger,
        seed: o.hash("seed", 0x0d, tag + 1).into(),
        start_checkpoint: o.hash("startCheckpoint", 0x10, tag + 2).into(),
        lock_checkpoint: o.hash("lockCheckpoint", 0x10, tag + 3).into(),
        epoch_length: Length(o.num("epochLength") as u32),
    };
    (o, e)
}
fn h_gql_epoch() {
    let (o, e) = epoch(3);
    let got = EpochData::from_graphql_json(&o.json()).unwrap();
    sym::check(got.ledger.hash == e.ledger.hash, 1);
    sym::check(got.ledger.total_currency == e.ledger.total_currency, 2);
    sym::check(got.seed == e.seed, 3);
    sym::check(got.start_checkpoint == e.start_checkpoint, 4);
    sym::check(got.lock_checkpoint == e.lock_checkpoint, 5);
    sym::check(got.epoch_length == e.epoch_length, 6);
    sym::cover(1);
}
fn consensus() -> (Obj, ConsensusState) {
    let mut o = Obj::new();
    let (a, staking_epoch_data) = epoch(3);
    let (b, next_epoch_data) = epoch(13);
    o.put("stakingEpochData", a.json());
    o.put("nextEpochData", b.json());
    let n = sym::choose(3) as usize * 16;
    let vrf = &h32(9)[..n];
    let mut t = vec![n as u8];
    t.extend_from_slice(vrf);
    o.put("lastVrfOutput", Value::String(b58(0x15, &t)));
    let c = ConsensusState {
        blockchain_length: Length(o.num("blockHeight") as u32),
        epoch_count: Length(o.num("epochCount") as u32),
        min_window_density: Length(o.num("minWindowDensity") as u32),
        sub_window_densities: vec![],
        last_vrf_output: VrfOutputTruncated(vrf.to_vec()),
        total_currency: Amount(o.num("totalCurrency")),
        curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(o.num("slot") as u32), slots_per_epoch: Length(7140) },
        global_slot_since_genesis: GlobalSlotNumber(o.num("slotSinceGenesis") as u32),
        staking_epoch_data,
        next_epoch_data,
        has_ancestor_in_same_checkpoint_window: o.bool("hasAncestorInSameCheckpointWindow"),
        block_stake_winner: o.key("blockStakeWinner", 21),
        block_creator: o.key("blockCreator", 22),
        coinbase_receiver: o.key("coinbaseReceiever", 23),
        supercharge_coinbase: o.bool("superchargedCoinbase"),
    };
    (o, c)
}
fn h_gql_consensus() {
    let (o, c) = consensus();
    let got = ConsensusState::from_graphql_json(&o.json()).unwrap();
    sym::check(got.blockchain_length == c.blockchain_length, 1);
    sym::check(got.epoch_count == c.epoch_count, 2);
    sym::check(got.min_window_density == c.min_window_density, 3);
    sym::check(got.last_vrf_output == c.last_vrf_output, 4);
    sym::check(got.total_currency == c.total_currency, 5);
    sym::check(got.curr_global_slot == c.curr_global_slot, 6);
    sym::check(got.global_slot_since_genesis == c.global_slot_since_genesis, 7);
    sym::check(got.staking_epoch_data == c.staking_epoch_data, 8);
    sym::check(got.next_epoch_data == c.next_epoch_data, 9);
    sym::check(got.has_ancestor_in_same_checkpoint_window == c.has_ancestor_in_same_checkpoint_window, 10);
    sym::check(same_key(&got.block_stake_winner, &c.block_stake_winner), 11);
    sym::check(same_key(&got.block_creator, &c.block_creator), 12);
    sym::check(same_key(&got.coinbase_receiver, &c.coinbase_receiver), 13);
    sym::check(got.supercharge_coinbase == c.supercharge_coinbase, 14);
    sym::cover(1);
}
fn blockchain() -> (Obj, BlockchainState) {
    let mut o = Obj::new();
    let aux = h32(6);
    let pend = h32(7);
    o.put("stagedLedgerAuxHash", Value::String(b58(0x0e, &aux)));
    o.put("stagedLedgerPendingCoinbaseAux", Value::String(b58(0x0f, &pend)));
    let body = h32(8);
    let mut hex = String::new();
    for x in body {
        for n in [x >> 4, x & 15] {
            hex.push((if n < 10 { b'0' + n } else { b'a' - 10 + n }) as char);
        }
    }
    o.put("bodyReference", Value::String(hex));
    let b = BlockchainState {
        staged_ledger_hash: mina_crypto::hash::StagedLedgerHash {
            non_snark: mina_crypto::hash::NonSnarkStagedLedgerHash {
                ledger_hash: o.hash("stagedLedgerHash", 5, 2).into(),
                aux_hash: mina_crypto::hash::AuxHash(aux.to_vec()),
                pending_coinbase_aux: mina_crypto::hash::PendingCoinbaseAuxHash(pend.to_vec()),
            },
            pending_coinbase_hash: o.hash("stagedLedgerPendingCoinbaseHash", 0x0c, 3).into(),
        },
        genesis_ledger_hash: o.hash("genesisLedgerHash", 5, 4).into(),
        registers: BlockchainStateRegisters { ledger: o.hash("snarkedLedgerHash", 5, 5).into(), pending_coinbase_stack: (), local_state: Default::default() },
        timestamp: BlockTime(o.num("utcDate")),
        body_reference: BodyReference(body),
    };
    (o, b)
}
fn same_blockchain(got: &BlockchainState, b: &BlockchainState) {
    let (s, t) = (&got.staged_ledger_hash, &b.staged_ledger_hash);
    sym::check(s.non_snark.ledger_hash == t.non_snark.ledger_hash, 20);
    sym::check(s.non_snark.aux_hash == t.non_snark.aux_hash, 21);
    sym::check(s.non_snark.pending_coinbase_aux == t.non_snark.pending_coinbase_aux, 22);
    sym::check(s.pending_coinbase_hash == t.pending_coinbase_hash, 23);
    sym::check(got.genesis_ledger_hash == b.genesis_ledger_hash, 24);
    sym::check(got.registers.ledger == b.registers.ledger, 25);
    sym::check(got.timestamp == b.timestamp, 26);
    sym::check(got.body_reference == b.body_reference, 27);
}
fn h_gql_blockchain() {
    let (o, b) = blockchain();
    same_blockchain(&BlockchainState::from_graphql_json(&o.json()).unwrap(), &b);
    sym::cover(1);
}
/// state: previous hash, body, and the fixed genesis hash and constants
fn h_gql_state() {
    let mut o = Obj::new();
    let prev: mina_crypto::hash::StateHash = o.hash("previousStateHash", 0x10, 11).into();
    let (b, want) = blockchain();
    o.put("blockchainState", b.json());
    let (c, cons) = consensus();
    o.put("consensusState", c.json());
    let got = ProtocolState::from_graphql_json(&o.json()).unwrap();
    sym::check(got.previous_state_hash == prev, 1);
    same_blockchain(&got.body.blockchain_state, &want);
    sym::check(got.body.consensus_state.blockchain_length == cons.blockchain_length, 2);
    sym::check(got.body.consensus_state.next_epoch_data == cons.next_epoch_data, 3);
    sym::check(got.body.constants == ProtocolConstants::default(), 4);
    sym::check(got.body.genesis_state_hash != Default::default(), 5);
    sym::cover(1);
}
fn h_gql_state_bad() {
    let mut o = Obj::new();
    o.hash("previousStateHash", 0x10, 11);
    let (b, _) = blockchain();
    o.put("blockchainState", b.json());
    let (c, _) = consensus();
    o.put("consensusState", c.json());
    spoil(&mut o, ["previousStateHash", "blockchainState", "consensusState"][sym::choose(3) as usize]);
    sym::check(ProtocolState::from_graphql_json(&o.json()).is_err(), 1);
    sym::cover(1);
}
const LEVELS: [&str; 6] = ["None", "Either", "Proof", "Signature", "Both", "Impossible"];
const PERMS: [&str; 11] = [
    "editState", "send", "receive", "setDelegate", "setPermissions", "setVerificationKey", "setZkappUri", "editSequenceState", "setTokenSymbol", "incrementNonce", "setVotingFor",
];
fn level(a: &AuthRequired) -> usize {
    match a {
        AuthRequired::None => 0,
        AuthRequired::Either => 1,
        AuthRequired::Proof => 2,
        AuthRequired::Signature => 3,
        AuthRequired::Both => 4,
        AuthRequired::Impossible => 5,
    }
}
fn levels(p: &Permissions) -> [usize; 11] {
    [
        level(&p.edit_state), level(&p.send), level(&p.receive), level(&p.set_delegate), level(&p.set_permissions), level(&p.set_verification_key), level(&p.set_zkapp_uri),
        level(&p.edit_sequence_state), level(&p.set_token_symbol), level(&p.increment_nonce), level(&p.set_voting_for),
    ]
}
fn perms(own: usize, other: usize, special: usize) -> Obj {
    let mut o = Obj::new();
    for (i, k) in PERMS.iter().enumerate() {
        o.put(k, Value::String(LEVELS[if i == special { own } else { other }].to_string()));
    }
    o
}
/// one permission differs from all others
fn h_gql_permissions() {
    let i = sym::choose(11) as usize;
    let own = sym::choose(6) as usize;
    let other = (own + 1 + sym::choose(2) as usize) % 6;
    let p = Permissions::from_graphql_json(&perms(own, other, i).json()).unwrap();
    let got = levels(&p);
    for k in 0..11 {
        sym::check(got[k] == if k == i { own } else { other }, 1);
    }
    sym::cover(1);
}
/// a text that names no level, or no text at all
fn h_gql_permissions_bad() {
    let i = sym::choose(11) as usize;
    let mut o = perms(0, 3, i);
    match sym::choose(4) {
        0 => {
            o.0.remove(PERMS[i]);
        }
        1 => o.put(PERMS[i], Value::Null),
        2 => o.put(PERMS[i], Value::Bool(true)),
        _ => {
            let b: [u8; 5] = sym::bytes();
            let n = sym::choose(6) as usize;
            for k in 0..n {
                sym::assume(b[k] < 128);
            }
            sym::assume(n != 4 || !(&b[..4] == b"None" || &b[..4] == b"Both"));
            sym::assume(n != 5 || &b[..5] != b"Proof");
            o.put(PERMS[i], Value::String(txt(&b[..n]).to_string()));
        }
    }
    sym::check(Permissions::from_graphql_json(&o.json()).is_err(), 1);
    sym::cover(1);
}
const TIMING: [&str; 5] = ["initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement"];
fn timing() -> (Obj, TimedData) {
    let mut o = Obj::new();
    let t = TimedData {
        initial_minimum_balance: Amount(o.num(TIMING[0])),
        cliff_time: BlockTime(o.num(TIMING[1])),
        cliff_amount: Amount(o.num(TIMING[2])),
        vesting_period: BlockTime(o.num(TIMING[3])),
        vesting_increment: Amount(o.num(TIMING[4])),
    };
    (o, t)
}
fn h_gql_timing() {
    let (o, t) = timing();
    let j = o.json();
    sym::check(TimedData::from_graphql_json(&j).unwrap() == t, 1);
    match Timing::from_graphql_json(&j).unwrap() {
        Timing::Timed(x) => sym::check(x == t, 2),
        _ => sym::check(false, 3),
    }
    sym::cover(1);
}
fn h_gql_untimed() {
    let mut o = Obj::new();
    for k in TIMING {
        match sym::choose(2) {
            0 => {}
            _ => o.put(k, Value::Null),
        }
    }
    let j = o.json();
    sym::check(matches!(Timing::from_graphql_json(&j), Ok(Timing::Untimed)), 1);
    sym::check(TimedData::from_graphql_json(&j).is_err(), 2);
    sym::check(matches!(Timing::from_graphql_json(&Value::Null), Ok(Timing::Untimed)), 3);
    sym::cover(1);
}
/// some of the timing is there: all of it must be
fn h_gql_timing_bad() {
    let (mut o, _) = timing();
    spoil(&mut o, TIMING[sym::choose(5) as usize]);
    let j = o.json();
    sym::check(TimedData::from_graphql_json(&j).is_err(), 1);
    sym::check(Timing::from_graphql_json(&j).is_err(), 2);
    sym::cover(1);
}
fn account() -> (Obj, Account) {
    let mut o = Obj::new();
    let (t, timed) = timing();
    o.put("timing", t.json());
    let i = sym::choose(11) as usize;
    let p = perms(4, 1, i);
    let permissions = Permissions::from_graphql_json(&p.0.clone().into()).unwrap();
    o.put("permissions", p.json());
    let mut b = Obj::new();
    let balance = Amount(b.num("total"));
    o.put("balance", b.json());
    let owner = o.bool("isTokenOwner");
    let disabled = o.bool("isDisabled");
    let delegate = if sym::choose(2) == 1 {
        Some(o.key("delegate", 4))
    } else {
        if sym::choose(2) == 1 {
            o.put("delegate", Value::Null);
        }
        None
    };
    let a = Account {
        public_key: o.key("publicKey", 3),
        token_id: TokenId(o.num("token")),
        balance,
        token_permissions: if owner { TokenPermissions::TokenOwned { disable_new_accounts: disabled } } else { TokenPermissions::NotOwned { account_disabled: disabled } },
        token_symbol: Default::default(),
        nonce: AccountNonce(o.num("nonce") as u32),
        receipt_chain_hash: o.hash("receiptChainHash", 5, 5).into(),
        delegate,
        voting_for: o.hash("votingFor", 0x10, 6).into(),
        timing: Timing::Timed(timed),
        permissions,
        zkapp: None,
        zkapp_uri: None,
    };
    (o, a)
}
fn h_gql_account() {
    let (o, a) = account();
    let got = Account::from_graphql_json(&o.json()).unwrap();
    sym::check(same_key(&got.public_key, &a.public_key), 1);
    sym::check(got.token_id == a.token_id, 2);
    sym::check(got.balance == a.balance, 3);
    sym::check(
        match (&got.token_permissions, &a.token_permissions) {
            (TokenPermissions::TokenOwned { disable_new_accounts: x }, TokenPermissions::TokenOwned { disable_new_accounts: y }) => x == y,
            (TokenPermissions::NotOwned { account_disabled: x }, TokenPermissions::NotOwned { account_disabled: y }) => x == y,
            _ => false,
        },
        4,
    );
    sym::check(got.nonce == a.nonce, 5);
    sym::check(got.receipt_chain_hash == a.receipt_chain_hash, 6);
    sym::check(
        match (&got.delegate, &a.delegate) {
            (Some(x), Some(y)) => same_key(x, y),
            (None, None) => true,
            _ => false,
        },
        7,
    );
    sym::check(got.voting_for == a.voting_for, 8);
    sym::check(
        match (&got.timing, &a.timing) {
            (Timing::Timed(x), Timing::Timed(y)) => x == y,
            _ => false,
        },
        9,
    );
    sym::check(levels(&got.permissions) == levels(&a.permissions), 10);
    sym::check(got.zkapp.is_none() && got.zkapp_uri.is_none(), 11);
    sym::cover(1);
}
/// spoils the value of one required key
fn spoil(o: &mut Obj, k: &str) {
    match sym::choose(5) {
        0 => {
            o.0.remove(k);
        }
        1 => o.put(k, Value::Null),
        2 => o.put(k, Value::Bool(sym::concretize(sym::bool() as u64) == 1)),
        3 => o.put(k, Value::Array(vec![])),
        _ => o.put(k, Value::String("x".to_string())),
    }
}
fn h_gql_account_bad() {
    const REQUIRED: [&str; 7] = ["publicKey", "token", "balance", "nonce", "receiptChainHash", "votingFor", "permissions"];
    let mut o = Obj::new();
    let i = sym::choose(7) as usize;
    let mut b = Obj::new();
    b.num("total");
    o.put("balance", b.json());
    o.put("permissions", perms(1, 2, 3).json());
    o.key("publicKey", 3);
    o.num("token");
    o.num("nonce");
    o.hash("receiptChainHash", 5, 5);
    o.hash("votingFor", 0x10, 6);
    sym::check(Account::from_graphql_json(&o.0.clone().into()).is_ok(), 1);
    spoil(&mut o, REQUIRED[i]);
    sym::check(Account::from_graphql_json(&o.json()).is_err(), 2);
    sym::cover(1);
}
fn h_gql_consensus_bad() {
    const REQUIRED: [&str; 12] = [
        "blockHeight", "epochCount", "minWindowDensity", "lastVrfOutput", "totalCurrency", "slot", "slotSinceGenesis", "stakingEpochData", "nextEpochData", "blockStakeWinner", "blockCreator",
        "coinbaseReceiever",
    ];
    let (mut o, _) = consensus();
    spoil(&mut o, REQUIRED[sym::choose(12) as usize]);
    sym::check(ConsensusState::from_graphql_json(&o.json()).is_err(), 1);
    sym::cover(1);
}
fn h_gql_blockchain_bad() {
    const REQUIRED: [&str; 8] = [
        "stagedLedgerHash", "stagedLedgerAuxHash", "stagedLedgerPendingCoinbaseAux", "stagedLedgerPendingCoinbaseHash", "genesisLedgerHash", "snarkedLedgerHash", "utcDate", "bodyReference",
    ];
    let (mut o, _) = blockchain();
    spoil(&mut o, REQUIRED[sym::choose(8) as usize]);
    sym::check(BlockchainState::from_graphql_json(&o.json()).is_err(), 1);
    sym::cover(1);
}
fn h_gql_epoch_bad() {
    const REQUIRED: [&str; 5] = ["ledger", "seed", "startCheckpoint", "lockCheckpoint", "epochLength"];
    let (mut o, _) = epoch(3);
    if sym::choose(2) == 0 {
        spoil(&mut o, REQUIRED[sym::choose(5) as usize]);
    } else {
        let mut l = Obj::new();
        l.hash("hash", 5, 7);
        l.num("totalCurrency");
        spoil(&mut l, ["hash", "totalCurrency"][sym::choose(2) as usize]);
        o.put("ledger", l.json());
    }
    sym::check(EpochData::from_graphql_json(&o.json()).is_err(), 1);
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(
        n, h_gql_epoch, h_gql_consensus, h_gql_blockchain, h_gql_state, h_gql_state_bad, h_gql_permissions, h_gql_permissions_bad, h_gql_timing, h_gql_timing_bad, h_gql_untimed, h_gql_account, h_gql_account_bad, h_gql_consensus_bad,
        h_gql_blockchain_bad, h_gql_epoch_bad
    )
}
