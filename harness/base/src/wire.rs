//! Blocks and their parts: the bytes and the JSON of the protocol, written here independently, and
//! nothing lost on the way from the domain type through the versioned type and back.
use crate::gql::b58;
use mina_crypto::hash::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_serialization_types::{json::*, v1::*};
use proof_systems::mina_signer::{BaseField, CompressedPubKey, ScalarField, Signature};
use serde::{de::DeserializeOwned, Serialize};
use mina_rs_base::types::{BigInt256, DeltaTransitionChainProof, FiniteECPoint};
use mina_rs_base::protocol_state_proof::{proof_messages::*, SpongeDigestBeforeEvaluations};
use mina_rs_base::user_commands::signed_command::StakeDelegation;
use serde_json::{json, Map, Value};

/// What is written: the bytes so far, how numbers are chosen, a counter for distinct ones
pub struct W {
    pub b: Vec<u8>,
    wide: u64,
    json: bool,
    n: u64,
    /// one choice decides all the others
    plain: Option<u64>,
    seq: u64,
    /// how many hashes, keys and field elements have been written
    raws: u64,
    keys: u64,
}
impl W {
    pub fn new() -> W {
        W { b: vec![], wide: 0, json: false, n: 0, plain: None, seq: 0, raws: 0, keys: 0 }
    }
    /// numbers of one byte, or of 3, 5 or 9
    pub fn sized() -> W {
        W { wide: sym::choose(4) as u64, ..W::new() }
    }
    /// variants and optional parts chosen at this place, by what was chosen once or on their own
    fn choose(&mut self, k: u8) -> u64 {
        match self.plain {
            Some(p) => {
                self.seq += 1;
                (self.seq + p) % k as u64
            }
            None => sym::choose(k) as u64,
        }
    }
    fn plain(mut self) -> W {
        self.plain = Some(sym::choose(3) as u64);
        self
    }
    pub fn json() -> W {
        sym::stub_fmt(false);
        bs58::transparent(true);
        W { json: true, ..W::new() }
    }
    fn v(&mut self, n: usize) {
        for _ in 0..n {
            self.b.push(1)
        }
    }
    fn next(&mut self) -> u64 {
        self.n += 1;
        self.n
    }
    /// a number of at most 31 (or 63) bits
    fn uint(&mut self, big: bool) -> u64 {
        let v = if self.json {
            self.next() + 10
        } else {
            match (self.wide, big) {
                (0, _) => (sym::u8() & 0x7f) as u64,
                (1, _) => (sym::u16() & 0x3fff | 0x4000) as u64,
                (3, true) => sym::u64() & 0x3fff_ffff_ffff_ffff | 0x4000_0000_0000_0000,
                _ => (sym::u32() & 0x3fff_ffff | 0x4000_0000) as u64,
            }
        };
        if self.json {
            if v < 0x80 {
                self.b.push(v as u8)
            } else {
                self.b.push(0xfe);
                self.b.extend_from_slice(&(v as u16).to_le_bytes())
            }
            return v;
        }
        match (self.wide, big) {
            (0, _) => self.b.push(v as u8),
            (1, _) => {
                self.b.push(0xfe);
                self.b.extend_from_slice(&(v as u16).to_le_bytes())
            }
            (3, true) => {
                self.b.push(0xfc);
                self.b.extend_from_slice(&v.to_le_bytes())
            }
            _ => {
                self.b.push(0xfd);
                self.b.extend_from_slice(&(v as u32).to_le_bytes())
            }
        }
        v
    }
    fn u64(&mut self, n: usize) -> (u64, Value) {
        self.v(n);
        let v = self.uint(true);
        (v, if self.json { Value::String(v.to_string()) } else { Value::Null })
    }
    fn u32(&mut self, n: usize) -> (u32, Value) {
        self.v(n);
        let v = self.uint(false);
        (v as u32, if self.json { Value::String(v.to_string()) } else { Value::Null })
    }
    /// an amount that JSON writes with a decimal point
    fn coins(&mut self, n: usize) -> (Amount, Value) {
        if self.json {
            self.v(n);
            let k = self.next() % 50 + 1;
            let v = k * 1_000_000_000 + 500_000_000;
            self.b.push(0xfc);
            self.b.extend_from_slice(&v.to_le_bytes());
            let m = self.b.len();
            if v < 0x8000_0000 {
                self.b.truncate(m - 4);
                self.b[m - 9] = 0xfd;
            }
            return (Amount(v), Value::String(format!("{k}.5")));
        }
        let v = self.uint_v(n);
        (Amount(v), Value::Null)
    }
    fn uint_v(&mut self, n: usize) -> u64 {
        self.v(n);
        self.uint(true)
    }
    /// a signed 32 bit number, of any sign
    fn i32(&mut self, n: usize) -> (u32, Value) {
        if self.wide < 3 {
            return self.u32(n);
        }
        self.v(n);
        let v = sym::u32() & 0x3fff_ffff | 0x8000_0000;
        self.b.push(0xfd);
        self.b.extend_from_slice(&v.to_le_bytes());
        (v, Value::Null)
    }
    fn i64(&mut self, n: usize) -> (i64, Value) {
        let v = self.uint_v(n) as i64;
        (v, json!(v))
    }
    pub fn bool(&mut self) -> (bool, Value) {
        let v = if self.json { self.choose(2) == 1 } else { sym::bool() };
        self.b.push(v as u8);
        (v, if self.json { Value::Bool(v) } else { Value::Null })
    }
    fn raw(&mut self) -> [u8; 32] {
        let mut h: [u8; 32];
        if self.json {
            h = [self.next() as u8; 32];
            if self.raws < 6 {
                h[self.n as usize % 30] = sym::u8();
                h[30] = sym::u8();
            }
            self.raws += 1;
            h[31] = 1;
        } else {
            h = sym::bytes();
            h[31] &= 0x3f;
        }
        self.b.extend_from_slice(&h);
        h
    }
    fn hash<T: From<HashV1>>(&mut self, n: usize, version: u8) -> (T, Value) {
        self.v(n);
        let h = self.raw();
        let j = if self.json {
            let mut p = vec![1];
            p.extend_from_slice(&h);
            Value::String(b58(version, &p))
        } else {
            Value::Null
        };
        (HashV1::from(h).into(), j)
    }
    fn pk(&mut self, n: usize) -> (CompressedPubKey, Value) {
        self.v(n);
        let x = self.raw();
        self.keys += 1;
        let is_odd = if self.plain.is_some() && self.keys > 3 { self.keys % 2 == 0 } else { sym::bool() };
        self.b.push(is_odd as u8);
        let j = if self.json {
            let mut p = vec![1, 1];
            p.extend_from_slice(&x);
            p.push(is_odd as u8);
            Value::String(b58(0xcb, &p))
        } else {
            Value::Null
        };
        (CompressedPubKey { x: ark_ff::BigInteger256::from_le(&x).into(), is_odd }, j)
    }
    fn bytes(&mut self, n: usize, k: usize) -> Vec<u8> {
        self.v(n);
        self.b.push(k as u8);
        let mut o = vec![];
        for _ in 0..k {
            let x = if self.json { b'a' + (self.next() % 26) as u8 } else { sym::u8() };
            self.b.push(x);
            o.push(x);
        }
        o
    }
    fn hex(&mut self) -> (BigInt256, Value) {
        self.raws += 4;
        let h = self.raw();
        let mut s = String::from("0x");
        if self.json {
            for x in h {
                for n in [x >> 4, x & 15] {
                    s.push((b'0' + n + (n + 6 >> 4) * (b'a' - b'0' - 10)) as char);
                }
            }
        }
        (BigInt256(h), Value::String(s))
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut W) -> (T, Value)) -> (Option<T>, Value) {
        if self.choose(2) == 1 {
            self.b.push(1);
            let (t, j) = f(self);
            (Some(t), j)
        } else {
            self.b.push(0);
            (None, Value::Null)
        }
    }
    fn list<T>(&mut self, k: usize, mut f: impl FnMut(&mut W) -> (T, Value)) -> (Vec<T>, Value) {
        self.b.push(k as u8);
        let mut o = vec![];
        let mut js = vec![];
        for _ in 0..k {
            let (t, j) = f(self);
            o.push(t);
            js.push(j);
        }
        (o, Value::Array(js))
    }
    fn tag(&mut self, t: u8) {
        self.b.push(t)
    }
}
fn map<A, B>((a, j): (A, Value), f: impl FnOnce(A) -> B) -> (B, Value) {
    (f(a), j)
}
fn tagged(name: &str, mut v: Vec<Value>) -> Value {
    v.insert(0, Value::String(name.to_string()));
    Value::Array(v)
}
/// a structure: fields in the order of the wire, each under its own name in JSON
macro_rules! st {
    ($($t:ident)::+ { $($f:ident: $g:expr,)* }) => {{
        let mut m = Map::new();
        let d = $($t)::+ { $($f: { let (d, j) = $g; m.insert(stringify!($f).to_string(), j); d },)* };
        (d, Value::Object(m))
    }};
}
macro_rules! tu {
    ($t:path, $($g:expr,)*) => {{
        let mut m = vec![];
        let d = $t($({ let (d, j) = $g; m.push(j); d },)*);
        (d, Value::Array(m))
    }};
}
fn rename(mut j: Value, from: &str, to: &str) -> Value {
    let m = j.as_object_mut().unwrap();
    let v = m.remove(from).unwrap();
    m.insert(to.to_string(), v);
    j
}
fn wire<D, V>(d: &D, w: &W)
where
    D: Clone + PartialEq + From<V>,
    V: From<D> + Serialize + DeserializeOwned,
{
    let v: V = d.clone().into();
    let mut out = vec![];
    sym::check(bin_prot::to_writer(&mut out, &v).is_ok(), 1);
    sym::check(out == w.b, 2);
    let back = bin_prot::from_reader_strict::<_, V>(&w.b[..]);
    sym::check(back.is_ok(), 3);
    if let Ok(b) = back {
        sym::check(D::from(b) == *d, 4);
    }
    sym::cover(1);
}
fn text<D, J>(d: &D, j: &Value)
where
    D: Clone + PartialEq + From<J>,
    J: From<D> + Serialize + DeserializeOwned,
{
    let out = serde_json::to_value(J::from(d.clone()));
    sym::check(out.is_ok(), 11);
    if let Ok(v) = out {
        sym::check(v == *j, 12);
    }
    let back = serde_json::from_value::<J>(j.clone());
    #[cfg(feature = "native")]
    if let Err(e) = &back { eprintln!("{e} {j}"); }
    sym::check(back.is_ok(), 13);
    if let Ok(b) = back {
        sym::check(D::from(b) == *d, 14);
    }
    sym::cover(1);
}

// ---- states
fn amount(w: &mut W) -> (Amount, Value) {
    map(w.u64(2), Amount)
}
fn balance(w: &mut W) -> (Amount, Value) {
    map(w.u64(3), Amount)
}
fn token(w: &mut W) -> (TokenId, Value) {
    map(w.u64(3), TokenId)
}
fn length(w: &mut W) -> (Length, Value) {
    map(w.u32(2), Length)
}
fn time(w: &mut W) -> (BlockTime, Value) {
    map(w.u64(2), BlockTime)
}
fn slot(w: &mut W) -> (GlobalSlotNumber, Value) {
    map(w.u32(2), GlobalSlotNumber)
}
fn epoch(w: &mut W) -> (EpochData, Value) {
    w.v(2);
    st!(EpochData {
        ledger: { w.v(2); st!(EpochLedger { hash: w.hash(1, 5), total_currency: amount(w), }) },
        seed: w.hash(1, 0x0d),
        start_checkpoint: w.hash(1, 0x10),
        lock_checkpoint: w.hash(1, 0x10),
        epoch_length: length(w),
    })
}
fn consensus(w: &mut W) -> (ConsensusState, Value) {
    w.v(2);
    let n = w.choose(3) as usize;
    st!(ConsensusState {
        blockchain_length: length(w),
        epoch_count: length(w),
        min_window_density: length(w),
        sub_window_densities: w.list(n, length),
        last_vrf_output: {
            let b = w.bytes(1, 3);
            let s = if w.json { base64url(&b) } else { String::new() };
            (VrfOutputTruncated(b), Value::String(s))
        },
        total_currency: amount(w),
        curr_global_slot: { w.v(2); st!(GlobalSlot { slot_number: slot(w), slots_per_epoch: length(w), }) },
        global_slot_since_genesis: slot(w),
        staking_epoch_data: epoch(w),
        next_epoch_data: epoch(w),
        has_ancestor_in_same_checkpoint_window: w.bool(),
        block_stake_winner: w.pk(2),
        block_creator: w.pk(2),
        coinbase_receiver: w.pk(2),
        supercharge_coinbase: w.bool(),
    })
}
fn staged(w: &mut W) -> (StagedLedgerHash, Value) {
    w.v(2);
    st!(StagedLedgerHash {
        non_snark: {
            w.v(1);
            st!(NonSnarkStagedLedgerHash {
                ledger_hash: w.hash(1, 5),
                aux_hash: { let b = w.bytes(1, 4); let j = if w.json { Value::String(b58(0x0e, &b)) } else { Value::Null }; (AuxHash(b), j) },
                pending_coinbase_aux: { let b = w.bytes(1, 2); let j = if w.json { Value::String(b58(0x0f, &b)) } else { Value::Null }; (PendingCoinbaseAuxHash(b), j) },
            })
        },
        pending_coinbase_hash: w.hash(2, 0x0c),
    })
}
fn blockchain(w: &mut W) -> (BlockchainStateLegacy, Value) {
    w.v(2);
    st!(BlockchainStateLegacy {
        staged_ledger_hash: staged(w),
        snarked_ledger_hash: w.hash(1, 5),
        genesis_ledger_hash: w.hash(1, 5),
        snarked_next_available_token: token(w),
        timestamp: time(w),
    })
}
fn constants(w: &mut W) -> (ProtocolConstants, Value) {
    w.v(2);
    st!(ProtocolConstants { k: length(w), slots_per_epoch: length(w), slots_per_sub_window: length(w), delta: length(w), genesis_state_timestamp: time(w), })
}
fn state(w: &mut W) -> (ProtocolStateLegacy, Value) {
    w.v(2);
    st!(ProtocolStateLegacy {
        previous_state_hash: w.hash(1, 0x10),
        body: {
            w.v(2);
            st!(ProtocolStateBodyLegacy { genesis_state_hash: w.hash(1, 0x10), blockchain_state: blockchain(w), consensus_state: consensus(w), constants: constants(w), })
        },
    })
}
macro_rules! both {
    (plain, $wire:ident, $json:ident, $g:ident, $d:ty, $v:ty, $j:ty) => {
        fn $wire() {
            let mut w = W::sized().plain();
            let (d, _) = $g(&mut w);
            wire::<$d, $v>(&d, &w);
        }
        fn $json() {
            let mut w = W::json().plain();
            let (d, j) = $g(&mut w);
            text::<$d, $j>(&d, &j);
        }
    };
    ($wire:ident, $json:ident, $g:ident, $d:ty, $v:ty, $j:ty) => {
        fn $wire() {
            let mut w = W::sized();
            let (d, _) = $g(&mut w);
            wire::<$d, $v>(&d, &w);
        }
        fn $json() {
            let mut w = W::json();
            let (d, j) = $g(&mut w);
            text::<$d, $j>(&d, &j);
        }
    };
}
both!(h_wire_consensus, h_json_consensus, consensus, ConsensusState, ConsensusStateV1, ConsensusStateJson);
both!(h_wire_blockchain, h_json_blockchain, blockchain, BlockchainStateLegacy, BlockchainStateV1, BlockchainStateJson);
both!(h_wire_constants, h_json_constants, constants, ProtocolConstants, ProtocolConstantsV1, ProtocolConstantsJson);
both!(plain, h_wire_state, h_json_state, state, ProtocolStateLegacy, ProtocolStateV1, ProtocolStateJson);

// ---- commands
fn memo(w: &mut W) -> (SignedCommandMemo, Value) {
    let n = w.choose(3) as usize;
    let b = w.bytes(1, n);
    let j = Value::String(if w.json { b58(0x14, &b) } else { String::new() });
    (SignedCommandMemo(b), j)
}
fn command(w: &mut W) -> (SignedCommand, Value) {
    w.v(2);
    st!(SignedCommand {
        payload: {
            w.v(2);
            st!(SignedCommandPayload {
                common: {
                    w.v(3);
                    st!(SignedCommandPayloadCommon {
                        fee: w.coins(2),
                        fee_token: token(w),
                        fee_payer_pk: w.pk(2),
                        nonce: map(w.i32(2), AccountNonce),
                        valid_until: map(w.i32(2), GlobalSlotNumber),
                        memo: memo(w),
                    })
                },
                body: body(w),
            })
        },
        signer: w.pk(3),
        signature: {
            w.v(2);
            let n = w.b.len();
            let (rx, s) = (w.raw(), w.raw());
            let j = if w.json { Value::String(b58(0x9a, &w.b[n - 1..])) } else { Value::Null };
            (Signature { rx: BaseField::from(ark_ff::BigInteger256::from_le(&rx)), s: ScalarField::from(ark_ff::BigInteger256::from_le(&s)) }, j)
        },
    })
}
fn body(w: &mut W) -> (SignedCommandPayloadBody, Value) {
    w.v(2);
    if w.choose(2) == 0 {
        w.tag(0);
        w.v(2);
        let (d, j) = st!(PaymentPayload { source_pk: w.pk(2), receiver_pk: w.pk(2), token_id: token(w), amount: amount(w), });
        (SignedCommandPayloadBody::PaymentPayload(d), tagged("Payment", vec![j]))
    } else {
        w.tag(1);
        w.v(1);
        w.tag(0);
        let (d, j) = st!(StakeDelegation::SetDelegate { delegator: w.pk(2), new_delegate: w.pk(2), });
        (SignedCommandPayloadBody::StakeDelegation(d), tagged("Stake_delegation", vec![tagged("Set_delegate", vec![j])]))
    }
}
fn user_command(w: &mut W) -> (UserCommand, Value) {
    w.v(2);
    w.tag(0);
    let (d, j) = command(w);
    (UserCommand::SignedCommand(d), tagged("Signed_command", vec![j]))
}
both!(h_wire_command, h_json_command, user_command, UserCommand, UserCommandV1, UserCommandJson);

const FAILURES: [&str; 15] = [
    "Predicate", "Source_not_present", "Receiver_not_present", "Amount_insufficient_to_create_account", "Cannot_pay_creation_fee_in_token", "Source_insufficient_balance",
    "Source_minimum_balance_violation", "Receiver_already_exists", "Not_token_owner", "Mismatched_token_permissions", "Overflow", "Signed_command_on_snapp_account", "Snapp_account_not_present",
    "Update_not_permitted", "Incorrect_nonce",
];
fn failure(w: &mut W) -> (TransactionStatusFailedType, Value) {
    use TransactionStatusFailedType::*;
    let i = w.choose(15) as usize;
    w.v(1);
    w.tag(i as u8);
    let d = match i {
        0 => Predicate,
        1 => SourceNotPresent,
        2 => ReceiverNotPresent,
        3 => AmountInsufficientToCreateAccount,
        4 => CannotPayCreationFeeInToken,
        5 => SourceInsufficientBalance,
        6 => SourceMinimumBalanceViolation,
        7 => ReceiverAlreadyExists,
        8 => NotTokenOwner,
        9 => MismatchedTokenPermissions,
        10 => Overflow,
        11 => SignedCommandOnSnappAccount,
        12 => SnappAccountNotPresent,
        13 => UpdateNotPermitted,
        _ => IncorrectNonce,
    };
    (d, Value::String(FAILURES[i].to_string()))
}
fn status(w: &mut W) -> (TransactionStatus, Value) {
    w.v(1);
    let balances = |w: &mut W| {
        w.v(1);
        st!(TransactionStatusBalanceData { fee_payer_balance: w.opt(balance), source_balance: w.opt(balance), receiver_balance: w.opt(balance), })
    };
    if w.choose(2) == 0 {
        w.tag(0);
        w.v(1);
        let (a, ja) = st!(TransactionStatusAuxiliaryData { fee_payer_account_creation_fee_paid: w.opt(amount), receiver_account_creation_fee_paid: w.opt(amount), created_token: w.opt(token), });
        let (b, jb) = balances(w);
        (TransactionStatus::Applied(a, b), tagged("Applied", vec![ja, jb]))
    } else {
        w.tag(1);
        let n = w.choose(3) as usize;
        let (a, ja) = w.list(n, failure);
        let (b, jb) = balances(w);
        (TransactionStatus::Failed(a, b), tagged("Failed", vec![ja, jb]))
    }
}
fn with_status(w: &mut W) -> (UserCommandWithStatus, Value) {
    w.v(1);
    st!(UserCommandWithStatus { data: user_command(w), status: status(w), })
}
both!(h_wire_status, h_json_status, status, TransactionStatus, TransactionStatusV1, TransactionStatusJson);
both!(plain, h_wire_with_status, h_json_with_status, with_status, UserCommandWithStatus, UserCommandWithStatusV1, UserCommandWithStatusJson);
fn transfer(w: &mut W) -> (CoinBaseFeeTransfer, Value) {
    w.v(2);
    st!(CoinBaseFeeTransfer { receiver_pk: w.pk(2), fee: w.coins(2), })
}
fn coinbase(w: &mut W) -> (CoinBase, Value) {
    w.v(1);
    match w.choose(3) {
        0 => {
            w.tag(0);
            (CoinBase::Zero, tagged("Zero", vec![]))
        }
        1 => {
            w.tag(1);
            let (a, ja) = w.opt(transfer);
            (CoinBase::One(a), tagged("One", vec![ja]))
        }
        _ => {
            w.tag(2);
            let (a, ja) = w.opt(transfer);
            let (b, jb) = w.opt(transfer);
            (CoinBase::Two(a, b), tagged("Two", vec![ja, jb]))
        }
    }
}
both!(h_wire_coinbase, h_json_coinbase, coinbase, CoinBase, CoinBaseV1, CoinBaseJson);
fn internal(w: &mut W) -> (InternalCommandBalanceData, Value) {
    w.v(1);
    if w.choose(2) == 0 {
        w.tag(0);
        w.v(1);
        let (d, j) = st!(CoinBaseBalanceData { coinbase_receiver_balance: balance(w), fee_transfer_receiver_balance: w.opt(balance), });
        (InternalCommandBalanceData::CoinBase(d), tagged("Coinbase", vec![j]))
    } else {
        w.tag(1);
        w.v(1);
        let (d, j) = st!(FeeTransferBalanceData { receiver1_balance: balance(w), receiver2_balance: w.opt(balance), });
        (InternalCommandBalanceData::FeeTransfer(d), tagged("Fee_transfer", vec![j]))
    }
}
both!(h_wire_internal, h_json_internal, internal, InternalCommandBalanceData, InternalCommandBalanceDataV1, InternalCommandBalanceDataJson);

// ---- proofs
fn hex64(w: &mut W) -> (Hex64, Value) {
    map(w.i64(1), Hex64)
}
fn vector2(w: &mut W) -> (ScalarChallengeVector2, Value) {
    w.v(1);
    let (a, ja) = hex64(w);
    let (b, jb) = hex64(w);
    w.b.push(0);
    (ScalarChallengeVector2(a, b, ()), Value::Array(vec![ja, jb]))
}
fn pre(w: &mut W) -> (BulletproofPreChallenge, Value) {
    w.v(1);
    w.tag(0);
    let (d, j) = vector2(w);
    (BulletproofPreChallenge::ScalarChallenge(d), tagged("Scalar_challenge", vec![j]))
}
fn challenge(w: &mut W) -> (BulletproofChallenge, Value) {
    w.v(1);
    st!(BulletproofChallenge { prechallenge: pre(w), })
}
fn t17(w: &mut W) -> (BulletproofChallengeTuple17, Value) {
    w.v(3);
    let (d, j) = w_list(w, 17);
    let [a, b, c, e, f, g, h, i, k, l, m, n, o, p, q, r, s]: [BulletproofChallenge; 17] = d.try_into().unwrap();
    w.b.push(0);
    (BulletproofChallengeTuple17(a, b, c, e, f, g, h, i, k, l, m, n, o, p, q, r, s, ()), j)
}
fn t18(w: &mut W) -> (BulletproofChallengeTuple18, Value) {
    w.v(2);
    let (d, j) = w_list(w, 18);
    let [a, b, c, e, f, g, h, i, k, l, m, n, o, p, q, r, s, t]: [BulletproofChallenge; 18] = d.try_into().unwrap();
    w.b.push(0);
    (BulletproofChallengeTuple18(a, b, c, e, f, g, h, i, k, l, m, n, o, p, q, r, s, t, ()), j)
}
fn w_list(w: &mut W, k: usize) -> (Vec<BulletproofChallenge>, Value) {
    let mut o = vec![];
    let mut js = vec![];
    for _ in 0..k {
        let (d, j) = challenge(w);
        o.push(d);
        js.push(j);
    }
    (o, Value::Array(js))
}
fn shifted(w: &mut W) -> (ShiftedValue, Value) {
    w.v(1);
    w.tag(0);
    let (d, j) = w.hex();
    (ShiftedValue::ShiftedValue(d), tagged("Shifted_value", vec![j]))
}
fn point(w: &mut W) -> (FiniteECPoint, Value) {
    tu!(FiniteECPoint, w.hex(), w.hex(),)
}
fn ec(w: &mut W) -> (ECPoint, Value) {
    w.v(1);
    if w.choose(2) == 0 {
        w.tag(0);
        (ECPoint::Infinite, tagged("Infinite", vec![]))
    } else {
        w.tag(1);
        let (d, j) = point(w);
        (ECPoint::Finite(d), tagged("Finite", vec![j]))
    }
}
fn elements(w: &mut W) -> (FieldElementVec, Value) {
    w.v(1);
    let k = (w.next() % 2) as usize;
    map(w.list(k, |w| w.hex()), FieldElementVec)
}
fn evals(w: &mut W) -> (ProofEvaluations, Value) {
    w.v(1);
    st!(ProofEvaluations {
        l: elements(w),
        r: elements(w),
        o: elements(w),
        z: elements(w),
        t: elements(w),
        f: elements(w),
        sigma1: elements(w),
        sigma2: elements(w),
    })
}
fn deferred(w: &mut W) -> (ProofStateDeferredValues, Value) {
    w.v(1);
    st!(ProofStateDeferredValues {
        plonk: { w.v(1); st!(Plonk { alpha: pre(w), beta: vector2(w), gamma: vector2(w), zeta: pre(w), }) },
        combined_inner_product: shifted(w),
        b: shifted(w),
        xi: pre(w),
        bulletproof_challenges: t18(w),
        which_branch: {
            w.v(1);
            let c = if w.json { b'a' + w.next() as u8 % 26 } else { sym::u8() };
            w.b.push(c);
            (Char(c), Value::String((c as char).to_string()))
        },
    })
}
fn statement(w: &mut W) -> (ProofStatement, Value) {
    w.v(2);
    st!(ProofStatement {
        proof_state: {
            w.v(1);
            st!(ProofState {
                deferred_values: deferred(w),
                sponge_digest_before_evaluations: {
                    w.v(2);
                    let r = {
                        let (a, ja) = hex64(w);
                        let (b, jb) = hex64(w);
                        let (c, jc) = hex64(w);
                        let (d, jd) = hex64(w);
                        (SpongeDigestBeforeEvaluations(a, b, c, d, ()), Value::Array(vec![ja, jb, jc, jd]))
                    };
                    w.b.push(0);
                    r
                },
                me_only: {
                    w.v(1);
                    st!(ProofStatePairingBased {
                        sg: point(w),
                        old_bulletproof_challenges: {
                            w.v(1);
                            let (a, ja) = t17(w);
                            let (b, jb) = t17(w);
                            w.b.push(0);
                            (ProofStateBulletproofChallenges(a, b, ()), Value::Array(vec![ja, jb]))
                        },
                    })
                },
            })
        },
        pass_through: {
            w.v(1);
            let n = w.choose(2) as usize;
            st!(PairingBased {
                app_state: { w.b.push(0); ((), Value::Null) },
                sg: { w.v(1); map(w.list(n, point), FiniteECPointVec) },
                old_bulletproof_challenges: { w.v(1); map(w.list(1 - n, t18), BulletproofChallenges) },
            })
        },
    })
}
fn proof_part(w: &mut W) -> (Proof, Value) {
    w.v(2);
    let comm = |w: &mut W, k: usize| {
        w.v(2);
        map(w.list(k, point), ProofMessageWithoutDegreeBoundList)
    };
    st!(Proof {
        messages: {
            w.v(1);
            st!(ProofMessages {
                l_comm: comm(w, 1),
                r_comm: comm(w, 2),
                o_comm: comm(w, 0),
                z_comm: comm(w, 1),
                t_comm: {
                    w.v(1);
                    st!(ProofMessageWithDegreeBound { unshifted: { w.v(1); map(w.list(2, ec), ECPointVec) }, shifted: ec(w), })
                },
            })
        },
        openings: {
            w.v(1);
            st!(ProofOpenings {
                proof: {
                    w.v(1);
                    st!(OpeningProof {
                        lr: { w.v(1); map(w.list(1, |w| tu!(FiniteECPointPair, point(w), point(w),)), FiniteECPointPairVec) },
                        z_1: w.hex(),
                        z_2: w.hex(),
                        delta: point(w),
                        sg: point(w),
                    })
                },
                evals: tu!(ProofOpeningsEvals, evals(w), evals(w),),
            })
        },
    })
}
fn proof(w: &mut W) -> (ProtocolStateProof, Value) {
    w.v(4);
    st!(ProtocolStateProof {
        statement: statement(w),
        prev_evals: { w.v(1); tu!(PrevEvals, evals(w), evals(w),) },
        prev_x_hat: { w.v(1); map(point(w), PrevXHat) },
        proof: proof_part(w),
    })
}
both!(plain, h_wire_proof, h_json_proof, proof, ProtocolStateProof, ProtocolStateProofV1, ProtocolStateProofJson);

// ---- snark work
fn work(w: &mut W) -> (TransactionSnarkWork, Value) {
    w.v(1);
    st!(TransactionSnarkWork {
        fee: w.coins(2),
        proofs: {
            w.v(1);
            let poly = |w: &mut W, s: &str| {
                let mut h = 0u32;
                for c in s.bytes() {
                    h = h.wrapping_mul(223).wrapping_add(c as u32) & 0x7fff_ffff;
                }
                w.b.extend_from_slice(&(h << 1 | 1).to_le_bytes());
            };
            if w.choose(2) == 0 {
                poly(w, "One");
                let (a, ja) = snark(w);
                (OneORTwo::One(Box::new(a)), tagged("One", vec![ja]))
            } else {
                poly(w, "Two");
                let (a, ja) = snark(w);
                let (b, jb) = snark(w);
                (OneORTwo::Two(Box::new(a), Box::new(b)), tagged("Two", vec![ja, jb]))
            }
        },
        prover: w.pk(2),
    })
}
fn pending(w: &mut W) -> (PendingCoinbase, Value) {
    w.v(2);
    let (d, j) = st!(PendingCoinbase {
        data_stack: w.hash(1, 0x17),
        state_stack: { w.v(2); st!(StateStack { init: w.hash(1, 0x18), curr: w.hash(1, 0x18), }) },
    });
    (d, rename(rename(j, "data_stack", "data"), "state_stack", "state"))
}
fn excess(w: &mut W) -> (FeeExcess, Value) {
    st!(FeeExcess {
        token: token(w),
        amount: {
            w.v(1);
            st!(Signed {
                magnitude: w.coins(2),
                sgn: {
                    w.v(1);
                    if w.choose(2) == 0 {
                        w.tag(0);
                        (SgnType::Pos, tagged("Pos", vec![]))
                    } else {
                        w.tag(1);
                        (SgnType::Neg, tagged("Neg", vec![]))
                    }
                },
            })
        },
    })
}
fn work_statement(w: &mut W) -> (Statement, Value) {
    w.v(2);
    st!(Statement {
        source: w.hash(1, 5),
        target: w.hash(1, 5),
        supply_increase: amount(w),
        pending_coinbase_stack_state: { w.v(2); st!(PendingCoinbaseStackState { source: pending(w), target: pending(w), }) },
        fee_excess: { w.v(2); tu!(FeeExcessPair, excess(w), excess(w),) },
        next_available_token_before: token(w),
        next_available_token_after: token(w),
        sok_digest: {
            let b = w.bytes(1, 3);
            let j = Value::String(if w.json { String::from_utf8(b.clone()).unwrap() } else { String::new() });
            (ByteVec(b), j)
        },
    })
}
fn snark(w: &mut W) -> (TransactionSnark, Value) {
    w.v(2);
    let (d, j) = st!(TransactionSnark { statement: work_statement(w), transaction_snark_proof: proof(w), });
    (d, rename(j, "transaction_snark_proof", "proof"))
}
both!(h_wire_statement, h_json_statement, work_statement, Statement, StatementV1, StatementJson);
both!(plain, h_wire_work, h_json_work, work, TransactionSnarkWork, TransactionSnarkWorkV1, TransactionSnarkWorkJson);

// ---- blocks
fn chain_proof(w: &mut W) -> (DeltaTransitionChainProof, Value) {
    let n = w.choose(3) as usize;
    tu!(DeltaTransitionChainProof, w.hash(1, 5), w.list(n, |w| w.hash(1, 5)),)
}
both!(h_wire_chain_proof, h_json_chain_proof, chain_proof, DeltaTransitionChainProof, mina_serialization_types::v1::DeltaTransitionChainProof, DeltaTransitionChainProofJson);
fn version(w: &mut W) -> (ProtocolVersion, Value) {
    w.v(1);
    st!(ProtocolVersion { major: w.u32(0), minor: w.u32(0), patch: w.u32(0), })
}
fn h_wire_version() {
    let mut w = W::sized();
    let (d, _) = version(&mut w);
    wire::<ProtocolVersion, ProtocolVersionV1>(&d, &w);
}
fn pre_diff(w: &mut W) -> (StagedLedgerPreDiff, Value) {
    w.v(2);
    let (a, b, c) = (w.choose(2) as usize, w.choose(3) as usize, w.choose(2) as usize);
    st!(StagedLedgerPreDiff { completed_works: w.list(a, work), commands: w.list(b, with_status), coinbase: coinbase(w), internal_command_balances: w.list(c, internal), })
}
/// the pair inside has no public constructor: read it from its bytes, look at both halves
fn diff(w: &mut W) -> (StagedLedgerDiff, Value) {
    let n = w.b.len();
    w.v(2);
    let (a, ja) = pre_diff(w);
    let (b, jb) = w.opt(pre_diff);
    let v = bin_prot::from_reader_strict::<_, StagedLedgerDiffV1>(&w.b[n..]);
    sym::check(v.is_ok(), 5);
    let d: StagedLedgerDiff = match v {
        Ok(v) => v.into(),
        Err(_) => Default::default(),
    };
    sym::check(*d.diff.diff_two() == a && *d.diff.diff_one() == b, 6);
    (d, json!({ "diff": [ja, jb] }))
}
both!(plain, h_wire_diff, h_json_diff, diff, StagedLedgerDiff, StagedLedgerDiffV1, StagedLedgerDiffJson);
fn block(w: &mut W) -> (ExternalTransition, Value) {
    w.v(1);
    let (d, mut j) = st!(ExternalTransition {
        protocol_state: state(w),
        protocol_state_proof: {
            let n = w.b.len();
            let (d, _) = proof(w);
            let j = if w.json { Value::String(base64url(&w.b[n..])) } else { Value::Null };
            (d, j)
        },
        staged_ledger_diff: diff(w),
        delta_transition_chain_proof: chain_proof(w),
        current_protocol_version: if w.json { (ProtocolVersion::default(), Value::Null) } else { version(w) },
        proposed_protocol_version_opt: if w.json { (None, Value::Null) } else { w.opt(version) },
        validation_callback: { w.b.push(0); ((), Value::Null) },
    });
    for k in ["current_protocol_version", "proposed_protocol_version_opt", "validation_callback"] {
        j.as_object_mut().unwrap().remove(k);
    }
    (d, j)
}
both!(plain, h_wire_block, h_json_block, block, ExternalTransition, ExternalTransitionV1, ExternalTransitionJson);
fn base64url(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let g = |i: usize| *c.get(i).unwrap_or(&0);
        let q = [g(0) >> 2, (g(0) & 3) << 4 | g(1) >> 4, (g(1) & 15) << 2 | g(2) >> 6, g(2) & 63];
        for (i, x) in q.iter().enumerate() {
            s.push(if i > c.len() { '=' } else { digit64(*x) });
        }
    }
    s
}
fn digit64(i: u8) -> char {
    match i {
        0..=25 => (b'A' + i) as char,
        26..=51 => (b'a' + i - 26) as char,
        52..=61 => (b'0' + i - 52) as char,
        62 => '-',
        _ => '_',
    }
}
/// one node of the text is something else, or missing
fn spoil(j: &mut Value, at: &mut u64, with: &Value) {
    if *at == 0 {
        *j = with.clone();
    }
    *at = at.wrapping_sub(1);
    match j {
        Value::Array(v) if *at < u64::MAX / 2 => v.iter_mut().for_each(|x| spoil(x, at, with)),
        Value::Object(m) if *at < u64::MAX / 2 => m.values_mut().for_each(|x| spoil(x, at, with)),
        _ => (),
    }
}
fn count(j: &Value) -> u64 {
    1 + match j {
        Value::Array(v) => v.iter().map(count).sum::<u64>(),
        Value::Object(m) => m.values().map(count).sum::<u64>(),
        _ => 0,
    }
}
fn bad<D, J: DeserializeOwned + Serialize>(g: fn(&mut W) -> (D, Value), limit: u64) {
    sym::stub_fmt(true);
    let mut w = W::json().plain();
    let (_, mut j) = g(&mut w);
    let n = count(&j).min(limit);
    let mut at = sym::choose(n as u8) as u64;
    let with = match sym::choose(10) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(7),
        3 => json!(-1.5),
        4 => json!(""),
        5 => Value::String(String::from_utf8(vec![b'0' + sym::choose(50), b'a']).unwrap()),
        6 => json!([]),
        7 => json!({}),
        8 => json!(["Zero"]),
        _ => json!([["One"], "Two"]),
    };
    spoil(&mut j, &mut at, &with);
    if let Ok(v) = serde_json::from_value::<J>(j) {
        sym::check(serde_json::to_value(v).is_ok(), 21);
    } else {
        sym::cover(1);
    }
}
macro_rules! bad {
    ($($h:ident $g:ident $j:ty,)*) => { $(fn $h() { bad::<_, $j>($g, if stringify!($g) == "proof" { 40 } else { 120 }) })* };
}
bad! {
    h_bad_coinbase coinbase CoinBaseJson,
    h_bad_status status TransactionStatusJson,
    h_bad_command user_command UserCommandJson,
    h_bad_internal internal InternalCommandBalanceDataJson,
    h_bad_statement work_statement StatementJson,
    h_bad_state state ProtocolStateJson,
    h_bad_proof proof ProtocolStateProofJson,
    h_bad_chain_proof chain_proof DeltaTransitionChainProofJson,
}

pub fn run(n: &str) -> bool {
    sym::dispatch!(
        n, h_wire_consensus, h_json_consensus, h_wire_blockchain, h_json_blockchain, h_wire_constants, h_json_constants, h_wire_state, h_json_state, h_wire_command, h_json_command, h_wire_status,
        h_json_status, h_wire_with_status, h_json_with_status, h_wire_coinbase, h_json_coinbase, h_wire_internal, h_json_internal, h_wire_proof, h_json_proof, h_wire_statement, h_json_statement,
        h_wire_work, h_json_work, h_wire_chain_proof, h_json_chain_proof, h_wire_version,
        h_wire_diff, h_json_diff, h_wire_block, h_json_block, h_bad_coinbase, h_bad_status, h_bad_command, h_bad_internal, h_bad_statement, h_bad_state, h_bad_proof, h_bad_chain_proof
    )
}
