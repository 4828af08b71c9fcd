//! The transition frontier: which blocks are let in, which one is best, which ledger goes with it.
use crate::proc::now;
use mina_consensus::common::{ChainSelection, ProtocolStateChain};
use mina_crypto::hash::StateHash;
use mina_merkle::{DefaultMerkleProof, MerkleHasher, MerkleTreeNodeMetadata};
use mina_network::processor::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::StakeDelegation;
use mina_serialization_types::staged_ledger_diff as ser;
use proof_systems::mina_hasher::Fp;
use proof_systems::mina_signer::{CompressedPubKey, Keypair, NetworkId, PubKey};
use serde_json::{json, Map, Value};

type Main = NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet>;
type Berk = NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet>;

fn lock(b: u8) -> StateHash {
    let mut v = [0u8; 32];
    v[0] = b;
    StateHash::from(v)
}
fn key(x: u64) -> CompressedPubKey {
    CompressedPubKey { x: Fp::from(x), is_odd: false }
}
/// what chain selection looks at
#[derive(Clone, Copy)]
struct Parts {
    len: u32,
    vrf: u8,
    epoch: u32,
    staking: u8,
    slot: u32,
    dens: bool,
    tag: u8,
}
impl Parts {
    fn state(&self) -> ConsensusState {
        let mut s = ConsensusState {
            blockchain_length: Length(self.len),
            epoch_count: Length(self.epoch),
            min_window_density: Length(20),
            last_vrf_output: VrfOutputTruncated(vec![self.vrf]),
            curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(self.slot), slots_per_epoch: Length(7140) },
            ..Default::default()
        };
        s.sub_window_densities = if self.dens { [1, 2, 3, 4, 5, 6, 7, 6, 5, 4, 3].iter().map(|d| Length(*d)).collect() } else { vec![] };
        s.staking_epoch_data.lock_checkpoint = lock(self.staking);
        s.next_epoch_data.lock_checkpoint = lock(9);
        s
    }
    fn legacy(&self) -> ProtocolStateLegacy {
        let mut p = ProtocolStateLegacy::default();
        p.previous_state_hash = lock(self.tag);
        p.body.consensus_state = self.state();
        p
    }
    fn berkeley(&self) -> ProtocolState {
        let mut p = ProtocolState::default();
        p.previous_state_hash = lock(self.tag);
        p.body.consensus_state = self.state();
        p
    }
}
fn short(tag: u8) -> Parts {
    // lengths are any, and the outputs of the lottery tell blocks of one length apart
    Parts { len: sym::u32(), vrf: tag, epoch: 3, staking: 1, slot: 2000, dens: true, tag }
}
fn tied_at(tag: u8) -> Parts {
    Parts { len: 0, vrf: 0, epoch: 3, staking: 1, slot: 2000, dens: true, tag: tag ^ 1 }
}
fn tied(tag: u8) -> Parts {
    Parts { len: sym::choose(3) as u32, vrf: sym::choose(2), ..tied_at(tag) }
}
fn long(tag: u8) -> Parts {
    if tag == 0 {
        return Parts { len: 100, vrf: 1, epoch: 3, staking: 1, slot: 3 * 7140 + 2000, dens: sym::choose(2) == 1, tag };
    }
    let epoch = 2 + sym::choose(3) as u32;
    let slot = epoch * 7140 + 1800 + sym::choose(3) as u32 * 200;
    Parts { len: 99 + sym::choose(3) as u32, vrf: 1, epoch, staking: sym::choose(2), slot, dens: sym::choose(2) == 1, tag }
}
/// what is best after `c` came
fn after<H: ProtocolStateHeader + Clone>(tip: &ProtocolStateChain<H>, c: &H) -> Result<ProtocolStateChain<H>, ()> {
    let mut t = tip.clone();
    if t.0.is_empty() {
        t.0.push(c.clone());
    } else {
        t.select_secure_chain(vec![ProtocolStateChain(vec![c.clone()])]).map_err(|_| ())?;
    }
    Ok(t)
}

// ---- mainnet

#[derive(Clone, Copy, PartialEq)]
enum Sig {
    Good,
    Testnet,
    Other,
    NoPoint,
}
fn command(nonce: u32, sig: Sig) -> UserCommandWithStatus {
    let payload = SignedCommandPayload {
        common: SignedCommandPayloadCommon {
            fee: Amount(1),
            fee_token: TokenId(1),
            fee_payer_pk: key(4),
            nonce: AccountNonce(nonce),
            valid_until: GlobalSlotNumber(9),
            memo: SignedCommandMemo::default(),
        },
        body: SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: key(4), new_delegate: key(5) }),
    };
    let net = if sig == Sig::Testnet { NetworkId::TESTNET } else { NetworkId::MAINNET };
    let mut c = payload.into_signed_command(Keypair { public: PubKey(key(4)) }, net);
    match sig {
        Sig::Other => c.signer = key(8),
        Sig::NoPoint => c.signer = key(7),
        _ => {}
    }
    let none = TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None };
    UserCommandWithStatus { data: UserCommand::SignedCommand(c), status: TransactionStatus::Failed(vec![], none) }
}
fn block(state: ProtocolStateLegacy, two: Vec<UserCommandWithStatus>, one: Option<Vec<UserCommandWithStatus>>) -> ExternalTransition {
    let two = StagedLedgerPreDiff { commands: two, ..Default::default() };
    let one = one.map(|c| StagedLedgerPreDiff { commands: c, ..Default::default() });
    let t = ser::StagedLedgerDiffTuple(two.into(), one.map(Into::into));
    ExternalTransition {
        protocol_state: state,
        protocol_state_proof: Default::default(),
        staged_ledger_diff: ser::StagedLedgerDiff { diff: t.into() }.into(),
        delta_transition_chain_proof: Default::default(),
        current_protocol_version: ProtocolVersion { major: 1, minor: 0, patch: 0 },
        proposed_protocol_version_opt: None,
        validation_callback: (),
    }
}
/// a block is let in if and only if every command in it is signed for mainnet by its signer
fn h_main_verify() {
    let sigs = [Sig::Good, Sig::Testnet, Sig::Other, Sig::NoPoint];
    let mut all = true;
    let mut list = |n: u8| -> Vec<UserCommandWithStatus> {
        (0..n).map(|_| { let s = sigs[sym::choose(4) as usize]; all &= s == Sig::Good; command(sym::u32(), s) }).collect()
    };
    let two = list(sym::choose(3));
    let one = if sym::choose(2) == 1 { Some(list(sym::choose(2))) } else { None };
    let mut f = Main::new();
    let first = sym::choose(2) == 1;
    let old = Parts { len: 5, vrf: 1, epoch: 3, staking: 1, slot: 2000, dens: true, tag: 1 };
    if first {
        sym::check(now(f.add_block(block(old.legacy(), vec![command(1, Sig::Good)], None))).is_ok(), 1);
    }
    let new = Parts { len: 6, tag: 2, ..old };
    let r = now(f.add_block(block(new.legacy(), two, one)));
    sym::check(r.is_ok() == all, 2);
    let want = if all { vec![new.legacy()] } else if first { vec![old.legacy()] } else { vec![] };
    sym::check(f.get_best_chain().0 == want, 3);
    sym::check(f.get_sparse_merkle_ledger().is_empty(), 4);
    sym::cover(if all { 1 } else { 2 });
}
/// forks within an epoch: the longest chain, then the larger output of the lottery, then the larger hash
fn h_main_short() {
    main_short(short, 3)
}
fn h_main_tied() {
    main_short(tied, 2)
}
fn main_short(parts: fn(u8) -> Parts, n: u8) {
    let mut f = Main::new();
    let mut best: Option<Parts> = None;
    for tag in 0..n {
        let c = parts(tag);
        let r = now(f.add_block(block(c.legacy(), vec![], None)));
        let take = match &best {
            None => true,
            Some(b) => {
                let tie = || {
                    let (x, y) = (ProtocolStateChain(vec![b.legacy()]), ProtocolStateChain(vec![c.legacy()]));
                    let (u, v) = (x.last_vrf_hash_digest().unwrap(), y.last_vrf_hash_digest().unwrap());
                    if u != v { v > u } else { y.state_hash() > x.state_hash() }
                };
                if c.len != b.len { c.len > b.len } else { tie() }
            }
        };
        sym::check(r.is_ok(), 1);
        if take {
            best = Some(c);
        }
        sym::check(f.get_best_chain().0 == vec![best.unwrap().legacy()], 2);
        sym::cover(if take { 1 } else { 2 });
    }
}
/// forks of any range: what chain selection says, and an error leaves everything as it was
fn h_main_long() {
    let mut f = Main::new();
    for tag in 0..2 {
        let c = long(tag).legacy();
        let want = after(f.get_best_chain(), &c);
        let old = f.get_best_chain().clone();
        let r = now(f.add_block(block(c, vec![], None)));
        sym::check(r.is_ok() == want.is_ok(), 1);
        sym::cover(if want.is_ok() { 1 } else { 2 });
        sym::check(*f.get_best_chain() == want.unwrap_or(old), 2);
    }
}

// ---- berkeley net

pub fn b58(version: u8, payload: &[u8]) -> String {
    bs58::encode(payload).with_check_version(version).into_string()
}
fn hash58(version: u8, tag: u8) -> Value {
    let mut b = vec![1, tag];
    b.extend([0; 31]);
    Value::String(b58(version, &b))
}
fn key58(tag: u8) -> String {
    let mut b = vec![1, 1, tag];
    b.extend([0; 32]);
    b58(0xcb, &b)
}
fn state_json(len: &str) -> Value {
    let epoch = || json!({"epochLength": "1", "lockCheckpoint": hash58(0x10, 2), "seed": hash58(0x0d, 3), "startCheckpoint": hash58(0x10, 4),
        "ledger": {"hash": hash58(0x05, 5), "totalCurrency": "7"}});
    json!({
        "previousStateHash": hash58(0x10, 1),
        "consensusState": {
            "blockCreator": key58(1), "blockHeight": len, "blockStakeWinner": key58(2), "epoch": "0", "blockchainLength": len,
            "coinbaseReceiever": key58(3), "epochCount": "0", "hasAncestorInSameCheckpointWindow": true,
            "lastVrfOutput": b58(0x15, &[1, 7]), "minWindowDensity": "77", "slot": "0", "slotSinceGenesis": "0",
            "superchargedCoinbase": true, "totalCurrency": "9", "nextEpochData": epoch(), "stakingEpochData": epoch(),
        },
        "blockchainState": {
            "bodyReference": "36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421",
            "date": "5", "utcDate": "5", "snarkedLedgerHash": hash58(0x05, 6), "stagedLedgerAuxHash": b58(0x0e, &[8; 32]),
            "stagedLedgerHash": hash58(0x05, 7), "stagedLedgerPendingCoinbaseAux": b58(0x0f, &[9; 32]),
            "stagedLedgerPendingCoinbaseHash": hash58(0x0c, 8), "stagedLedgerProofEmitted": false, "genesisLedgerHash": hash58(0x05, 9),
        },
    })
}
fn leaf(p: &MerkleProofBerkeleyNet) -> Fp {
    DummyHasher::hash(&p.item, MerkleTreeNodeMetadata::new(p.index, 3))
}
fn answer(entries: Vec<(String, Value)>) -> Value {
    let mut m = Map::new();
    m.insert("bestChain".to_string(), json!([{"protocolState": state_json("11")}]));
    for (k, v) in entries {
        m.insert(k, v);
    }
    Value::Object(m)
}
fn again(p: &MerkleProofBerkeleyNet, index: usize) -> MerkleProofBerkeleyNet {
    DefaultMerkleProof::new(index, p.item.clone(), p.peer_indices.clone(), p.peer_hashes.clone())
}
fn sample() -> MerkleProofBerkeleyNet {
    let e = json!({"merklePath": [{"left": "3", "right": null}], "leafHash": "5"});
    let r = ProtocolStateWithSparseMerkleLedger::try_from(&answer(vec![(key58(1), e)]));
    match r {
        Ok(s) => again(&s.1[0], 1),
        Err(_) => {
            sym::check(false, 90);
            unreachable!()
        }
    }
}
/// the ledger kept is the one that came with the best block
fn berkeley(parts: fn(u8) -> Parts, n: u8) {
    bs58::transparent(true);
    let p = sample();
    bs58::transparent(false);
    let mut f = Berk::new();
    let mut ledger: Vec<usize> = vec![];
    for tag in 0..n {
        let c = parts(tag).berkeley();
        let size = if n == 2 || tag == 2 { 1 + tag as usize } else { sym::choose(2) as usize };
        let came: Vec<usize> = (0..size).map(|i| 1 + 10 * (tag as usize + 1) + i).collect();
        let want = after(f.get_best_chain(), &c);
        let old = f.get_best_chain().clone();
        let r = now(f.add_block(ProtocolStateWithSparseMerkleLedger(c.clone(), came.iter().map(|i| again(&p, *i)).collect())));
        sym::check(r.is_ok() == want.is_ok(), 1);
        if let Ok(w) = &want {
            if w.0.last() == Some(&c) {
                ledger = came;
                sym::cover(1);
            } else {
                sym::cover(2);
            }
        } else {
            sym::cover(3);
        }
        sym::check(*f.get_best_chain() == want.unwrap_or(old), 2);
        sym::check(f.get_best_chain().0.len() == 1, 3);
        let got: Vec<usize> = f.get_sparse_merkle_ledger().iter().map(|p| p.index).collect();
        sym::check(got == ledger, 4);
    }
}
fn h_berk_short() {
    berkeley(|t| Parts { len: 1 + sym::choose(2) as u32, vrf: 1, ..tied_at(t) }, 3)
}
/// lengths that start at nothing
fn h_berk_zero() {
    berkeley(|t| Parts { len: sym::choose(3) as u32, vrf: t, ..tied_at(t) }, 2)
}
fn h_berk_long() {
    berkeley(|t| if t == 0 { Parts { len: 100, vrf: 1, epoch: 3, staking: 1, slot: 3 * 7140 + 2000, dens: true, tag: 0 } } else { long(t) }, 2)
}

/// a number below 100 and its text
fn num() -> (u64, String) {
    let (a, b) = (sym::u8(), sym::u8());
    sym::assume(a < 10 && b < 10);
    let t = [b'0' + a, b'0' + b];
    (a as u64 * 10 + b as u64, String::from(std::str::from_utf8(&t).unwrap()))
}
/// an account's answer, what it stands for: leaf, then peers with their side
fn entry(depth: u8) -> (Value, u64, Vec<(bool, u64)>) {
    let (l, leaf) = num();
    let mut path = vec![];
    let mut peers = vec![];
    for _ in 0..depth {
        let (v, t) = num();
        let left = sym::choose(2) == 1;
        peers.push((left, v));
        path.push(if left { json!({"left": t, "right": null}) } else { json!({"left": null, "right": t}) });
    }
    (json!({"merklePath": path, "leafHash": leaf}), l, peers)
}
/// one proof per account, each with that account's path and leaf; what is not an account is no proof
fn h_ledger_json() {
    bs58::transparent(true);
    let mut es = vec![];
    let mut want = vec![];
    for i in 0..2u8 {
        let (v, l, peers) = entry(1 + sym::choose(2));
        match sym::choose(4) {
            0 => es.push((String::from("genesisBlock"), v)),
            1 => {
                // an address with another version byte
                let mut b = vec![1, 1, i];
                b.extend([0; 32]);
                es.push((b58(0xcc, &b), v))
            }
            _ => {
                es.push((key58(i + 1), v));
                want.push((l, peers));
            }
        }
    }
    match ProtocolStateWithSparseMerkleLedger::try_from(answer(es)) {
        Ok(ProtocolStateWithSparseMerkleLedger(s, proofs)) => {
            sym::check(s.body.consensus_state.blockchain_length.0 == 11, 1);
            sym::check(s.previous_state_hash == lock(1), 2);
            sym::check(proofs.len() == want.len(), 3);
            for (p, (l, peers)) in proofs.iter().zip(&want) {
                sym::check(leaf(p) == Fp::from(*l), 4);
                // a path names the side the leaf is on; nodes are numbered from the root, row by row
                let mut index = (1 << peers.len()) - 1;
                for (i, (left, _)) in peers.iter().enumerate() {
                    index += if *left { 0 } else { 1 << i };
                }
                sym::check(p.index == index, 7);
                sym::check(p.peer_hashes.len() == peers.len(), 5);
                for (x, (_, v)) in p.peer_hashes.iter().zip(peers) {
                    sym::check(*x == Some(Fp::from(*v)), 6);
                }
            }
        }
        Err(_) => sym::check(false, 8),
    }
    sym::cover(1 + want.len() as u32);
}
/// an account whose answer is damaged is an error, not a missing or wrong proof
fn h_ledger_json_bad() {
    bs58::transparent(true);
    let (mut v, _, _) = entry(2);
    let (w, _, _) = entry(1);
    match sym::choose(9) {
        0 => { v.as_object_mut().unwrap().remove("leafHash"); }
        1 => v["leafHash"] = Value::Null,
        2 => v["leafHash"] = json!("12x"),
        3 => { v.as_object_mut().unwrap().remove("merklePath"); }
        4 => v["merklePath"] = json!([]),
        5 => v["merklePath"][1] = json!({"left": "1", "right": "2"}),
        6 => v["merklePath"][0] = json!({"left": null, "right": null}),
        7 => v["merklePath"][1] = json!({"left": "zz", "right": null}),
        _ => v = Value::Null,
    }
    let (a, b) = if sym::choose(2) == 1 { (v, w) } else { (w, v) };
    sym::check(ProtocolStateWithSparseMerkleLedger::try_from(answer(vec![(key58(1), a), (key58(2), b)])).is_err(), 1);
    sym::cover(1);
}
/// no state, no ledger
fn h_ledger_json_state() {
    bs58::transparent(true);
    let (v, _, _) = entry(1);
    let mut j = answer(vec![(key58(1), v)]);
    match sym::choose(5) {
        0 => { j.as_object_mut().unwrap().remove("bestChain"); }
        1 => j["bestChain"] = json!([]),
        2 => j["bestChain"][0]["protocolState"] = Value::Null,
        3 => j["bestChain"][0]["protocolState"]["consensusState"]["blockHeight"] = json!("1x"),
        _ => j = Value::Array(vec![j]),
    }
    sym::check(ProtocolStateWithSparseMerkleLedger::try_from(j).is_err(), 1);
    sym::cover(1);
}

pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_main_verify, h_main_short, h_main_tied, h_main_long, h_berk_short, h_berk_zero, h_berk_long, h_ledger_json, h_ledger_json_bad, h_ledger_json_state)
}
