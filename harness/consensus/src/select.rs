use mina_consensus::common::*;
use mina_consensus::error::ConsensusError;
use mina_crypto::hash::StateHash;
use mina_rs_base::consensus_state::*;
use mina_rs_base::epoch_data::*;
use mina_rs_base::global_slot::GlobalSlot;
use mina_rs_base::numbers::*;
use mina_rs_base::protocol_state::*;
use proof_systems::mina_hasher::Fp;
use proof_systems::mina_signer::CompressedPubKey;

/// a block, as chain selection sees it
#[derive(Clone)]
pub struct Hdr {
    s: ConsensusState,
    hash: u64,
    id: u8,
}
impl ProtocolStateHeader for Hdr {
    fn get_height(&self) -> Length {
        self.s.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.s.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.s.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.s
    }
    fn constants(&self) -> &ProtocolConstants {
        unreachable!()
    }
    fn state_hash_fp(&self) -> Fp {
        Fp::from(self.hash)
    }
}
type Chain = ProtocolStateChain<Hdr>;

fn pk() -> CompressedPubKey {
    CompressedPubKey { x: Fp::from(1u64), is_odd: false }
}
fn lock(b: u8) -> StateHash {
    let mut v = [0u8; 32];
    v[0] = b;
    StateHash::from(v)
}
fn epoch(b: u8) -> EpochData {
    EpochData { lock_checkpoint: lock(b), ..Default::default() }
}

/// what a state is made of; unnamed parts are concrete
#[derive(Clone, Copy)]
struct Parts {
    len: u32,
    epoch: u32,
    min: u32,
    slot: u32,
    spe: u32,
    staking: u8,
    next: u8,
    vrf: [u8; 2],
    hash: u64,
    n: usize,
    dens: [u32; 12],
}
const DENS: [u32; 12] = [1, 2, 3, 4, 5, 6, 7, 6, 5, 4, 3, 7];
impl Parts {
    fn plain() -> Self {
        Parts { len: 100, epoch: 3, min: 20, slot: 2000, spe: 7140, staking: 1, next: 2, vrf: [7, 9], hash: 5, n: 11, dens: DENS }
    }
    fn hdr(&self, id: u8) -> Hdr {
        let s = ConsensusState {
            blockchain_length: Length(self.len),
            epoch_count: Length(self.epoch),
            min_window_density: Length(self.min),
            sub_window_densities: self.dens[..self.n].iter().map(|d| Length(*d)).collect(),
            last_vrf_output: VrfOutputTruncated(self.vrf.to_vec()),
            total_currency: Amount(0),
            curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(self.slot), slots_per_epoch: Length(self.spe) },
            global_slot_since_genesis: GlobalSlotNumber(0),
            staking_epoch_data: epoch(self.staking),
            next_epoch_data: epoch(self.next),
            has_ancestor_in_same_checkpoint_window: false,
            block_stake_winner: pk(),
            block_creator: pk(),
            coinbase_receiver: pk(),
            supercharge_coinbase: false,
        };
        Hdr { s, hash: self.hash, id }
    }
    fn chain(&self, id: u8) -> Chain {
        ProtocolStateChain(vec![self.hdr(id)])
    }
}

// ---- the rules, written out again

fn ref_short(a: &Parts, b: &Parts) -> bool {
    if a.epoch == b.epoch {
        return a.staking == b.staking;
    }
    let ahead = |x: &Parts, y: &Parts| x.epoch as u64 == y.epoch as u64 + 1 && y.spe != 0 && y.slot % y.spe >= 4760 && x.staking == y.next;
    ahead(a, b) || ahead(b, a)
}
/// candidate beats tip when both are judged by length
fn ref_longer(tip: &Parts, c: &Parts) -> bool {
    let d = |p: &Parts| VrfOutputTruncated(p.vrf.to_vec()).digest();
    if c.len != tip.len {
        return c.len > tip.len;
    }
    let (dc, dt) = (d(c), d(tip));
    for i in 0..32 {
        if dc[i] != dt[i] {
            return dc[i] > dt[i];
        }
    }
    c.hash > tip.hash
}
/// sum of the densities left when `shift` sub windows after `first` have passed empty
fn projected(p: &Parts, first: u32, shift: u32) -> u32 {
    let mut sum = 0u64;
    for j in 0..11u32 {
        // distance of j behind the current sub window, 1..=11
        let d = (j + 22 - first - 1) % 11 + 1;
        sum += if d <= shift { 0 } else { p.dens[j as usize] as u64 };
    }
    sum.min(u32::MAX as u64) as u32
}
fn max_slot(a: &Parts, b: &Parts) -> u32 {
    a.slot.max(b.slot)
}
/// as specified: docs/specs/consensus, "Relative minimum window density"
fn spec_density(a: &Parts, b: &Parts) -> u32 {
    let m = max_slot(a, b);
    if m < 1440 {
        return a.min;
    }
    let shift = (m as i64 - a.slot as i64 - 1).max(0).min(11) as u32;
    a.min.min(projected(a, a.slot / 7 % 11, shift))
}
/// as the code has it (a known finding where it differs from the above)
fn code_density(a: &Parts, b: &Parts) -> u32 {
    let m = max_slot(a, b);
    if m < 1440 {
        return a.min;
    }
    let shift = (m as i64 - (a.slot as i64 - 1).max(0)).min(11) as u32;
    a.min.min(projected(a, a.slot / 11 % 11, shift))
}
fn valid(c: &Parts) -> bool {
    c.n == 11 && c.dens[..11].iter().all(|d| *d <= 7)
}
/// the whole rule, given the densities the code computes
fn ref_select(tip: &Parts, c: &Parts) -> bool {
    if ref_short(tip, c) {
        return ref_longer(tip, c);
    }
    if !valid(c) {
        return false;
    }
    let (t, n) = (density(tip, c), density(c, tip));
    n > t || n == t && ref_longer(tip, c)
}
fn density(a: &Parts, b: &Parts) -> u32 {
    a.chain(0).relative_min_window_density(&b.chain(0)).unwrap_or(u32::MAX)
}
fn picks(tip: &Parts, c: &Parts) -> bool {
    let mut ch = tip.chain(1);
    let r = ch.select_secure_chain(vec![c.chain(2)]);
    sym::check(r.is_ok(), 50);
    sym::check(ch.0.len() == 1, 51);
    ch.0[0].id == 2
}

// ---- harnesses

/// lengths, last VRF outputs and state hashes decide between two chains of the same epoch
fn h_longer() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.len = sym::u32();
    c.len = sym::u32();
    t.vrf = sym::bytes();
    c.vrf = sym::bytes();
    t.hash = sym::u64();
    c.hash = sym::u64();
    let w = ref_longer(&t, &c);
    let mut ch = t.chain(1);
    sym::check(ch.select_longer_chain(c.chain(2)).is_ok(), 1);
    sym::check((ch.0[0].id == 2) == w, 2);
    let p = picks(&t, &c);
    sym::check(p == w, 3);
    if w {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}

/// short range or not: epochs, checkpoints and slots of both chains
fn h_short() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    for p in [&mut t, &mut c] {
        p.epoch = sym::u32();
        p.staking = sym::u8();
        p.next = sym::u8();
        p.slot = sym::u32();
    }
    let w = ref_short(&t, &c);
    let r = t.chain(1).is_short_range(&c.chain(2));
    let q = c.chain(2).is_short_range(&t.chain(1));
    sym::check(r == Ok(w), 1);
    sym::check(q == Ok(w), 2);
    if w {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// the same with any number of slots per epoch, zero included
fn h_short_spe() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.spe = sym::u32();
    c.spe = [0, 1, 7140][sym::choose(3) as usize];
    t.epoch = sym::u32();
    c.epoch = sym::u32();
    t.slot = 4765;
    c.slot = 4765;
    t.next = 1;
    let w = ref_short(&t, &c);
    sym::check(t.chain(1).is_short_range(&c.chain(2)) == Ok(w), 1);
    sym::check(c.chain(1).is_short_range(&t.chain(2)) == Ok(w), 2);
    sym::cover(1);
}

/// density of a chain relative to another, against the specification
fn judge(t: &Parts, c: &Parts, spec: bool) {
    let r = t.chain(1).relative_min_window_density(&c.chain(2));
    let (s, k) = (spec_density(t, c), code_density(t, c));
    sym::check(r.is_ok(), 1);
    let r = r.unwrap();
    sym::check((r == s) | (r == k), 2);
    sym::check(r <= t.min, 3);
    if max_slot(t, c) < 1440 {
        sym::check(r == t.min, 4);
        sym::cover(2);
    } else {
        sym::cover(1);
    }
    if spec {
        sym::check(r == s, 7);
    }
}
/// every density list
fn h_density() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.slot = [0, 1, 1439, 1440, 1447, 1555, u32::MAX][sym::choose(7) as usize];
    let d = [0, 1, 2, 3, 9, 10, 80][sym::choose(7) as usize];
    c.slot = t.slot.saturating_add(d);
    t.min = sym::u32();
    for d in t.dens.iter_mut() {
        *d = sym::u8() as u32 & 7;
    }
    judge(&t, &c, false);
}
/// the slots of a whole window and every distance up to two sub windows past it; the densities are
/// weights that tell which sub windows were counted
fn window(base: u32, span: u8) {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.slot = base + sym::choose(span) as u32;
    let d = sym::choose(18);
    c.slot = match d {
        17 => 3,
        16 => t.slot.saturating_add(5000),
        _ => t.slot.saturating_add(d as u32),
    };
    t.min = sym::u16() as u32;
    for (k, d) in t.dens.iter_mut().enumerate() {
        *d = 1 << k;
    }
    judge(&t, &c, true);
}
fn h_density_grace() {
    window(1400, 60)
}
fn h_density_slots() {
    window(2000, 121)
}
fn h_density_high() {
    window(u32::MAX - 130, 130)
}

/// any density list, of the wrong length or with huge entries
fn h_density_any() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.n = [0, 1, 10, 11, 12][sym::choose(5) as usize];
    t.slot = [0, 1439, 1440, 1445, 2000, u32::MAX][sym::choose(6) as usize];
    c.slot = [0, 1445, 1450, 2005, u32::MAX][sym::choose(5) as usize];
    t.min = sym::u32();
    let r = t.chain(1).relative_min_window_density(&c.chain(2));
    if let Ok(r) = r {
        sym::check(r <= t.min, 1);
        sym::cover(1);
    } else {
        sym::check(t.n < 11, 2);
        sym::cover(2);
    }
}

/// two densities of any size: nothing checks those of the chain that is kept
fn h_density_huge() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    t.slot = [1440, 2000][sym::choose(2) as usize];
    c.slot = t.slot + [0, 5][sym::choose(2) as usize];
    t.min = u32::MAX;
    t.dens = [0; 12];
    t.dens[sym::choose(11) as usize] = sym::u32();
    t.dens[10] = sym::u32();
    judge(&t, &c, false);
}

/// what selection does with the densities: two long range chains
fn h_long() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    c.staking = 77;
    t.min = sym::u32();
    c.min = sym::u32();
    t.len = sym::u32();
    c.len = sym::u32();
    c.hash = sym::u64();
    t.slot = [100, 1300, 2000, 2003, 2100, 9000][sym::choose(6) as usize];
    c.slot = [50, 1439, 1440, 2000, 2001, 2077, 2222][sym::choose(7) as usize];
    let w = ref_select(&t, &c);
    let p = picks(&t, &c);
    sym::check(p == w, 1);
    if w {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// the same over the densities themselves
fn h_long_dens() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    c.staking = 77;
    t.min = sym::u8() as u32;
    c.min = sym::u8() as u32;
    let k = sym::choose(11) as usize;
    t.dens[k] = sym::u8() as u32 & 7;
    c.dens[(k + 3) % 11] = sym::u8() as u32 & 7;
    t.slot = 2000;
    c.slot = [1990, 2000, 2040][sym::choose(3) as usize];
    let w = ref_select(&t, &c);
    sym::check(picks(&t, &c) == w, 1);
    if w {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// a candidate whose density list is malformed never wins a long range fork
fn h_adversary() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    c.staking = 77;
    c.len = sym::u32();
    c.min = sym::u32();
    c.n = [0, 1, 10, 11, 12][sym::choose(5) as usize];
    let k = sym::choose(12) as usize;
    c.dens[k] = sym::u32();
    t.min = sym::u8() as u32;
    let bad = c.n != 11 || k < 11 && c.dens[k] > 7;
    let w = ref_select(&t, &c);
    let p = picks(&t, &c);
    if bad {
        sym::check(!p, 1);
        sym::cover(1);
    } else {
        sym::check(p == w, 2);
        sym::cover(2);
    }
}
/// the same candidate in a short range fork is judged by length
fn h_adversary_short() {
    let t = Parts::plain();
    let mut c = Parts::plain();
    c.len = sym::u32();
    c.vrf = sym::bytes();
    c.n = [0, 10, 11, 12][sym::choose(4) as usize];
    c.dens[3] = sym::u32();
    sym::check(picks(&t, &c) == ref_longer(&t, &c), 1);
    sym::cover(1);
}
fn some(p: &mut Parts) {
    p.len = sym::u32();
    p.vrf = [sym::u8(), 3];
    p.hash = sym::u64();
    p.epoch = sym::choose(2) as u32;
    p.staking = sym::choose(2);
    p.next = sym::u8() & 1;
    p.slot = [1000, 4900][sym::choose(2) as usize];
    p.min = sym::u8() as u32;
}
/// two nodes that hold one each of two chains and offer them to each other agree
fn h_agree() {
    let mut t = Parts::plain();
    let mut c = Parts::plain();
    some(&mut t);
    some(&mut c);
    let a = picks(&t, &c);
    let b = picks(&c, &t);
    sym::check(a == ref_select(&t, &c), 1);
    // one side switches, or neither does and the chains rank equal
    sym::check(!(a && b), 2);
    let same = t.len == c.len && t.vrf == c.vrf && t.hash == c.hash;
    sym::check(a || b || same, 3);
    if a {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// candidates are judged one after the other, each against the best so far
fn h_several() {
    let mut ps = [Parts::plain(); 4];
    for p in ps.iter_mut() {
        p.len = sym::u8() as u32 & 3;
        p.hash = sym::u8() as u64 & 3;
        p.staking = 1 + sym::choose(2);
        p.min = 10 + (sym::u8() as u32 & 3);
    }
    let mut ch = ps[0].chain(0);
    let r = ch.select_secure_chain(vec![ps[1].chain(1), ps[2].chain(2), ps[3].chain(3)]);
    sym::check(r.is_ok(), 1);
    let mut best = 0usize;
    for k in 1..4 {
        let (t, c) = (&ps[best], &ps[k]);
        let longer = c.len > t.len || c.len == t.len && c.hash > t.hash;
        let win = if t.staking == c.staking {
            longer
        } else {
            // equal slots and windows
            let (dt, dc) = (density(t, c), density(c, t));
            dc > dt || dc == dt && longer
        };
        if win {
            best = k;
        }
        best = sym::concretize(best as u64) as usize;
    }
    sym::check(ch.0[0].id as usize == best, 2);
    sym::cover(1);
    if best == 3 {
        sym::cover(2)
    }
}
/// no candidates: nothing changes; an empty chain is an error, not a panic
fn h_empty() {
    let p = Parts::plain();
    let e: Chain = ProtocolStateChain(vec![]);
    let mut t = p.chain(1);
    sym::check(t.select_secure_chain(vec![]).is_ok() && t.0.len() == 1, 1);
    sym::check(t.select_secure_chain(vec![ProtocolStateChain(vec![])]) == Err(ConsensusError::ConsensusStateNotFound), 2);
    sym::check(t.select_longer_chain(ProtocolStateChain(vec![])) == Err(ConsensusError::ConsensusStateNotFound), 3);
    sym::check(t.0.len() == 1 && t.0[0].id == 1, 4);
    let mut f: Chain = ProtocolStateChain(vec![]);
    sym::check(f.select_secure_chain(vec![p.chain(2)]).is_err() && f.0.is_empty(), 5);
    sym::check(e.relative_min_window_density(&p.chain(1)).is_err() && p.chain(1).relative_min_window_density(&e).is_err(), 6);
    sym::check(e.top().is_none() && e.length() == 0 && e.global_slot().is_none() && e.epoch_slot().is_none() && e.state_hash().is_none(), 7);
    sym::check(e.last_vrf_hash_digest() == Err(ConsensusError::TopBlockNotFound), 8);
    sym::cover(1);
}
/// heights of a chain grow by one; a refused block leaves the chain as it was
fn h_push() {
    let mut ch: Chain = ProtocolStateChain(vec![]);
    let mut want: Vec<u32> = vec![];
    for k in 0..4u8 {
        let mut p = Parts::plain();
        p.len = sym::u32();
        p.slot = 10 * k as u32;
        let ok = match want.last() {
            None => true,
            Some(h) => p.len as u64 == *h as u64 + 1,
        };
        let r = ch.push(p.hdr(k));
        if ok {
            sym::check(r == Ok(()), 1);
            want.push(p.len);
        } else {
            sym::check(r == Err(ConsensusError::InvalidHeight), 2);
        }
        sym::check(ch.0.len() == want.len(), 3);
        for (b, w) in ch.0.iter().zip(&want) {
            sym::check(b.s.blockchain_length.0 == *w, 4);
        }
        let top = ch.top().unwrap();
        sym::check(top.s.blockchain_length.0 == *want.last().unwrap(), 5);
        sym::check(ch.length() == *want.last().unwrap() as usize, 6);
        sym::check(ch.genesis_block().unwrap().id == 0, 7);
    }
    sym::cover(1);
    if want.len() == 4 {
        sym::cover(2)
    }
}
/// epoch slot of the top block
fn h_epoch_slot() {
    let mut p = Parts::plain();
    p.slot = sym::u32();
    p.spe = sym::u16() as u32;
    let q = p.chain(1).epoch_slot();
    if p.spe == 0 {
        sym::check(q.is_none(), 1);
        sym::cover(2);
    } else {
        sym::check(q == Some(p.slot % p.spe), 2);
        sym::cover(1);
    }
    sym::check(p.chain(1).global_slot().map(|s| s.slot_number.0) == Some(p.slot), 3);
}

pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_longer, h_short, h_short_spe, h_density, h_density_grace, h_density_slots, h_density_high, h_density_any, h_density_huge, h_long, h_long_dens, h_adversary, h_adversary_short, h_agree, h_several, h_empty, h_push, h_epoch_slot)
}
