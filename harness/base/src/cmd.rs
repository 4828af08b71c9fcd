//! Signed commands: what is signed, who verifies it, how they are built.
use crate::pack::fp;
use ark_ff::PrimeField;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::{builder::SignedTransferCommandBuilder, StakeDelegation};
use mina_rs_base::verifiable::Verifiable;
use mina_serialization_types::staged_ledger_diff as ser;
use proof_systems::mina_hasher::{Fp, Hashable, ROInput};
use proof_systems::mina_signer::{self, CompressedPubKey, Keypair, NetworkId, PubKey, ScalarField, Signature, Signer};

fn key(x: Fp) -> CompressedPubKey {
    CompressedPubKey { x, is_odd: sym::bool() }
}
fn memo(n: usize) -> SignedCommandMemo {
    let b: [u8; 36] = sym::bytes();
    SignedCommandMemo(b[..n].to_vec())
}
fn payload_of(pay: bool, memo_len: usize, pk: impl Fn(u64) -> CompressedPubKey) -> SignedCommandPayload {
    let common = SignedCommandPayloadCommon {
        fee: Amount(sym::u64()),
        fee_token: TokenId(sym::u64()),
        fee_payer_pk: pk(0),
        nonce: AccountNonce(sym::u32()),
        valid_until: GlobalSlotNumber(sym::u32()),
        memo: memo(memo_len),
    };
    let body = if pay {
        SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: pk(1), receiver_pk: pk(2), token_id: TokenId(sym::u64()), amount: Amount(sym::u64()) })
    } else {
        SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: pk(1), new_delegate: pk(2) })
    };
    SignedCommandPayload { common, body }
}
fn payload(pay: bool, memo_len: usize) -> SignedCommandPayload {
    payload_of(pay, memo_len, |_| key(fp()))
}
fn bits(o: &mut Vec<bool>, x: u64, n: u32) {
    for i in 0..n {
        o.push(x >> i & 1 == 1);
    }
}
/// the input of the signature, listed
fn listed(p: &SignedCommandPayload) -> ROInput {
    let (a, b, token, amount, tag) = match &p.body {
        SignedCommandPayloadBody::PaymentPayload(t) => (&t.source_pk, &t.receiver_pk, t.token_id.0, t.amount.0, 0),
        SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator, new_delegate }) => (delegator, new_delegate, 1, 0, 4),
    };
    let c = &p.common;
    let mut o = Vec::new();
    bits(&mut o, c.fee.0, 64);
    bits(&mut o, c.fee_token.0, 64);
    bits(&mut o, c.fee_payer_pk.is_odd as u64, 1);
    bits(&mut o, c.nonce.0 as u64, 32);
    bits(&mut o, c.valid_until.0 as u64, 32);
    for x in &c.memo.0 {
        bits(&mut o, *x as u64, 8);
    }
    bits(&mut o, tag, 3);
    bits(&mut o, a.is_odd as u64, 1);
    bits(&mut o, b.is_odd as u64, 1);
    bits(&mut o, token, 64);
    bits(&mut o, amount, 64);
    bits(&mut o, 0, 1);
    ROInput { fields: vec![c.fee_payer_pk.x, a.x, b.x], bits: o }
}
fn same_fp(a: &Fp, b: &Fp) -> bool {
    let (a, b) = (a.into_repr().0, b.into_repr().0);
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
}
fn same_input(a: &ROInput, b: &ROInput) -> bool {
    if a.fields.len() != b.fields.len() || a.bits.len() != b.bits.len() {
        return false;
    }
    let mut s = true;
    for (x, y) in a.fields.iter().zip(&b.fields) {
        s &= same_fp(x, y);
    }
    for (x, y) in a.bits.iter().zip(&b.bits) {
        s &= x == y;
    }
    s
}
fn same_key(a: &CompressedPubKey, b: &CompressedPubKey) -> bool {
    same_fp(&a.x, &b.x) & (a.is_odd == b.is_odd)
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut s = true;
    for (x, y) in a.iter().zip(b) {
        s &= x == y;
    }
    s
}
fn same_payload(p: &SignedCommandPayload, q: &SignedCommandPayload) -> bool {
    let (a, b) = (&p.common, &q.common);
    let common = (a.fee.0 == b.fee.0)
        & (a.fee_token.0 == b.fee_token.0)
        & same_key(&a.fee_payer_pk, &b.fee_payer_pk)
        & (a.nonce.0 == b.nonce.0)
        & (a.valid_until.0 == b.valid_until.0)
        & same_bytes(&a.memo.0, &b.memo.0);
    let body = match (&p.body, &q.body) {
        (SignedCommandPayloadBody::PaymentPayload(a), SignedCommandPayloadBody::PaymentPayload(b)) => {
            same_key(&a.source_pk, &b.source_pk) & same_key(&a.receiver_pk, &b.receiver_pk) & (a.token_id.0 == b.token_id.0) & (a.amount.0 == b.amount.0)
        }
        (
            SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: a, new_delegate: c }),
            SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: b, new_delegate: d }),
        ) => same_key(a, b) & same_key(c, d),
        _ => false,
    };
    common & body
}
fn h_sign_input() {
    let p = payload(sym::choose(2) == 1, 34);
    let (a, b) = (p.to_roinput(), listed(&p));
    sym::check(a.fields.len() == 3 && a.bits.len() == b.bits.len(), 1);
    sym::check(same_input(&a, &b), 2);
    sym::cover(1);
}
fn h_sign_domain() {
    sym::check(SignedCommandPayload::domain_string(NetworkId::MAINNET).as_deref() == Some("MinaSignatureMainnet"), 1);
    sym::check(SignedCommandPayload::domain_string(NetworkId::TESTNET).as_deref() == Some("CodaSignature"), 2);
    sym::cover(1);
}
/// equal inputs only for equal commands
fn h_sign_unique() {
    let small = |_| key(Fp::from(sym::u64()));
    let p = payload_of(sym::choose(2) == 1, 34, small);
    let q = payload_of(sym::choose(2) == 1, 34, small);
    let (a, b) = (p.to_roinput().to_fields(), q.to_roinput().to_fields());
    sym::check(a.len() == b.len(), 1);
    let mut s = true;
    for (x, y) in a.iter().zip(&b) {
        s &= same_fp(x, y);
    }
    sym::check(!s | same_payload(&p, &q), 2);
    sym::cover(1);
}

/// a verifier that remembers what it was asked
struct Ask {
    asked: Vec<(Signature, PubKey, SignedCommandPayload)>,
    answers: [bool; 8],
}
impl Signer<SignedCommandPayload> for Ask {
    fn sign(&mut self, _: &Keypair, _: &SignedCommandPayload) -> Signature {
        unreachable!()
    }
    fn verify(&mut self, sig: &Signature, k: &PubKey, p: &SignedCommandPayload) -> bool {
        self.asked.push((sig.clone(), k.clone(), p.clone()));
        self.answers[(p.common.nonce.0 & 7) as usize]
    }
}
fn asker(n: usize) -> Ask {
    let mut answers = [false; 8];
    for a in answers.iter_mut().take(n) {
        *a = sym::bool();
    }
    Ask { asked: vec![], answers }
}
fn plain_key(x: u64) -> CompressedPubKey {
    CompressedPubKey { x: Fp::from(x), is_odd: false }
}
fn h_verify() {
    bs58::transparent(true);
    let mut p = payload_of(sym::choose(2) == 1, 34, |i| plain_key(8 + i));
    p.common.nonce = AccountNonce(0);
    let low = sym::u8();
    let signer = CompressedPubKey { x: Fp::from(low as u64 | 0x4455_6600), is_odd: sym::bool() };
    let signature = Signature::new(Fp::from(sym::u64()), ScalarField::from(sym::u64()));
    let c = SignedCommand { payload: p, signer, signature };
    let mut ctx = asker(1);
    let answer = ctx.answers[0];
    let valid = low & 3 != 3;
    let r = if sym::choose(2) == 1 { UserCommand::SignedCommand(c.clone()).verify(&mut ctx) } else { c.verify(&mut ctx) };
    sym::check(r == (valid & answer), 1);
    if r {
        sym::check(ctx.asked.len() == 1, 2);
        let (s, k, q) = &ctx.asked[0];
        sym::check(same_fp(&s.rx, &c.signature.rx), 3);
        sym::check(s.s.into_repr().0[0] == c.signature.s.into_repr().0[0], 4);
        sym::check(same_key(&k.into_compressed(), &c.signer), 5);
        sym::check(same_payload(q, &c.payload), 6);
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}
/// a memo of another length never verifies: its bytes would be taken for other parts
fn h_verify_memo() {
    bs58::transparent(true);
    let n = sym::choose(37) as usize;
    let mut p = payload_of(true, n, |i| plain_key(8 + i));
    p.common.nonce = AccountNonce(0);
    let c = SignedCommand { payload: p, signer: plain_key(8), signature: Signature::new(Fp::from(1u64), ScalarField::from(2u64)) };
    let mut ctx = asker(0);
    ctx.answers[0] = true;
    let r = c.verify(&mut ctx);
    sym::check(r == (n == 34), 1);
    sym::cover(if r { 1 } else { 2 });
}
/// signing signs the payload for the network, in the name of the key's owner
fn h_sign() {
    let net = if sym::choose(2) == 1 { NetworkId::MAINNET } else { NetworkId::TESTNET };
    let mut p = payload_of(sym::choose(2) == 1, 0, |i| plain_key(8 + i));
    p.common.fee = Amount(5);
    p.common.fee_token = TokenId(1);
    p.common.memo = SignedCommandMemo::default();
    if let SignedCommandPayloadBody::PaymentPayload(t) = &mut p.body {
        t.token_id = TokenId(1);
        t.amount = Amount(sym::u16() as u64);
    }
    let kp = Keypair { public: PubKey(CompressedPubKey { x: Fp::from(0x77u64), is_odd: sym::bool() }) };
    let c = if sym::choose(2) == 1 { p.clone().into_signed_command(kp.clone(), net) } else { SignedCommand::from_payload(p.clone(), kp.clone(), net) };
    let want = mina_signer::create_legacy::<SignedCommandPayload>(net).sign(&kp, &p);
    sym::check(same_payload(&c.payload, &p), 1);
    sym::check(same_key(&c.signer, &kp.public.0), 2);
    sym::check(same_fp(&c.signature.rx, &want.rx), 3);
    sym::check(c.signature == want, 4);
    sym::cover(1);
}
fn command(id: u32) -> UserCommandWithStatus {
    let common = SignedCommandPayloadCommon {
        fee: Amount(1),
        fee_token: TokenId(1),
        fee_payer_pk: plain_key(4),
        nonce: AccountNonce(id),
        valid_until: GlobalSlotNumber(9),
        memo: SignedCommandMemo::default(),
    };
    let body = SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: plain_key(4), new_delegate: plain_key(5) });
    let c = SignedCommand { payload: SignedCommandPayload { common, body }, signer: plain_key(4), signature: Signature::new(Fp::from(1u64), ScalarField::from(2u64)) };
    let status = if sym::choose(2) == 1 {
        TransactionStatus::Failed(vec![], TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None })
    } else {
        TransactionStatus::Applied(
            TransactionStatusAuxiliaryData { fee_payer_account_creation_fee_paid: None, receiver_account_creation_fee_paid: None, created_token: None },
            TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None },
        )
    };
    UserCommandWithStatus { data: UserCommand::SignedCommand(c), status }
}
/// a diff verifies if and only if every command in it does
fn h_diff_verify() {
    bs58::transparent(true);
    let (n, m) = (sym::choose(4) as u32, sym::choose(4) as u32);
    let two = StagedLedgerPreDiff { commands: (0..n).map(command).collect(), ..Default::default() };
    let one = if m == 3 { None } else { Some(StagedLedgerPreDiff { commands: (0..m).map(|i| command(n + i)).collect(), ..Default::default() }) };
    let total = (n + if m == 3 { 0 } else { m }) as usize;
    let t = ser::StagedLedgerDiffTuple(two.into(), one.map(Into::into));
    let d: StagedLedgerDiff = ser::StagedLedgerDiff { diff: t.into() }.into();
    let mut ctx = asker(total);
    let r = d.verify(&mut ctx);
    let mut all = true;
    for i in 0..total {
        all &= ctx.answers[i];
    }
    sym::check(r == all, 1);
    sym::check(d.diff.diff_one().is_none() == (m == 3), 2);
    sym::check(d.diff.diff_two().commands.len() == n as usize, 3);
    sym::cover(if r { 1 } else { 2 });
}
fn h_builder() {
    let (from, to, payer) = (key(fp()), key(fp()), key(fp()));
    let (amount, fee, nonce) = (sym::u64(), sym::u64(), sym::u32());
    let (tt, ft, vu) = (sym::u64(), sym::u64(), sym::u32());
    let which = sym::choose(32);
    let m = memo(34);
    let mut b = SignedTransferCommandBuilder::new(from.clone(), to.clone(), amount, fee, nonce);
    if which & 1 != 0 {
        b = b.transfer_token(tt);
    }
    if which & 2 != 0 {
        b = b.fee_token(ft);
    }
    if which & 4 != 0 {
        b = b.fee_payer(payer.clone());
    }
    if which & 8 != 0 {
        b = b.memo(m.clone());
    }
    if which & 16 != 0 {
        b = b.valid_until(vu);
    }
    let mut empty = vec![0u8; 34];
    empty[0] = 1;
    let want = SignedCommandPayload {
        common: SignedCommandPayloadCommon {
            fee: Amount(fee),
            fee_token: TokenId(if which & 2 != 0 { ft } else { 1 }),
            fee_payer_pk: if which & 4 != 0 { payer } else { from.clone() },
            nonce: AccountNonce(nonce),
            valid_until: GlobalSlotNumber(if which & 16 != 0 { vu } else { u32::MAX }),
            memo: if which & 8 != 0 { m } else { SignedCommandMemo(empty) },
        },
        body: SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: from, receiver_pk: to, token_id: TokenId(if which & 1 != 0 { tt } else { 1 }), amount: Amount(amount) }),
    };
    sym::check(same_payload(&b.build(), &want), 1);
    sym::cover(1);
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_sign_input, h_sign_domain, h_sign_unique, h_verify, h_verify_memo, h_sign, h_diff_verify, h_builder)
}
