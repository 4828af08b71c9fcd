//! Stand-in for mina-signer: key and signature types and the address format are as in the
//! original; signing is replaced by a mixing function (the curve arithmetic is out of reach).
use mina_hasher::{Hashable, Hasher};
pub use mina_curves::pasta::{Fp as BaseField, Fq as ScalarField};
use o1_utils::FieldHelpers;
use ark_ff::PrimeField;

pub mod pubkey {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum PubKeyError {
        #[error("Invalid address length")]
        AddressLength,
        #[error("Invalid address base58 character in encoding")]
        AddressBase58,
        #[error("Invalid raw address bytes length")]
        AddressRawByteLength,
        #[error("Invalid address checksum")]
        AddressChecksum,
        #[error("Invalid address version info")]
        AddressVersion,
        #[error("Invalid x-coordinate bytes")]
        XCoordinateBytes,
        #[error("Invalid x-coordinate")]
        XCoordinate,
        #[error("Point not on curve")]
        YCoordinateParityBytes,
        #[error("Invalid y-coordinate parity")]
        YCoordinateParity,
        #[error("Invalid secret key")]
        NonCurvePoint,
    }
    pub type Result<T> = std::result::Result<T, PubKeyError>;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CompressedPubKey {
        pub x: BaseField,
        pub is_odd: bool,
    }
    impl CompressedPubKey {
        pub fn empty() -> Self {
            Self { x: BaseField::default(), is_odd: false }
        }
        pub fn from_address(a: &str) -> Result<Self> {
            let b = bs58::decode(a).with_check(Some(0xcb)).into_vec().map_err(|_| PubKeyError::AddressBase58)?;
            if b.len() != 36 {
                return Err(PubKeyError::AddressRawByteLength);
            }
            if b[1] != 1 || b[2] != 1 {
                return Err(PubKeyError::AddressVersion);
            }
            let x = BaseField::from_bytes(&b[3..35]).map_err(|_| PubKeyError::XCoordinateBytes)?;
            if b[35] > 1 {
                return Err(PubKeyError::YCoordinateParity);
            }
            Ok(Self { x, is_odd: b[35] == 1 })
        }
        pub fn into_address(&self) -> String {
            let mut b = vec![1, 1];
            b.extend(self.x.to_bytes());
            b.push(self.is_odd as u8);
            bs58::encode(b).with_check_version(0xcb).into_string()
        }
    }
    /// a compressed key stands for itself, unless its x ends in binary 11: that is no point of the
    /// stand-in curve
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PubKey(pub CompressedPubKey);
    impl PubKey {
        pub fn from_address(a: &str) -> Result<Self> {
            let k = CompressedPubKey::from_address(a)?;
            if k.x.into_repr().0[0] & 3 == 3 {
                return Err(PubKeyError::NonCurvePoint);
            }
            Ok(Self(k))
        }
        pub fn into_address(&self) -> String {
            self.0.into_address()
        }
        pub fn into_compressed(&self) -> CompressedPubKey {
            self.0.clone()
        }
    }
}
pub use pubkey::{CompressedPubKey, PubKey};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: BaseField,
    pub s: ScalarField,
}
impl Signature {
    pub fn new(rx: BaseField, s: ScalarField) -> Self {
        Self { rx, s }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keypair {
    pub public: PubKey,
}
pub mod keypair {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum KeypairError {
        #[error("Invalid secret key hex")]
        SecretKeyHex,
        #[error("Invalid secret key bytes")]
        SecretKeyBytes,
        #[error("point not on curve")]
        NonCurvePoint,
    }
    pub type Result<T> = std::result::Result<T, KeypairError>;
    impl Keypair {
        /// the stand-in's public key is the secret itself (big endian hexadecimal, as the original reads it)
        pub fn from_hex(s: &str) -> Result<Self> {
            let mut b = hex::decode(s).map_err(|_| KeypairError::SecretKeyHex)?;
            b.reverse();
            let x = BaseField::from_bytes(&b).map_err(|_| KeypairError::SecretKeyBytes)?;
            Ok(Self { public: PubKey(CompressedPubKey { x, is_odd: false }) })
        }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl From<NetworkId> for u8 {
    fn from(i: NetworkId) -> u8 {
        i as u8
    }
}
pub trait DomainParameter: Clone {}
impl DomainParameter for NetworkId {}
pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool;
}
pub struct Schnorr<H: Hashable> {
    m: mina_hasher::Mix<H>,
}
impl<H: Hashable> Signer<H> for Schnorr<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        let e = self.m.hash(input);
        let mut r = e.into_repr();
        r.0[3] &= 0x3fff_ffff_ffff_ffff;
        Signature { rx: e + kp.public.0.x, s: ScalarField::from(r) }
    }
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool {
        *sig == self.sign(&Keypair { public: pub_key.clone() }, input)
    }
}
pub fn create_legacy<H: Hashable>(d: H::D) -> impl Signer<H> {
    Schnorr::<H> { m: mina_hasher::create_legacy::<H>(d) }
}
pub fn create_kimchi<H: Hashable>(d: H::D) -> impl Signer<H> {
    Schnorr::<H> { m: mina_hasher::create_kimchi::<H>(d) }
}
