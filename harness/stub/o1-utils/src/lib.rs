//! Stand-in for o1-utils: byte conversions of field elements.
pub mod field_helpers {
    use ark_ff::{BigInteger256, PrimeField};
    use thiserror::Error;
    #[derive(Error, Debug, Clone, PartialEq, Eq)]
    pub enum FieldHelpersError {
        #[error("failed to deserialize field bytes")]
        DeserializeBytes,
        #[error("failed to deserialize field bits")]
        DeserializeBits,
        #[error("failed to decode hex")]
        DecodeHex,
    }
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;
    pub trait FieldHelpers: PrimeField {
        fn from_bytes(bytes: &[u8]) -> Result<Self> {
            if bytes.len() < 32 {
                return Err(FieldHelpersError::DeserializeBytes);
            }
            let mut b = [0u8; 32];
            b.copy_from_slice(&bytes[..32]);
            Self::from_repr(BigInteger256::from_le(&b)).ok_or(FieldHelpersError::DeserializeBytes)
        }
        fn from_hex(s: &str) -> Result<Self> {
            let b = hex::decode(s).map_err(|_| FieldHelpersError::DecodeHex)?;
            Self::from_bytes(&b)
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.into_repr().to_le().to_vec()
        }
        fn to_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
        fn to_bits(&self) -> Vec<bool> {
            let b = self.into_repr().to_le();
            (0..255).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
        }
    }
    impl<F: PrimeField> FieldHelpers for F {}
}
pub use field_helpers::FieldHelpers;
