//! Stand-in for mina-curves: the Pasta fields.
pub mod pasta {
    ark_ff::field!(Fp, [0x992d30ed00000001, 0x224698fc094cf91b, 0x0, 0x4000000000000000]);
    ark_ff::field!(Fq, [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0, 0x4000000000000000]);
    pub mod fp {
        pub use super::Fp;
    }
    pub mod fq {
        pub use super::Fq;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PallasParameters;
    impl ark_ec::ModelParameters for PallasParameters {
        type BaseField = Fp;
        type ScalarField = Fq;
    }
    impl ark_ec::SWModelParameters for PallasParameters {}
    pub type Pallas = ark_ec::short_weierstrass_jacobian::GroupAffine<PallasParameters>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct VestaParameters;
    impl ark_ec::ModelParameters for VestaParameters {
        type BaseField = Fq;
        type ScalarField = Fp;
    }
    impl ark_ec::SWModelParameters for VestaParameters {}
    pub type Vesta = ark_ec::short_weierstrass_jacobian::GroupAffine<VestaParameters>;
}
