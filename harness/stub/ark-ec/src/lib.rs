//! Stand-in for ark-ec 0.3: affine points are plain coordinate pairs.
pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: ark_ff::Field;
    type ScalarField: ark_ff::Field;
}
pub trait SWModelParameters: ModelParameters {}
pub mod models {
    pub use crate::{ModelParameters, SWModelParameters};
}
pub mod short_weierstrass_jacobian {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GroupAffine<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            Self { x, y, infinity }
        }
    }
}
