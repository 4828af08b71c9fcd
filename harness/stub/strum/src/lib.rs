//! Stand-in for strum: EnumString only.
pub use strum_derive::EnumString;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ParseError {
    VariantNotFound,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
