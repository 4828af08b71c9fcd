//! Stand-in for the block type the v1 back end hands on: what a block's JSON text means is C29's
//! subject, here only which text ends up where.
pub mod json {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    #[serde(deny_unknown_fields)]
    pub struct ExternalTransitionJson {
        pub block: u64,
    }
}
