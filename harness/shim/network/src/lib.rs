#[path = "/repo/network/src/processor/mod.rs"]
pub mod processor;
