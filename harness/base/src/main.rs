//! The base crate: hash inputs, texts, conversions.
mod cmd;
mod gql;
mod pack;
mod roi;
mod text;
mod wire;

fn run(n: &str) -> bool {
    pack::run(n) || roi::run(n) || cmd::run(n) || text::run(n) || gql::run(n) || wire::run(n)
}
sym::entry!(run);
