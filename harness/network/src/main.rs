//! The transition frontier and the message processor of the network crate.
mod frontier;
mod proc;

fn run(n: &str) -> bool {
    frontier::run(n) || proc::run(n)
}
sym::entry!(run);
