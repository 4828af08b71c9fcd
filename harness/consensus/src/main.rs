//! Chain selection: the real consensus crate over symbolic consensus states.
mod select;

fn run(n: &str) -> bool {
    select::run(n)
}
sym::entry!(run);
