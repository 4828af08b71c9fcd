//! Stand-in for structopt: the options are what the host says they are.
pub use structopt_derive::StructOpt;
pub trait StructOpt: Sized {
    fn from_args() -> Self;
}
pub mod host {
    use std::cell::Cell;
    use std::path::PathBuf;
    pub type Host = fn(&str) -> Option<String>;
    std::thread_local! { static HOST: Cell<Host> = Cell::new(|_| None); }
    pub fn set(h: Host) {
        HOST.with(|x| x.set(h));
    }
    fn ask(n: &str) -> Option<String> {
        HOST.with(|h| h.get())(n)
    }
    pub trait FromHost {
        fn get(n: &str) -> Self;
    }
    impl FromHost for bool {
        fn get(n: &str) -> Self {
            ask(n).is_some()
        }
    }
    impl FromHost for String {
        fn get(n: &str) -> Self {
            ask(n).unwrap_or_default()
        }
    }
    impl FromHost for PathBuf {
        fn get(n: &str) -> Self {
            ask(n).unwrap_or_default().into()
        }
    }
    impl FromHost for Option<PathBuf> {
        fn get(n: &str) -> Self {
            ask(n).map(Into::into)
        }
    }
}
