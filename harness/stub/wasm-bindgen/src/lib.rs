//! Stand-in for wasm-bindgen: JavaScript values that are texts or not, and a host that answers
//! calls.  Between a call and its answer other things may happen (one `Pending`).
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(Option<String>);
impl JsValue {
    pub const NULL: JsValue = JsValue(None);
    pub const UNDEFINED: JsValue = JsValue(None);
    pub fn from_str(s: &str) -> Self {
        JsValue(Some(s.to_string()))
    }
    pub fn as_string(&self) -> Option<String> {
        self.0.clone()
    }
    pub fn is_string(&self) -> bool {
        self.0.is_some()
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue(Some(s.to_string()))
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(Some(s))
    }
}
pub mod host {
    use super::JsValue;
    use std::cell::Cell;
    use std::future::poll_fn;
    use std::task::Poll;
    pub enum Arg {
        Num(usize),
        Text(String),
        Texts(Vec<String>),
    }
    pub trait ToArg {
        fn arg(self) -> Arg;
    }
    impl ToArg for usize {
        fn arg(self) -> Arg {
            Arg::Num(self)
        }
    }
    impl ToArg for &str {
        fn arg(self) -> Arg {
            Arg::Text(self.to_string())
        }
    }
    impl ToArg for String {
        fn arg(self) -> Arg {
            Arg::Text(self)
        }
    }
    impl<T: Into<String>> ToArg for Vec<T> {
        fn arg(self) -> Arg {
            Arg::Texts(self.into_iter().map(Into::into).collect())
        }
    }
    pub type Host = fn(&'static str, Vec<Arg>) -> Result<JsValue, JsValue>;
    std::thread_local! { static HOST: Cell<Host> = Cell::new(|_, _| Err(JsValue::NULL)); }
    pub fn set(h: Host) {
        HOST.with(|x| x.set(h));
    }
    pub async fn call(name: &'static str, args: Vec<Arg>) -> Result<JsValue, JsValue> {
        let r = HOST.with(|h| h.get())(name, args);
        let mut once = false;
        poll_fn(|_| if std::mem::replace(&mut once, true) { Poll::Ready(()) } else { Poll::Pending }).await;
        r
    }
}
