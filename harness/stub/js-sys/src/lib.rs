//! Stand-in for the JavaScript text type.
#[derive(Clone, Debug, PartialEq)]
pub struct JsString(String);
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(s)
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(s.to_string())
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.0
    }
}
