/// A JavaScript value; only values that are plain data exist here.
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub serde_json::Value);
impl JsValue {
    pub const NULL: JsValue = JsValue(serde_json::Value::Null);
    pub const UNDEFINED: JsValue = JsValue(serde_json::Value::Null);
    pub fn from_str(s: &str) -> JsValue {
        JsValue(s.into())
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(b.into())
    }
    pub fn as_string(&self) -> Option<String> {
        self.0.as_str().map(String::from)
    }
    pub fn as_bool(&self) -> Option<bool> {
        self.0.as_bool()
    }
    pub fn as_f64(&self) -> Option<f64> {
        self.0.as_f64()
    }
    pub fn is_null(&self) -> bool {
        self.0.is_null()
    }
    pub fn is_undefined(&self) -> bool {
        self.0.is_null()
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue(s.into())
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue(b.into())
    }
}
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.into())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue(e.0.into())
    }
}
pub mod prelude {
    pub use crate::{JsError, JsValue};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
