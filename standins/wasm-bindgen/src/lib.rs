//! Stand-in for wasm-bindgen: JavaScript values are ordinary data, and what the module imports
//! from its host is given below.
use std::cell::RefCell;
use std::rc::Rc;

pub mod prelude {
	pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
	pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use prelude::wasm_bindgen;

#[derive(Clone)]
pub enum Kind {
	Undefined,
	Null,
	Bool(bool),
	Number(f64),
	Text(String),
	Bytes(Rc<RefCell<Vec<u8>>>),
	Function(Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>),
	Error(String),
}
#[derive(Clone)]
pub struct JsValue(pub Kind);
impl JsValue {
	pub const UNDEFINED: JsValue = JsValue(Kind::Undefined);
	pub const NULL: JsValue = JsValue(Kind::Null);
	pub const TRUE: JsValue = JsValue(Kind::Bool(true));
	pub const FALSE: JsValue = JsValue(Kind::Bool(false));
	pub fn undefined() -> JsValue { JsValue::UNDEFINED }
	pub fn null() -> JsValue { JsValue::NULL }
	pub fn from_str(s: &str) -> JsValue { JsValue(Kind::Text(s.into())) }
	pub fn from_bool(b: bool) -> JsValue { JsValue(Kind::Bool(b)) }
	pub fn from_f64(n: f64) -> JsValue { JsValue(Kind::Number(n)) }
	pub fn is_undefined(&self) -> bool { matches!(self.0, Kind::Undefined) }
	pub fn is_null(&self) -> bool { matches!(self.0, Kind::Null) }
	pub fn is_function(&self) -> bool { matches!(self.0, Kind::Function(_)) }
	pub fn is_object(&self) -> bool { matches!(self.0, Kind::Bytes(_) | Kind::Error(_)) }
	pub fn is_string(&self) -> bool { matches!(self.0, Kind::Text(_)) }
	pub fn as_string(&self) -> Option<String> {
		match &self.0 {
			Kind::Text(s) => Some(s.clone()),
			_ => None,
		}
	}
	pub fn bytes(v: Vec<u8>) -> JsValue { JsValue(Kind::Bytes(Rc::new(RefCell::new(v)))) }
	/// The bytes of a Buffer or Uint8Array.
	pub fn to_bytes(&self) -> Option<Vec<u8>> {
		match &self.0 {
			Kind::Bytes(b) => Some(b.borrow().clone()),
			_ => None,
		}
	}
}
impl std::fmt::Debug for JsValue {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JsValue") }
}
impl<'a> From<&'a str> for JsValue {
	fn from(s: &'a str) -> JsValue { JsValue::from_str(s) }
}
impl From<String> for JsValue {
	fn from(s: String) -> JsValue { JsValue(Kind::Text(s)) }
}
impl<'a> From<&'a String> for JsValue {
	fn from(s: &'a String) -> JsValue { JsValue::from_str(s) }
}
impl From<bool> for JsValue {
	fn from(b: bool) -> JsValue { JsValue::from_bool(b) }
}
impl From<JsError> for JsValue {
	fn from(e: JsError) -> JsValue { JsValue(Kind::Error(e.0)) }
}
impl AsRef<JsValue> for JsValue {
	fn as_ref(&self) -> &JsValue { self }
}
pub struct JsError(String);
impl JsError {
	pub fn new(s: &str) -> JsError { JsError(s.into()) }
}
/// Unchecked conversions only.
pub trait JsCast: Into<JsValue> + Sized {
	fn unchecked_into<T: From<JsValue>>(self) -> T { T::from(self.into()) }
}
impl<T: Into<JsValue>> JsCast for T {}
pub trait UnwrapThrowExt<T>: Sized {
	fn unwrap_throw(self) -> T { self.expect_throw("`unwrap_throw` failed") }
	fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
/// What the JavaScript host provides.
pub fn host(name: &str, args: &[JsValue]) -> JsValue {
	match name {
		// Buffer.from copies a typed array
		"Buffer.from" => JsValue::bytes(args[0].to_bytes().unwrap_or_default()),
		"log" | "error" => JsValue::UNDEFINED,
		_ => panic!("an import that the stand-in does not have"),
	}
}
