//! Stand-in for js-sys, over the values of the wasm-bindgen stand-in.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsValue, Kind};

macro_rules! class {
	($t:ident) => {
		#[derive(Clone, Debug)]
		pub struct $t(JsValue);
		impl std::ops::Deref for $t {
			type Target = JsValue;
			fn deref(&self) -> &JsValue { &self.0 }
		}
		impl From<$t> for JsValue {
			fn from(v: $t) -> JsValue { v.0 }
		}
		impl From<JsValue> for $t {
			fn from(v: JsValue) -> $t { $t(v) }
		}
		impl AsRef<JsValue> for $t {
			fn as_ref(&self) -> &JsValue { &self.0 }
		}
	};
}
class!(Uint8Array);
class!(Function);
class!(Error);

impl Uint8Array {
	/// A copy of the bytes of an array-like value.
	pub fn new(v: &JsValue) -> Uint8Array { Uint8Array(JsValue::bytes(v.to_bytes().unwrap_or_default())) }
	pub fn new_with_length(n: u32) -> Uint8Array { Uint8Array(JsValue::bytes(vec![0; n as usize])) }
	fn cell(&self) -> &Rc<RefCell<Vec<u8>>> {
		match &(self.0).0 {
			Kind::Bytes(b) => b,
			_ => panic!("not a typed array"),
		}
	}
	pub fn length(&self) -> u32 { self.cell().borrow().len() as u32 }
	pub fn byte_length(&self) -> u32 { self.length() }
	pub fn copy_from(&self, src: &[u8]) {
		let mut b = self.cell().borrow_mut();
		assert_eq!(b.len(), src.len());
		b.copy_from_slice(src)
	}
	pub fn copy_to(&self, dst: &mut [u8]) {
		let b = self.cell().borrow();
		assert_eq!(b.len(), dst.len());
		dst.copy_from_slice(&b)
	}
	pub fn to_vec(&self) -> Vec<u8> { self.cell().borrow().clone() }
	pub fn get_index(&self, i: u32) -> u8 { self.cell().borrow().get(i as usize).copied().unwrap_or(0) }
	pub fn set_index(&self, i: u32, v: u8) {
		if let Some(b) = self.cell().borrow_mut().get_mut(i as usize) {
			*b = v
		}
	}
	pub fn subarray(&self, from: u32, to: u32) -> Uint8Array {
		let b = self.cell().borrow();
		let (from, to) = ((from as usize).min(b.len()), (to as usize).min(b.len()));
		Uint8Array(JsValue::bytes(if from < to { b[from..to].to_vec() } else { vec![] }))
	}
	pub fn slice(&self, from: u32, to: u32) -> Uint8Array { self.subarray(from, to) }
}
impl<'a> From<&'a [u8]> for Uint8Array {
	fn from(v: &'a [u8]) -> Uint8Array { Uint8Array(JsValue::bytes(v.to_vec())) }
}
impl Function {
	/// A function of the host.
	pub fn native(f: impl Fn(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function { Function(JsValue(Kind::Function(Rc::new(f)))) }
	fn call(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
		match &(self.0).0 {
			Kind::Function(f) => f(args),
			_ => Err(JsValue(Kind::Error("not a function".into()))),
		}
	}
	pub fn call0(&self, _: &JsValue) -> Result<JsValue, JsValue> { self.call(&[]) }
	pub fn call1(&self, _: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { self.call(&[a.clone()]) }
	pub fn call2(&self, _: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> { self.call(&[a.clone(), b.clone()]) }
}
impl Error {
	pub fn new(s: &str) -> Error { Error(JsValue(Kind::Error(s.into()))) }
}
