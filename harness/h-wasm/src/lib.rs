//! Harness for p4-analyzer-wasm: the server behind the WebAssembly adapter.
mod adapter;
mod exec;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(adapter::wasm_messages);
