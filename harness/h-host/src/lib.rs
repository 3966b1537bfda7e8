//! Harnesses for analyzer-host's JSON-RPC transport.
mod json;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(json::json_roundtrip, json::json_kinds, json::json_long, json::json_frames, json::json_bytes);
