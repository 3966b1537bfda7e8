//! Stand-in for xflags: the structs are generated into the source next to the macro; a harness
//! fills them in itself, so nothing is parsed.
pub struct Error(());
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("error") }
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
	pub fn none() -> Error { Error(()) }
}
pub use std::ffi::OsString;
#[macro_export]
macro_rules! xflags {
	($($t:tt)*) => {
		impl LsifP4Cmd {
			fn from_env_or_exit_() -> Self { unimplemented!() }
			fn from_env_() -> $crate::Result<Self> { Err($crate::Error::none()) }
			fn from_vec_(_: Vec<std::ffi::OsString>) -> $crate::Result<Self> { Err($crate::Error::none()) }
		}
	};
}
