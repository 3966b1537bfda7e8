//! Harnesses for p4-analyzer's library: the drivers and the native file system.
mod driver;
mod exec;
mod files;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(driver::driver_console, driver::driver_cancel, driver::driver_buffer, driver::driver_clear, driver::driver_server, files::files_enumerate, files::files_read);
