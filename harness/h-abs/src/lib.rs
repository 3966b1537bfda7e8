//! Harnesses for analyzer-abstractions: completion sources and the work pool.
mod completion;
pub mod exec;
mod pool;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(completion::completion_once, completion::completion_wakes, completion::completion_ready, pool::pool_history, pool::pool_threads);
