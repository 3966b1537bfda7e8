//! Harnesses for analyzer-host: the language server over its message channel.
mod documents;
mod exec;
mod folders;
mod logs;
mod offers;
mod requests;
mod rig;
mod server;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(offers::lsp_offers, documents::documents_odd, logs::logs_levels, logs::logs_server, folders::folders_lookup, folders::folders_index, documents::documents_history, server::lsp_conversation, server::lsp_ends, requests::requests_history);
