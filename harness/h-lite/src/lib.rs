//! Harnesses for the parts of analyzer-core that need no salsa: lsp_file and parser.
mod lsp;
mod peg;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(lsp::lsp_history, lsp::lsp_positions, lsp::lsp_total, peg::peg_match, peg::peg_edits, peg::peg_validate);
