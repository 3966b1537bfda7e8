//! Harnesses for analyzer-core in full, with the salsa stand-in.
mod cond;
mod incl;
mod lex;
mod pp;

#[macro_export]
macro_rules! harnesses {
	($($m:ident :: $f:ident),* $(,)?) => {
		$(#[no_mangle] pub extern "C" fn $f() { $m::$f() })*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
	};
}
harnesses!(lex::lex_text, lex::lex_beyond, lex::lex_words, lex::lex_ints, lex::lex_long_ints, lex::lex_mixed, lex::lex_pieces, pp::pp_conditionals, pp::pp_conditional_text, cond::pp_expr_text, cond::pp_expr_ops, cond::pp_expr_operands, cond::pp_eval, incl::pp_includes, incl::pp_total, incl::analyzer_history);
