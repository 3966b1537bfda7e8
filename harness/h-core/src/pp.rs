//! C01-C04: the preprocessor against an interpreter of the directives.
use analyzer_core::base_abstractions::FileId;
use analyzer_core::lexer::Token;
use analyzer_core::preprocessor::{PreprocessorDirective as D, PreprocessorExpression as E, PreprocessorQuotationStyle as Q, PreprocessorState};
use analyzer_core::{Analyzer, Database};
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq)]
enum Cond {
	Value(u8),
	DefinedX,
}
#[derive(Clone, Copy, PartialEq)]
enum Item {
	Plain,
	If(Cond),
	Elif(Cond),
	Else,
	Endif,
	Define,
	Undef,
	Include,
	Pragma,
	Other,
	Space,
}

/// What a program of items comes to.
#[derive(Default)]
struct Outcome {
	emitted: Vec<usize>,
	included: usize,
	errors: Vec<usize>,
	open: Vec<usize>,
}
fn run(items: &[Item]) -> Outcome {
	struct Frame {
		at: usize,
		/// the chain itself is in a branch that is taken
		live: bool,
		active: bool,
		done: bool,
		else_seen: bool,
	}
	let mut st: Vec<Frame> = vec![];
	let mut o = Outcome::default();
	let mut x = false;
	for (i, it) in items.iter().enumerate() {
		let on = st.last().map_or(true, |f| f.live && f.active);
		let value = |c: &Cond| match *c {
			Cond::Value(v) => sym::split(v != 0),
			Cond::DefinedX => x,
		};
		match it {
			Item::If(c) => {
				let c = on && value(c);
				st.push(Frame { at: i, live: on, active: c, done: c, else_seen: false })
			}
			Item::Elif(c) => match st.last_mut() {
				None => o.errors.push(i),
				Some(f) if f.live => {
					if f.else_seen {
						o.errors.push(i);
					}
					f.active = !f.done && value(c);
					f.done |= f.active;
				}
				Some(_) => (),
			},
			Item::Else => match st.last_mut() {
				None => o.errors.push(i),
				Some(f) if f.live => {
					if f.else_seen {
						o.errors.push(i);
					}
					f.active = !f.done;
					f.done = true;
					f.else_seen = true;
				}
				Some(_) => (),
			},
			Item::Endif => {
				if st.pop().is_none() {
					o.errors.push(i)
				}
			}
			_ if !on => (),
			Item::Plain => o.emitted.push(i),
			Item::Define => x = true,
			Item::Undef => x = false,
			Item::Include => {
				o.included += 1;
				o.errors.push(i)
			}
			Item::Other => o.errors.push(i),
			Item::Pragma | Item::Space => (),
		}
	}
	o.open = st.iter().map(|f| f.at).collect();
	o
}

fn cond(x: bool) -> Cond {
	if x && sym::choice(2) == 1 {
		Cond::DefinedX
	} else {
		Cond::Value(sym::u8())
	}
}
fn item(kinds: usize) -> Item {
	match sym::choice(kinds) {
		0 => Item::Plain,
		1 => Item::If(cond(kinds > 5)),
		2 => Item::Elif(cond(kinds > 5)),
		3 => Item::Else,
		4 => Item::Endif,
		5 => Item::Define,
		6 => Item::Undef,
		7 => Item::Include,
		8 => Item::Pragma,
		9 => Item::Other,
		_ => Item::Space,
	}
}
fn judge(o: &Outcome, emitted: &[usize], errors: &[usize], included: Option<usize>) {
	sym::check(emitted == &o.emitted[..], "the tokens of exactly the branches taken");
	let mut want = o.errors.iter().copied().peekable();
	let mut unterminated = 0;
	for &e in errors {
		if want.peek() == Some(&e) {
			want.next();
		} else {
			unterminated += 1;
			sym::check(o.open.contains(&e), "an error for a directive that is well placed");
		}
	}
	sym::check(want.next().is_none(), "a misplaced directive was not reported");
	sym::check((unterminated > 0) == !o.open.is_empty(), "unterminated conditionals are reported");
	if let Some(n) = included {
		sym::check(n == o.included, "includes outside the branches taken have no effect");
	}
	if !o.open.is_empty() {
		sym::reach(1)
	}
	if !o.errors.is_empty() {
		sym::reach(2)
	}
}

/// Directives as tokens.
pub fn pp_conditionals() {
	let n = sym::param("items", 4);
	let kinds = sym::param("kinds", 5);
	let items: Vec<Item> = (0..n).map(|_| item(kinds)).collect();
	let db = Database::new(|_, p| Ok(p.into()));
	let id = FileId::new(&db, "f".into());
	let expr = |c: &Cond| match *c {
		Cond::Value(v) => E::IntLiteral(v as i64),
		Cond::DefinedX => E::Defined("X".into()),
	};
	let mut input: VecDeque<_> = items
		.iter()
		.enumerate()
		.map(|(i, it)| {
			let t = match it {
				Item::Plain => Token::Semicolon,
				Item::If(c) => Token::PreprocessorDirective(D::If(expr(c))),
				Item::Elif(c) => Token::PreprocessorDirective(D::ElseIf(expr(c))),
				Item::Else => Token::PreprocessorDirective(D::Else),
				Item::Endif => Token::PreprocessorDirective(D::EndIf),
				Item::Define => Token::PreprocessorDirective(D::Define("X".into(), "1".into())),
				Item::Undef => Token::PreprocessorDirective(D::Undef("X".into())),
				Item::Include => Token::PreprocessorDirective(D::Include(Q::AngleBrackets, "g".into())),
				Item::Pragma => Token::PreprocessorDirective(D::Pragma("p".into())),
				Item::Other => Token::PreprocessorDirective(D::Other("o".into(), "".into())),
				Item::Space => Token::Whitespace,
			};
			(id, t, i..i + 1)
		})
		.collect();
	let looked = RefCell::new(0);
	let (out, errors) = {
		let mut pp = PreprocessorState::new(
			|path| FileId::new(&db, path.into()),
			|_| {
				*looked.borrow_mut() += 1;
				None
			},
		);
		(pp.preprocess(&mut input), pp.errors)
	};
	let o = run(&items);
	sym::check(input.is_empty(), "the input is consumed");
	let emitted: Vec<usize> = out.iter().filter(|t| t.1 != Token::Whitespace).map(|t| t.2.start).collect();
	sym::check(out.iter().all(|t| t.0 == id && (t.1 == Token::Semicolon || t.1 == Token::Whitespace)), "only tokens of the input come out");
	let errs: Vec<usize> = errors.iter().map(|e| e.0 .1.start).collect();
	for e in &emitted {
		sym::observe_num(*e);
	}
	sym::observe_num(99);
	for e in &errs {
		sym::observe_num(*e);
	}
	judge(&o, &emitted, &errs, Some(*looked.borrow()));
	sym::reach(0);
}

/// The same as text, through the lexer.
pub fn pp_conditional_text() {
	let n = sym::param("items", 4);
	let kinds = sym::param("kinds", 7);
	let mut text = String::new();
	let mut items = vec![];
	let mut starts = vec![];
	for _ in 0..n {
		let it = item(kinds);
		starts.push(text.len());
		let c = |c: &Cond, text: &mut String| match *c {
			Cond::Value(v) => {
				sym::assume(v < 2);
				unsafe { text.as_mut_vec().push(b'0' + v) }
			}
			Cond::DefinedX => text.push_str("defined(X)"),
		};
		match &it {
			Item::Plain => text.push_str("plain"),
			Item::If(x) => {
				text.push_str("#if ");
				c(x, &mut text)
			}
			Item::Elif(x) => {
				text.push_str("# elif ");
				c(x, &mut text)
			}
			Item::Else => text.push_str("#else"),
			Item::Endif => text.push_str("#endif"),
			Item::Define => text.push_str("#define X 1"),
			Item::Undef => text.push_str("#undef X"),
			Item::Include => text.push_str("#include <g>"),
			Item::Pragma => text.push_str("#pragma once"),
			Item::Other => text.push_str("#foo"),
			Item::Space => text.push(' '),
		}
		text.push('\n');
		items.push(it);
	}
	let mut a = analyzer();
	let id = a.file_id("f");
	a.update(id, &text);
	let out = a.preprocessed(id).unwrap();
	let line = |p: usize| starts.iter().rposition(|s| *s <= p).unwrap();
	let emitted: Vec<usize> = out.iter().filter(|t| t.1 != Token::Whitespace).map(|t| line(t.2.start)).collect();
	let mut errs: Vec<usize> = vec![];
	for d in a.diagnostics(id) {
		let l = line(d.location.start);
		errs.push(l);
	}
	errs.sort();
	let o = run(&items);
	judge(&o, &emitted, &errs, None);
	sym::reach(0);
}

pub fn analyzer() -> Analyzer { Analyzer::new(|_, p| Ok(p.to_string()), |_| ()) }
