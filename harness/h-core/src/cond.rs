//! C02: conditions against C's expression rules.
use crate::pp::analyzer;
use analyzer_core::base_abstractions::FileId;
use analyzer_core::lexer::Token;
use analyzer_core::preprocessor::{PreprocessorBinOp as B, PreprocessorDirective as D, PreprocessorExpression as E, PreprocessorState};
use analyzer_core::Database;
use std::collections::VecDeque;

/// Operators from the loosest to the tightest, longest spelling first within a level.
const LEVELS: [&[&str]; 10] =
	[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<=", ">=", "<", ">"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
const ALL: [&str; 18] = ["<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "<", ">", "|", "^", "&", "+", "-", "*", "/", "%"];

enum R {
	Lit(i64),
	Id(Vec<u8>),
	Defined(Vec<u8>),
	Not(Box<R>),
	Bin(&'static str, Box<R>, Box<R>),
}
fn word(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' }

/// Parses C's tokens; None if the text is not an expression this check knows.
struct P<'a> {
	s: &'a [u8],
	at: usize,
}
impl<'a> P<'a> {
	fn skip(&mut self) {
		while self.at < self.s.len() && matches!(self.s[self.at], b' ' | b'\t') {
			self.at += 1;
		}
	}
	fn op(&self) -> Option<&'static str> { ALL.iter().find(|o| self.s[self.at..].starts_with(o.as_bytes())).copied() }
	fn level(&mut self, l: usize) -> Option<R> {
		if l == LEVELS.len() {
			return self.primary();
		}
		let mut e = self.level(l + 1)?;
		loop {
			self.skip();
			match self.op() {
				Some(o) if LEVELS[l].contains(&o) => {
					self.at += o.len();
					let r = self.level(l + 1)?;
					e = R::Bin(o, e.into(), r.into());
				}
				_ => return Some(e),
			}
		}
	}
	fn name(&mut self) -> Option<Vec<u8>> {
		let from = self.at;
		while self.at < self.s.len() && word(self.s[self.at]) {
			self.at += 1;
		}
		if from == self.at || self.s[from].is_ascii_digit() {
			return None;
		}
		Some(self.s[from..self.at].to_vec())
	}
	fn primary(&mut self) -> Option<R> {
		self.skip();
		match *self.s.get(self.at)? {
			b'(' => {
				self.at += 1;
				let e = self.level(0)?;
				self.close()?;
				Some(e)
			}
			b'!' => {
				self.at += 1;
				Some(R::Not(self.primary()?.into()))
			}
			b'0'..=b'9' => {
				let from = self.at;
				while self.at < self.s.len() && word(self.s[self.at]) {
					self.at += 1;
				}
				let t = std::str::from_utf8(&self.s[from..self.at]).unwrap();
				if t.len() > 2 && (t.starts_with("0x") || t.starts_with("0X")) {
					i64::from_str_radix(&t[2..], 16).ok().map(R::Lit)
				} else if t.len() > 1 && t.starts_with('0') {
					None
				} else {
					t.parse().ok().map(R::Lit)
				}
			}
			_ => {
				let n = self.name()?;
				if n != b"defined" {
					return Some(R::Id(n));
				}
				self.skip();
				if self.s.get(self.at) == Some(&b'(') {
					self.at += 1;
					self.skip();
					let n = self.name()?;
					self.close()?;
					return Some(R::Defined(n));
				}
				Some(R::Defined(self.name()?))
			}
		}
	}
	fn close(&mut self) -> Option<()> {
		self.skip();
		if self.s.get(self.at) != Some(&b')') {
			return None;
		}
		self.at += 1;
		Some(())
	}
}
fn parse(s: &[u8]) -> Option<R> {
	let mut p = P { s, at: 0 };
	let e = p.level(0)?;
	p.skip();
	if p.at == s.len() {
		Some(e)
	} else {
		None
	}
}
fn apply(o: &str, l: i64, r: i64) -> Option<i64> {
	Some(match o {
		"||" => (l != 0 || r != 0) as i64,
		"&&" => (l != 0 && r != 0) as i64,
		"|" => l | r,
		"^" => l ^ r,
		"&" => l & r,
		"==" => (l == r) as i64,
		"!=" => (l != r) as i64,
		"<=" => (l <= r) as i64,
		">=" => (l >= r) as i64,
		"<" => (l < r) as i64,
		">" => (l > r) as i64,
		"<<" | ">>" if r < 0 || r > 63 => return None,
		// C leaves shifts of negative values and into the sign to the implementation
		"<<" => l << r,
		">>" => l >> r,
		"+" => l.checked_add(r)?,
		"-" => l.checked_sub(r)?,
		"*" => l.checked_mul(r)?,
		"/" => l.checked_div(r)?,
		_ => l.checked_rem(r)?,
	})
}
type Env<'a> = &'a [(&'a str, &'a str)];
/// Err: not decided here; Ok(None): no value (overflow, division by zero).
fn value(e: &R, env: Env, expanding: &mut Vec<Vec<u8>>) -> Result<Option<i64>, ()> {
	Ok(match e {
		R::Lit(v) => Some(*v),
		R::Defined(n) => Some(env.iter().any(|d| d.0.as_bytes() == &n[..]) as i64),
		R::Id(n) => match env.iter().find(|d| d.0.as_bytes() == &n[..]) {
			Some(d) if !expanding.contains(n) => {
				expanding.push(n.clone());
				let v = value(&parse(d.1.as_bytes()).ok_or(())?, env, expanding)?;
				expanding.pop();
				v
			}
			_ => Some(0),
		},
		R::Not(e) => value(e, env, expanding)?.map(|v| (v == 0) as i64),
		R::Bin(o, l, r) => {
			let l = match value(l, env, expanding)? {
				Some(l) => l,
				None => return Ok(None),
			};
			match *o {
				"||" if l != 0 => return Ok(Some(1)),
				"&&" if l == 0 => return Ok(Some(0)),
				_ => (),
			}
			match value(r, env, expanding)? {
				Some(r) => apply(o, l, r),
				None => None,
			}
		}
	})
}

const ENV: Env = &[("x", "3"), ("y", "x + 1"), ("s", "s"), ("p", "q"), ("q", "p || 2"), ("E", "")];

/// Checks the value and the truth of an expression, if it has a value.
fn check_expr(e: &[u8]) {
	let want = match parse(e) {
		Some(r) => value(&r, ENV, &mut vec![]),
		None => Err(()),
	};
	let mut text: Vec<u8> = vec![];
	for (k, v) in ENV {
		text.extend_from_slice(format!("#define {k} {v}\n").as_bytes());
	}
	text.extend_from_slice(b"#if ");
	text.extend_from_slice(e);
	text.extend_from_slice(b"\nyes\n#else\nno\n#endif\n");
	let eq = sym::param("eq", 1) == 1;
	if let (true, Ok(Some(v))) = (eq, &want) {
		let v = *v;
		// negative values are moved into the positive; large ones cannot be
		if v > -1000 && v < i64::MAX - 1000 {
			let v = sym::concrete((v + 1000) as usize);
			text.extend_from_slice(b"#if 1000+(");
			text.extend_from_slice(e);
			text.extend_from_slice(format!(")=={}\nequal\n#endif\n", v).as_bytes());
		}
	}
	let text = unsafe { String::from_utf8_unchecked(text) };
	let mut a = analyzer();
	let id = a.file_id("f");
	a.update(id, &text);
	let out: Vec<&str> = a
		.preprocessed(id)
		.unwrap()
		.iter()
		.filter_map(|t| match &t.1 {
			Token::Identifier(s) => Some(s.as_str()),
			_ => None,
		})
		.collect();
	for o in &out {
		sym::observe(o.as_bytes());
	}
	sym::reach(0);
	let v = match want {
		Ok(Some(v)) => v,
		_ => return,
	};
	sym::reach(1);
	sym::check(out.first() == Some(&if v != 0 { "yes" } else { "no" }), "the truth of a condition");
	if eq && v > -1000 && v < i64::MAX - 1000 {
		sym::check(out.get(1) == Some(&"equal"), "the value of a condition");
	}
}

/// Any text of `len` characters expressions are made of.
pub fn pp_expr_text() {
	let n = sym::param("len", 4);
	let alphabets: [&[u8]; 2] = [b"12()!&|<>=+-/ x", b"03()!&^<>=-*% u"];
	let mut v = sym::over(alphabets[sym::param("alphabet", 0)], n);
	for b in &mut v {
		// the lexer tells the digits apart anyway; arithmetic on known ones is cheap
		if sym::split(b.is_ascii_digit()) {
			*b = sym::concrete(*b as usize) as u8
		}
	}
	check_expr(&v);
}
/// `ops` operators between digits, with or without blanks and parentheses.
pub fn pp_expr_ops() {
	let n = sym::param("ops", 2);
	let blank = sym::choice(2) == 1;
	let paren = sym::choice(n + 1);
	const DIGITS: [[u8; 2]; 4] = [*b"25", *b"13", *b"40", *b"21"];
	let mut v = vec![];
	for i in 0..=n {
		// parentheses around two neighbours, or none
		if paren > 0 && i + 1 == paren {
			v.push(b'(');
		}
		let d = sym::u8();
		sym::assume(d == DIGITS[i % 4][0] || d == DIGITS[i % 4][1]);
		v.push(d);
		if paren > 0 && i == paren {
			v.push(b')');
		}
		if i < n {
			if blank {
				v.push(b' ');
			}
			v.extend_from_slice(ALL[sym::choice(ALL.len())].as_bytes());
			if blank {
				v.extend_from_slice(b" \t");
			}
		}
	}
	check_expr(&v);
}
/// Operands of every form.
pub fn pp_expr_operands() {
	const FORMS: [&str; 22] = [
		"0x1F", "9223372036854775807", "0x7fffffffffffffff", "x", "y", "s", "p", "q", "u", "E", "defined(x)", "defined ( u )", "defined x", "defined\tu", "!x", "! u", "!!7",
		"(y)", "( ( 2 ) )", "!(x == 3)", "!defined(u)", "definedx",
	];
	let mut v = vec![];
	for i in 0..sym::param("operands", 2) {
		if i > 0 {
			v.push(b' ');
			v.extend_from_slice(ALL[sym::choice(ALL.len())].as_bytes());
			v.push(b' ');
		}
		v.extend_from_slice(FORMS[sym::choice(FORMS.len())].as_bytes());
	}
	check_expr(&v);
}

/// The operators on any 64-bit values.
pub fn pp_eval() {
	let ops: [(B, &str); 18] = [
		(B::Or, "|"), (B::Xor, "^"), (B::And, "&"), (B::Plus, "+"), (B::Minus, "-"), (B::Times, "*"), (B::Divide, "/"), (B::Modulo, "%"), (B::Equals, "=="), (B::NotEquals, "!="),
		(B::LogicalOr, "||"), (B::LogicalAnd, "&&"), (B::LessThan, "<"), (B::LessOrEqual, "<="), (B::GreaterThan, ">"), (B::GreaterOrEqual, ">="),
		(B::BitwiseShiftLeft, "<<"), (B::BitwiseShiftRight, ">>"),
	];
	let n = sym::param("ops", 1);
	let leaf = |wide: bool| {
		// products and quotients of two free 64-bit values are beyond the solver
		let v = if wide { sym::u64() as i64 } else { (sym::u8() as i8 as i64) << [0, 56][sym::choice(2)] };
		match sym::choice(2) {
			0 => (E::IntLiteral(v), R::Lit(v)),
			_ => (E::Not(E::IntLiteral(v).into()), R::Not(R::Lit(v).into())),
		}
	};
	let first = sym::choice(ops.len());
	let hard = |o: usize| (5..8).contains(&o);
	let (mut e, mut r) = leaf(!hard(first));
	for i in 0..n {
		let o = if i == 0 { first } else { [0, 3, 9, 10, 11, 12, 16, 17][sym::choice(8)] };
		let (e2, r2) = leaf(!hard(o));
		let (o, s) = &ops[o];
		if sym::choice(2) == 0 {
			e = E::BinOp(o.clone(), e.into(), e2.into());
			r = R::Bin(s, r.into(), r2.into());
		} else {
			e = E::BinOp(o.clone(), e2.into(), e.into());
			r = R::Bin(s, r2.into(), r.into());
		}
	}
	let v = value(&r, &[], &mut vec![]).unwrap();
	let k = sym::u64() as i64;
	let db = Database::new(|_, p| Ok(p.into()));
	let id = FileId::new(&db, "f".into());
	let c = E::BinOp(B::Equals, e.into(), E::IntLiteral(k).into());
	let mut input: VecDeque<_> = [Token::PreprocessorDirective(D::If(c)), Token::Semicolon, Token::PreprocessorDirective(D::EndIf)]
		.into_iter()
		.enumerate()
		.map(|(i, t)| (id, t, i..i + 1))
		.collect();
	let mut pp = PreprocessorState::new(|p| FileId::new(&db, p.into()), |_| None);
	let out = pp.preprocess(&mut input);
	sym::observe_num(out.len());
	sym::reach(0);
	if let Some(v) = v {
		sym::reach(1);
		sym::check((out.len() == 1) == (v == k), "the value of an operator");
	}
}
