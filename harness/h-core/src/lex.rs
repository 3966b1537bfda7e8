//! X01-X03: the lexer against a lexer written from P4's lexical rules.
use analyzer_core::base_abstractions::{Buffer, Diagnostics, FileId};
use analyzer_core::lexer::{Literal, Token};
use analyzer_core::{lex, Database};

/// What a stretch of text is, in the words of the rules.
#[derive(PartialEq, Debug, Clone)]
pub enum Kind {
	/// a fixed lexeme, by its text
	Fixed(&'static str),
	Word(String),
	Int(Literal),
	Comment,
	Space,
	/// a directive, or an error if it is malformed
	Directive,
	Bad,
}
const KEYWORDS: &[&str] =
	&["action", "apply", "control", "else", "header", "if", "return", "state", "table", "transition", "typedef"];
const PUNCT: &[&str] = &["}", "]", ">", ")", ":", ",", ".", "=", "*", "/", "+", "-", "{", "[", "<", "(", ";"];

pub fn kind(t: &Token) -> Kind {
	use Kind::*;
	match t {
		Token::CloseBrace => Fixed("}"),
		Token::CloseBracket => Fixed("]"),
		Token::CloseChevron => Fixed(">"),
		Token::CloseParen => Fixed(")"),
		Token::Colon => Fixed(":"),
		Token::Comma => Fixed(","),
		Token::Dot => Fixed("."),
		Token::Equals => Fixed("="),
		Token::Asterisk => Fixed("*"),
		Token::Slash => Fixed("/"),
		Token::Plus => Fixed("+"),
		Token::Minus => Fixed("-"),
		Token::OpenBrace => Fixed("{"),
		Token::OpenBracket => Fixed("["),
		Token::OpenChevron => Fixed("<"),
		Token::OpenParen => Fixed("("),
		Token::Semicolon => Fixed(";"),
		Token::KwAction => Fixed("action"),
		Token::KwApply => Fixed("apply"),
		Token::KwControl => Fixed("control"),
		Token::KwElse => Fixed("else"),
		Token::KwHeader => Fixed("header"),
		Token::KwIf => Fixed("if"),
		Token::KwReturn => Fixed("return"),
		Token::KwState => Fixed("state"),
		Token::KwTable => Fixed("table"),
		Token::KwTransition => Fixed("transition"),
		Token::KwTypedef => Fixed("typedef"),
		Token::Comment => Comment,
		Token::Whitespace => Space,
		Token::Identifier(s) => Word(s.clone()),
		Token::Integer(l) => Int(l.clone()),
		Token::PreprocessorDirective(_) => Directive,
		Token::Error => Bad,
	}
}

fn digit(b: u8) -> Option<u32> {
	match b {
		b'0'..=b'9' => Some((b - b'0') as u32),
		b'a'..=b'f' => Some((b - b'a') as u32 + 10),
		b'A'..=b'F' => Some((b - b'A') as u32 + 10),
		_ => None,
	}
}
/// The literal a spelling denotes, if any.  A width or value too large to represent has none.
pub fn literal(s: &[u8]) -> Option<Literal> {
	let mut lit = Literal { base: 10, signed: false, width: None, value: 0 };
	let mut s = s;
	let n = s.iter().position(|b| !b.is_ascii_digit()).unwrap_or(s.len());
	if n < s.len() && (s[n] == b'w' || s[n] == b's') {
		let mut w: u64 = 0;
		for &d in &s[..n] {
			w = w * 10 + (d - b'0') as u64;
			if w > u32::MAX as u64 {
				return None;
			}
		}
		lit.width = Some(w as u32);
		lit.signed = s[n] == b's';
		s = &s[n + 1..];
	}
	if s.len() >= 2 && s[0] == b'0' {
		lit.base = match s[1] {
			b'b' | b'B' => 2,
			b'o' | b'O' => 8,
			b'd' | b'D' => 10,
			b'x' | b'X' => 16,
			_ => 0,
		};
		if lit.base == 0 {
			lit.base = 10;
		} else {
			s = &s[2..];
		}
	}
	let mut any = false;
	let mut v: u64 = 0;
	for &b in s {
		if b == b'_' {
			continue;
		}
		let d = digit(b)?;
		if d >= lit.base as u32 {
			return None;
		}
		any = true;
		// below 2^63 before, so below 2^67 after: look at the high half first
		if v >> 32 != 0 && (v >> 32) * lit.base as u64 >= 1 << 31 {
			return None;
		}
		v = v * lit.base as u64 + d as u64;
		if v > i64::MAX as u64 {
			return None;
		}
	}
	lit.value = v as i64;
	if any {
		Some(lit)
	} else {
		None
	}
}

fn letter(b: u8) -> bool { b.is_ascii_alphabetic() || b == b'_' }
fn int_char(b: u8) -> bool {
	b.is_ascii_digit() || matches!(b, b'a'..=b'f' | b'A'..=b'F' | b'w' | b's' | b'o' | b'O' | b'x' | b'X' | b'_')
}
/// Characters beyond ASCII a harness can put in a text, and whether they can be in a word.
const BEYOND: [(&str, bool); 12] = [
	("\u{e9}", true), ("\u{4e2d}", true), ("\u{663}", true), ("\u{301}", true), ("\u{b2}", false), ("\u{20ac}", false),
	("\u{85}", false), ("\u{a0}", false), ("\u{2003}", false), ("\u{2028}", false), ("\u{feff}", false), ("\u{1f600}", false),
];
fn word_char(c: char) -> bool {
	c == '_' || c.is_ascii_alphanumeric() || BEYOND.iter().any(|(s, w)| *w && s.starts_with(c))
}

/// Lexemes with their ends; errors merged with their neighbours.
pub fn reference(text: &str) -> Vec<(Kind, usize, usize)> {
	let b = text.as_bytes();
	let mut out: Vec<(Kind, usize, usize)> = vec![];
	let mut i = 0;
	while i < b.len() {
		let c = text[i..].chars().next().unwrap();
		let mut j = i + c.len_utf8();
		let kind = if c.is_whitespace() {
			while let Some(c) = text[j..].chars().next() {
				if !c.is_whitespace() {
					break;
				}
				j += c.len_utf8();
			}
			Kind::Space
		} else if c.is_ascii() && letter(b[i]) {
			while j < b.len() && (letter(b[j]) || b[j].is_ascii_digit()) {
				j += 1;
			}
			match KEYWORDS.iter().find(|k| **k == &text[i..j]) {
				Some(k) => Kind::Fixed(k),
				None => Kind::Word(text[i..j].to_string()),
			}
		} else if c.is_ascii_digit() {
			while j < b.len() && int_char(b[j]) {
				j += 1;
			}
			literal(&b[i..j]).map_or(Kind::Bad, Kind::Int)
		} else if c == '/' && j < b.len() && b[j] == b'/' {
			while j < b.len() && b[j] != b'\n' {
				j += 1;
			}
			j = (j + 1).min(b.len());
			Kind::Comment
		} else if c == '/' && j < b.len() && b[j] == b'*' {
			j += 1;
			let mut k = Kind::Bad;
			while j < b.len() {
				if b[j] == b'*' && j + 1 < b.len() && b[j + 1] == b'/' {
					j += 2;
					k = Kind::Comment;
					break;
				}
				j += 1;
			}
			k
		} else if c == '#' {
			let mut k = j;
			while k < b.len() && (b[k] == b' ' || b[k] == b'\t') {
				k += 1;
			}
			let w = k;
			while let Some(c) = text[k..].chars().next() {
				if !word_char(c) {
					break;
				}
				k += c.len_utf8();
			}
			if k == w {
				// a # without a name is one error with the blanks after it
				j = k;
				Kind::Bad
			} else {
				// to the end of the line; a line break after a backslash does not end it
				let mut escaped = false;
				j = k;
				while j < b.len() {
					j += 1;
					if escaped {
						escaped = false;
					} else if b[j - 1] == b'\\' {
						escaped = true;
					} else if b[j - 1] == b'\n' {
						break;
					}
				}
				Kind::Directive
			}
		} else {
			match PUNCT.iter().find(|p| p.as_bytes()[0] == b[i]) {
				Some(p) => Kind::Fixed(p),
				None => Kind::Bad,
			}
		};
		out.push((kind, i, j));
		i = j;
	}
	out
}
fn merged(v: Vec<(Kind, usize, usize)>) -> Vec<(Kind, usize, usize)> {
	let mut out: Vec<(Kind, usize, usize)> = vec![];
	for x in v {
		match out.last_mut() {
			Some(l) if l.0 == Kind::Bad && x.0 == Kind::Bad => l.2 = x.2,
			_ => out.push(x),
		}
	}
	out
}

fn check_text(text: &str, spans: bool) {
	let db = Database::new(|_, p| Ok(p.into()));
	let id = FileId::new(&db, "f".to_string());
	let buf = Buffer::from_string(&db, &text.to_string());
	let lexed = lex(&db, id, buf).lexemes(&db);
	for (t, s) in lexed {
		sym::observe_num(s.end);
		sym::observe(format_kind(&kind(t)).as_bytes());
	}
	// X01: the tokens tile the text
	let mut at = 0;
	for (_, s) in lexed {
		sym::check(s.start == at, "a token does not start where the one before ends");
		sym::check(s.end > s.start, "a token is empty");
		sym::check(s.end <= text.len() && text.is_char_boundary(s.end), "a token ends inside a character");
		at = s.end;
	}
	sym::check(at == text.len(), "the tokens do not cover the text");
	sym::reach(0);
	if !spans {
		return;
	}
	// X02, X03: they are what the rules say
	let mut want = reference(text);
	let mut got: Vec<_> = lexed.iter().map(|(t, s)| (kind(t), s.start, s.end)).collect();
	// whether a directive is well-formed is not decided here
	for w in &mut want {
		if w.0 == Kind::Directive && got.iter().any(|g| g.0 == Kind::Bad && g.1 == w.1 && g.2 == w.2) {
			w.0 = Kind::Bad;
		}
	}
	let errors = |v: &[(Kind, usize, usize)]| -> Vec<(usize, usize)> { v.iter().filter(|x| x.0 == Kind::Bad).map(|x| (x.1, x.2)).collect() };
	want = merged(want);
	got = merged(got);
	sym::check(got.len() == want.len(), "number of tokens");
	for (g, w) in got.iter().zip(&want) {
		sym::check(g.2 == w.2, "a token's end");
		match (&g.0, &w.0) {
			(Kind::Fixed(a), Kind::Fixed(b)) => sym::check(a.as_ptr() == b.as_ptr() || a == b, "a token's lexeme"),
			(Kind::Word(a), Kind::Word(b)) => sym::check(a == b, "an identifier's name"),
			(Kind::Int(a), Kind::Int(b)) => {
				sym::reach(1);
				sym::check(a.base == b.base, "an integer's base");
				sym::check(a.signed == b.signed, "an integer's signedness");
				sym::check(a.width == b.width, "an integer's width");
				sym::check(a.value == b.value, "an integer's value")
			}
			(a, b) => sym::check(std::mem::discriminant(a) == std::mem::discriminant(b), "a token's kind"),
		}
	}
	// every maximal run of errors has its diagnostic, and nothing else has one
	let runs = errors(&want);
	let diags = lex::accumulated::<Diagnostics>(&db, id, buf);
	for r in &runs {
		sym::check(diags.iter().filter(|d| d.location.start == r.0 && d.location.end == r.1 && d.message == "unexpected token").count() == 1, "an error run without its diagnostic");
	}
	for d in &diags {
		sym::check(d.file == id, "a diagnostic of another file");
		sym::check(runs.iter().any(|r| r.0 <= d.location.start && d.location.end <= r.1), "a diagnostic without an error");
	}
	sym::reach(2);
}
fn format_kind(k: &Kind) -> String {
	match k {
		Kind::Fixed(s) => s.to_string(),
		Kind::Word(w) => w.clone(),
		Kind::Int(l) => {
			let mut s = String::from("int");
			s.push(l.base as char);
			s.push(if l.signed { 's' } else { 'u' });
			sym::observe(&l.width.unwrap_or(!0).to_le_bytes());
			sym::observe(&l.value.to_le_bytes());
			s
		}
		Kind::Comment => "comment".into(),
		Kind::Space => "space".into(),
		Kind::Directive => "directive".into(),
		Kind::Bad => "bad".into(),
	}
}

/// Any text of `chars` characters.
pub fn lex_text() {
	let text = sym::text(sym::param("chars", 2), sym::param("classes", 2));
	check_text(&text, sym::param("kinds", 1) == 1);
}
/// Any text of `chars` characters, ASCII or one of BEYOND.
pub fn lex_beyond() {
	let n = sym::param("chars", 2);
	let mut v = vec![];
	for _ in 0..n {
		match sym::choice(BEYOND.len() + 1) {
			0 => {
				let b = sym::u8();
				sym::assume(b < 0x80);
				v.push(b)
			}
			k => v.extend_from_slice(BEYOND[k - 1].0.as_bytes()),
		}
	}
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
/// Words of exactly `len` ASCII letters, digits and underscores, perhaps after a digit-free start.
pub fn lex_words() {
	let n = 1 + sym::choice(sym::param("len", 11));
	let mut v = vec![0u8; n];
	sym::fill(&mut v);
	for &b in &v {
		sym::assume(b.is_ascii_alphanumeric() || b == b'_');
	}
	sym::assume(!v[0].is_ascii_digit());
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
/// Literals of at most `len` characters.
pub fn lex_ints() {
	let n = 1 + sym::choice(sym::param("len", 4));
	let mut v = vec![0u8; n];
	sym::fill(&mut v);
	for &b in &v {
		sym::assume(int_char(b));
	}
	sym::assume(v[0].is_ascii_digit());
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
/// Long literals around the largest width and value: all but the last digits are given.
pub fn lex_long_ints() {
	let free = sym::param("free", 2);
	let mut v = vec![];
	let mut digits = |v: &mut Vec<u8>, given: &[u8], base: u8| {
		v.extend_from_slice(given);
		for _ in 0..free {
			let b = sym::u8();
			match base {
				2 => sym::assume(b == b'0' || b == b'1'),
				8 => sym::assume(b >= b'0' && b <= b'7'),
				16 => sym::assume(b.is_ascii_digit() || (b'a' <= b && b <= b'f') || (b'A' <= b && b <= b'F')),
				_ => sym::assume(b.is_ascii_digit()),
			}
			v.push(b);
		}
	};
	const D: [&[u8]; 5] = [b"92233720368547758", b"922337203685477580", b"0000000092233720368547758", b"99999999999999999", b"9_223_372_036_854_775_8"];
	const W: [&[u8]; 4] = [b"42949672", b"429496729", b"0000000042949672", b"999999999999999999999"];
	match sym::choice(6) {
		0 => {
			digits(&mut v, W[sym::choice(4)], 10);
			v.push([b'w', b's'][sym::choice(2)]);
			v.extend_from_slice([&b"1"[..], b"0x1"][sym::choice(2)]);
		}
		1 => digits(&mut v, D[sym::choice(5)], 10),
		2 => {
			v.extend_from_slice([&b"0b"[..], b"8s0B"][sym::choice(2)]);
			let n = 60 + sym::choice(3);
			digits(&mut v, &vec![b'1'; n], 2)
		}
		3 => {
			v.extend_from_slice([&b"0o"[..], b"8w0O"][sym::choice(2)]);
			let n = 18 + sym::choice(3);
			digits(&mut v, &vec![b'7'; n], 8)
		}
		4 => {
			v.extend_from_slice([&b"0d"[..], b"8w0D"][sym::choice(2)]);
			digits(&mut v, D[sym::choice(5)], 10)
		}
		_ => {
			v.extend_from_slice([&b"0x"[..], b"8s0X"][sym::choice(2)]);
			digits(&mut v, [&b"7fffffffffffff"[..], b"7FFFFFFFFFFFFFF", b"00007fffffffffffff", b"8000000000000", b"7fff_ffff_ffff_ff"][sym::choice(5)], 16)
		}
	}
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
/// Texts over the characters that matter to the rules.
pub fn lex_mixed() {
	let alphabets: [&[u8]; 4] = [b"/*\nx", b"# \n\\i;", b"/*\n #a1@", b" \t\r\n@$a"];
	let n = sym::param("len", 4);
	let v = sym::over(alphabets[sym::param("alphabet", 0)], 1 + sym::choice(n));
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
/// Several lexemes side by side, each with a few free characters.
pub fn lex_pieces() {
	let free = |v: &mut Vec<u8>, ok: fn(u8) -> bool| {
		let b = sym::u8();
		sym::assume(b < 0x80 && ok(b));
		v.push(b)
	};
	let mut v = vec![];
	for _ in 0..sym::param("pieces", 2) {
		match sym::choice(16) {
			0 => free(&mut v, |_| true),
			1 => {
				v.extend_from_slice(KEYWORDS[sym::choice(KEYWORDS.len())].as_bytes());
			}
			2 => {
				free(&mut v, letter);
				free(&mut v, |b| letter(b) || b.is_ascii_digit());
			}
			3 => {
				v.extend_from_slice(b"16w0x");
				free(&mut v, int_char);
			}
			4 => {
				free(&mut v, |b| b.is_ascii_digit());
				v.extend_from_slice(b"_0");
			}
			5 => {
				v.extend_from_slice(b"//");
				free(&mut v, |_| true);
				v.extend_from_slice("\u{e9}*/\n".as_bytes());
			}
			6 => {
				v.extend_from_slice(b"/*");
				free(&mut v, |_| true);
				v.extend_from_slice("\u{4e2d}\n//*".as_bytes());
				free(&mut v, |_| true);
				v.extend_from_slice(b"**/");
			}
			7 => v.extend_from_slice(b"/**/"),
			8 => v.extend_from_slice(b"/*"),
			9 => v.extend_from_slice(b"//"),
			10 => {
				v.extend_from_slice("\u{e9}\u{1f600}".as_bytes());
			}
			11 => {
				v.extend_from_slice(b"#  foo a\\\nb\\");
				free(&mut v, |_| true);
				v.extend_from_slice("\u{e9}\n".as_bytes());
			}
			12 => {
				v.extend_from_slice(b" \t\r\n");
				free(&mut v, |b| b == b' ' || b == b'@');
			}
			13 => v.extend_from_slice(b"#define "),
			14 => v.extend_from_slice(b"#"),
			_ => v.extend_from_slice(b"99999999999999999999"),
		}
	}
	check_text(unsafe { std::str::from_utf8_unchecked(&v) }, sym::param("kinds", 1) == 1);
}
