//! C03: includes; C04: nothing panics; A01: the analyzer over a history.
use crate::pp::analyzer;
use analyzer_core::lexer::Token;
use analyzer_core::lsp_file::{ChangeEvent, Position, Range};
use analyzer_core::Analyzer;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy)]
enum Item {
	Plain,
	Include(usize),
	Define,
	IfX,
}
const NAMES: [&str; 5] = ["a", "b", "c", "z", "bad"];

struct Expect {
	tokens: Vec<(usize, usize)>,
	errors: Vec<(usize, usize)>,
	/// includes looked up: in which file, and of which
	looked: Vec<(usize, usize)>,
	x: bool,
}
fn expand(files: &[Vec<Item>], f: usize, open: &mut Vec<usize>, o: &mut Expect) {
	for (i, it) in files[f].iter().enumerate() {
		match it {
			Item::Plain => o.tokens.push((f, i)),
			Item::Define => o.x = true,
			Item::IfX => {
				if o.x {
					o.tokens.push((f, i))
				}
			}
			Item::Include(g) => {
				if open.contains(g) {
					o.errors.push((f, i));
					continue;
				}
				o.looked.push((f, *g));
				if *g < files.len() {
					open.push(*g);
					expand(files, *g, open, o);
					open.pop();
				} else {
					o.errors.push((f, i))
				}
			}
		}
	}
}

/// Include graphs over two or three files, root first.
pub fn pp_includes() {
	let n = sym::param("files", 2);
	let root = sym::param("root", 3);
	let rest = sym::param("rest", 2);
	let kinds = sym::param("kinds", 7);
	let mut files = vec![];
	for f in 0..n {
		let m = if f == 0 { root } else { rest };
		let items: Vec<Item> = (0..m)
			.map(|_| match sym::choice(kinds) {
				0 => Item::Plain,
				1 => Item::Include(0),
				2 => Item::Include(1),
				3 => Item::Include(if n > 2 { 2 } else { 3 }),
				4 => Item::IfX,
				5 => Item::Define,
				6 => Item::Include(3),
				_ => Item::Include(4),
			})
			.collect();
		files.push(items);
	}
	let required: Rc<RefCell<Vec<String>>> = Default::default();
	let r2 = required.clone();
	let mut a = Analyzer::new(
		|base, p| {
			// a path starts with the name of the file it stands in
			sym::check(base.strip_prefix('/') == Some(&p[..1]), "a path is resolved relative to the file that names it");
			if p.ends_with("bad") {
				Err("cannot be".into())
			} else {
				Ok(format!("/{}", &p[1..]))
			}
		},
		move |p| r2.borrow_mut().push(p.to_string()),
	);
	let mut starts = vec![];
	let mut ids = vec![];
	for (f, items) in files.iter().enumerate() {
		let mut text = String::new();
		let mut s = vec![];
		for (i, it) in items.iter().enumerate() {
			s.push(text.len());
			match it {
				Item::Plain => text.push_str(&format!("t{i} ;\n")),
				Item::Include(g) if i % 2 == 0 => text.push_str(&format!("#include <{}{}>\n", NAMES[f], NAMES[*g])),
				Item::Include(g) => text.push_str(&format!("#include \"{}{}\"\n", NAMES[f], NAMES[*g])),
				Item::Define => text.push_str("#define X 1\n"),
				Item::IfX => text.push_str(&format!("#if X\nt{i} ;\n#endif\n")),
			}
		}
		let id = a.file_id(&format!("/{}", NAMES[f]));
		a.update(id, &text);
		starts.push(s);
		ids.push(id);
	}
	let out = a.preprocessed(ids[0]).unwrap().clone();
	let mut o = Expect { tokens: vec![], errors: vec![], looked: vec![], x: false };
	expand(&files, 0, &mut vec![0], &mut o);
	let place = |id, at: usize| {
		let f = ids.iter().position(|x| *x == id).unwrap();
		(f, starts[f].iter().rposition(|s| *s <= at).unwrap())
	};
	let words: Vec<_> = out.iter().filter(|t| !matches!(t.1, Token::Whitespace)).collect();
	for w in &words {
		let p = place(w.0, w.2.start);
		sym::observe_num(10 * p.0 + p.1);
	}
	// each plain item is a word and a semicolon
	sym::check(words.len() == 2 * o.tokens.len(), "every token of every expanded include, once");
	for (i, want) in o.tokens.iter().enumerate() {
		let (w, s) = (words[2 * i], words[2 * i + 1]);
		sym::check(place(w.0, w.2.start) == *want && place(s.0, s.2.start) == *want, "tokens in the order and from the file they belong to");
		sym::check(w.1 == Token::Identifier(format!("t{}", want.1)) && s.1 == Token::Semicolon, "tokens as they are in the file");
	}
	// diagnostics: unknown and circular includes, and nothing else
	let mut errs: Vec<_> = a.diagnostics(ids[0]).iter().map(|d| place(d.file, d.location.start)).collect();
	let mut want = o.errors.clone();
	errs.sort();
	errs.dedup();
	want.sort();
	want.dedup();
	sym::check(errs == want, "exactly the unknown and circular includes are reported");
	// dependencies
	let deps: Vec<(String, bool)> = a.include_dependencies(ids[0]).iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect();
	let name = |(f, g): (usize, usize)| if g == 4 { format!("{}bad", NAMES[f]) } else { format!("/{}", NAMES[g]) };
	for &g in &o.looked {
		sym::check(deps.contains(&(name(g), g.1 < n)), "an include is recorded as a dependency, resolved if the file is known");
	}
	for d in &deps {
		sym::check(o.looked.iter().any(|&g| name(g) == d.0 && (g.1 < n) == d.1) || (d.1 && d.0 == "/a"), "a dependency is an include");
	}
	let req = required.borrow();
	for &g in &o.looked {
		sym::check(req.contains(&name(g)) == (g.1 >= n), "exactly the unresolved dependencies are asked for");
	}
	sym::reach(0);
	if !o.errors.is_empty() {
		sym::reach(1)
	}
}

/// Directives with free text in them: nothing panics.
pub fn pp_total() {
	const FORMS: [(&str, &str); 16] = [
		("", ""), ("#if ", "\na\n#endif\n"), ("#if 0\n#elif ", "\na\n#endif"), ("#define ", "\n#if a\n#endif\n"), ("#define x ", "\n#if x\n#endif\n"),
		("#define x ", ""), ("#define x \\", ""), ("#undef ", "\n"), ("#include ", ""), ("#include \"", "\n"), ("#include <f", ">\n"), ("#pragma ", "\n"),
		("#", "\n"), ("#define a b\n#define b ", "\n#if a+b\n#endif"), ("#if 0\n#if 1\n", ""), ("#if 1\n#else\n", "#elif 1\n"),
	];
	let f = sym::choice(FORMS.len());
	let (before, after) = FORMS[f];
	let mut text = String::from(before);
	// where the text can be a name that is looked up, letters are taken one by one out of a few
	let named = f > 0 && !(8..13).contains(&f);
	let mut free = sym::text(sym::param("chars", 2), if named { 1 } else { sym::param("classes", 2) }).into_bytes();
	for b in &mut free {
		// arithmetic on digits taken one by one is cheap, on free ones it is not
		if sym::split(b.is_ascii_digit()) {
			*b = sym::concrete(*b as usize) as u8
		} else if named && sym::split(b.is_ascii_alphabetic() || *b == b'_') {
			sym::assume(matches!(*b, b'a' | b'b' | b'x' | b'X' | b'_'));
			*b = sym::concrete(*b as usize) as u8
		}
	}
	text.push_str(&unsafe { String::from_utf8_unchecked(free) });
	text.push_str(after);
	let mut a = Analyzer::new(|_, p| if p.len() % 2 == 0 { Ok(p.to_string()) } else { Err("no".into()) }, |_| ());
	let id = a.file_id("f");
	a.update(id, &text);
	let n = a.preprocessed(id).unwrap().len();
	sym::observe_num(n);
	sym::observe_num(a.diagnostics(id).len());
	sym::observe_num(a.include_dependencies(id).len());
	sym::observe_num(a.lexed(id).unwrap().len());
	sym::reach(0);
}

const TEXTS: [&str; 6] = ["", "#include \"b\"\nx ?", "#define X 1\n#include \"b\"\ny", "#if X\nq\n#endif\n#include \"a\"", "#include \"c\"\n", "@ \"z\" 8w1\n"];
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
	v.sort();
	v
}
fn compare(a: &Analyzer, texts: &[Option<String>]) {
	let mut b = analyzer();
	for (k, t) in texts.iter().enumerate() {
		if let Some(t) = t {
			let id = b.file_id(NAMES[k]);
			b.update(id, t);
		}
	}
	sym::check(sorted(a.files()) == sorted(b.files()), "the files");
	for (k, t) in texts.iter().enumerate() {
		let (i, j) = (a.file_id(NAMES[k]), b.file_id(NAMES[k]));
		sym::check(a.input(i).map(|s| s.to_string()) == *t, "the content of a file");
		sym::check(a.lexed(i) == b.lexed(j), "the tokens of a file");
		let flat = |a: &Analyzer, v: Option<&Vec<_>>| -> Option<Vec<(String, Token, std::ops::Range<usize>)>> {
			v.map(|v: &Vec<(analyzer_core::base_abstractions::FileId, Token, std::ops::Range<usize>)>| v.iter().map(|(f, t, s)| (a.path(*f), t.clone(), s.clone())).collect())
		};
		if t.is_some() {
			sym::check(flat(a, a.preprocessed(i)) == flat(&b, b.preprocessed(j)), "the preprocessed tokens of a file");
		}
		let diags = |a: &Analyzer, i| -> Vec<(String, usize, usize, String)> {
			sorted(a.diagnostics(i).iter().map(|d| (a.path(d.file), d.location.start, d.location.end, d.message.clone())).collect())
		};
		sym::check(diags(a, i) == diags(&b, j), "the diagnostics of a file");
		let deps = |a: &Analyzer, i| -> Vec<(String, bool)> { sorted(a.include_dependencies(i).iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect()) };
		sym::check(deps(a, i) == deps(&b, j), "the dependencies of a file");
	}
}
/// Updates, edits, deletions and queries over two files.
pub fn analyzer_history() {
	let mut a = analyzer();
	let mut texts: Vec<Option<String>> = vec![None, None];
	let kinds = sym::param("texts", TEXTS.len() as u64);
	for _ in 0..sym::param("ops", 3) {
		let k = sym::choice(2);
		let id = a.file_id(NAMES[k]);
		match sym::choice(5) {
			0 | 1 => {
				let mut t = TEXTS[sym::choice(kinds)].to_string();
				let c = sym::u8();
				sym::assume(c >= b'a' && c <= b'z');
				t.push(c as char);
				a.update(id, &t);
				texts[k] = Some(t);
			}
			2 => {
				if let Some(t) = &mut texts[k] {
					// two changes: an insertion at the front and one after its first character
					let at = |c| Position { line: 0, character: c };
					a.file_change_event(
						id,
						&vec![
							ChangeEvent { range: Some(Range { start: at(0), end: at(0) }), text: "k;".into() },
							ChangeEvent { range: Some(Range { start: at(1), end: at(2) }), text: "# ".into() },
						],
					);
					t.insert_str(0, "k# ");
				}
			}
			3 => {
				let r = a.delete(NAMES[k]);
				sym::check(r.is_some() == texts[k].is_some(), "deleting a file tells whether it was there");
				texts[k] = None;
			}
			_ => compare(&a, &texts),
		}
	}
	compare(&a, &texts);
	sym::reach(0);
}
