use analyzer_core::parser::*;
use parking_lot::RwLock;

type Name = &'static str;
/// The harness's own grammars, from which both the real rules and the reference are made.
#[derive(Clone)]
pub enum G {
	T(&'static [u8]),
	C(Vec<Name>),
	S(Vec<Name>),
	R(Name),
	N(Name),
}
use G::*;
type Grammar = Vec<(Name, G)>;

fn rules(g: &Grammar) -> Vec<(Name, Rule<u8>)> {
	g.iter()
		.map(|(n, r)| {
			(
				*n,
				match r {
					T(t) => Rule::Terminal(t.to_vec().into()),
					C(v) => Rule::Choice(v.clone()),
					S(v) => Rule::Sequence(v.clone()),
					R(x) => Rule::Repetition(x),
					N(x) => Rule::Not(x),
				},
			)
		})
		.collect()
}
fn map(g: &Grammar) -> std::collections::HashMap<Name, Rule<u8>> { rules(g).into_iter().collect() }
fn parser(g: &Grammar, input: &[u8]) -> Parser<u8> {
	match Parser::from_rules(&map(g)) {
		Ok(mk) => mk(RwLock::new(input.to_vec())),
		Err(_) => {
			sym::check(false, "from_rules refuses a valid grammar");
			panic!()
		}
	}
}
fn get(g: &Grammar, n: Name) -> &G { &g.iter().find(|(k, _)| *k == n).unwrap().1 }

/// What the PEG says: the length matched from `pos` and the tree, or nothing.
fn reference(g: &Grammar, n: Name, s: &[u8], pos: usize) -> Option<(usize, Cst<u8>)> {
	match get(g, n) {
		T(t) => {
			if s.len() - pos < t.len() {
				return None;
			}
			for i in 0..t.len() {
				if s[pos + i] != t[i] {
					return None;
				}
			}
			Some((pos + t.len(), Cst::Terminal(t.to_vec().into())))
		}
		C(v) => v.iter().find_map(|&o| reference(g, o, s, pos).map(|(e, c)| (e, Cst::Choice(o, c.into())))),
		S(v) => {
			let (mut p, mut cs) = (pos, vec![]);
			for &x in v {
				let (e, c) = reference(g, x, s, p)?;
				p = e;
				cs.push(c.into());
			}
			Some((p, Cst::Sequence(cs)))
		}
		R(x) => {
			let (mut p, mut cs) = (pos, vec![]);
			while let Some((e, c)) = reference(g, x, s, p) {
				p = e;
				cs.push(c.into());
			}
			Some((p, Cst::Repetition(cs)))
		}
		N(x) => match reference(g, x, s, pos) {
			Some(_) => None,
			None => Some((pos, Cst::Not(x))),
		},
	}
}
fn expected(g: &Grammar, s: &[u8]) -> Option<Cst<u8>> {
	reference(g, "start", s, 0).filter(|(e, _)| *e == s.len()).map(|(_, c)| c)
}

fn fixed(k: usize) -> Grammar {
	match k {
		// the project's arithmetic example, two digits
		0 => vec![
			("start", C(vec!["add", "sub"])),
			("add", S(vec!["num", "plus", "num"])),
			("sub", S(vec!["num", "minus", "num"])),
			("plus", T(b"+")),
			("minus", T(b"-")),
			("num", S(vec!["digit", "digits"])),
			("digits", R("digit")),
			("digit", C(vec!["d0", "d1"])),
			("d0", T(b"0")),
			("d1", T(b"1")),
		],
		// a^n b^n c^n: unbounded lookahead, predicates at the end of the input
		1 => vec![
			("start", S(vec!["look", "as", "bc", "eof"])),
			("look", N("nolook")),
			("nolook", N("abb")),
			("abb", S(vec!["ab", "nob"])),
			("ab", S(vec!["a", "abopt", "b"])),
			("abopt", C(vec!["ab", "nil"])),
			("nil", N("a")),
			("nob", N("b")),
			("as", R("a")),
			("bc", S(vec!["b", "bcopt", "c"])),
			("bcopt", C(vec!["bc", "nilb"])),
			("nilb", N("b")),
			("eof", N("any")),
			("any", C(vec!["a", "b", "c"])),
			("a", T(b"a")),
			("b", T(b"b")),
			("c", T(b"c")),
		],
		// ordered choice with shared prefixes and terminals of several tokens
		2 => vec![
			("start", R("item")),
			("item", C(vec!["abc", "ab", "abd", "b", "seq"])),
			("abc", T(b"abc")),
			("ab", T(b"ab")),
			("abd", T(b"abd")),
			("b", T(b"b")),
			("seq", S(vec!["ax", "b"])),
			("ax", S(vec!["a", "nox"])),
			("a", T(b"a")),
			("nox", N("aa")),
			("aa", T(b"aa")),
		],
		// nesting by recursion, the empty terminal
		3 => vec![
			("start", C(vec!["pair", "nil"])),
			("pair", S(vec!["open", "start", "close", "start"])),
			("open", T(b"(")),
			("close", T(b")")),
			("nil", T(b"")),
		],
		// separated list, the same rule at several places
		4 => vec![
			("start", S(vec!["item", "rest"])),
			("rest", R("more")),
			("more", S(vec!["comma", "item"])),
			("comma", T(b",")),
			("item", C(vec!["two", "one"])),
			("two", S(vec!["one", "one"])),
			("one", T(b"x")),
		],
		// an optional tail decided by a long lookahead
		5 => vec![
			("start", C(vec!["long", "short"])),
			("long", S(vec!["as", "b", "as", "b"])),
			("short", S(vec!["as", "tail"])),
			("tail", R("b")),
			("as", R("a")),
			("a", T(b"a")),
			("b", T(b"b")),
		],
		_ => vec![("start", T(b"ab"))],
	}
}
const FIXED: usize = 7;

/// Any well-formed grammar of a small family: `start` over r1, r2, terminals; r1 over r2 and
/// terminals; r2 over terminals.
fn family() -> Grammar {
	fn rule(pool: &[Name], solid: &mut Vec<Name>, me: Name) -> G {
		let pick = |_: ()| pool[sym::choice(pool.len())];
		match sym::choice(4) {
			0 => {
				let (a, b) = (pick(()), pick(()));
				if solid.contains(&a) || solid.contains(&b) {
					solid.push(me)
				}
				S(vec![a, b])
			}
			1 => {
				let (a, b) = (pick(()), pick(()));
				if solid.contains(&a) && solid.contains(&b) {
					solid.push(me)
				}
				C(vec![a, b])
			}
			2 => {
				let a = pick(());
				// repeating what can match nothing has no meaning in a PEG
				sym::assume(solid.contains(&a));
				R(a)
			}
			_ => N(pick(())),
		}
	}
	let mut solid = vec!["a", "ab"];
	let r2 = rule(&["a", "ab"], &mut solid, "r2");
	let r1 = rule(&["r2", "a"], &mut solid, "r1");
	let st = rule(&["r1", "r2", "ab"], &mut solid, "start");
	vec![("start", st), ("r1", r1), ("r2", r2), ("a", T(b"a")), ("ab", T(b"ab"))]
}
fn grammar() -> Grammar {
	match sym::param("family", 0) {
		0 => fixed(sym::choice(FIXED)),
		1 => family(),
		k => fixed(k - 2),
	}
}
fn exactly(n: usize) -> Vec<u8> {
	let mut v = vec![0u8; n];
	sym::fill(&mut v);
	v
}
fn tokens(max: usize) -> Vec<u8> {
	let mut v = vec![0u8; sym::choice(max + 1)];
	sym::fill(&mut v);
	v
}

fn observe(c: &Option<Cst<u8>>) {
	fn go(c: &Cst<u8>) {
		match c {
			Cst::Terminal(t) => {
				sym::observe(b"T");
				sym::observe_num(t.len())
			}
			Cst::Choice(n, c) => {
				sym::observe(b"C");
				sym::observe(n.as_bytes());
				go(c)
			}
			Cst::Sequence(v) => {
				sym::observe(b"S");
				v.iter().for_each(|c| go(c))
			}
			Cst::Repetition(v) => {
				sym::observe(b"R");
				v.iter().for_each(|c| go(c))
			}
			Cst::Not(n) => {
				sym::observe(b"N");
				sym::observe(n.as_bytes())
			}
		}
	}
	match c {
		None => sym::observe(b"none"),
		Some(c) => go(c),
	}
}

/// A single match gives what the PEG defines.
pub fn peg_match() {
	let g = grammar();
	let input = tokens(sym::param("tokens", 4));
	let want = expected(&g, &input);
	let mut p = parser(&g, &input);
	let got = p._match();
	observe(&got);
	if got.is_some() {
		sym::reach(0)
	}
	sym::check(got == want, "the parse is not the one the grammar defines");
	sym::check(p._match() == want, "matching again gives another parse");
}

/// Any history of matches and edits gives what a fresh parse of the resulting tokens gives.
pub fn peg_edits() {
	let g = grammar();
	// only replacements of single tokens, after one match
	let replace = sym::param("replace", 0) == 1;
	let mut model = if replace { exactly(sym::param("tokens", 3)) } else { tokens(sym::param("tokens", 3)) };
	let mut p = parser(&g, &model);
	for k in 0..sym::param("edits", 1) {
		if if replace { k == 0 } else { sym::param("always", 0) == 1 || sym::choice(2) == 0 } {
			let got = p._match();
			sym::check(got == expected(&g, &model), "match differs from a fresh parse");
		}
		let (a, b, r) = if replace {
			let a = sym::choice(model.len());
			(a, a + 1, exactly(1))
		} else {
			let a = sym::choice(model.len() + 1);
			let b = a + sym::choice(model.len() - a + 1);
			(a, b, tokens(sym::param("ins", 1)))
		};
		p.apply_edit(a..b, &r);
		model.splice(a..b, r);
	}
	let got = p._match();
	observe(&got);
	if got.is_some() {
		sym::reach(0)
	}
	sym::check(got == expected(&g, &model), "match after an edit differs from a fresh parse");
}

/// A rule set is accepted exactly when it has a start rule and every rule it refers to.
pub fn peg_validate() {
	const NAMES: [Name; 4] = ["start", "p", "q", "Start"];
	let mut m = std::collections::HashMap::new();
	let mut refs: Vec<Name> = vec![];
	let n = sym::choice(sym::param("rules", 3) + 1);
	for _ in 0..n {
		let name = NAMES[sym::choice(4)];
		let mut pick = || {
			let x = NAMES[sym::choice(4)];
			refs.push(x);
			x
		};
		let r = match sym::choice(5) {
			0 => Rule::Terminal(vec![sym::u8()].into()),
			1 => Rule::Choice((0..1 + sym::choice(3)).map(|_| pick()).collect()),
			2 => Rule::Sequence((0..1 + sym::choice(3)).map(|_| pick()).collect()),
			3 => Rule::Repetition(pick()),
			_ => Rule::Not(pick()),
		};
		// one rule per name, or the earlier one's references would not count
		sym::assume(!m.contains_key(name));
		m.insert(name, r);
	}
	let ok = m.contains_key("start") && refs.iter().all(|r| m.contains_key(r));
	let got = Parser::from_rules(&m).is_ok();
	sym::observe_num(got as usize);
	if got {
		sym::reach(0)
	} else {
		sym::reach(1)
	}
	sym::check(got == ok, "from_rules accepts exactly the closed grammars with a start rule");
}
