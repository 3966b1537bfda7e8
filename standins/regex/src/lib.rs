//! The regex crate as the symbolic executor sees it: a backtracking matcher with the same
//! leftmost-first semantics for the common syntax.  The real crate builds automata at run time
//! from Unicode tables, far too much to follow symbolically; native replays (feature `native`)
//! use the real one, so every replayed path compares the two.
#[cfg(feature = "native")]
pub use regex_real::*;

#[cfg(not(feature = "native"))]
pub use standin::*;

#[cfg(not(feature = "native"))]
mod standin {
	use std::ops::{Index, Range};

	#[derive(Clone, Debug)]
	enum Node {
		Set(Vec<(char, char)>, Vec<char>, bool), // ranges, perl classes, negated
		Any,
		Start,
		End,
		Word(bool),
		Group(Option<usize>, Box<Node>),
		Cat(Vec<Node>),
		Alt(Vec<Node>),
		Rep(Box<Node>, usize, usize, bool), // greedy
	}
	#[derive(Clone, Debug)]
	pub struct Error(String);
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
	}
	impl std::error::Error for Error {}
	#[derive(Clone, Debug)]
	pub struct Regex {
		node: Node,
		groups: usize,
		names: Vec<(String, usize)>,
		pattern: String,
		ignore_case: bool,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Match<'t> {
		text: &'t str,
		start: usize,
		end: usize,
	}
	impl<'t> Match<'t> {
		pub fn start(&self) -> usize { self.start }
		pub fn end(&self) -> usize { self.end }
		pub fn len(&self) -> usize { self.end - self.start }
		pub fn is_empty(&self) -> bool { self.start == self.end }
		pub fn range(&self) -> Range<usize> { self.start..self.end }
		pub fn as_str(&self) -> &'t str { &self.text[self.start..self.end] }
	}
	impl<'t> From<Match<'t>> for &'t str {
		fn from(m: Match<'t>) -> &'t str { m.as_str() }
	}
	#[derive(Debug)]
	pub struct Captures<'t> {
		text: &'t str,
		slots: Vec<Option<(usize, usize)>>,
		names: Vec<(String, usize)>,
	}
	impl<'t> Captures<'t> {
		pub fn get(&self, i: usize) -> Option<Match<'t>> {
			let (start, end) = (*self.slots.get(i)?)?;
			Some(Match { text: self.text, start, end })
		}
		pub fn name(&self, n: &str) -> Option<Match<'t>> { self.names.iter().find(|x| x.0 == n).and_then(|x| self.get(x.1)) }
		pub fn len(&self) -> usize { self.slots.len() }
		pub fn iter(&self) -> impl Iterator<Item = Option<Match<'t>>> + '_ { (0..self.slots.len()).map(move |i| self.get(i)) }
	}
	impl<'t> Index<usize> for Captures<'t> {
		type Output = str;
		fn index(&self, i: usize) -> &str { self.get(i).expect("no group").as_str() }
	}
	impl<'t> Index<&str> for Captures<'t> {
		type Output = str;
		fn index(&self, n: &str) -> &str { self.name(n).expect("no group").as_str() }
	}

	struct P<'a> {
		s: std::iter::Peekable<std::str::Chars<'a>>,
		groups: usize,
		names: Vec<(String, usize)>,
		ic: bool,
	}
	impl<'a> P<'a> {
		fn alt(&mut self) -> Result<Node, Error> {
			let mut alts = vec![];
			loop {
				let mut cat = vec![];
				while let Some(&c) = self.s.peek() {
					if c == '|' || c == ')' {
						break;
					}
					let a = self.atom()?;
					cat.push(self.post(a)?);
				}
				alts.push(Node::Cat(cat));
				if self.s.peek() != Some(&'|') {
					break;
				}
				self.s.next();
			}
			Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Node::Alt(alts) })
		}
		fn number(&mut self) -> Option<usize> {
			let mut n = None;
			while let Some(d) = self.s.peek().and_then(|c| c.to_digit(10)) {
				self.s.next();
				n = Some(n.unwrap_or(0) * 10 + d as usize);
			}
			n
		}
		fn post(&mut self, mut a: Node) -> Result<Node, Error> {
			loop {
				let (lo, hi) = match self.s.peek() {
					Some('*') => (0, usize::MAX),
					Some('+') => (1, usize::MAX),
					Some('?') => (0, 1),
					Some('{') => {
						self.s.next();
						let lo = self.number().ok_or(Error("repetition".into()))?;
						let hi = if self.s.peek() == Some(&',') {
							self.s.next();
							self.number().unwrap_or(usize::MAX)
						} else {
							lo
						};
						if self.s.peek() != Some(&'}') {
							return Err(Error("repetition".into()));
						}
						(lo, hi)
					}
					_ => return Ok(a),
				};
				self.s.next();
				let mut greedy = true;
				if self.s.peek() == Some(&'?') {
					self.s.next();
					greedy = false;
				}
				a = Node::Rep(Box::new(a), lo, hi, greedy);
			}
		}
		fn escape(&mut self) -> Result<Result<char, char>, Error> {
			// Ok(literal) or Err(perl class)
			let c = self.s.next().ok_or(Error("escape".into()))?;
			Ok(match c {
				'd' | 'D' | 's' | 'S' | 'w' | 'W' => Err(c),
				'n' => Ok('\n'),
				'r' => Ok('\r'),
				't' => Ok('\t'),
				'f' => Ok('\x0c'),
				'v' => Ok('\x0b'),
				'0' => Ok('\0'),
				c if c.is_ascii_punctuation() => Ok(c),
				_ => return Err(Error(format!("unsupported escape {c}"))),
			})
		}
		fn atom(&mut self) -> Result<Node, Error> {
			match self.s.next().unwrap() {
				'.' => Ok(Node::Any),
				'^' => Ok(Node::Start),
				'$' => Ok(Node::End),
				'(' => {
					let mut g = None;
					if self.s.peek() == Some(&'?') {
						self.s.next();
						match self.s.next() {
							Some(':') => (),
							Some('i') if self.s.peek() == Some(&')') => {
								self.s.next();
								self.ic = true;
								return Ok(Node::Cat(vec![]));
							}
							Some('P') | Some('<') => {
								if self.s.peek() == Some(&'<') {
									self.s.next();
								}
								let mut n = String::new();
								loop {
									match self.s.next() {
										Some('>') => break,
										Some(c) => n.push(c),
										None => return Err(Error("group name".into())),
									}
								}
								self.groups += 1;
								g = Some(self.groups);
								self.names.push((n, self.groups));
							}
							_ => return Err(Error("unsupported group".into())),
						}
					} else {
						self.groups += 1;
						g = Some(self.groups);
					}
					let a = self.alt()?;
					if self.s.next() != Some(')') {
						return Err(Error("unclosed group".into()));
					}
					Ok(Node::Group(g, Box::new(a)))
				}
				'[' => {
					let mut neg = false;
					if self.s.peek() == Some(&'^') {
						self.s.next();
						neg = true;
					}
					let (mut ranges, mut classes) = (vec![], vec![]);
					let mut first = true;
					loop {
						let c = match self.s.next().ok_or(Error("unclosed class".into()))? {
							']' if !first => break,
							'[' => return Err(Error("unsupported class".into())),
							'\\' => match self.escape()? {
								Ok(c) => c,
								Err(k) => {
									classes.push(k);
									first = false;
									continue;
								}
							},
							c => c,
						};
						first = false;
						let mut hi = c;
						if self.s.peek() == Some(&'-') {
							let mut ahead = self.s.clone();
							ahead.next();
							if ahead.peek() != Some(&']') {
								self.s.next();
								hi = match self.s.next().ok_or(Error("unclosed class".into()))? {
									'\\' => self.escape()?.map_err(|_| Error("class range".into()))?,
									c => c,
								};
							}
						}
						ranges.push((c, hi));
					}
					Ok(Node::Set(ranges, classes, neg))
				}
				'\\' => {
					let word = match self.s.peek() {
						Some('b') => Some(Node::Word(true)),
						Some('B') => Some(Node::Word(false)),
						Some('A') => Some(Node::Start),
						Some('z') => Some(Node::End),
						_ => None,
					};
					if let Some(w) = word {
						self.s.next();
						return Ok(w);
					}
					Ok(match self.escape()? {
						Ok(c) => Node::Set(vec![(c, c)], vec![], false),
						Err(k) => Node::Set(vec![], vec![k], false),
					})
				}
				c @ ('*' | '+' | '?') => Err(Error(format!("nothing to repeat before {c}"))),
				c => Ok(Node::Set(vec![(c, c)], vec![], false)),
			}
		}
	}

	/// Decimal digits beyond ASCII (general category Nd, Unicode 15.0).
	const ND: [(u32, u32); 63] = [(0x660, 0x669), (0x6f0, 0x6f9), (0x7c0, 0x7c9), (0x966, 0x96f), (0x9e6, 0x9ef), (0xa66, 0xa6f), (0xae6, 0xaef), (0xb66, 0xb6f), (0xbe6, 0xbef), (0xc66, 0xc6f), (0xce6, 0xcef), (0xd66, 0xd6f), (0xde6, 0xdef), (0xe50, 0xe59), (0xed0, 0xed9), (0xf20, 0xf29), (0x1040, 0x1049), (0x1090, 0x1099), (0x17e0, 0x17e9), (0x1810, 0x1819), (0x1946, 0x194f), (0x19d0, 0x19d9), (0x1a80, 0x1a89), (0x1a90, 0x1a99), (0x1b50, 0x1b59), (0x1bb0, 0x1bb9), (0x1c40, 0x1c49), (0x1c50, 0x1c59), (0xa620, 0xa629), (0xa8d0, 0xa8d9), (0xa900, 0xa909), (0xa9d0, 0xa9d9), (0xa9f0, 0xa9f9), (0xaa50, 0xaa59), (0xabf0, 0xabf9), (0xff10, 0xff19), (0x104a0, 0x104a9), (0x10d30, 0x10d39), (0x11066, 0x1106f), (0x110f0, 0x110f9), (0x11136, 0x1113f), (0x111d0, 0x111d9), (0x112f0, 0x112f9), (0x11450, 0x11459), (0x114d0, 0x114d9), (0x11650, 0x11659), (0x116c0, 0x116c9), (0x11730, 0x11739), (0x118e0, 0x118e9), (0x11950, 0x11959), (0x11c50, 0x11c59), (0x11d50, 0x11d59), (0x11da0, 0x11da9), (0x11f50, 0x11f59), (0x16a60, 0x16a69), (0x16ac0, 0x16ac9), (0x16b50, 0x16b59), (0x1d7ce, 0x1d7ff), (0x1e140, 0x1e149), (0x1e2f0, 0x1e2f9), (0x1e4f0, 0x1e4f9), (0x1e950, 0x1e959), (0x1fbf0, 0x1fbf9)];
	fn perl(k: char, c: char) -> bool {
		match k {
			'd' => c.is_ascii_digit() || (!c.is_ascii() && ND.iter().any(|&(a, b)| (a..=b).contains(&(c as u32)))),
			's' => c.is_whitespace(),
			'w' => c.is_ascii_alphanumeric() || c == '_' || (!c.is_ascii() && regex_syntax::is_word_character(c)),
			k => !perl(k.to_ascii_lowercase(), c),
		}
	}
	type Slots = Vec<Option<(usize, usize)>>;
	struct M<'t> {
		text: &'t str,
		ic: bool,
	}
	impl<'t> M<'t> {
		fn run(&self, n: &Node, at: usize, s: &mut Slots, k: &mut dyn FnMut(usize, &mut Slots) -> bool) -> bool {
			match n {
				Node::Set(ranges, classes, neg) => match self.text[at..].chars().next() {
					None => false,
					Some(c) => {
						let hit = |c: char| ranges.iter().any(|&(a, b)| a <= c && c <= b) || classes.iter().any(|&k| perl(k, c));
						let h = hit(c) || (self.ic && (hit(c.to_ascii_lowercase()) || hit(c.to_ascii_uppercase())));
						h != *neg && k(at + c.len_utf8(), s)
					}
				},
				Node::Any => match self.text[at..].chars().next() {
					Some(c) if c != '\n' => k(at + c.len_utf8(), s),
					_ => false,
				},
				Node::Start => at == 0 && k(at, s),
				Node::End => at == self.text.len() && k(at, s),
				Node::Word(want) => {
					let w = |c: Option<char>| c.map_or(false, |c| perl('w', c));
					let b = w(self.text[..at].chars().next_back()) != w(self.text[at..].chars().next());
					b == *want && k(at, s)
				}
				Node::Group(None, a) => self.run(a, at, s, k),
				Node::Group(Some(g), a) => {
					let old = s[*g];
					let r = self.run(a, at, s, &mut |e, s| {
						let before = s[*g];
						s[*g] = Some((at, e));
						if k(e, s) {
							return true;
						}
						s[*g] = before;
						false
					});
					if !r {
						s[*g] = old;
					}
					r
				}
				Node::Cat(v) => self.cat(v, at, s, k),
				Node::Alt(v) => v.iter().any(|a| self.run(a, at, s, k)),
				Node::Rep(a, lo, hi, greedy) => self.rep(a, *lo, *hi, *greedy, 0, at, s, k),
			}
		}
		fn cat(&self, v: &[Node], at: usize, s: &mut Slots, k: &mut dyn FnMut(usize, &mut Slots) -> bool) -> bool {
			match v.split_first() {
				None => k(at, s),
				Some((a, rest)) => self.run(a, at, s, &mut |e, s| self.cat(rest, e, s, k)),
			}
		}
		fn rep(&self, a: &Node, lo: usize, hi: usize, greedy: bool, done: usize, at: usize, s: &mut Slots, k: &mut dyn FnMut(usize, &mut Slots) -> bool) -> bool {
			if done < lo {
				return self.run(a, at, s, &mut |e, s| self.rep(a, lo, hi, greedy, done + 1, e, s, k));
			}
			if !greedy && k(at, s) {
				return true;
			}
			if done < hi && self.run(a, at, s, &mut |e, s| e > at && self.rep(a, lo, hi, greedy, done + 1, e, s, k)) {
				return true;
			}
			greedy && k(at, s)
		}
	}

	impl Regex {
		pub fn new(re: &str) -> Result<Regex, Error> {
			let mut p = P { s: re.chars().peekable(), groups: 0, names: vec![], ic: false };
			let node = p.alt()?;
			if p.s.next().is_some() {
				return Err(Error("unopened group".into()));
			}
			Ok(Regex { node, groups: p.groups, names: p.names, pattern: re.into(), ignore_case: p.ic })
		}
		pub fn as_str(&self) -> &str { &self.pattern }
		pub fn captures_len(&self) -> usize { self.groups + 1 }
		fn at<'t>(&self, text: &'t str, from: usize) -> Option<Captures<'t>> {
			let m = M { text, ic: self.ignore_case };
			let mut start = from;
			loop {
				let mut s: Slots = vec![None; self.groups + 1];
				let mut end = None;
				if m.run(&self.node, start, &mut s, &mut |e, _| {
					end = Some(e);
					true
				}) {
					s[0] = Some((start, end.unwrap()));
					return Some(Captures { text, slots: s, names: self.names.clone() });
				}
				start += text[start..].chars().next()?.len_utf8();
			}
		}
		pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> { self.at(text, 0) }
		pub fn find<'t>(&self, text: &'t str) -> Option<Match<'t>> { self.at(text, 0).and_then(|c| c.get(0)) }
		pub fn is_match(&self, text: &str) -> bool { self.at(text, 0).is_some() }
		pub fn captures_iter<'r, 't: 'r>(&'r self, text: &'t str) -> impl Iterator<Item = Captures<'t>> + 'r {
			let (mut from, mut last) = (0, None);
			std::iter::from_fn(move || loop {
				if from > text.len() {
					return None;
				}
				let c = self.at(text, from)?;
				let m = c.get(0).unwrap();
				if m.is_empty() {
					from = m.end() + text[m.end()..].chars().next().map_or(1, |c| c.len_utf8());
					if last == Some(m.end()) {
						continue;
					}
				} else {
					from = m.end();
				}
				last = Some(m.end());
				return Some(c);
			})
		}
		pub fn find_iter<'r, 't: 'r>(&'r self, text: &'t str) -> impl Iterator<Item = Match<'t>> + 'r {
			self.captures_iter(text).map(|c| c.get(0).unwrap())
		}
	}
	impl std::str::FromStr for Regex {
		type Err = Error;
		fn from_str(s: &str) -> Result<Regex, Error> { Regex::new(s) }
	}
}
