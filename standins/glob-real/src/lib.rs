//! Stand-in for glob (not in the offline cache) over the machine's files, for demonstrations: what `glob` of that crate yields, with its
//! default options (case matters, a wildcard does not match a separator but does match a
//! leading dot).
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct PatternError {
	pub pos: usize,
	pub msg: &'static str,
}
impl std::fmt::Display for PatternError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Pattern syntax error near position {}: {}", self.pos, self.msg) }
}
impl std::error::Error for PatternError {}
#[derive(Debug)]
pub struct GlobError {
	path: PathBuf,
	error: std::io::Error,
}
impl GlobError {
	pub fn path(&self) -> &Path { &self.path }
	pub fn error(&self) -> &std::io::Error { &self.error }
	pub fn into_error(self) -> std::io::Error { self.error }
}
impl std::fmt::Display for GlobError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "attempting to read `{}` resulted in an error: {}", self.path.display(), self.error) }
}
impl std::error::Error for GlobError {}
pub type GlobResult = Result<PathBuf, GlobError>;
pub type Paths = std::vec::IntoIter<GlobResult>;

pub struct Pattern(Vec<u8>);
/// What starts at `p`: a character, any character, any run, or one of a set.
enum Item {
	One(u8),
	Any,
	Run,
	Set(bool, Vec<(u8, u8)>),
}
impl Pattern {
	pub fn new(p: &str) -> Result<Self, PatternError> {
		for c in p.split('/') {
			if c != "**" && c.contains("**") {
				return Err(PatternError { pos: 0, msg: "recursive wildcards must form a single path component" });
			}
			items(c.as_bytes())?;
		}
		Ok(Pattern(p.as_bytes().to_vec()))
	}
	pub fn escape(s: &str) -> String {
		let mut r = String::new();
		for c in s.chars() {
			match c {
				'?' | '*' | '[' | ']' => {
					r.push('[');
					r.push(c);
					r.push(']')
				}
				c => r.push(c),
			}
		}
		r
	}
	pub fn matches(&self, s: &str) -> bool {
		let p: Vec<&[u8]> = self.0.split(|&b| b == b'/').collect();
		let s: Vec<&[u8]> = s.as_bytes().split(|&b| b == b'/').collect();
		whole(&p, &s)
	}
	pub fn matches_path(&self, p: &Path) -> bool { p.to_str().map_or(false, |s| self.matches(s)) }
	pub fn as_str(&self) -> &str { std::str::from_utf8(&self.0).unwrap() }
}
fn whole(p: &[&[u8]], s: &[&[u8]]) -> bool {
	match p.first() {
		None => s.is_empty(),
		Some(&c) if c == b"**" => (0..=s.len()).any(|k| whole(&p[1..], &s[k..])),
		Some(c) => !s.is_empty() && one(&items(c).unwrap_or_default(), s[0]) && whole(&p[1..], &s[1..]),
	}
}
fn items(p: &[u8]) -> Result<Vec<Item>, PatternError> {
	let mut v = vec![];
	let mut i = 0;
	while i < p.len() {
		match p[i] {
			b'?' => v.push(Item::Any),
			b'*' => v.push(Item::Run),
			b'[' => {
				let no = i + 1 < p.len() && p[i + 1] == b'!';
				let from = i + 1 + no as usize;
				// the first character of a set is one of it, even if it is a bracket
				let end = match (from + 1..p.len()).find(|&k| p[k] == b']') {
					Some(k) => k,
					None => return Err(PatternError { pos: i, msg: "invalid range pattern" }),
				};
				let s = &p[from..end];
				let mut set = vec![];
				let mut k = 0;
				while k < s.len() {
					if k + 2 < s.len() && s[k + 1] == b'-' {
						set.push((s[k], s[k + 2]));
						k += 3
					} else {
						set.push((s[k], s[k]));
						k += 1
					}
				}
				v.push(Item::Set(no, set));
				i = end
			}
			c => v.push(Item::One(c)),
		}
		i += 1
	}
	Ok(v)
}
fn one(p: &[Item], s: &[u8]) -> bool {
	match p.first() {
		None => s.is_empty(),
		Some(Item::Run) => (0..=s.len()).any(|k| one(&p[1..], &s[k..])),
		Some(i) => {
			!s.is_empty()
				&& match i {
					Item::One(c) => *c == s[0],
					Item::Set(no, v) => v.iter().any(|r| r.0 <= s[0] && s[0] <= r.1) != *no,
					_ => true,
				} && one(&p[1..], &s[1..])
		}
	}
}
pub fn glob(pattern: &str) -> Result<Paths, PatternError> {
	Pattern::new(pattern)?;
	let parts: Vec<&[u8]> = pattern.as_bytes().split(|&b| b == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
	let mut out = vec![];
	below(Path::new(if pattern.starts_with('/') { "/" } else { "" }), &parts, &mut out);
	let mut seen: Vec<GlobResult> = vec![];
	for r in out {
		if !seen.iter().any(|s| matches!((s, &r), (Ok(a), Ok(b)) if a == b)) {
			seen.push(r)
		}
	}
	Ok(seen.into_iter())
}
fn below(at: &Path, parts: &[&[u8]], out: &mut Vec<GlobResult>) {
	use std::os::unix::ffi::OsStrExt;
	let (first, rest) = match parts.split_first() {
		Some(x) => x,
		None => return out.push(Ok(at.into())),
	};
	let deep = *first == b"**";
	if deep && !rest.is_empty() {
		below(at, rest, out)
	}
	let list = match std::fs::read_dir(at) {
		Ok(l) => l,
		Err(error) => {
			if at.is_dir() {
				out.push(Err(GlobError { path: at.into(), error }))
			}
			return;
		}
	};
	let mut list: Vec<PathBuf> = list.filter_map(|e| e.ok()).map(|e| e.path()).collect();
	list.sort();
	let want = items(first).unwrap_or_default();
	for e in list {
		if deep {
			if e.is_dir() {
				if rest.is_empty() {
					out.push(Ok(e.clone()))
				}
				below(&e, parts, out)
			}
		} else if one(&want, e.file_name().map_or(&[][..], |n| n.as_bytes())) {
			below(&e, rest, out)
		}
	}
}
