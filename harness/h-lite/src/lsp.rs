use analyzer_core::lsp_file::*;

// ---- reference model, written from the meaning of the operations, not from the code ----

/// Start of `line` and offset of its end (its '\n' excluded); none past the end of the text.
fn line_bounds(s: &[u8], line: usize) -> Option<(usize, usize)> {
	let mut start = 0;
	let mut n = 0;
	while start < s.len() {
		let end = s[start..].iter().position(|&b| b == b'\n').map_or(s.len(), |i| start + i);
		if n == line {
			return Some((start, end));
		}
		n += 1;
		start = end + 1;
	}
	None
}
fn is_start(b: u8) -> bool { b & 0xc0 != 0x80 }
/// The offset a position denotes: characters past the end of a line mean its end, lines past
/// the end of the text mean the end of the text.
fn offset(s: &[u8], p: Position) -> usize {
	match line_bounds(s, p.line) {
		None => s.len(),
		Some((a, b)) => {
			let mut seen = 0;
			for i in a..b {
				if is_start(s[i]) {
					if seen == p.character {
						return i;
					}
					seen += 1;
				}
			}
			b
		}
	}
}
/// The index `LspFile` documents: for every line the offset of its last byte.
fn index(s: &[u8]) -> Vec<usize> {
	let mut v = Vec::new();
	for i in 0..s.len() {
		if s[i] == b'\n' || i + 1 == s.len() {
			v.push(i)
		}
	}
	v
}
/// Any position the protocol can express.
fn position() -> Position { Position { line: sym::u32() as usize, character: sym::u32() as usize } }

/// Any text, any history of edits: content and line index are those of the spliced text.
pub fn lsp_history() {
	let text = sym::text(sym::param("text", 3), sym::param("classes", 5));
	let mut file = LspFile::new(&text);
	let mut model = text.into_bytes();
	let edits = sym::param("edits", 1);
	for _ in 0..edits {
		let ins = sym::text(sym::param("ins", 2), sym::param("iclasses", 5));
		let whole = sym::choice(2) == 0;
		if whole {
			file.lazy_add(&ChangeEvent { range: None, text: ins.clone() });
			model = ins.into_bytes();
		} else {
			let (p, q) = (position(), position());
			let (s, e) = (offset(&model, p), offset(&model, q));
			// a range whose start lies after its end has no meaning; the project's tests pin a panic
			sym::assume(s <= e);
			file.lazy_add(&ChangeEvent { range: Some(Range { start: p, end: q }), text: ins.clone() });
			model.splice(s..e, ins.into_bytes());
		}
	}
	sym::reach(0);
	let content = file.get_file_content().as_bytes();
	sym::observe(content);
	if sym::param("index", 0) == 0 {
		sym::check(content == &model[..], "content after the edits is not the spliced text");
		return;
	}
	for &r in file.get_ranges() {
		sym::observe_num(r);
	}
	sym::check(file.get_ranges()[..] == index(content)[..], "line index after the edits is not that of the text");
	let mut line = 0;
	while let Some((a, b)) = line_bounds(content, line) {
		let with_break = &content[a..(b + 1).min(content.len())];
		sym::check(file.line_char(line) == with_break.iter().filter(|&&c| is_start(c)).count(), "line_char is not the length of the line");
		line += 1;
	}
	sym::check(file.line_char(line) == 0, "a line past the end has characters");
}

/// Position <-> offset conversions on any text.
pub fn lsp_positions() {
	let text = sym::text(sym::param("text", 4), sym::param("classes", 5));
	let s = text.as_bytes();
	let file = LspFile::new(&text);
	sym::check(file.get_ranges()[..] == index(s)[..], "line index of a fresh file");
	let p = position();
	let b = file.lsp_to_byte(&p);
	sym::observe_num(b);
	sym::reach(0);
	sym::check(b == offset(s, p), "lsp_to_byte gives another offset than the position denotes");
	// every offset, also inside a character and past the end
	let mut last = Position { line: 0, character: 0 };
	for i in 0..s.len() + 2 {
		let q = file.byte_to_lsp(i);
		sym::observe_num(q.line);
		sym::observe_num(q.character);
		let mut at = i.min(s.len());
		while at < s.len() && !is_start(s[at]) {
			at -= 1;
		}
		sym::check(file.lsp_to_byte(&q) == at, "byte_to_lsp then lsp_to_byte does not lead back to the character");
		sym::check(last <= q, "byte_to_lsp is not monotone");
		last = q;
	}
	let r = Range { start: p, end: p };
	sym::check(file.lsp_range_to_byte_range(&r) == (b..b), "range conversion");
	let br = 0..b;
	let lr = file.byte_range_to_lsp_range(&br);
	sym::check(lr.start == file.byte_to_lsp(0) && lr.end == file.byte_to_lsp(b), "byte range conversion");
}

/// A reversed range is refused (by panicking, as the project's tests demand), nothing else is.
pub fn lsp_total() {
	let text = sym::text(sym::param("text", 3), 3);
	let mut file = LspFile::new(&text);
	let ins = sym::text(1, 2);
	let (p, q) = (position(), position());
	let (s, e) = (offset(text.as_bytes(), p), offset(text.as_bytes(), q));
	sym::expect_panic(!text.is_empty() && s > e);
	file.lazy_add(&ChangeEvent { range: Some(Range { start: p, end: q }), text: ins });
	sym::reach(0);
	sym::check(text.is_empty() || s <= e, "an edit whose range is reversed was applied");
}
