//! H04: whose content the analysis uses.
use crate::rig::*;
use analyzer_host::json_rpc::message::{Message, Notification, Response};
use serde_json::{json, Value};

const DOCS: [&str; 3] = ["file:///w/a.p4", "file:///w/b.p4", "file:///x/c.p4"];
#[derive(Default, Clone)]
struct Doc {
	open: Option<String>,
	disk: Option<String>,
	/// it has been open, or deleted: the server may have forgotten it
	forgotten: bool,
}
struct World {
	docs: Vec<Doc>,
	server: Server,
	fresh: usize,
	/// the client's answers are part of the history
	late: bool,
	asked: usize,
}
impl World {
	/// A text nobody has had before. The first document includes the second.
	fn text(&mut self, d: usize) -> String {
		self.fresh += 1;
		let c = (b'a' + self.fresh as u8) as char;
		if d == 0 {
			format!("{c}\n#include \"b.p4\"\n")
		} else {
			format!("{c}\n")
		}
	}
	fn notify(&mut self, method: &str, params: Value, now: bool) {
		let _ = self.server.to.try_send(Message::Notification(Notification { method: method.into(), params }));
		if now {
			self.server.settle()
		}
	}
	fn event(&mut self, d: usize, typ: i32, now: bool) { self.notify("workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": DOCS[d], "type": typ }] }), now) }
	fn write(&mut self, d: usize, t: Option<String>) {
		disk().put(DOCS[d], t.as_deref());
		self.docs[d].disk = t
	}
	/// The client answers the oldest request it has not answered.
	fn answer(&mut self, now: bool) -> bool {
		if self.asked == self.server.asked.len() {
			return false;
		}
		let r = &self.server.asked[self.asked];
		self.asked += 1;
		let v = self.server.answer(r);
		let id = r.id.clone();
		let _ = self.server.to.try_send(Message::Response(Response { id, result: Some(v), error: None }));
		if now {
			self.server.settle()
		}
		true
	}
	fn rest(&mut self) {
		disk().release();
		self.server.settle();
		while self.answer(true) {}
	}
	fn labels(&mut self, d: usize) -> Option<Vec<String>> {
		self.rest();
		self.server.responses();
		self.server.request(7.into(), "textDocument/completion", json!({ "textDocument": { "uri": DOCS[d] }, "position": { "line": 0, "character": 0 } }));
		self.rest();
		let mut v = self.server.responses();
		sym::check(v.len() == 1, "a completion request is answered");
		let r = v.pop().unwrap();
		let v = r.result?;
		match &v["items"] {
			Value::Array(items) => Some(items.iter().map(|i| i["label"].as_str().unwrap().to_string()).collect()),
			_ => Some(vec![]),
		}
	}
	fn content(&self, d: usize) -> Option<&String> { self.docs[d].open.as_ref().or(self.docs[d].disk.as_ref()) }
	/// The identifiers of a document, and of the one it includes.
	fn expected(&self, d: usize) -> Option<Vec<String>> {
		let t = self.content(d)?;
		let mut v: Vec<String> = vec![];
		let mut add = |t: &str| {
			for l in t.lines() {
				if !l.starts_with('#') && !l.is_empty() && !v.iter().any(|x| x == l) {
					v.push(l.into())
				}
			}
		};
		add(t);
		if t.contains("#include") {
			if let Some(t) = self.docs.get(1).and_then(|_| self.content(1)) {
				add(t)
			}
		}
		Some(v)
	}
	fn observe(&mut self) {
		self.rest();
		for d in 0..self.docs.len() {
			// asking may be what makes the server look
			self.labels(d);
			let (got, want) = (self.labels(d), self.expected(d));
			if self.docs[d].open.is_some() {
				sym::check(got == want, "an open document has the content the client sent");
				sym::reach(1)
			} else if self.docs[d].forgotten {
				sym::check(got.as_ref().map_or(true, |g| g.is_empty()) || got == want, "a closed document has the content of the disk or none");
			} else {
				sym::check(got == want, "a document that was never opened has the content of the disk");
				sym::reach(2)
			}
		}
	}
}

/// Documents are opened, changed, saved and closed by the client, and written and removed on
/// disk, while the server reads.
pub fn documents_history() {
	let n = sym::param("docs", 2);
	let late = sym::param("late", 0) == 1;
	let mut w = World { docs: vec![Doc::default(); n], server: Server::start(None, !late), fresh: 0, late, asked: 0 };
	for d in 0..n {
		if sym::param("disk", 1) == 1 || sym::choice(2) == 1 {
			let t = w.text(d);
			w.write(d, Some(t))
		}
	}
	let folders: [&str; 1] = ["file:///w"];
	w.server.initialize(match sym::param("folders", 2) {
		0 => None,
		1 => Some(&folders[..]),
		_ => Some(&folders[..]).filter(|_| sym::choice(2) == 1),
	});
	if late {
		// those of the handshake have been answered
		w.server.settle();
		w.asked = w.server.asked.len();
		w.server.answers = Answers::Late
	}
	for _ in 0..sym::param("ops", 3) {
		let now = sym::param("batch", 0) == 0 || sym::choice(2) == 0;
		match sym::choice(8) {
			0 => {
				let d = sym::choice(n);
				sym::assume(w.docs[d].open.is_none());
				let t = w.text(d);
				w.notify("textDocument/didOpen", json!({ "textDocument": { "uri": DOCS[d], "languageId": "p4", "version": 0, "text": t } }), now);
				w.docs[d].open = Some(t);
				w.docs[d].forgotten = true
			}
			1 => {
				let d = sym::choice(n);
				sym::assume(w.docs[d].open.is_some());
				let mut t = w.docs[d].open.clone().unwrap();
				let mut changes = vec![];
				for _ in 0..1 + sym::choice(sym::param("changes", 2)) {
					if sym::choice(2) == 0 {
						t = w.text(d);
						changes.push(json!({ "text": t }))
					} else {
						w.fresh += 1;
						let c = (b'a' + w.fresh as u8) as char;
						// in front, instead of the first character or line, or after the first line
						let (from, to, new) = match sym::choice(sym::param("ranges", 4)) {
							0 => ((0, 0), (0, 0), format!("{c}")),
							1 => ((0, 0), (0, 1), format!("{c}")),
							2 => ((0, 0), (1, 0), format!("{c}\n")),
							_ => ((1, 0), (1, 0), format!("{c}\n")),
						};
						let at = |p: (usize, usize)| json!({ "line": p.0, "character": p.1 });
						changes.push(json!({ "range": { "start": at(from), "end": at(to) }, "text": new }));
						let next = t.find('\n').unwrap() + 1;
						let offset = |p: (usize, usize)| if p.0 == 0 { p.1 } else { next };
						t = format!("{}{new}{}", &t[..offset(from)], &t[offset(to)..])
					}
				}
				w.notify("textDocument/didChange", json!({ "textDocument": { "uri": DOCS[d], "version": 1 }, "contentChanges": changes }), now);
				w.docs[d].open = Some(t)
			}
			2 => {
				let d = sym::choice(n);
				sym::assume(w.docs[d].open.is_some());
				let t = w.docs[d].open.clone();
				w.write(d, t.clone());
				let mut p = json!({ "textDocument": { "uri": DOCS[d] } });
				if sym::choice(2) == 1 {
					p["text"] = json!(t)
				}
				w.notify("textDocument/didSave", p, now);
				w.event(d, 2, now)
			}
			3 => {
				let d = sym::choice(n);
				sym::assume(w.docs[d].open.is_some());
				w.notify("textDocument/didClose", json!({ "textDocument": { "uri": DOCS[d] } }), now);
				w.docs[d].open = None
			}
			4 => {
				let d = sym::choice(n);
				let t = w.text(d);
				let typ = if w.docs[d].disk.is_some() { 2 } else { 1 };
				w.write(d, Some(t));
				w.event(d, typ, now);
				if w.docs[d].open.is_none() {
					w.docs[d].forgotten = false
				}
			}
			5 => {
				let d = sym::choice(n);
				sym::assume(w.docs[d].disk.is_some());
				w.write(d, None);
				w.event(d, 3, now);
				w.docs[d].forgotten = true
			}
			6 => {
				let d = sym::choice(n);
				w.server.request(5.into(), "textDocument/completion", json!({ "textDocument": { "uri": DOCS[d] }, "position": { "line": 0, "character": 0 } }));
				w.server.responses();
			}
			_ if late => sym::assume(w.answer(now)),
			_ if disk().held => {
				disk().release();
				if now {
					w.server.settle()
				}
			}
			_ => disk().held = true,
		}
		if sym::param("each", 0) == 1 {
			w.observe()
		}
	}
	w.observe();
	sym::reach(0)
}

/// Notifications that make no sense where they come, or none at all: the server lives on, and
/// the documents that are open keep their content.
pub fn documents_odd() {
	let mut w = World { docs: vec![Doc::default(); 1], server: Server::start(None, true), fresh: 0, late: false, asked: 0 };
	let t = w.text(0);
	w.write(0, Some(t));
	let folders: [&str; 1] = ["file:///w"];
	w.server.initialize(if sym::choice(2) == 0 { None } else { Some(&folders) });
	let t = w.text(0);
	w.notify("textDocument/didOpen", json!({ "textDocument": { "uri": DOCS[0], "languageId": "p4", "version": 0, "text": t } }), true);
	w.docs[0].open = Some(t);
	disk().put("file:///w/b.p4", Some("bb\n"));
	disk().put("file:///w/there.p4", Some("`\n`"));
	let uris = ["file:///w/there.p4", "file:///w/missing.p4", "file:///x/y.p4", "untitled:Untitled-1", "mailto:x", "file:///w/", "file:///", "http://h/x?y#z"];
	for _ in 0..sym::param("ops", 2) {
		let uri = uris[sym::choice(sym::param("uris", 8))];
		let id = json!({ "uri": uri });
		let at = |l: u32, c: u32| json!({ "line": l, "character": c });
		match sym::choice(8) {
			0 => w.notify("textDocument/didClose", json!({ "textDocument": id }), true),
			1 => {
				let r = match sym::choice(3) {
					0 => Value::Null,
					1 => json!({ "start": at(0, 0), "end": at(0, 0) }),
					_ => json!({ "start": at(7, 7), "end": at(9, u32::MAX) }),
				};
				let mut c = json!({ "text": "x" });
				if !r.is_null() {
					c["range"] = r
				}
				w.notify("textDocument/didChange", json!({ "textDocument": { "uri": uri, "version": 3 }, "contentChanges": [c] }), true)
			}
			2 => w.notify("textDocument/didSave", json!({ "textDocument": id, "text": "`` x \u{e9}" }), true),
			3 => w.notify("textDocument/didSave", json!({ "textDocument": id }), true),
			4 => {
				let text = ["", "#include <mailto:x>\n#include <http://>", "#include \"\"\n#include \"//\""][sym::choice(3)];
				w.notify("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": "p4", "version": 0, "text": text } }), true)
			}
			5 => w.notify("workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": uri, "type": sym::choice(5) }, { "uri": uri, "type": 3 }] }), true),
			6 => {
				w.server.request(5.into(), "textDocument/completion", json!({ "textDocument": id, "position": at(0, 0) }));
				sym::check(w.server.responses().len() == 1, "a completion request is answered");
			}
			_ => w.notify("workspace/didChangeWatchedFiles", json!({ "changes": [] }), true),
		}
		sym::check(!w.server.ended, "the server lives on");
	}
	w.labels(0);
	w.docs.push(Doc { open: None, disk: Some("bb\n".into()), forgotten: true });
	let (got, want) = (w.labels(0), w.expected(0));
	sym::check(got == want, "an open document has the content the client sent");
	sym::reach(0)
}
