//! H05: which workspace a file belongs to, and how workspaces are indexed.
use crate::rig::*;
use analyzer_abstractions::lsp_types::{Url, WorkspaceFolder};
use analyzer_host::json_rpc::message::{Message, Request};
use analyzer_host::lsp::workspace::{File, WorkspaceManager};
use analyzer_host::verif_hooks::{AnyBackgroundLoad, BackgroundLoad};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::Arc;

struct Loads(RefCell<Vec<String>>);
unsafe impl Sync for Loads {}
unsafe impl Send for Loads {}
impl BackgroundLoad for Loads {
	fn load(&self, u: Url) { self.0.borrow_mut().push(u.to_string()) }
}
const SEGMENTS: [&str; 4] = ["a", "b", "ab", "a%20b"];
fn path(max: usize) -> Vec<&'static str> { (0..sym::choice(max + 1)).map(|_| SEGMENTS[sym::choice(sym::param("segments", 3))]).collect() }
fn url(authority: &str, p: &[&str], slash: bool) -> String {
	let mut s = format!("file://{authority}/{}", p.join("/"));
	if slash && !p.is_empty() {
		s.push('/')
	}
	s
}

/// Up to two folders, and a file anywhere: it is found in the innermost folder above it.
pub fn folders_lookup() {
	let n = sym::choice(sym::param("folders", 2) + 1);
	let hosts = ["", "h"];
	let mut folders: Vec<(usize, Vec<&str>, String)> = vec![];
	for i in 0..n {
		let h = sym::choice(sym::param("hosts", 1));
		let p = path(sym::param("depth", 2));
		let u = url(hosts[h], &p, sym::choice(2) == 1);
		sym::assume(folders.iter().all(|f| (f.0, &f.1) != (h, &p)));
		folders.push((h, p, u));
		let _ = i;
	}
	let loads = Arc::new(Loads(RefCell::new(vec![])));
	let list: Vec<WorkspaceFolder> = folders.iter().map(|f| WorkspaceFolder { uri: Url::parse(&f.2).unwrap(), name: "w".into() }).collect();
	let background: Arc<AnyBackgroundLoad> = loads.clone();
	let m = WorkspaceManager::new(Arc::new(Box::new(DiskFs)), if n == 0 { None } else { Some(list) }, background);
	sym::check(m.has_workspaces() == (n > 0), "there are workspaces when the client has folders");

	let other = ["untitled:u", "mailto:x@y", "http:///a/x.p4", "data:,", "file:///"];
	let k = sym::choice(sym::param("kinds", 6));
	let (host, p, target) = if k == 0 {
		let h = sym::choice(sym::param("hosts", 1));
		let mut p = path(sym::param("file_depth", 3));
		p.push("x.p4");
		let u = url(hosts[h], &p, false);
		(h, p, u)
	} else {
		(9, vec![], other[k - 1].to_string())
	};
	let target = Url::parse(&target).unwrap();
	let f: Arc<File> = m.get_file(target.clone());
	sym::check(f.document_identifier.uri == target, "the file asked for");
	sym::check(Arc::ptr_eq(&f, &m.get_file(target.clone())), "the same file every time");
	sym::check(*loads.0.borrow() == [target.to_string()], "a file that is not known is loaded, once");
	// the innermost folder above it
	let mut best: Option<usize> = None;
	for (i, d) in folders.iter().enumerate() {
		if d.0 == host && p.len() > d.1.len() && p[..d.1.len()] == d.1[..] {
			if best.map_or(true, |b| folders[b].1.len() < d.1.len()) {
				best = Some(i)
			}
		}
	}
	if k != 5 {
		for (i, d) in folders.iter().enumerate() {
			let w = m.workspaces.get(&Url::parse(&d.2).unwrap()).unwrap();
			let has = w.files.read().unwrap().contains_key(&target);
			sym::check(has == (best == Some(i)), "the file belongs to the innermost folder that contains it");
		}
	}
	sym::reach(if best.is_some() { 1 } else { 0 });
}

fn below(folder: &str, file: &str) -> bool { file.starts_with(folder) && file[folder.len()..].starts_with('/') }

/// Files below several folders are all known and loaded after the handshake; the progress of it
/// is shown if, and only if, the client can show it and agrees.
pub fn folders_index() {
	let all = ["file:///w", "file:///w/in", "file:///v", "file:///w2"];
	let places = ["file:///w/a.p4", "file:///w/in/b.p4", "file:///v/c.p4", "file:///w2/d.p4", "file:///z/e.p4"];
	let n = sym::choice(sym::param("folders", 2) + 1);
	let mut folders: Vec<&str> = vec![];
	for _ in 0..n {
		let f = all[sym::choice(all.len())];
		sym::assume(!folders.contains(&f));
		folders.push(f)
	}
	let mut files = vec![];
	for p in places {
		if sym::choice(2) == 1 {
			let c = (b'a' + files.len() as u8) as char;
			disk().put(p, Some(&c.to_string()));
			files.push((p, c))
		}
	}
	let own = sym::choice(2) == 1;
	let mut s = Server::start(None, own);
	let (shows, agrees) = (sym::choice(2) == 1, sym::choice(2) == 1);
	s.refuse_progress = !agrees;
	let mut p = init_params(if n == 0 { None } else { Some(&folders) }, true);
	if shows {
		p["capabilities"]["window"] = json!({ "workDoneProgress": true })
	}
	let r = s.ask(1, "initialize", p);
	sym::check(r.error.is_none(), "initialize succeeds");
	s.notify("initialized", json!({}));
	// what the client was shown
	let asked = |m: &str, s: &Server| s.asked.iter().filter(|r: &&Request| r.method == m).count();
	sym::check(asked("client/registerCapability", &s) == (n > 0) as usize, "the server watches the files of its folders");
	sym::check(asked("window/workDoneProgress/create", &s) == (n > 0 && shows) as usize, "the client is asked before it is shown progress");
	let mut steps: Vec<String> = vec![];
	for m in s.out.drain(..) {
		if let Message::Notification(n) = m {
			if n.method == "$/progress" {
				sym::check(n.params["token"] == "Indexing", "progress is reported under the token that was created");
				steps.push(n.params["value"]["kind"].as_str().unwrap().into())
			}
		}
	}
	let mut want: Vec<String> = vec![];
	if n > 0 && shows && agrees {
		want.push("begin".into());
		want.extend(folders.iter().map(|_| "report".into()));
		want.push("end".into());
		sym::reach(2)
	}
	sym::check(steps == want, "progress begins, is reported for each folder, and ends");
	for (f, c) in &files {
		let in_folder = folders.iter().any(|d| below(d, f));
		let read = if own { disk().reads.iter().any(|r| r == f) } else { s.asked.iter().any(|r| r.method == "p4analyzer/fileContents" && r.params["uri"] == *f) };
		sym::check(read == in_folder, "exactly the files below the folders are loaded");
		if in_folder {
			let r = s.ask(2, "textDocument/completion", json!({ "textDocument": { "uri": f }, "position": { "line": 0, "character": 0 } }));
			let label = r.result.map_or(Value::Null, |v| v["items"][0]["label"].clone());
			sym::check(label == c.to_string(), "an indexed file has its content");
			sym::reach(1)
		}
	}
	sym::reach(0)
}
