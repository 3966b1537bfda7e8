//! W01: what a dump holds.
use crate::exec::block_on;
use lsif_p4::flags::LsifP4Cmd;
use lsif_p4::lsif_generator::LsifGenerator;
use serde_json::Value;
use std::cell::UnsafeCell;
use std::path::PathBuf;
use std::sync::Arc;
use vstd::fs::{tree, Node};

struct Shared(UnsafeCell<(String, Vec<String>)>);
unsafe impl Sync for Shared {}
/// Where the dump belongs, and the paths of the files it lists.
static WANT: Shared = Shared(UnsafeCell::new((String::new(), Vec::new())));
fn want() -> &'static mut (String, Vec<String>) { unsafe { &mut *WANT.0.get() } }

fn put(path: &str, n: Node) {
	if !tree().iter().any(|e| e.0 == path.as_bytes()) {
		tree().push((path.as_bytes().to_vec(), n))
	}
}
fn uri(path: &str) -> String { path.replace(' ', "%20").replace('é', "%C3%A9") }

pub fn lsif_dump() {
	for f in ["/w", "/w/d", "/h", "/out"] {
		put(f, Node::Folder);
	}
	// the headers beside the workspace, inside it, or the same folder
	let places = sym::param("places", 3);
	let headers = ["/h", "/w/d", "/w"][sym::choice(places)];
	for _ in 0..sym::choice(sym::param("files", 2) + 1) {
		let p = ["/w/a.p4", "/w/d/b.p4", "/h/c c.p4", "/w/é.p4", "/w/n.txt", "/out/o.p4", "/w/d/a.p4"][sym::choice(sym::param("where", 7))];
		put(p, Node::File(b"x".to_vec()));
	}
	let output = sym::choice(sym::param("outputs", 2));
	let named = sym::choice(sym::param("outputs", 2));
	want().0 = format!("{}/{}.lsif", ["", "/out"][output], ["P4Analysis", "my"][named]);
	if sym::choice(sym::param("old", 2)) == 1 {
		// of an earlier time
		put(&want().0.clone(), Node::File(b"old old old".to_vec()));
	}
	for e in tree().iter() {
		let p = std::str::from_utf8(&e.0).unwrap();
		if matches!(e.1, Node::File(_)) && p.ends_with(".p4") && (p.starts_with("/w/") || p.starts_with(&format!("{headers}/"))) {
			want().1.push(format!("file://{}", uri(p)));
		}
	}
	let settings = LsifP4Cmd {
		header_files: PathBuf::from(headers),
		workspace: Some(PathBuf::from("/w")),
		filename: [None, Some("my".to_string())][named].clone(),
		output: [None, Some(PathBuf::from("/out"))][output].clone(),
		version: false,
	};
	vstd::process::at_exit(finish);
	let mut g = LsifGenerator::new(Arc::new(settings));
	block_on(g.generate_dump());
	finish(0);
}
fn finish(code: i32) {
	let (path, files) = want();
	sym::check(code == 0, "the dump succeeds");
	let n = tree().iter().find(|e| e.0 == path.as_bytes()).map(|e| e.1.clone());
	let bytes = match n {
		Some(Node::File(b)) => b,
		_ => {
			sym::check(false, "the dump is where it was asked for");
			return;
		}
	};
	let text = String::from_utf8(bytes).unwrap();
	sym::check(text.is_empty() || text.ends_with('\n'), "every entry has a line of its own");
	let (mut ids, mut found): (Vec<Value>, Vec<String>) = (vec![], vec![]);
	for l in text.lines() {
		let v: Option<Value> = serde_json::from_str(l).ok();
		sym::check(v.is_some(), "every line is an entry");
		let v = v.unwrap();
		sym::check(v["id"].is_number() || v["id"].is_string(), "every entry has an id");
		sym::check(!ids.contains(&v["id"]), "no two entries share an id");
		ids.push(v["id"].clone());
		if v["type"] == "vertex" && v["label"] == "document" {
			found.push(v["uri"].as_str().unwrap_or("").to_string());
			sym::check(v["languageId"] == "P4", "a document is of the language P4");
		}
	}
	found.sort();
	files.sort();
	sym::check(found == *files, "there is one document for every file of the workspace and the headers");
	sym::reach(files.len().min(1) as u32);
}
