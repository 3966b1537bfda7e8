//! N01: the file system of the machine.
use crate::exec::block_on;
use analyzer_abstractions::lsp_types::Url;
use p4_analyzer::native_fs::native_fs::NativeFs;
use vstd::fs::{tree, Node};
use vstd::io::streams;

/// Names of folders and files, with characters that mean something to a pattern or a URI.
const NAMES: &[&str] = &["a.p4", "b.txt", "d", "e.p4", "[d]", "x?y", "*", "é", "a b%", "P.P4", ".h.p4", "{d}", "#q"];
fn uri(path: &str, folder: bool) -> Url {
	if folder {
		Url::from_directory_path(path).unwrap()
	} else {
		Url::from_file_path(path).unwrap()
	}
}
fn put(path: &str, n: Node) {
	if !tree().iter().any(|e| e.0 == path.as_bytes()) {
		tree().push((path.as_bytes().to_vec(), n))
	}
}
fn name() -> &'static str { NAMES[sym::choice(sym::param("names", NAMES.len() as u64))] }

/// A folder of any name, with files and folders of any names in it and beside it.
pub fn files_enumerate() {
	let root = format!("/{}", name());
	let there = sym::choice(3);
	match there {
		0 => put(&root, Node::Folder),
		1 => put(&root, Node::Locked(true)),
		_ => (),
	}
	put("/o", Node::Folder);
	put("/o/other.p4", Node::File(vec![]));
	if there == 0 {
		for _ in 0..sym::choice(sym::param("entries", 2) + 1) {
			let mut at = root.clone();
			for _ in 0..sym::choice(sym::param("depth", 1) + 1) {
				at = format!("{}/{}", at, name());
				put(&at, if sym::choice(3) == 2 { Node::Locked(true) } else { Node::Folder });
				if !matches!(tree().iter().find(|e| e.0 == at.as_bytes()), Some((_, Node::Folder))) {
					break;
				}
			}
			if let Some((_, Node::Folder)) = tree().iter().find(|e| e.0 == at.as_bytes()) {
				at = format!("{}/{}", at, name());
				put(&at, if sym::choice(2) == 1 { Node::Locked(false) } else { Node::File(vec![]) })
			}
		}
	}
	let folder = match sym::choice(2) {
		0 => uri(&root, true),
		_ => uri(&root, false),
	};
	let fs = NativeFs::new();
	let mut got: Vec<String> = block_on(fs.enumerate_folder(folder, "**/*.p4".into())).into_iter().map(|d| d.uri.to_string()).collect();
	let inside = format!("{}/", root);
	let mut want: Vec<String> = tree().iter().filter(|e| e.0.starts_with(inside.as_bytes()) && e.0.ends_with(b".p4") && matches!(e.1, Node::File(_) | Node::Locked(false))).map(|e| uri(std::str::from_utf8(&e.0).unwrap(), false).to_string()).collect();
	got.sort();
	want.sort();
	sym::check(got == want, "the files found are not those below the folder");
	sym::check(streams().output.is_empty(), "something that is no message goes to the standard output");
	sym::reach(want.len().min(1) as u32);
}

/// Any file, of any contents, or none, read by any URI.
pub fn files_read() {
	let path = format!("/{}/{}", "d", name());
	let n = sym::choice(sym::param("bytes", 3) + 1);
	let mut v = vec![0; n];
	sym::fill(&mut v);
	put("/d", Node::Folder);
	let kind = sym::choice(4);
	match kind {
		0 => put(&path, Node::File(v.clone())),
		1 => put(&path, Node::Locked(false)),
		2 => put(&path, Node::Folder),
		_ => (),
	}
	put("/d/other", Node::File(b"other".to_vec()));
	let fs = NativeFs::new();
	let url = match sym::choice(5) {
		0 | 1 => uri(&path, false),
		2 => Url::parse("untitled:Untitled-1").unwrap(),
		3 => Url::parse("http://h/d/other").unwrap(),
		_ => Url::parse("file:///d/%ff").unwrap(),
	};
	let real = url == uri(&path, false);
	let got = block_on(fs.file_contents(url));
	if !real || kind != 0 {
		sym::check(got.is_none(), "contents of a file that is not there");
		sym::reach(1)
	} else {
		let text = sym::split(std::str::from_utf8(&v).is_ok());
		match got {
			Some(t) => sym::check(text && t.as_bytes() == &v[..], "the contents are not those of the file"),
			None => sym::check(!text, "a file's contents are not found"),
		}
		sym::reach(0)
	}
	sym::check(streams().output.is_empty(), "something that is no message goes to the standard output");
}
