//! H10: what the result of `initialize` asks of the client and offers to it.
use crate::rig::*;
use serde_json::{json, Value};

const A: &str = "file:///w/a.p4";
const OFFERS: [(&str, &str, &str); 16] = [
	("hoverProvider", "textDocument/hover", ""),
	("completionProvider", "textDocument/completion", ""),
	("completionProvider/resolveProvider", "completionItem/resolve", "H10-resolve"),
	("signatureHelpProvider", "textDocument/signatureHelp", "H10-signature-help"),
	("declarationProvider", "textDocument/declaration", "H10-declaration"),
	("definitionProvider", "textDocument/definition", "H10-definition"),
	("typeDefinitionProvider", "textDocument/typeDefinition", "H10-type-definition"),
	("implementationProvider", "textDocument/implementation", "H10-implementation"),
	("referencesProvider", "textDocument/references", "H10-references"),
	("documentSymbolProvider", "textDocument/documentSymbol", ""),
	("documentHighlightProvider", "textDocument/documentHighlight", ""),
	("codeLensProvider", "textDocument/codeLens", ""),
	("documentFormattingProvider", "textDocument/formatting", ""),
	("foldingRangeProvider", "textDocument/foldingRange", ""),
	("workspaceSymbolProvider", "workspace/symbol", ""),
	("renameProvider", "textDocument/prepareRename", ""),
];

fn some(p: &mut Value, key: &str, values: &[Value]) -> usize {
	let k = sym::choice(values.len() + 1);
	if k > 0 {
		p[key] = values[k - 1].clone()
	}
	k
}
pub fn lsp_offers() {
	let mut s = Server::start(None, true);
	disk().put(A, Some("x"));
	let mut p = json!({ "processId": null, "rootUri": null, "capabilities": {} });
	let w = json!({ "uri": "file:///w", "name": "w" });
	let folders = some(&mut p, "workspaceFolders", &[json!([]), json!([w]), json!([w, { "uri": "file:///v", "name": "v" }])]);
	let mut c = json!({});
	let mut ws = json!({});
	let watched = some(&mut ws, "didChangeWatchedFiles", &[json!({}), json!({ "dynamicRegistration": true })]);
	if watched > 0 || sym::choice(2) == 1 {
		c["workspace"] = ws
	}
	if sym::param("client", 1) == 1 {
		some(&mut c, "window", &[json!({}), json!({ "workDoneProgress": false }), json!({ "workDoneProgress": true })]);
		some(&mut c, "textDocument", &[json!({ "synchronization": { "didSave": true } }), json!({ "completion": { "contextSupport": true } })]);
		some(&mut p, "trace", &[json!("off"), json!("verbose")]);
		some(&mut p, "processId", &[json!(7)]);
	}
	p["capabilities"] = c;
	let r = s.ask(1, "initialize", p);
	if r.error.is_some() {
		sym::check(folders > 0 && watched == 0, "initialize succeeds");
		sym::reach(1);
		return;
	}
	let r = r.result.unwrap();
	let c = &r["capabilities"];
	let sync = &c["textDocumentSync"];
	let (open, change) = if sync.is_number() { (*sync != 0, sync.clone()) } else { (sync["openClose"] == true, sync["change"].clone()) };
	sym::check(open, "the server asks for the documents that are opened and closed");
	sym::check(change == 1 || change == 2, "the server asks for the changes of documents");
	s.notify("initialized", json!({}));
	let asked: Vec<&Value> = s.asked.iter().filter(|r| r.method == "client/registerCapability").map(|r| &r.params["registrations"]).collect();
	if folders > 1 {
		sym::check(asked.len() == 1 && asked[0].as_array().map_or(false, |a| a.len() == 1), "the server registers once");
		let r = &asked[0][0];
		sym::check(r["method"] == "workspace/didChangeWatchedFiles", "the server registers for watched files");
		let watchers = r["registerOptions"]["watchers"].as_array().unwrap();
		sym::check(watchers.iter().any(|w| w["globPattern"] == "**/*.p4" && (w["kind"].is_null() || w["kind"] == 7)), "every event of the P4 files is watched");
	}
	s.notify("textDocument/didOpen", json!({ "textDocument": { "uri": A, "languageId": "p4", "version": 1, "text": "x" } }));
	let (key, method, known) = OFFERS[sym::choice(OFFERS.len())];
	let offered = key.split('/').try_fold(c, |v, k| v.get(k)).map_or(false, |v| !v.is_null() && *v != false);
	if !offered {
		return;
	}
	let unknown = s.ask(2, "no/such", Value::Null).error;
	let params = json!({ "textDocument": { "uri": A }, "position": { "line": 0, "character": 0 }, "context": { "includeDeclaration": true, "triggerKind": 1 },
		"options": { "tabSize": 1, "insertSpaces": true }, "query": "x", "label": "x" });
	let refused = match (s.ask(3, method, params).error, unknown) {
		(Some(e), Some(u)) => e.code == u.code && e.message == u.message,
		_ => false,
	};
	if !known.is_empty() {
		sym::known(known);
	}
	sym::check(!refused, "what the server offers is not refused as unknown");
	sym::reach(0);
}
