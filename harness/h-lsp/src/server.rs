//! H01, H02: conversations with the server against a model of the protocol.
use crate::rig::*;
use analyzer_host::json_rpc::message::{Message, Response};
use analyzer_host::json_rpc::RequestId;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Uninitialized,
	Initializing,
	Active,
	ShuttingDown,
	Stopped,
}
#[derive(PartialEq)]
enum Want {
	Result,
	AnyError,
	Code(i32),
	Any,
}
const A: &str = "file:///w/a.p4";

fn id() -> RequestId {
	let forms = sym::param("ids", 2);
	if forms == 0 {
		return 5.into();
	}
	match sym::choice(forms) {
		0 => (sym::u32() as i32).into(),
		_ => {
			let mut s = vec![b'0'; sym::choice(2)];
			for b in &mut s {
				*b = sym::u8();
				sym::assume(*b < 0x80);
			}
			String::from_utf8(s).unwrap().into()
		}
	}
}
fn judge(r: &Response, id: &RequestId, want: Want) {
	sym::check(r.id == *id, "a response carries the id of its request");
	sym::check(r.result.is_some() != r.error.is_some(), "a response has either a result or an error");
	match want {
		Want::Result => sym::check(r.error.is_none(), "a request that is valid now is handled"),
		Want::AnyError => sym::check(r.error.is_some(), "a request that cannot be handled is an error"),
		Want::Code(c) => sym::check(r.error.as_ref().map(|e| e.code) == Some(c), "the error code of the state"),
		Want::Any => (),
	}
}
fn at(line: u32, character: u32) -> Value { json!({"textDocument":{"uri":A},"position":{"line":line,"character":character}}) }

struct Talk {
	s: Server,
	st: St,
	folders: bool,
	open: bool,
	asked: usize,
}
impl Talk {
	fn new() -> Talk {
		disk().put("file:///w/a.p4", Some("x"));
		let mut s = Server::start(None, true);
		s.settle();
		Talk { s, st: St::Uninitialized, folders: false, open: false, asked: 0 }
	}
	fn request(&mut self, method: &str, params: Value, want: Want) {
		let id = id();
		let heard = self.s.request(id.clone(), method, params);
		let v = self.s.responses();
		sym::check(heard == (self.st != St::Stopped), "the server listens until exit");
		if self.st == St::Stopped {
			sym::check(v.is_empty(), "a stopped server is silent");
			return;
		}
		sym::check(v.len() == 1, "each request gets exactly one response");
		let want = match self.st {
			St::Uninitialized if method != "initialize" => Want::Code(-32002),
			St::Initializing => Want::Code(-32002),
			St::ShuttingDown => Want::Code(-32600),
			St::Active if method == "initialize" => Want::AnyError,
			_ => want,
		};
		judge(&v[0], &id, want);
		sym::observe_num(v[0].error.as_ref().map_or(0, |e| e.code as i64 as usize));
		self.asked += 1;
		if v[0].error.is_none() {
			match method {
				"initialize" => self.st = St::Initializing,
				"shutdown" => self.st = St::ShuttingDown,
				_ => (),
			}
		}
	}
	fn notify(&mut self, method: &str, params: Value) {
		let heard = self.s.notify(method, params);
		sym::check(heard == (self.st != St::Stopped), "the server listens until exit");
		sym::check(self.s.responses().is_empty(), "notifications get no response");
	}
	fn step(&mut self, kinds: usize) {
		match sym::choice(kinds) {
			0 => self.request("initialize", init_params(None, true), Want::Result),
			1 => {
				self.notify("initialized", json!({}));
				if self.st == St::Initializing {
					self.st = St::Active
				}
			}
			2 => self.request("shutdown", Value::Null, Want::Result),
			3 => {
				self.notify("exit", Value::Null);
				self.st = St::Stopped
			}
			4 => self.request("textDocument/hover", at(0, 0), Want::Result),
			5 => {
				self.notify("textDocument/didOpen", json!({"textDocument":{"uri":A,"languageId":"p4","version":1,"text":"y"}}));
				self.open |= self.st == St::Active;
			}
			6 => self.request("textDocument/completion", at(0, 0), if self.open || self.folders { Want::Result } else { Want::Any }),
			7 => {
				let f: &[&str] = &["file:///w"];
				self.request("initialize", init_params(Some(f), true), Want::Result);
				self.folders |= self.st == St::Initializing;
			}
			8 => self.request("initialize", init_params(Some(&["file:///w"]), false), Want::AnyError),
			9 => self.request(["x", "", "exit", "initialized", "$/setTrace", "Shutdown"][sym::choice(6)], Value::Null, Want::AnyError),
			10 => self.notify(["x", "", "shutdown", "initialize", "textDocument/hover"][sym::choice(5)], Value::Null),
			11 => {
				// nobody asked
				let id: RequestId = match sym::choice(5) {
					0 => 0.into(),
					1 => 1.into(),
					2 => (-1).into(),
					3 => "".to_string().into(),
					_ => "0".to_string().into(),
				};
				self.s.send(Message::Response(Response { id, result: Some(Value::Null), error: None }));
				sym::check(self.s.responses().is_empty(), "responses get no response");
			}
			12 => {
				let v = shape();
				match sym::choice(4) {
					0 => self.request("textDocument/hover", v, Want::AnyError),
					1 => self.request("textDocument/completion", v, Want::AnyError),
					2 if !v.is_null() => self.request("shutdown", v, Want::Any),
					2 => (),
					// an initialize that is not one leaves the server as it was
					_ => self.request("initialize", v, Want::AnyError),
				}
			}
			_ => {
				let v = shape();
				let m = ["initialized", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave", "$/setTrace", "workspace/didChangeWatchedFiles"][sym::choice(7)];
				// (an empty list does for no parameters)
				if m != "initialized" || !(v.is_object() || v.is_array()) {
					self.notify(m, v)
				}
			}
		}
		sym::check(self.s.ended == (self.st == St::Stopped), "exit ends the server, and nothing else does");
	}
}
/// Parameters no method of the server takes.
fn shape() -> Value {
	match sym::choice(7) {
		0 => Value::Null,
		1 => Value::Bool(true),
		2 => json!(sym::u8()),
		3 => json!("a"),
		4 => json!([]),
		5 => json!({}),
		_ => json!({"textDocument":{"uri":"no uri"},"position":{"line":-1}}),
	}
}
/// Any conversation.
pub fn lsp_conversation() {
	let mut t = Talk::new();
	// how far the handshake has come already
	let from = sym::param("from", 0);
	let (mut n, kinds) = (sym::param("ops", 3), sym::param("kinds", 14));
	if from > 0 {
		match sym::choice(3) {
			0 => t.request("initialize", init_params(None, true), Want::Result),
			k => {
				if k == 2 {
					t.request("initialize", init_params(Some(&["file:///v", "file:///w"]), false), Want::AnyError)
				}
				t.request("initialize", init_params(Some(&["file:///w"]), true), Want::Result);
				t.folders = true
			}
		}
	}
	if from > 1 {
		t.notify("initialized", json!({}));
		t.st = St::Active;
	}
	if from > 2 {
		t.request("shutdown", Value::Null, Want::Result);
	}
	while n > 0 {
		t.step(kinds);
		n -= 1;
	}
	// whatever has happened, exit is obeyed
	if t.st != St::Stopped {
		t.notify("exit", Value::Null);
		sym::check(t.s.ended, "exit ends the server");
		if t.asked > 0 {
			sym::reach(1)
		}
	}
	t.s.dispose();
	sym::reach(0);
}

/// How a conversation ends: the stream closes, the server is cancelled, or exit is followed by more.
pub fn lsp_ends() {
	let mut t = Talk::new();
	let from = sym::choice(4);
	let f: &[&str] = &["file:///w"];
	let folders = if sym::choice(2) == 0 { None } else { Some(f) };
	if from > 0 {
		t.request("initialize", init_params(folders, true), Want::Result);
	}
	if from > 1 {
		if sym::choice(2) == 1 {
			// the client does not answer
			t.s.answers = Answers::Late;
		}
		t.notify("initialized", json!({}));
		t.st = St::Active;
	}
	if from > 2 && t.s.answers == Answers::Result {
		t.request("shutdown", Value::Null, Want::Result);
	}
	match sym::choice(5) {
		0 => {
			t.s.to.close();
			t.s.settle();
			sym::check(t.s.ended, "the server ends when nothing can reach it any more");
		}
		1 => {
			// the last words count
			t.s.request(5.into(), "x", Value::Null);
			let _ = t.s.to.try_send(Message::Response(Response { id: 9.into(), result: None, error: None }));
			t.s.to.close();
			t.s.settle();
			let n = t.s.responses().len();
			sym::check(n == 1 || t.s.answers == Answers::Late, "what was sent before the end is answered");
			sym::check(t.s.ended, "the server ends when nothing can reach it any more");
		}
		2 => {
			t.s.cancel.cancel();
			// as the driver does: its channels close
			t.s.to.close();
			t.s.settle();
			sym::check(t.s.ended, "the server ends when it is cancelled");
		}
		3 if from == 2 => {
			// more arrives while the server is at work on the message before exit
			let to = t.s.to.clone();
			let what = sym::choice(2);
			disk().on_read = Some(Box::new(move |_| {
				let _ = to.try_send(match what {
					0 => Message::Request(analyzer_host::json_rpc::message::Request { id: 3.into(), method: "shutdown".into(), params: Value::Null }),
					_ => Message::Response(Response { id: 3.into(), result: None, error: None }),
				});
			}));
			let n = |method: &str, params| Message::Notification(analyzer_host::json_rpc::message::Notification { method: method.into(), params });
			let _ = t.s.to.try_send(n("workspace/didChangeWatchedFiles", json!({"changes":[{"uri":A,"type":2}]})));
			let _ = t.s.to.try_send(n("exit", Value::Null));
			t.s.settle();
			sym::check(t.s.ended || t.s.answers == Answers::Late, "exit ends the server, whatever follows it");
			sym::reach(1);
		}
		_ if t.s.answers == Answers::Result => {
			let exit = || Message::Notification(analyzer_host::json_rpc::message::Notification { method: "exit".into(), params: Value::Null });
			let _ = t.s.to.try_send(exit());
			for _ in 0..sym::choice(sym::param("after", 2) + 1) {
				let m = match sym::choice(3) {
					0 => exit(),
					1 => Message::Request(analyzer_host::json_rpc::message::Request { id: 3.into(), method: "shutdown".into(), params: Value::Null }),
					_ => Message::Response(Response { id: 3.into(), result: None, error: None }),
				};
				let _ = t.s.to.try_send(m);
			}
			t.s.settle();
			sym::check(t.s.ended, "exit ends the server, whatever follows it");
			sym::check(t.s.responses().is_empty(), "nothing is answered after exit");
		}
		_ => (),
	}
	if t.s.ended {
		t.s.dispose()
	}
	sym::reach(0);
}
