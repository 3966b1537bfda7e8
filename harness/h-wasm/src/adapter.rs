//! M01: buffers in, buffers out.
use crate::exec::{flag_waker, poll_once};
use js_sys::Function;
use p4_analyzer_wasm::LspServer;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::JsValue;

struct Rig {
	server: &'static LspServer,
	fut: Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>,
	waker: Waker,
	flag: Arc<AtomicU8>,
	ended: bool,
	out: Rc<RefCell<Vec<Vec<u8>>>>,
}
impl Rig {
	fn new() -> Rig {
		let out = Rc::new(RefCell::new(vec![]));
		let o = out.clone();
		let server: &'static LspServer = Box::leak(Box::new(LspServer::new(Function::native(move |a| {
			sym::check(a.len() >= 1, "the callback is given a message");
			let b = a[0].to_bytes();
			sym::check(b.is_some(), "the callback is given a buffer");
			o.borrow_mut().push(b.unwrap());
			Ok(JsValue::UNDEFINED)
		}))));
		let (waker, flag) = flag_waker();
		flag.store(1, Ordering::SeqCst);
		Rig { server, fut: Box::pin(server.start()), waker, flag, ended: false, out }
	}
	fn settle(&mut self) {
		let mut rounds = 0;
		while !self.ended && self.flag.swap(0, Ordering::SeqCst) != 0 {
			rounds += 1;
			sym::check(rounds < 200, "the server never comes to rest");
			self.ended = self.fut.as_mut().poll(&mut Context::from_waker(&self.waker)).is_ready();
		}
	}
	/// Whether the buffer was accepted.
	fn send(&mut self, bytes: Vec<u8>) -> bool {
		let mut f = Box::pin(self.server.send_request(JsValue::bytes(bytes).into()));
		match poll_once(f.as_mut()) {
			Poll::Ready(r) => r.is_ok(),
			Poll::Pending => {
				sym::check(false, "sending does not wait");
				false
			}
		}
	}
}
#[derive(PartialEq, Clone, Copy)]
enum St {
	Uninitialized,
	Initializing,
	Active,
	Ended,
}
fn bytes(v: &Value) -> Vec<u8> { serde_json::to_vec(v).unwrap() }
fn id() -> String {
	let mut s = sym::text(sym::param("chars", 1), 5);
	let pad = [0, 300, 70000][sym::choice(sym::param("pads", 1))];
	s.extend(std::iter::repeat('a').take(pad));
	s
}
/// What a message that should come has to be like.
enum Want {
	Error(Value),
	Result(Value),
	Method(&'static str),
}

pub fn wasm_messages() {
	let mut r = Rig::new();
	let (mut st, mut logging) = (St::Uninitialized, false);
	let mut want: Vec<Want> = vec![];
	let (mut logs, mut logged) = (0, 0);
	r.settle();
	if sym::param("from", 0) > 0 {
		r.send(bytes(&json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"capabilities": {}}})));
		r.send(bytes(&json!({"jsonrpc": "2.0", "method": "initialized", "params": {}})));
		r.settle();
		want.push(Want::Result(json!(1)));
		st = St::Active;
	}
	for step in 0..sym::param("ops", 3) {
		let alive = st != St::Ended;
		match sym::choice(sym::param("kinds", 7)) {
			0 => {
				let i = id();
				let ok = r.send(bytes(&json!({"jsonrpc": "2.0", "id": i, "method": "x"})));
				sym::check(ok == alive, "a message is accepted while the server runs");
				if alive {
					want.push(Want::Error(json!(i)))
				}
			}
			1 => {
				// not a message
				let mut b = bytes(&json!({"jsonrpc": "2.0", "id": step, "method": "x"}));
				match sym::choice(5) {
					0 => {
						let cuts = sym::param("cuts", 200).min(b.len());
						b.truncate(sym::choice(cuts) * b.len() / cuts)
					}
					1 => b.push(b'}'),
					2 => {
						b = vec![0; sym::choice(sym::param("free", 2) + 1)];
						sym::fill(&mut b)
					}
					3 => b = [&b"{}"[..], b"[]", b"null", b"{\"jsonrpc\":\"2.0\"}"][sym::choice(4)].to_vec(),
					_ => {
						// a byte that is not UTF-8 inside the method
						let k = b.len() - 3;
						b[k] = 0xff
					}
				}
				sym::check(!r.send(b), "what is not a message is refused");
			}
			2 => {
				let ok = r.send(bytes(&json!({"jsonrpc": "2.0", "id": step, "method": "initialize", "params": {"capabilities": {}}})));
				sym::check(ok == alive, "a message is accepted while the server runs");
				match st {
					St::Uninitialized => {
						st = St::Initializing;
						want.push(Want::Result(json!(step)))
					}
					St::Ended => (),
					_ => want.push(Want::Error(json!(step))),
				}
			}
			3 => {
				let ok = r.send(bytes(&json!({"jsonrpc": "2.0", "method": "initialized", "params": {}})));
				sym::check(ok == alive, "a message is accepted while the server runs");
				if st == St::Initializing {
					st = St::Active
				}
			}
			4 => {
				// the server asks the client for a document it does not have
				if st == St::Active {
					r.settle();
					let uri = format!("file:///f{step}.p4");
					r.send(bytes(&json!({"jsonrpc": "2.0", "id": 50 + step, "method": "textDocument/completion", "params": {"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}}})));
					r.settle();
					let n = r.out.borrow().len();
					sym::check(n > 0, "the server's request reaches the client");
					let v: Value = serde_json::from_slice(&r.out.borrow()[n - 1]).unwrap();
					sym::check(v["method"] == "p4analyzer/fileContents" && v["params"]["uri"] == uri.as_str(), "the server's request reaches the client as it is");
					want.push(Want::Method("p4analyzer/fileContents"));
					let c = sym::u8();
					sym::assume(c >= b'a' && c <= b'z');
					let word = format!("z{}", c as char);
					sym::check(r.send(bytes(&json!({"jsonrpc": "2.0", "id": v["id"], "result": word}))), "a message is accepted while the server runs");
					r.settle();
					want.push(Want::Result(json!(50 + step)));
					let n = r.out.borrow().len();
					let answer = r.out.borrow()[n - 1].clone();
					sym::check(answer.windows(2).any(|w| w == word.as_bytes()), "the answer reaches the server as it is");
					sym::reach(1);
				}
			}
			5 => {
				if st == St::Active && sym::choice(2) == 0 {
					r.send(bytes(&json!({"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "messages"}})));
					logging = true;
				} else {
					r.send(bytes(&json!({"jsonrpc": "2.0", "method": "exit"})));
					st = St::Ended;
					r.settle();
				}
			}
			_ => {
				r.settle();
				r.server.stop();
				r.settle();
				st = St::Ended;
			}
		}
		if logging && alive {
			// something to log
			r.send(bytes(&json!({"jsonrpc": "2.0", "method": "y"})));
			logs += (st == St::Active) as usize;
		}
		if sym::choice(2) == 0 {
			r.settle()
		}
	}
	r.settle();
	sym::check(r.ended == (st == St::Ended), "the server ends when it is told to, and only then");
	// every message, in order
	let mut k = 0;
	for b in r.out.borrow().iter() {
		let v: Option<Value> = serde_json::from_slice(b).ok();
		sym::check(v.is_some(), "the callback is given one whole message");
		let v = v.unwrap();
		sym::check(v["jsonrpc"] == "2.0", "a message says which protocol it is of");
		if v["method"] == "$/logTrace" {
			sym::check(logging, "nothing is logged unless asked for");
			logged += 1;
			continue;
		}
		if v["method"] == "client/registerCapability" || v["method"] == "window/workDoneProgress/create" {
			continue;
		}
		sym::check(k < want.len(), "no message but those expected");
		match &want[k] {
			Want::Error(i) => sym::check(v["id"] == *i && v.get("error").map_or(false, |e| e["code"].is_i64()) && v.get("result").map_or(true, |r| r.is_null()), "a response is handed over as it is"),
			Want::Result(i) => sym::check(v["id"] == *i && v.get("error").map_or(true, |e| e.is_null()) && v.get("result").is_some(), "a response is handed over as it is"),
			Want::Method(m) => sym::check(v["method"] == *m && v.get("id").is_some(), "a request is handed over as it is"),
		}
		k += 1;
	}
	sym::check(k == want.len(), "every message reaches the callback");
	sym::check(logged >= logs, "logs reach the client at the level it set");
	sym::observe_num(k);
	sym::reach(0);
}
