//! H03: the server's requests and the client's responses.
use crate::exec::flag_waker;
use crate::rig::*;
use analyzer_abstractions::lsp_types::request::{RegisterCapability, WorkDoneProgressCreate};
use analyzer_abstractions::lsp_types::{NumberOrString, RegistrationParams, Url, WorkDoneProgressCreateParams};
use analyzer_host::json_rpc::message::{Message, Request, Response};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::verif_hooks::{lsp_file_system, RequestManager};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};

#[derive(PartialEq, Clone, Debug)]
enum Outcome {
	Sent,
	Failed,
	Text(Option<String>),
	Names(Vec<String>),
}
struct Caller {
	fut: Option<Pin<Box<dyn Future<Output = Outcome>>>>,
	kind: usize,
	waker: (std::task::Waker, std::sync::Arc<std::sync::atomic::AtomicU8>),
	got: Option<Outcome>,
	request: Option<Request>,
	answered: bool,
	want: Option<Outcome>,
}
fn call(m: RequestManager, kind: usize) -> Pin<Box<dyn Future<Output = Outcome>>> {
	let uri = || Url::parse("file:///f").unwrap();
	Box::pin(async move {
		let r = match kind {
			0 => m.send::<RegisterCapability>(RegistrationParams { registrations: vec![] }).await,
			1 => m.send::<WorkDoneProgressCreate>(WorkDoneProgressCreateParams { token: NumberOrString::Number(1) }).await,
			2 => return Outcome::Text(lsp_file_system(m).file_contents(uri()).await),
			_ => return Outcome::Names(lsp_file_system(m).enumerate_folder(uri(), "*".into()).await.into_iter().map(|d| d.uri.to_string()).collect()),
		};
		if r.is_ok() {
			Outcome::Sent
		} else {
			Outcome::Failed
		}
	})
}
/// What the client answers, and what the caller is to make of it.
fn answer(kind: usize) -> (Option<Value>, bool, Outcome) {
	let fail = match kind {
		0 | 1 => Outcome::Failed,
		2 => Outcome::Text(None),
		_ => Outcome::Names(vec![]),
	};
	match sym::choice(sym::param("answers", 4)) {
		0 => {
			let c = sym::u8();
			sym::assume(c >= b'a' && c <= b'z');
			let t = (c as char).to_string();
			match kind {
				0 | 1 => (Some(json!(t)), false, Outcome::Sent),
				2 => (Some(json!(t)), false, Outcome::Text(Some(t))),
				_ => (Some(json!([{ "uri": format!("file:///{t}") }])), false, Outcome::Names(vec![format!("file:///{t}")])),
			}
		}
		1 => (None, true, fail),
		// no result, or one of the wrong type
		2 => (None, false, if kind < 2 { Outcome::Sent } else { fail }),
		_ => (Some(json!({ "x": 1 })), false, if kind < 2 { Outcome::Sent } else { fail }),
	}
}

/// Several callers, each with its own copy of the manager or a copy of a copy; responses in any
/// order, repeated, and for requests nobody made.
pub fn requests_history() {
	let (to_client, from_server) = async_channel::unbounded::<Message>();
	let (to_server, responses) = async_channel::unbounded::<Message>();
	let manager = RequestManager::new((to_client, responses));
	let cancel = CancellationTokenSource::new();
	let runner = manager.clone();
	let token = cancel.token().clone();
	let mut run: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(Box::pin(async move { let _ = runner.start(token).await; }));
	let (rw, rf) = flag_waker();
	rf.store(1, Ordering::SeqCst);
	let mut calls: Vec<Caller> = vec![];
	let mut copies = vec![manager];
	let mut closed = false;
	let max = sym::param("callers", 2);
	for _ in 0..sym::param("ops", 5) {
		match sym::choice(5) {
			0 if calls.len() < max => {
				let m = copies[sym::choice(copies.len())].clone();
				let kind = sym::choice(sym::param("kinds", 4));
				let waker = flag_waker();
				waker.1.store(1, Ordering::SeqCst);
				calls.push(Caller { fut: Some(call(m, kind)), kind, waker, got: None, request: None, answered: false, want: None });
			}
			1 if copies.len() < 3 => {
				let m = copies[copies.len() - 1].clone();
				copies.push(m)
			}
			2 => {
				// the client answers one of the requests it has
				let asked: Vec<usize> = (0..calls.len()).filter(|&i| calls[i].request.is_some() && !calls[i].answered).collect();
				if !asked.is_empty() {
					let c = &mut calls[asked[sym::choice(asked.len())]];
					let (result, error, want) = answer(c.kind);
					let id = c.request.as_ref().unwrap().id.clone();
					let r = if error { Response::new_error(id, -1, "no") } else { Response { id, result, error: None } };
					let _ = to_server.try_send(Message::Response(r));
					c.answered = true;
					if !closed {
						c.want = Some(want)
					}
				}
			}
			3 => {
				// or one it does not have (any more)
				let id: RequestId = match sym::choice(4) {
					0 => (-1).into(),
					1 => "0".to_string().into(),
					2 => 77.into(),
					_ => match calls.iter().find(|c| c.got.is_some() && c.request.is_some()) {
						Some(c) => c.request.as_ref().unwrap().id.clone(),
						None => continue,
					},
				};
				let _ = to_server.try_send(Message::Response(Response { id, result: Some(json!("odd")), error: None }));
			}
			_ => {
				to_server.close();
				closed = true
			}
		}
		// everyone runs who has been woken
		for _ in 0..3 {
			if rf.swap(0, Ordering::SeqCst) != 0 {
				if run.as_mut().map_or(false, |r| r.as_mut().poll(&mut Context::from_waker(&rw)).is_ready()) {
					run = None
				}
			}
			for c in &mut calls {
				if c.waker.1.swap(0, Ordering::SeqCst) == 0 {
					continue;
				}
				if let Some(f) = &mut c.fut {
					if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&c.waker.0)) {
						c.got = Some(v);
						c.fut = None
					}
				}
				if c.request.is_none() {
					if let Ok(Message::Request(r)) = from_server.try_recv() {
						c.request = Some(r)
					}
				}
			}
		}
		for (i, c) in calls.iter().enumerate() {
			if let Some(r) = &c.request {
				const METHODS: [&str; 4] = ["client/registerCapability", "window/workDoneProgress/create", "p4analyzer/fileContents", "p4analyzer/enumerateFolder"];
				sym::check(r.method == METHODS[c.kind], "the request is the caller's");
				for d in &calls[..i] {
					if let Some(q) = &d.request {
						sym::check(q.id != r.id || d.got.is_some(), "no two requests that are awaited have the same id");
					}
				}
			} else {
				sym::check(closed, "a call sends its request");
			}
			match &c.want {
				Some(w) => {
					sym::check(c.got.as_ref() == Some(w), "a response completes its own request");
					sym::reach(1)
				}
				None if closed => {
					let lost = [Outcome::Failed, Outcome::Failed, Outcome::Text(None), Outcome::Names(vec![])];
					sym::check(c.got.as_ref() == Some(&lost[c.kind]), "a request nobody can answer any more fails");
					sym::reach(2)
				}
				None => sym::check(c.got.is_none(), "a request is completed by its own response only"),
			}
		}
	}
	sym::reach(0);
}
