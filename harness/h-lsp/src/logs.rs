//! H06: what is logged to the client.
use crate::rig::*;
use analyzer_abstractions::lsp_types::TraceValue;
use analyzer_abstractions::tracing::{error, info, subscriber};
use analyzer_host::json_rpc::message::Message;
use analyzer_host::tracing::tracing_subscriber::{self, prelude::*};
use analyzer_host::tracing::LspTracingLayer;
use serde_json::{json, Value};

const LEVELS: [&str; 3] = ["off", "messages", "verbose"];
fn value(l: usize) -> TraceValue { [TraceValue::Off, TraceValue::Messages, TraceValue::Verbose][l] }
fn check_log(m: &Value, level: usize, message: &str, details: &[(&str, String)]) {
	sym::check(level != 0, "nothing is logged when tracing is off");
	sym::check(m["message"] == message, "a log has the message of its event");
	if level == 1 {
		sym::check(m.get("verbose").map_or(true, |v| v.is_null()), "a log has no details on messages");
		return;
	}
	let v = m["verbose"].as_str();
	sym::check(v.is_some(), "a log has its details on verbose");
	for (k, w) in details {
		let v = v.unwrap();
		sym::check(v.contains(k) && v.contains(w.as_str()), "the details are the event's");
	}
}

/// Events, and the level being set, in any order; whether or not the client still listens.
pub fn logs_levels() {
	let (sender, receiver) = async_channel::unbounded::<Message>();
	let layer = LspTracingLayer::new((sender, async_channel::unbounded::<Message>().1));
	let accessor = layer.trace_value();
	let copy = accessor.clone();
	let mut level = 0;
	let mut closed = false;
	subscriber::with_default(tracing_subscriber::registry().with(layer), || {
		for i in 0..sym::param("ops", 4) {
			let mut want: Option<(String, Vec<(&str, String)>)> = None;
			match sym::choice(6) {
				0 => {
					level = sym::choice(3);
					if sym::choice(2) == 0 { &accessor } else { &copy }.set(value(level))
				}
				1 => {
					let c = sym::u8();
					sym::assume(c < 0x80);
					info!("event {}", c as char);
					want = Some((format!("event {}", c as char), vec![]))
				}
				2 => {
					let c = sym::u8();
					sym::assume(c >= b'a' && c <= b'z');
					let s = (c as char).to_string();
					info!(first = i, second = %s, "with {}", i);
					want = Some((format!("with {i}"), vec![("first", i.to_string()), ("second", s)]))
				}
				3 => {
					error!("failed");
					want = Some(("failed".into(), vec![]))
				}
				4 => {
					info!(only = i);
					want = Some(("".into(), vec![("only", i.to_string())]))
				}
				_ => {
					receiver.close();
					closed = true
				}
			}
			match (receiver.try_recv(), want) {
				(Ok(Message::Notification(n)), Some((m, d))) => {
					sym::check(n.method == "$/logTrace", "a log is a logTrace notification");
					check_log(&n.params, level, &m, &d);
					sym::reach(level as u32)
				}
				(Ok(_), _) => sym::check(false, "only events are logged"),
				(Err(_), Some(_)) => sym::check(level == 0 || closed, "an event is logged unless tracing is off"),
				(Err(_), None) => (),
			}
			sym::check(receiver.try_recv().is_err(), "an event is logged once");
		}
	});
	sym::reach(0)
}

/// The level as the client sets it.
pub fn logs_server() {
	let (sender, from) = async_channel::unbounded::<Message>();
	let (to, receiver) = async_channel::unbounded::<Message>();
	let layer = LspTracingLayer::new((sender.clone(), receiver.clone()));
	let accessor = layer.trace_value();
	const F: &str = "file:///w/a.p4";
	subscriber::with_default(tracing_subscriber::registry().with(layer), || {
		let mut s = Server::on((sender, receiver), to, from, Some(accessor), true);
		s.settle();
		let mut level = 0;
		let mut p = init_params(None, true);
		let first = sym::choice(4);
		if first < 3 {
			p["trace"] = json!(LEVELS[first]);
			level = first
		}
		s.request(1.into(), "initialize", p);
		s.responses();
		s.notify("initialized", json!({}));
		s.notify("textDocument/didOpen", json!({ "textDocument": { "uri": F, "languageId": "p4", "version": 0, "text": "a" } }));
		for _ in 0..sym::param("ops", 2) {
			match sym::choice(2) {
				0 => {
					let l = sym::choice(4);
					s.notify("$/setTrace", json!({ "value": if l < 3 { LEVELS[l] } else { "loud" } }));
					if l < 3 {
						level = l
					}
				}
				_ => (),
			}
			s.out.clear();
			s.notify("textDocument/didSave", json!({ "textDocument": { "uri": F }, "text": "a" }));
			let logs: Vec<Value> = s.out.drain(..).filter_map(|m| if let Message::Notification(n) = m { (n.method == "$/logTrace").then_some(n.params) } else { None }).collect();
			let saved: Vec<&Value> = logs.iter().filter(|l| l["message"] == "Syncing buffer on save.").collect();
			sym::check(saved.len() == (level > 0) as usize, "the level set last decides what is logged");
			for l in &logs {
				check_log(l, level, l["message"].as_str().unwrap(), &[])
			}
			sym::reach(level as u32)
		}
		s.notify("exit", Value::Null);
		sym::check(s.ended, "exit ends the server")
	});
}
