//! D01: the drivers between the outside and the host's channels.
use crate::exec::block_on;
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response};
use analyzer_host::MessageChannel;
use cancellation::{CancellationToken, CancellationTokenSource};
use p4_analyzer::driver::buffer_driver::BufferStruct;
use p4_analyzer::driver::{Driver, DriverType};
use p4_analyzer::native_fs::native_fs::NativeFs;
use queues::{IsQueue, Queue};
use serde_json::json;
use std::cell::UnsafeCell;
use std::sync::Arc;
use vstd::io::streams;

struct Shared<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Shared<T> {}
static DRIVER: Shared<Driver> = Shared(UnsafeCell::new(None));
static TOKEN: Shared<Arc<CancellationToken>> = Shared(UnsafeCell::new(None));
static CANCEL: Shared<CancellationTokenSource> = Shared(UnsafeCell::new(None));
static RESULT: Shared<bool> = Shared(UnsafeCell::new(None));
static CHANNEL: Shared<MessageChannel> = Shared(UnsafeCell::new(None));
fn get<T>(s: &'static Shared<T>) -> &'static mut Option<T> { unsafe { &mut *s.0.get() } }

fn message(i: usize, kind: usize) -> Message {
	match kind {
		0 => Message::Request(Request { id: (i as i32).into(), method: "shutdown".into(), params: json!({}) }),
		1 => Message::Notification(Notification { method: format!("exit{}", i), params: json!([i]) }),
		_ => Message::Response(Response { id: (i as i32).into(), result: Some(json!("x")), error: None }),
	}
}
fn frame(m: &Message) -> Vec<u8> {
	let mut v = vec![];
	m.clone().write(&mut v).unwrap();
	v
}
fn same(a: &Message, b: &Message) -> bool { frame(a) == frame(b) }

/// Makes a driver, and lets it run on another thread.
fn start(t: DriverType) -> (MessageChannel, u32) {
	extern "C" fn run(_: usize) {
		let r = block_on(get(&DRIVER).as_ref().unwrap().start(get(&TOKEN).clone().unwrap()));
		*get(&RESULT) = Some(r.is_ok())
	}
	let d = Driver::new(t);
	let c = d.get_message_channel();
	let cancel = CancellationTokenSource::new();
	*get(&DRIVER) = Some(d);
	*get(&TOKEN) = Some(cancel.token().clone());
	*get(&CANCEL) = Some(cancel);
	(c, sym::spawn(run, 0))
}

/// The standard input brings messages, in pieces, and ends somehow; the host sends messages
/// and closes its side.
pub fn driver_console() {
	let n = sym::choice(sym::param("messages", 2) + 1);
	let kinds = sym::param("kinds", 3);
	let messages: Vec<Message> = (0..n).map(|i| message(i, sym::choice(kinds))).collect();
	let s = streams();
	let mut bounds = vec![];
	for m in &messages {
		let f = frame(m);
		bounds.push(s.input.len());
		bounds.push(s.input.len() + 7);
		bounds.push(s.input.len() + f.iter().position(|&b| b == b'{').unwrap());
		bounds.push(s.input.len() + f.len() - 1);
		s.input.extend(f)
	}
	if n > 0 && sym::param("cuts", 1) == 1 {
		s.pieces.push(bounds[sym::choice(bounds.len())])
	}
	// 0: it stays open; 1: it ends; then: within a frame, or with something that is not one
	let end = sym::choice(sym::param("ends", 4));
	match end {
		2 => s.input.extend(&b"Content-Length: 9\r\n\r\n{}"[..]),
		3 => s.input.extend(&b"Content-Length: 2\r\n\r\n{}"[..]),
		_ => (),
	}
	s.ended = (end != 0) as u8;
	let k = sym::choice(sym::param("answers", 2) + 1);
	let answers: Vec<Message> = (0..k).map(|i| message(i, if kinds == 1 { 0 } else { 2 - i % 2 })).collect();
	let order = sym::choice(2);
	let ((to, from), t) = start(DriverType::Console);
	let send = || {
		for a in &answers {
			sym::check(to.send_blocking(a.clone()).is_ok(), "the driver's way out is closed")
		}
	};
	if order == 0 {
		send()
	}
	for m in &messages {
		match from.recv_blocking() {
			Ok(got) => sym::check(same(&got, m), "the host is given another message"),
			_ => sym::check(false, "the host is not given a message that was sent"),
		}
	}
	if end != 0 {
		sym::check(from.recv_blocking().is_err(), "the host is given a message that nobody sent");
		sym::reach(1)
	} else {
		sym::check(from.try_recv().is_err(), "the host is given a message that nobody sent")
	}
	if order == 1 {
		send()
	}
	to.close();
	sym::join(t);
	sym::check(*get(&RESULT) == Some(true), "the driver ends with an error although nobody cancelled it");
	let mut want = vec![];
	for a in &answers {
		want.extend(frame(a))
	}
	sym::check(streams().output == want, "what is written is not what the host sent");
	sym::reach(0);
}

/// Cancelling the driver at any moment ends it, and closes both ways.
pub fn driver_cancel() {
	extern "C" fn cancel(_: usize) { get(&CANCEL).as_ref().unwrap().cancel() }
	let n = sym::param("messages", 1);
	let messages: Vec<Message> = (0..n).map(|i| message(i, 0)).collect();
	for m in &messages {
		streams().input.extend(frame(m))
	}
	let k = sym::choice(sym::param("answers", 1) + 1);
	let ((to, from), t) = start(DriverType::Console);
	let c = sym::spawn(cancel, 0);
	let mut want = vec![];
	for i in 0..k {
		let m = message(i, 2);
		if to.send_blocking(m.clone()).is_err() {
			break;
		}
		want.extend(frame(&m))
	}
	let mut i = 0;
	while let Ok(m) = from.recv_blocking() {
		sym::check(i < n && same(&m, &messages[i]), "the host is given another message");
		i += 1
	}
	sym::join(c);
	sym::join(t);
	sym::check(*get(&RESULT) == Some(false), "a cancelled driver does not say so");
	sym::check(to.is_closed() && from.is_closed(), "a cancelled driver leaves a channel open");
	// what was accepted before is still written
	sym::check(streams().output == want, "what is written is not what the host sent");
	sym::reach(0);
}

/// Messages are released to the driver, which reads them while they are taken back.
pub fn driver_clear() {
	let mut queue = Queue::new();
	let n = sym::param("messages", 1);
	let due: Vec<Message> = (0..n).map(|i| message(i, 0)).collect();
	for m in &due {
		queue.add(m.clone()).unwrap();
	}
	let b = Arc::new(BufferStruct::new(queue));
	let ((to, from), t) = start(DriverType::Buffer(b.clone()));
	block_on(b.allow_any_read_blocking(n));
	b.clear_message_buffer();
	cleared(b, to, from, t, due, 0)
}
/// The whole server on the standard streams: it ends when its input does, and what it wrote
/// are the answers.
pub fn driver_server() {
	let n = sym::choice(4);
	let talk = [
		json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"capabilities": {}}}),
		json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}),
		json!({"jsonrpc": "2.0", "id": 1, "method": "shutdown"}),
		json!({"jsonrpc": "2.0", "method": "exit"}),
	];
	extern "C" fn host(_: usize) {
		let h = analyzer_host::AnalyzerHost::new(get(&CHANNEL).clone().unwrap(), None, Some(Arc::new(NativeFs::new())));
		let _ = block_on(h.start(get(&TOKEN).clone().unwrap()));
	}
	let skip = sym::choice(2);
	for m in &talk[skip..skip.max(n + 1)] {
		let b = m.to_string();
		streams().input.extend(format!("Content-Length: {}\r\n\r\n{}", b.len(), b).bytes());
	}
	streams().ended = 1;
	let (c, t) = start(DriverType::Console);
	*get(&CHANNEL) = Some(c);
	host(0);
	sym::join(t);
	let out = std::str::from_utf8(&streams().output).unwrap();
	if skip == 0 {
		sym::check(out.contains("\"capabilities\""), "initialize is not answered before the server ends");
		sym::check(n < 2 || out.contains("{\"jsonrpc\":\"2.0\",\"id\":1,"), "shutdown is not answered before the server ends");
		sym::reach(1)
	}
	sym::reach(0);
}

/// A driver on buffers, and somebody who fills, releases, empties and looks at them.
pub fn driver_buffer() {
	let kinds = 3;
	let total = sym::param("messages", 2);
	let ops = sym::param("ops", 2);
	let mut queue = Queue::new();
	let first = sym::choice(total + 1);
	let mut made = 0;
	let mut waiting = vec![];
	for _ in 0..first {
		let m = message(made, made % kinds);
		queue.add(m.clone()).unwrap();
		waiting.push(m);
		made += 1
	}
	let b = Arc::new(BufferStruct::new(queue));
	let ((to, from), t) = start(DriverType::Buffer(b.clone()));
	// what the host is to be given, of which `sure` messages are certain
	let mut due: Vec<Message> = vec![];
	let mut seen = 0;
	// releases that found no message; whether a message may have been released beyond `due`
	let (mut credit, mut loose) = (0, false);
	for _ in 0..ops {
		match sym::choice(sym::param("kinds", 6)) {
			0 => {
				block_on(b.allow_read_blocking());
				credit += 1
			}
			1 => {
				block_on(b.allow_all_read_blocking());
				credit = 0;
				loose = true;
				due.extend(waiting.drain(..))
			}
			2 => {
				let mut q = Queue::new();
				let m = message(made, made % kinds);
				made += 1;
				q.add(m.clone()).unwrap();
				b.add_to_queue_blocking(q);
				waiting.push(m);
			}
			3 => {
				let mut q = Queue::new();
				let m = message(made, made % kinds);
				made += 1;
				q.add(m.clone()).unwrap();
				waiting.push(m);
				credit = 0;
				loose = true;
				due.extend(waiting.drain(..));
				block_on(b.send_messages(q));
			}
			4 => {
				block_on(b.allow_any_read_blocking(2));
				credit += 2
			}
			_ => {
				b.clear_message_buffer();
				waiting.clear();
				// what had been released may or may not have been read by then
				while let Ok(m) = from.try_recv() {
					seen = later(&due, seen, &m)
				}
				return cleared(b, to, from, t, due, seen);
			}
		}
		let n = waiting.len().min(credit);
		credit -= n;
		due.extend(waiting.drain(..n))
	}
	while seen < due.len() {
		match from.recv_blocking() {
			Ok(m) => sym::check(same(&m, &due[seen]), "the host is given another message"),
			_ => sym::check(false, "the host is not given a message that was sent"),
		}
		seen += 1
	}
	sym::check(loose || from.try_recv().is_err(), "the host is given a message that was not released");
	answer(b, to, from, t);
}
/// Some of the messages may have been taken back before they were read, but the order is kept.
fn later(due: &[Message], seen: usize, m: &Message) -> usize {
	let i = (seen..due.len()).find(|&i| same(m, &due[i]));
	sym::check(i.is_some(), "the host is given another message");
	i.unwrap_or(seen) + 1
}
fn cleared(b: Arc<BufferStruct>, to: async_channel::Sender<Message>, from: async_channel::Receiver<Message>, t: u32, due: Vec<Message>, mut seen: usize) {
	// a message added now is read only when it is released, and comes after those of before
	let mut q = Queue::new();
	let m = message(7, 1);
	q.add(m.clone()).unwrap();
	b.add_to_queue_blocking(q);
	block_on(b.allow_read_blocking());
	loop {
		match from.recv_blocking() {
			Ok(got) if same(&got, &m) => break,
			Ok(got) => seen = later(&due, seen, &got),
			_ => sym::check(false, "the host is not given a message that was sent"),
		}
	}
	sym::reach(1);
	answer(b, to, from, t);
}
fn answer(b: Arc<BufferStruct>, to: async_channel::Sender<Message>, from: async_channel::Receiver<Message>, t: u32) {
	let k = sym::choice(sym::param("answers", 1) + 1);
	let answers: Vec<Message> = (0..k).map(|i| message(i, 2 - i % 2)).collect();
	for a in &answers {
		sym::check(to.send_blocking(a.clone()).is_ok(), "the driver's way out is closed")
	}
	let got = block_on(b.get_output_buffer(k));
	sym::check(got.len() == k, "the output buffer does not hold what the host sent");
	for i in 0..k.min(got.len()) {
		sym::check(got[i].as_bytes() == &frame(&answers[i])[..], "the output buffer does not hold what the host sent")
	}
	to.close();
	from.close();
	sym::join(t);
	sym::check(*get(&RESULT) == Some(true), "the driver ends with an error although nobody cancelled it");
	sym::reach(0);
}
