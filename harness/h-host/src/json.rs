use analyzer_host::json_rpc::{message::*, RequestId};
use serde_json::{json, Value};
use std::io::{self, BufRead, Read};

/// A stream that hands out at most `chunk` bytes at a time.
struct Chunked<'a> {
	data: &'a [u8],
	chunk: usize,
}
impl<'a> Read for Chunked<'a> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let n = self.data.len().min(self.chunk).min(buf.len());
		buf[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		Ok(n)
	}
}
impl<'a> BufRead for Chunked<'a> {
	fn fill_buf(&mut self) -> io::Result<&[u8]> { Ok(&self.data[..self.data.len().min(self.chunk)]) }
	fn consume(&mut self, n: usize) { self.data = &self.data[n..] }
}

/// What a message carries.
#[derive(PartialEq, Debug, Clone)]
enum Body {
	Request(RequestId, String, Value),
	Response(RequestId, Option<Value>, Option<(i32, String, Option<Value>)>),
	Notification(String, Value),
}
fn body(m: &Message) -> Body {
	match m {
		Message::Request(r) => Body::Request(r.id.clone(), r.method.clone(), r.params.clone()),
		// a null result reads as no result
		Message::Response(r) => Body::Response(
			r.id.clone(),
			r.result.clone().filter(|v| !v.is_null()),
			r.error.as_ref().map(|e| (e.code, e.message.clone(), e.data.clone().filter(|v| !v.is_null()))),
		),
		Message::Notification(n) => Body::Notification(n.method.clone(), n.params.clone()),
	}
}
fn observe(m: &Message) {
	fn value(v: &Value) {
		match v {
			Value::Null => sym::observe(b"null"),
			Value::Bool(b) => sym::observe_num(*b as usize),
			Value::Number(n) => sym::observe_num(n.as_i64().unwrap_or(-1) as usize),
			Value::String(s) => sym::observe(s.as_bytes()),
			Value::Array(a) => a.iter().for_each(value),
			Value::Object(o) => o.iter().for_each(|(k, v)| {
				sym::observe(k.as_bytes());
				value(v)
			}),
		}
	}
	match body(m) {
		Body::Request(_, m, p) => {
			sym::observe(b"Q");
			sym::observe(m.as_bytes());
			value(&p)
		}
		Body::Response(_, r, e) => {
			sym::observe(b"R");
			r.iter().for_each(value);
			if let Some((_, m, _)) = e {
				sym::observe(m.as_bytes())
			}
		}
		Body::Notification(m, p) => {
			sym::observe(b"N");
			sym::observe(m.as_bytes());
			value(&p)
		}
	}
}

fn string(max: usize) -> String { sym::text(max, 5) }
fn id(n: usize) -> RequestId {
	match sym::choice(7) {
		0 => RequestId::from(0),
		1 => RequestId::from(i32::MIN),
		2 => RequestId::from(i32::MAX),
		3 => RequestId::from(-1),
		4 => RequestId::from(sym::below(100) as i32),
		5 => RequestId::from(string(n)),
		_ => RequestId::from("12".to_string()),
	}
}
fn number() -> i64 { [0, -1, i64::MAX, i64::MIN, 4294967296][sym::choice(5)] }
fn value(n: usize) -> Value {
	match sym::choice(7) {
		0 => Value::Null,
		1 => Value::Bool(sym::choice(2) == 0),
		2 => Value::from(number()),
		3 => Value::String(string(n)),
		4 => Value::Array(vec![Value::String(string(n)), Value::Null]),
		5 => json!({}),
		_ => json!({ "id": 7, "method": string(n), "error": { "a": [] } }),
	}
}
/// One component of the message takes any value of its family, the others one of two.
fn message(n: usize) -> Message {
	let focus = sym::choice(3);
	let some_id = |f: bool| if f { id(n) } else { [RequestId::from(1), RequestId::from("1".to_string())][sym::choice(2)].clone() };
	let some_string = |f: bool| if f { string(n) } else { "m\"\u{e9}\n".to_string() };
	let some_value = |f: bool| if f { value(n) } else { [Value::Null, json!(["x"])][sym::choice(2)].clone() };
	match sym::choice(3) {
		0 => Message::Request(Request { id: some_id(focus == 0), method: some_string(focus == 1), params: some_value(focus == 2) }),
		1 => Message::Response(match sym::choice(3) {
			0 => {
				sym::assume(focus != 1);
				Response::new(some_id(focus == 0), some_value(focus == 2))
			}
			1 => {
				sym::assume(focus == 1);
				Response::new_error(some_id(false), [-32002, 0, i32::MIN, i32::MAX][sym::choice(4)], &string(n))
			}
			_ => Response { id: some_id(focus == 0), result: None, error: Some(ResponseError { code: 1, message: some_string(focus == 1), data: Some(some_value(focus == 2)) }) },
		}),
		_ => {
			sym::assume(focus != 0);
			Message::Notification(Notification { method: some_string(focus == 1), params: some_value(focus == 2) })
		}
	}
}

/// Messages written one after another are read back in order, then the stream ends.
pub fn json_roundtrip() {
	let count = sym::param("messages", 1);
	let mut wire: Vec<u8> = vec![];
	let mut sent = vec![];
	for _ in 0..count {
		let m = message(sym::param("chars", 1));
		sent.push(body(&m));
		let at = wire.len();
		let ok = m.write(&mut wire).is_ok();
		sym::check(ok, "writing fails");
		frame_is_right(&wire[at..], &sent[sent.len() - 1]);
	}
	let mut r = Chunked { data: &wire, chunk: if sym::param("chunk", 0) == 0 { usize::MAX } else { 1 + sym::choice(sym::param("chunk", 0)) } };
	for b in &sent {
		match Message::read(&mut r) {
			Ok(Some(m)) => {
				observe(&m);
				sym::check(body(&m) == *b, "the message read is not the one written");
			}
			_ => sym::check(false, "a written message cannot be read"),
		}
	}
	sym::check(matches!(Message::read(&mut r), Ok(None)), "the stream does not end after the last message");
	sym::reach(0);
}
/// Bodies of every magnitude of length, around the powers of two and ten.
pub fn json_long() {
	const EDGES: [usize; 10] = [64, 100, 128, 256, 512, 1000, 1024, 4096, 8192, 65536];
	let fill = ['a', '"', '\u{e9}', '\u{20ac}', '\u{1f600}'][sym::choice(5)];
	let edge = EDGES[sym::choice(sym::param("edges", 9))];
	// in bytes of the whole body, in bytes of the string, or in characters of the string
	let unit = sym::choice(3);
	let off = sym::choice(3);
	let per = match unit {
		0 | 1 if fill == '"' => 2,
		2 => 1,
		_ => fill.len_utf8(),
	};
	let target = edge - 2 + off + 1 - if unit == 0 { 40 } else { 0 };
	let mut text: String = std::iter::repeat(fill).take(target / per).collect();
	for _ in 0..target % per {
		text.push('b')
	}
	let c = sym::u8();
	sym::assume(c < 0x80);
	text.insert(0, c as char);
	let m = match sym::choice(4) {
		0 => Message::Request(Request { id: 1.into(), method: "m".into(), params: text.into() }),
		1 => Message::Response(Response::new(2.into(), json!({ "r": text }))),
		2 => Message::Response(Response::new_error(3.into(), -1, &text)),
		_ => Message::Notification(Notification { method: text, params: Value::Null }),
	};
	let b = body(&m);
	let mut wire: Vec<u8> = vec![];
	sym::check(m.write(&mut wire).is_ok(), "writing fails");
	let one = wire.len();
	sym::check(Message::Notification(Notification { method: "n".into(), params: Value::Null }).write(&mut wire).is_ok(), "writing fails");
	frame_is_right(&wire[..one], &b);
	let mut r = Chunked { data: &wire, chunk: [usize::MAX, 4096, 1][sym::choice(2)] };
	match Message::read(&mut r) {
		Ok(Some(m)) => sym::check(body(&m) == b, "the message read is not the one written"),
		_ => sym::check(false, "a written message cannot be read"),
	}
	sym::check(matches!(Message::read(&mut r), Ok(Some(Message::Notification(_)))), "the next message cannot be read");
	sym::check(matches!(Message::read(&mut r), Ok(None)), "the stream does not end after the last message");
	sym::reach(0);
}
fn frame_is_right(frame: &[u8], b: &Body) {
	const H: &[u8] = b"Content-Length: ";
	sym::check(frame.len() > H.len() && frame[..H.len()] == *H, "the frame does not begin with its length");
	let (mut n, mut i) = (0usize, H.len());
	while i < frame.len() && frame[i].is_ascii_digit() {
		n = n * 10 + (frame[i] - b'0') as usize;
		i += 1;
	}
	sym::check(frame.len() >= i + 4 && frame[i..i + 4] == *b"\r\n\r\n", "no blank line after the header");
	sym::check(frame.len() == i + 4 + n, "Content-Length is not the length of the body");
	let v: Value = match serde_json::from_slice(&frame[i + 4..]) {
		Ok(v) => v,
		_ => {
			sym::check(false, "the body is not JSON");
			return;
		}
	};
	sym::check(v["jsonrpc"] == "2.0", "the body lacks jsonrpc 2.0");
	let (m, p) = match b {
		Body::Request(_, m, p) => (Some(m), p),
		Body::Notification(m, p) => (Some(m), p),
		Body::Response(..) => (None, &Value::Null),
	};
	sym::check(m.map(|m| v["method"] == **m).unwrap_or(v.get("method").is_none()), "the body's method");
	sym::check(v.get("params").unwrap_or(&Value::Null) == p, "the body's params");
	sym::check(v.get("id").is_some() == !matches!(b, Body::Notification(..)), "the body's id");
}

/// The kind of a message follows from the fields of its body, in whatever order they come.
pub fn json_kinds() {
	let n = sym::param("chars", 1);
	let focus = sym::choice(3);
	let some_string = |f: bool| if f { string(n) } else { "m\"\u{e9}\n".to_string() };
	let some_value = |f: bool| if f { value(n) } else { [Value::Null, json!(["x"])][sym::choice(2)].clone() };
	let mut fields: Vec<(String, Value)> = vec![];
	let with_id = sym::choice(3);
	let (the_id, idv) = match with_id {
		1 => {
			let k = match if focus == 0 { sym::choice(5) } else { 0 } {
				0 => 0,
				1 => -1,
				2 => i32::MAX,
				3 => i32::MIN,
				_ => sym::below(100) as i32,
			};
			(Some(RequestId::from(k)), Value::from(k))
		}
		2 => {
			let s = if focus != 0 || sym::choice(2) == 0 { "1".to_string() } else { string(n) };
			(Some(RequestId::from(s.clone())), Value::String(s))
		}
		_ => (None, Value::Null),
	};
	if the_id.is_some() {
		fields.push(("id".into(), idv))
	}
	let method = if sym::choice(2) == 0 { Some(some_string(focus == 1)) } else { None };
	if let Some(m) = &method {
		fields.push(("method".into(), Value::String(m.clone())))
	}
	let params = if method.is_some() && sym::choice(2) == 0 { Some(some_value(focus == 2)) } else { None };
	if let Some(p) = &params {
		fields.push(("params".into(), p.clone()))
	}
	let mut result = None;
	let mut error = None;
	if method.is_none() {
		match sym::choice(3) {
			0 => {
				result = Some(some_value(focus == 2));
				fields.push(("result".into(), result.clone().unwrap()))
			}
			1 => {
				error = Some((-32600, some_string(focus == 1)));
				fields.push(("error".into(), json!({ "code": -32600, "message": error.clone().unwrap().1 })))
			}
			_ => (),
		}
	}
	match sym::choice(3) {
		0 => fields.push(("jsonrpc".into(), "2.0".into())),
		1 => fields.push(("unknown".into(), json!([{"id": 3}]))),
		_ => (),
	}
	let len = fields.len().max(1);
	let (rot, rev) = (sym::choice(len), if focus == 0 { 0 } else { sym::choice(2) });
	fields.rotate_left(rot);
	if rev == 1 {
		fields.reverse()
	}
	let mut text = "{".to_string();
	for (i, (k, v)) in fields.iter().enumerate() {
		if i > 0 {
			text.push(',')
		}
		text += &serde_json::to_string(k).unwrap();
		text.push(':');
		text += &serde_json::to_string(v).unwrap();
	}
	text.push('}');
	let want = match (the_id, method) {
		(Some(i), Some(m)) => Some(Body::Request(i, m, params.unwrap_or_default())),
		(None, Some(m)) => Some(Body::Notification(m, params.unwrap_or_default())),
		(Some(i), None) => Some(Body::Response(i, result.filter(|v| !v.is_null()), error.map(|(c, m)| (c, m, None)))),
		(None, None) => None,
	};
	let wire = format!("Content-Length: {}\r\n\r\n{}", text.len(), text);
	let got = Message::read(&mut wire.as_bytes());
	match got {
		Ok(Some(m)) => {
			observe(&m);
			sym::check(want == Some(body(&m)), "a body was read as another message");
			sym::reach(0)
		}
		Ok(None) => sym::check(false, "a body was read as the end of the stream"),
		Err(_) => {
			sym::check(want.is_none(), "a valid body was refused");
			sym::reach(1)
		}
	}
}

#[derive(PartialEq)]
enum Outcome {
	End,
	Error,
	Body(usize, usize),
	/// what the property leaves open
	Any,
}
/// The framing rules, applied to the stream from `at`.
fn frame(s: &[u8], mut at: usize) -> Outcome {
	let mut length: Option<usize> = None;
	loop {
		if at == s.len() {
			return Outcome::End;
		}
		let end = match s[at..].iter().position(|&b| b == b'\n') {
			Some(i) => at + i,
			None => return Outcome::Error,
		};
		let line = &s[at..end];
		at = end + 1;
		if std::str::from_utf8(line).is_err() || line.last() != Some(&b'\r') {
			return Outcome::Error;
		}
		let line = &line[..line.len() - 1];
		if line.is_empty() {
			break;
		}
		let sep = match line.windows(2).position(|w| w == b": ") {
			Some(i) => i,
			None => return Outcome::Error,
		};
		let (name, digits) = (&line[..sep], &line[sep + 2..]);
		if name == b"Content-Length" {
			if digits.first() == Some(&b'+') {
				return Outcome::Any;
			}
			if digits.is_empty() || !digits.iter().all(|b| b.is_ascii_digit()) {
				return Outcome::Error;
			}
			let mut n = 0usize;
			for d in digits {
				n = match n.checked_mul(10).and_then(|n| n.checked_add((d - b'0') as usize)) {
					Some(n) => n,
					None => return Outcome::Error,
				};
			}
			length = Some(n);
		}
	}
	match length {
		None => Outcome::Error,
		Some(n) if n > s.len() - at => Outcome::Error,
		Some(n) if std::str::from_utf8(&s[at..at + n]).is_err() => Outcome::Error,
		Some(n) => Outcome::Body(at, n),
	}
}
fn check_stream(s: &[u8]) {
	let mut r = Chunked { data: s, chunk: if sym::param("chunk", 0) == 0 { usize::MAX } else { sym::param("chunk", 0) } };
	let mut at = 0;
	for _ in 0..sym::param("reads", 2) {
		let got = Message::read(&mut r);
		sym::reach(0);
		match frame(s, at) {
			Outcome::End => {
				sym::observe(b"end");
				sym::check(matches!(got, Ok(None)), "the end of the stream is not reported as such");
				return;
			}
			Outcome::Error => {
				sym::observe(b"error");
				sym::check(got.is_err(), "a malformed stream is not an error");
				return;
			}
			Outcome::Any => return,
			Outcome::Body(a, n) => {
				let want: Result<Message, _> = serde_json::from_slice(&s[a..a + n]);
				match (got, want) {
					(Ok(Some(g)), Ok(w)) => {
						observe(&g);
						sym::reach(1);
						sym::check(body(&g) == body(&w), "the message is not the one in the body")
					}
					(Err(_), Err(_)) => {
						sym::observe(b"json");
						// nothing of the stream beyond the body was consumed
					}
					_ => {
						sym::check(false, "the body was not read as it is");
						return;
					}
				}
				at = a + n;
				sym::check(s.len() - at == r.data.len(), "more or less than the frame was consumed");
			}
		}
	}
}

const BODY: &str = r#"{"id":1,"method":"é"}"#;
/// Frames built from header lines of every kind, around a fixed body.
pub fn json_frames() {
	let mut s: Vec<u8> = vec![];
	let headers = sym::choice(sym::param("headers", 3) + 1);
	for _ in 0..headers {
		match sym::choice(11) {
			0 => s.extend_from_slice(format!("Content-Length: {}\r\n", BODY.len()).as_bytes()),
			1 => {
				// any value of up to two characters, alone or after the right length
				const VALUE: &[u8] = b"01239-+ x:,";
				s.extend_from_slice(b"Content-Length: ");
				if sym::choice(2) == 1 {
					s.extend_from_slice(BODY.len().to_string().as_bytes())
				}
				let n = sym::choice(3);
				for _ in 0..n {
					s.push(VALUE[sym::choice(VALUE.len())])
				}
				s.extend_from_slice(b"\r\n")
			}
			2 => s.extend_from_slice(b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"),
			3 => s.extend_from_slice(b"X: y: z\r\n"),
			4 => s.extend_from_slice(b"content-length: 3\r\n"),
			5 => s.extend_from_slice(b"Content-Length: 99999999999999999999\r\n"),
			6 => s.extend_from_slice(b"Content-Length: 9999999999999999\r\n"),
			7 => s.extend_from_slice(format!("Content-Length: {}\n", BODY.len()).as_bytes()),
			8 => s.extend_from_slice(b"Content-Length\r\n"),
			9 => s.extend_from_slice(b"Content-Length-Unpacked: 7\r\n"),
			_ => s.extend_from_slice(b"X-Content-Length: 7\r\n"),
		}
	}
	s.extend_from_slice(b"\r\n");
	s.extend_from_slice(BODY.as_bytes());
	// cut short, or followed by something
	match sym::choice(4) {
		0 => s.truncate(s.len() - 1),
		1 => s.extend_from_slice(b"\r\n"),
		2 => s.extend_from_slice(format!("Content-Length: {}\r\n\r\n{}", BODY.len(), BODY).as_bytes()),
		_ => (),
	}
	check_stream(&s)
}

/// A valid pair of frames with some bytes overwritten, removed or inserted anywhere.
pub fn json_bytes() {
	let one = format!("Content-Length: {}\r\n\r\n{}", BODY.len(), BODY);
	let mut s = (one.clone() + &one).into_bytes();
	if sym::param("free", 0) > 0 {
		s = vec![0u8; sym::choice(sym::param("free", 0) + 1)];
		sym::fill(&mut s);
	} else {
		let span = one.len() + 20;
		for _ in 0..sym::param("faults", 1) {
			let at = sym::choice(span);
			// a length read piecemeal is split into its values, or the terms grow with every piece
			let in_length = |b: u8| if sym::param("chunk", 0) > 0 && at % one.len() >= 16 && at % one.len() <= 18 { sym::concrete(b as usize) as u8 } else { b };
			match sym::choice(4) {
				0 => s[at] = in_length(sym::u8()),
				1 => {
					s.remove(at);
				}
				2 => s.insert(at, in_length(sym::u8())),
				_ => s.truncate(at),
			}
			if s.len() < span {
				break;
			}
		}
	}
	check_stream(&s)
}
