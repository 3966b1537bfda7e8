//! A server in a harness: the host's future, polled only when it has been woken, its two
//! channels, a disk, and a client that answers the server's requests.
use crate::exec::flag_waker;
use analyzer_abstractions::fs::EnumerableFileSystem;
use analyzer_abstractions::lsp_types::{TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::tracing::TraceValueAccessor;
use analyzer_host::AnalyzerHost;
use async_channel::{Receiver, Sender};
use cancellation::{CancellationTokenSource, OperationCanceled};
use serde_json::{json, Value};
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub struct Disk {
	pub files: Vec<(String, String)>,
	/// contents asked for, in order
	pub reads: Vec<String>,
	/// called while a file is read
	pub on_read: Option<Box<dyn FnMut(&str)>>,
	/// reads are answered only once this is unset
	pub held: bool,
	pub waiting: Vec<Waker>,
}
struct Shared<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Shared<T> {}
static DISK: Shared<Disk> = Shared(UnsafeCell::new(None));
pub fn disk() -> &'static mut Disk { unsafe { (*DISK.0.get()).get_or_insert_with(Disk::default) } }
impl Disk {
	pub fn put(&mut self, uri: &str, text: Option<&str>) {
		self.files.retain(|f| f.0 != uri);
		if let Some(t) = text {
			self.files.push((uri.into(), t.into()))
		}
	}
	pub fn get(&self, uri: &str) -> Option<String> { self.files.iter().find(|f| f.0 == uri).map(|f| f.1.clone()) }
	pub fn release(&mut self) {
		self.held = false;
		for w in self.waiting.drain(..) {
			w.wake()
		}
	}
}
pub struct DiskFs;
struct Read(String);
impl Future for Read {
	type Output = Option<String>;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<String>> {
		if disk().held {
			disk().waiting.push(cx.waker().clone());
			return Poll::Pending;
		}
		disk().reads.push(self.0.clone());
		if let Some(mut f) = disk().on_read.take() {
			f(&self.0);
			disk().on_read = Some(f);
		}
		Poll::Ready(disk().get(&self.0))
	}
}
impl EnumerableFileSystem for DiskFs {
	fn enumerate_folder<'a>(&'a self, folder: Url, _pattern: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let mut prefix = folder.to_string();
		if !prefix.ends_with('/') {
			prefix.push('/')
		}
		let v = disk().files.iter().filter(|f| f.0.starts_with(&prefix)).map(|f| TextDocumentIdentifier { uri: Url::parse(&f.0).unwrap() }).collect();
		Box::pin(async move { v })
	}
	fn file_contents<'a>(&'a self, uri: Url) -> BoxFuture<'a, Option<String>> { Box::pin(Read(uri.to_string())) }
}

pub struct Server {
	fut: Option<Pin<Box<dyn Future<Output = Result<(), OperationCanceled>>>>>,
	host: *mut AnalyzerHost,
	waker: Waker,
	flag: Arc<AtomicU8>,
	pub to: Sender<Message>,
	from: Receiver<Message>,
	pub ended: bool,
	pub polls: usize,
	pub cancel: CancellationTokenSource,
	/// what the server sent and nobody has looked at yet
	pub out: Vec<Message>,
	/// how the client answers requests of the server: by a result, by an error, or not at all
	pub answers: Answers,
	pub refuse_progress: bool,
	pub asked: Vec<Request>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Answers {
	Result,
	Error,
	Late,
}
impl Server {
	pub fn start(trace: Option<TraceValueAccessor>, own_disk: bool) -> Server {
		let (to, receiver) = async_channel::unbounded::<Message>();
		let (sender, from) = async_channel::unbounded::<Message>();
		Server::on((sender, receiver), to, from, trace, own_disk)
	}
	pub fn on(channel: (Sender<Message>, Receiver<Message>), to: Sender<Message>, from: Receiver<Message>, trace: Option<TraceValueAccessor>, own_disk: bool) -> Server {
		let host = Box::into_raw(Box::new(AnalyzerHost::new(channel, trace, if own_disk { Some(Arc::new(Box::new(DiskFs))) } else { None })));
		let cancel = CancellationTokenSource::new();
		let (waker, flag) = flag_waker();
		flag.store(1, Ordering::SeqCst);
		let fut = Box::pin(unsafe { &*host }.start(cancel.token().clone()));
		Server { fut: Some(fut), host, waker, flag, to, from, ended: false, polls: 0, cancel, out: vec![], answers: Answers::Result, refuse_progress: false, asked: vec![] }
	}
	/// Runs until the server waits for something that only the outside can bring.
	pub fn settle(&mut self) {
		let mut rounds = 0;
		while !self.ended && self.flag.swap(0, Ordering::SeqCst) != 0 {
			self.polls += 1;
			rounds += 1;
			sym::check(rounds < 200, "the server never comes to rest");
			if self.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&self.waker)).is_ready() {
				self.ended = true
			}
			self.collect()
		}
		self.collect()
	}
	/// Drops a server that has ended, as its process does.
	pub fn dispose(&mut self) {
		if let Some(f) = self.fut.take() {
			drop(f);
			drop(unsafe { Box::from_raw(self.host) });
			self.ended = true
		}
	}
	fn collect(&mut self) {
		while let Ok(m) = self.from.try_recv() {
			match m {
				Message::Request(r) => {
					match if self.refuse_progress && r.method == "window/workDoneProgress/create" { Answers::Error } else { self.answers } {
						Answers::Result => {
							let v = self.answer(&r);
							let _ = self.to.try_send(Message::Response(Response { id: r.id.clone(), result: Some(v), error: None }));
						}
						Answers::Error => {
							let _ = self.to.try_send(Message::Response(Response::new_error(r.id.clone(), -32603, "no")));
						}
						Answers::Late => (),
					}
					self.asked.push(r)
				}
				m => self.out.push(m),
			}
		}
	}
	/// What a client with this disk answers.
	pub fn answer(&self, r: &Request) -> Value {
		match r.method.as_str() {
			"p4analyzer/fileContents" => disk().get(r.params["uri"].as_str().unwrap()).map_or(Value::Null, Value::String),
			"p4analyzer/enumerateFolder" => {
				let mut p = r.params["uri"].as_str().unwrap().to_string();
				if !p.ends_with('/') {
					p.push('/')
				}
				Value::Array(disk().files.iter().filter(|f| f.0.starts_with(&p)).map(|f| json!({ "uri": f.0 })).collect())
			}
			_ => Value::Null,
		}
	}
	/// False if the server does not listen any more.
	pub fn send(&mut self, m: Message) -> bool {
		let ok = self.to.try_send(m).is_ok();
		self.settle();
		ok
	}
	pub fn request(&mut self, id: RequestId, method: &str, params: Value) -> bool { self.send(Message::Request(Request { id, method: method.into(), params })) }
	pub fn notify(&mut self, method: &str, params: Value) -> bool { self.send(Message::Notification(Notification { method: method.into(), params })) }
	/// The responses that have arrived since it was last called; notifications are left.
	pub fn responses(&mut self) -> Vec<Response> {
		let (mut v, mut rest) = (vec![], vec![]);
		for m in self.out.drain(..) {
			match m {
				Message::Response(r) => v.push(r),
				m => rest.push(m),
			}
		}
		self.out = rest;
		v
	}
	pub fn ask(&mut self, id: i32, method: &str, params: Value) -> Response {
		self.request(id.into(), method, params);
		let mut v = self.responses();
		sym::check(v.len() == 1 && v[0].id == id.into(), "one response, to this request");
		v.pop().unwrap()
	}
	/// Through the handshake, with these workspace folders.
	pub fn initialize(&mut self, folders: Option<&[&str]>) {
		let r = self.ask(1000, "initialize", init_params(folders, true));
		sym::check(r.error.is_none(), "initialize succeeds");
		self.notify("initialized", json!({}));
	}
}
pub fn init_params(folders: Option<&[&str]>, watched: bool) -> Value {
	let mut p = json!({ "processId": null, "rootUri": null, "capabilities": {} });
	if let Some(f) = folders {
		p["workspaceFolders"] = Value::Array(f.iter().map(|u| json!({ "uri": u, "name": "w" })).collect());
	}
	if watched {
		p["capabilities"] = json!({ "workspace": { "didChangeWatchedFiles": { "dynamicRegistration": true } } });
	}
	p
}
