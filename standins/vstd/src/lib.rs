//! `std` with the process's threads, standard streams and files replaced by ones a harness
//! controls. What is not replaced is std's own.
pub use ::std::*;

pub mod thread {
	pub use ::std::thread::*;
	use ::std::cell::UnsafeCell;
	use ::std::sync::Arc;

	struct Slot<T>(UnsafeCell<Option<T>>);
	unsafe impl<T> Sync for Slot<T> {}
	unsafe impl<T> Send for Slot<T> {}
	pub struct JoinHandle<T> {
		thread: u32,
		slot: Arc<Slot<T>>,
	}
	impl<T> JoinHandle<T> {
		pub fn join(self) -> Result<T> {
			sym::join(self.thread);
			Ok(unsafe { (*self.slot.0.get()).take() }.unwrap())
		}
		pub fn is_finished(&self) -> bool { unsafe { (*self.slot.0.get()).is_some() } }
	}
	pub fn spawn<F, T>(f: F) -> JoinHandle<T>
	where
		F: FnOnce() -> T + Send + 'static,
		T: Send + 'static,
	{
		let slot = Arc::new(Slot(UnsafeCell::new(None)));
		let s = slot.clone();
		let body: Box<Box<dyn FnOnce()>> = Box::new(Box::new(move || unsafe { *s.0.get() = Some(f()) }));
		extern "C" fn run(p: usize) { unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>)() } }
		let thread = sym::spawn(run, Box::into_raw(body) as usize);
		JoinHandle { thread, slot }
	}
}

pub mod io {
	pub use ::std::io::*;
	use ::std::cell::UnsafeCell;

	/// What is to come from the standard input, piece by piece, and what has gone to the standard output.
	#[derive(Default)]
	pub struct Streams {
		pub input: Vec<u8>,
		/// each read ends at one of these, at the latest
		pub pieces: Vec<usize>,
		pub at: usize,
		/// the input has ended: otherwise a read waits for more
		pub ended: u8,
		/// what has gone out, and what is written but waits for the end of its line or a flush
		pub output: Vec<u8>,
		pub unflushed: Vec<u8>,
		/// so much can be written before writing fails
		pub room: Option<usize>,
	}
	struct Shared(UnsafeCell<Option<Streams>>);
	unsafe impl Sync for Shared {}
	static STREAMS: Shared = Shared(UnsafeCell::new(None));
	pub fn streams() -> &'static mut Streams { unsafe { (*STREAMS.0.get()).get_or_insert_with(Streams::default) } }

	pub struct Stdin;
	pub struct StdinLock;
	pub fn stdin() -> Stdin { Stdin }
	impl Stdin {
		pub fn lock(&self) -> StdinLock { StdinLock }
	}
	impl Read for StdinLock {
		fn read(&mut self, b: &mut [u8]) -> Result<usize> {
			let from = self.fill_buf()?;
			let n = from.len().min(b.len());
			b[..n].copy_from_slice(&from[..n]);
			self.consume(n);
			Ok(n)
		}
	}
	impl BufRead for StdinLock {
		fn fill_buf(&mut self) -> Result<&[u8]> {
			let s = streams();
			if s.at == s.input.len() {
				sym::wait(&s.ended);
				return Ok(&[]);
			}
			let end = s.pieces.iter().copied().find(|&p| p > s.at).unwrap_or(s.input.len());
			Ok(&s.input[s.at..end])
		}
		fn consume(&mut self, n: usize) { streams().at += n }
	}
	pub struct Stdout;
	pub struct StdoutLock;
	pub fn stdout() -> Stdout { Stdout }
	impl Stdout {
		pub fn lock(&self) -> StdoutLock { StdoutLock }
	}
	fn put(b: &[u8]) -> Result<usize> {
		let s = streams();
		let n = s.room.map_or(b.len(), |r| b.len().min(r - s.output.len() - s.unflushed.len()));
		if n == 0 && !b.is_empty() {
			return Err(ErrorKind::BrokenPipe.into());
		}
		s.unflushed.extend_from_slice(&b[..n]);
		if let Some(i) = s.unflushed.iter().rposition(|&b| b == b'\n') {
			let rest = s.unflushed.split_off(i + 1);
			s.output.extend_from_slice(&s.unflushed);
			s.unflushed = rest
		}
		Ok(n)
	}
	fn flushed() -> Result<()> {
		let s = streams();
		let v = ::std::mem::take(&mut s.unflushed);
		s.output.extend_from_slice(&v);
		Ok(())
	}
	impl Write for Stdout {
		fn write(&mut self, b: &[u8]) -> Result<usize> { put(b) }
		fn flush(&mut self) -> Result<()> { flushed() }
	}
	impl Write for StdoutLock {
		fn write(&mut self, b: &[u8]) -> Result<usize> { put(b) }
		fn flush(&mut self) -> Result<()> { flushed() }
	}
}

pub mod process {
	pub use ::std::process::*;
	use ::std::sync::atomic::{AtomicUsize, Ordering};
	static AT_EXIT: AtomicUsize = AtomicUsize::new(0);
	/// What a harness does when the process ends.
	pub fn at_exit(f: fn(i32)) { AT_EXIT.store(f as usize, Ordering::SeqCst) }
	pub fn exit(code: i32) -> ! {
		let f = AT_EXIT.load(Ordering::SeqCst);
		if f != 0 {
			unsafe { ::std::mem::transmute::<usize, fn(i32)>(f)(code) }
		}
		sym::expect_panic(f != 0);
		panic!("the process ends")
	}
}

/// Files that exist only in memory.
pub mod fs {
	pub use ::std::fs::*;
	use ::std::cell::UnsafeCell;
	use ::std::ffi::OsString;
	use ::std::io::{Error, ErrorKind, Result};
	use ::std::os::unix::ffi::{OsStrExt, OsStringExt};
	use ::std::path::{Component, Path, PathBuf};

	#[derive(Clone, PartialEq)]
	pub enum Node {
		File(Vec<u8>),
		Folder,
		/// exists, but cannot be read or listed
		Locked(bool),
	}
	/// Every file and folder but the root, parents before what they contain.
	pub type Tree = Vec<(Vec<u8>, Node)>;
	struct Shared(UnsafeCell<Tree>);
	unsafe impl Sync for Shared {}
	static TREE: Shared = Shared(UnsafeCell::new(Vec::new()));
	pub fn tree() -> &'static mut Tree { unsafe { &mut *TREE.0.get() } }
	/// The path with `.` and repeated separators left out.
	fn plain(p: &Path) -> Vec<u8> {
		let mut v = vec![];
		for c in p.components() {
			match c {
				Component::RootDir | Component::CurDir | Component::Prefix(_) => (),
				Component::ParentDir => {
					while let Some(b) = v.pop() {
						if b == b'/' {
							break;
						}
					}
				}
				Component::Normal(s) => {
					v.push(b'/');
					v.extend_from_slice(s.as_bytes())
				}
			}
		}
		v
	}
	pub fn node(p: &Path) -> Option<Node> {
		let p = plain(p);
		if p.is_empty() {
			return Some(Node::Folder);
		}
		tree().iter().find(|n| n.0 == p).map(|n| n.1.clone())
	}
	pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
		match node(p.as_ref()) {
			Some(Node::File(v)) => Ok(v),
			Some(Node::Folder) => Err(Error::from_raw_os_error(21)),
			Some(Node::Locked(_)) => Err(ErrorKind::PermissionDenied.into()),
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> { String::from_utf8(read(p)?).map_err(|_| ErrorKind::InvalidData.into()) }
	/// What a folder contains, in order.
	pub fn list(p: &Path) -> Result<Vec<PathBuf>> {
		match node(p) {
			Some(Node::Folder) => (),
			Some(Node::Locked(true)) => return Err(ErrorKind::PermissionDenied.into()),
			Some(_) => return Err(Error::from_raw_os_error(20)),
			None => return Err(ErrorKind::NotFound.into()),
		}
		let at = plain(p);
		let mut v: Vec<PathBuf> = vec![];
		for (n, _) in tree().iter() {
			if n.len() > at.len() + 1 && n.starts_with(&at) && n[at.len()] == b'/' && !n[at.len() + 1..].contains(&b'/') {
				v.push(p.join(OsString::from_vec(n[at.len() + 1..].to_vec())))
			}
		}
		v.sort();
		Ok(v)
	}

	/// Every path is its own only name; a relative one starts at the root.
	pub fn canonicalize<P: AsRef<Path>>(p: P) -> Result<PathBuf> {
		match node(p.as_ref()) {
			Some(_) => {
				let v = plain(p.as_ref());
				Ok(PathBuf::from(OsString::from_vec(if v.is_empty() { vec![b'/'] } else { v })))
			}
			None => Err(ErrorKind::NotFound.into()),
		}
	}
	/// Writing only.
	pub struct File(Vec<u8>);
	impl File {
		pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
			let p = p.as_ref();
			match p.parent().and_then(node) {
				Some(Node::Folder) => (),
				Some(Node::Locked(true)) => return Err(ErrorKind::PermissionDenied.into()),
				Some(_) => return Err(Error::from_raw_os_error(20)),
				None => return Err(ErrorKind::NotFound.into()),
			}
			let at = plain(p);
			match node(p) {
				None => tree().push((at.clone(), Node::File(vec![]))),
				Some(Node::File(_)) => tree().iter_mut().filter(|n| n.0 == at).for_each(|n| n.1 = Node::File(vec![])),
				Some(Node::Folder) => return Err(Error::from_raw_os_error(21)),
				Some(Node::Locked(_)) => return Err(ErrorKind::PermissionDenied.into()),
			}
			Ok(File(at))
		}
	}
	impl ::std::io::Write for File {
		fn write(&mut self, b: &[u8]) -> Result<usize> {
			for n in tree().iter_mut() {
				if n.0 == self.0 {
					if let Node::File(v) = &mut n.1 {
						v.extend_from_slice(b)
					}
				}
			}
			Ok(b.len())
		}
		fn flush(&mut self) -> Result<()> { Ok(()) }
	}
	pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> { ::std::io::Write::write_all(&mut File::create(p)?, c.as_ref()) }

	/// `Path::is_file` and the like ask here.
	#[no_mangle]
	pub unsafe extern "C" fn statx(_: i32, path: *const u8, _: i32, _: u32, buf: *mut u8) -> i32 {
		if path.is_null() {
			*__errno_location() = 14;
			return -1;
		}
		let mut n = 0;
		while *path.add(n) != 0 {
			n += 1
		}
		let p = ::std::slice::from_raw_parts(path, n);
		let node = if n == 0 { None } else { node(Path::new(::std::ffi::OsStr::from_bytes(p))) };
		let (mode, size): (u16, u64) = match node {
			Some(Node::File(v)) => (0o100644, v.len() as u64),
			Some(Node::Folder) => (0o040755, 0),
			Some(Node::Locked(true)) => (0o040000, 0),
			Some(Node::Locked(false)) => (0o100000, 0),
			None => {
				*__errno_location() = 2;
				return -1;
			}
		};
		::std::ptr::write_bytes(buf, 0, 256);
		::std::ptr::copy_nonoverlapping(0x7ffu32.to_le_bytes().as_ptr(), buf, 4);
		::std::ptr::copy_nonoverlapping(mode.to_le_bytes().as_ptr(), buf.add(28), 2);
		::std::ptr::copy_nonoverlapping(size.to_le_bytes().as_ptr(), buf.add(40), 8);
		0
	}
	extern "C" {
		fn __errno_location() -> *mut i32;
	}
}

/// Goes to the standard output, as the real one does.
#[macro_export]
macro_rules! println {
	($($t:tt)*) => {{ use ::std::io::Write; let _ = ::std::writeln!($crate::io::stdout(), $($t)*); }};
}
#[macro_export]
macro_rules! print {
	($($t:tt)*) => {{ use ::std::io::Write; let _ = ::std::write!($crate::io::stdout(), $($t)*); }};
}
