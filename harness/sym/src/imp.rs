//! Native meaning of the interface: one concrete case per (forked) process.
use std::cell::UnsafeCell;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Mutex;

struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
static INPUT: Shared<Vec<u8>> = Shared(UnsafeCell::new(Vec::new()));
static POS: AtomicUsize = AtomicUsize::new(0);
static OBS: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static PARAMS: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
/// The keys of std's maps: those the engine takes, varied by the parameter "hash".
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
	let hash = PARAMS.lock().unwrap().iter().find(|p| p.0 == "hash").map(|p| p.1).unwrap_or(0);
	for i in 0..n {
		*p.add(i) = (i as u64 * 37 + 11 + hash * (i as u64 * 29 + 101)) as u8
	}
	n as isize
}
static EXPECT: AtomicU32 = AtomicU32::new(0);
static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());

fn done(kind: &str, msg: &str) -> ! {
	let obs = match OBS.try_lock() {
		Ok(o) => o.iter().map(|b| format!("{b:02x}")).collect::<String>(),
		Err(_) => String::new(),
	};
	let out = std::io::stdout();
	let mut out = out.lock();
	let _ = writeln!(out, "RESULT\t{kind}\t{obs}\t{}", msg.replace(['\t', '\n'], " "));
	let _ = out.flush();
	unsafe { _exit(0) }
}
extern "C" {
	fn _exit(c: i32) -> !;
	fn fork() -> i32;
	fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
	fn alarm(s: u32) -> u32;
	fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

pub unsafe fn __sym_bytes(p: *mut u8, n: usize) {
	let inp = &*INPUT.0.get();
	for i in 0..n {
		let k = POS.fetch_add(1, Ordering::SeqCst);
		*p.add(i) = inp.get(k).copied().unwrap_or(0);
	}
}
pub unsafe fn __sym_assume(c: bool) {
	if !c {
		done("assume", "")
	}
}
pub unsafe fn __sym_assert(c: bool, p: *const u8, n: usize) {
	if !c {
		done("assert", std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)))
	}
}
pub unsafe fn __sym_observe(p: *const u8, n: usize) { OBS.lock().unwrap().extend_from_slice(std::slice::from_raw_parts(p, n)) }
pub unsafe fn __sym_reach(_: u32) {}
pub unsafe fn __sym_expect_panic(c: bool) { EXPECT.store(c as u32, Ordering::SeqCst) }
pub unsafe fn __sym_known(_: *const u8, _: usize) {}
pub unsafe fn __sym_param(p: *const u8, n: usize, d: u64) -> u64 {
	let k = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
	PARAMS.lock().unwrap().iter().rev().find(|p| p.0 == k).map(|p| p.1).unwrap_or(d)
}
pub unsafe fn __sym_concrete(v: u64) -> u64 { v }
pub unsafe fn __sym_force(c: bool) -> bool { c }
pub unsafe fn __sym_spawn(f: extern "C" fn(usize), arg: usize) -> u32 {
	let mut t = THREADS.lock().unwrap();
	t.push(Some(std::thread::spawn(move || f(arg))));
	t.len() as u32
}
pub unsafe fn __sym_join(t: u32) {
	let h = THREADS.lock().unwrap()[t as usize - 1].take();
	if let Some(h) = h {
		let _ = h.join();
	}
}
pub unsafe fn __sym_wait(p: *const u8) {
	let t0 = std::time::Instant::now();
	while std::ptr::read_volatile(p) == 0 {
		std::thread::yield_now();
		std::sync::atomic::fence(Ordering::SeqCst);
		if t0.elapsed().as_secs() >= 3 {
			done("deadlock", "a waiting thread was never woken")
		}
	}
}

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// `native ENTRY CASES [name=value...]`: runs every case (one hex line each) in its own
/// process and prints one RESULT line per case.
pub fn main(table: &[(&str, extern "C" fn())]) {
	let args: Vec<String> = std::env::args().collect();
	let entry = table.iter().find(|(n, _)| *n == args[1]).unwrap_or_else(|| panic!("no harness {}", args[1])).1;
	let cases = std::fs::read_to_string(&args[2]).unwrap();
	let mut params = vec![];
	let mut secs = 10;
	for a in &args[3..] {
		let (k, v) = a.split_once('=').unwrap();
		match k {
			"timeout" => secs = v.parse().unwrap(),
			_ => params.push((k.to_string(), v.parse().unwrap())),
		}
	}
	*PARAMS.lock().unwrap() = params;
	for line in cases.lines() {
		unsafe {
			let _ = std::io::stdout().flush();
			let pid = fork();
			if pid == 0 {
				alarm(secs);
				// as in the symbolic run, a request for gigabytes fails
				setrlimit(9, &[4 << 30, 4 << 30]);
				*INPUT.0.get() = unhex(line.trim());
				std::panic::set_hook(Box::new(|i| {
					let kind = if EXPECT.load(Ordering::SeqCst) != 0 { "panic-expected" } else { "panic" };
					done(kind, &i.to_string())
				}));
				entry();
				done("ok", "");
			}
			let mut st = 0;
			waitpid(pid, &mut st, 0);
			if st != 0 {
				let sig = st & 0x7f;
				println!("RESULT\t{}\t\tsignal {sig}", match sig { 14 => "timeout", 6 => "panic", _ => "crash" });
			}
		}
	}
}
