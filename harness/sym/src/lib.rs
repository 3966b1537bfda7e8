//! Interface between a harness and whatever executes it.
//!
//! Without the feature `native` the functions are externs, given their meaning by the
//! symbolic executor (/verif/engine).  With `native` they read concrete inputs from a
//! replay case, so the same harness runs as ordinary compiled Rust.

#[cfg(not(feature = "native"))]
mod imp {
	extern "C" {
		pub fn __sym_bytes(p: *mut u8, n: usize);
		pub fn __sym_assume(c: bool);
		pub fn __sym_assert(c: bool, p: *const u8, n: usize);
		pub fn __sym_observe(p: *const u8, n: usize);
		pub fn __sym_reach(k: u32);
		pub fn __sym_expect_panic(c: bool);
		pub fn __sym_known(p: *const u8, n: usize);
		pub fn __sym_param(p: *const u8, n: usize, default: u64) -> u64;
		pub fn __sym_concrete(v: u64) -> u64;
		pub fn __sym_force(c: bool) -> bool;
		pub fn __sym_spawn(f: extern "C" fn(usize), arg: usize) -> u32;
		pub fn __sym_join(t: u32);
		pub fn __sym_wait(p: *const u8);
	}
}
#[cfg(feature = "native")]
pub mod imp;
use imp::*;

pub fn fill(buf: &mut [u8]) { unsafe { __sym_bytes(buf.as_mut_ptr(), buf.len()) } }
#[inline(never)]
pub fn u8() -> u8 {
	let mut b = [0u8; 1];
	fill(&mut b);
	b[0]
}
#[inline(never)]
pub fn u16() -> u16 {
	let mut b = [0u8; 2];
	fill(&mut b);
	u16::from_le_bytes(b)
}
#[inline(never)]
pub fn u32() -> u32 {
	let mut b = [0u8; 4];
	fill(&mut b);
	u32::from_le_bytes(b)
}
#[inline(never)]
pub fn u64() -> u64 {
	let mut b = [0u8; 8];
	fill(&mut b);
	u64::from_le_bytes(b)
}
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
pub fn check(c: bool, msg: &'static str) { unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) } }
/// A value below `n`, left symbolic.
pub fn below(n: u8) -> u8 {
	let v = u8();
	assume(v < n);
	v
}
/// Any boolean, left symbolic.
pub fn flag() -> bool { below(2) == 1 }
/// Case split: any of `0..n`, one path per value.
pub fn choice(n: usize) -> usize {
	if n <= 1 {
		return 0;
	}
	let v = below(n as u8);
	unsafe { __sym_concrete(v as u64) as usize }
}
/// Case split on a symbolic number.
pub fn concrete(v: usize) -> usize { unsafe { __sym_concrete(v as u64) as usize } }
/// Case split on a condition.
pub fn split(c: bool) -> bool { unsafe { __sym_force(c) } }
/// Adds bytes to the observation compared between the symbolic and the native run.
pub fn observe(b: &[u8]) { unsafe { __sym_observe(b.as_ptr(), b.len()) } }
pub fn observe_num(n: usize) { observe(&(n as u64).to_le_bytes()) }
/// Marks a point that must be reached on some path (vacuity witness).
pub fn reach(k: u32) { unsafe { __sym_reach(k) } }
/// From here on a panic is (not) what the property demands.
pub fn expect_panic(c: bool) { unsafe { __sym_expect_panic(c) } }
/// Inputs of a recorded finding: failures from here on carry this tag ("" clears it).
pub fn known(tag: &'static str) { unsafe { __sym_known(tag.as_ptr(), tag.len()) } }
/// A bound of the harness, set by the runner.
pub fn param(name: &'static str, default: u64) -> usize { unsafe { __sym_param(name.as_ptr(), name.len(), default) as usize } }
pub fn spawn(f: extern "C" fn(usize), arg: usize) -> u32 { unsafe { __sym_spawn(f, arg) } }
pub fn join(t: u32) { unsafe { __sym_join(t) } }
/// Blocks the thread until `*p` is non-zero.
pub fn wait(p: *const u8) { unsafe { __sym_wait(p) } }

/// Appends one symbolic character: `class` 0 is '\n', 1 any other ASCII byte, 2..=4 any
/// character of that many UTF-8 bytes (lead bytes with restricted second byte excluded).
pub fn push_char(s: &mut Vec<u8>, class: usize) {
	match class {
		0 => s.push(b'\n'),
		1 => {
			let b = u8();
			assume(b < 0x80);
			assume(b != b'\n');
			s.push(b)
		}
		_ => {
			let (lo, hi) = [(0xc2, 0xdf), (0xe1, 0xec), (0xf1, 0xf3)][class - 2];
			let b = u8();
			assume(b >= lo);
			assume(b <= hi);
			s.push(b);
			for _ in 1..class {
				let c = u8();
				assume(c >= 0x80);
				assume(c <= 0xbf);
				s.push(c);
			}
		}
	}
}
/// Any text of at most `max` characters, classes below `classes` (see `push_char`).
pub fn text(max: usize, classes: usize) -> String {
	let n = choice(max + 1);
	let mut v = Vec::with_capacity(4 * n);
	for _ in 0..n {
		let c = choice(classes);
		push_char(&mut v, c);
	}
	unsafe { String::from_utf8_unchecked(v) }
}
/// Any string of exactly `n` bytes, each drawn from `alphabet`; left symbolic.
pub fn over(alphabet: &[u8], n: usize) -> Vec<u8> {
	let mut v = vec![0u8; n];
	fill(&mut v);
	for &b in v.iter() {
		let mut ok = false;
		for &a in alphabet {
			ok |= b == a;
		}
		assume(ok);
	}
	v
}
