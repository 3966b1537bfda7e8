use crate::exec::{block_on, block_on_then, poll_once};
use analyzer_abstractions::futures_extensions::{FutureCompletionSource, FutureCompletionSourceError};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU8, Ordering};
use std::task::Poll;

type Source = FutureCompletionSource<u8, u8>;
struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
const MAX: usize = 8;
static SOURCE: Shared<Option<Source>> = Shared(UnsafeCell::new(None));
/// what thread i sets, whether as an error, and whether that succeeded
static VALUES: Shared<[(u8, bool, bool); MAX]> = Shared(UnsafeCell::new([(0, false, false); MAX]));
/// what thread i has seen
static SEEN: Shared<[Option<Result<u8, u8>>; MAX]> = Shared(UnsafeCell::new([None; MAX]));
const IDLE: AtomicU8 = AtomicU8::new(0);
static WAITING: [AtomicU8; MAX] = [IDLE; MAX];
static DONE: AtomicU8 = AtomicU8::new(0);

fn source() -> &'static Source { unsafe { (*SOURCE.0.get()).as_ref().unwrap() } }
unsafe fn slot<T>(s: &'static Shared<[T; MAX]>, i: usize) -> &'static mut T { &mut (*s.0.get())[i] }

extern "C" fn set(i: usize) {
	let s = source();
	let v = unsafe { slot(&VALUES, i) };
	let r = if v.1 { s.set_err(v.0) } else { s.set_value(v.0) };
	v.2 = r.is_ok();
	if r == Err(FutureCompletionSourceError::Invalid) {
		sym::check(matches!(s.state(), Poll::Ready(_)), "refused although it has not completed");
	}
	look(i);
}
fn look(i: usize) {
	let s = source();
	for _ in 0..sym::param("looks", 1) {
		let known = DONE.load(Ordering::SeqCst) == 1;
		match s.state() {
			Poll::Ready(v) => {
				let seen = unsafe { slot(&SEEN, i) };
				sym::check(seen.unwrap_or(v) == v, "the result changed");
				*seen = Some(v);
				DONE.store(1, Ordering::SeqCst);
			}
			Poll::Pending => sym::check(!known, "pending after it was seen completed"),
		}
	}
}
extern "C" fn observe(i: usize) { look(i) }

fn prepare(setters: usize) {
	unsafe {
		*SOURCE.0.get() = Some(Source::new());
		let first = sym::flag();
		for i in 0..setters {
			*slot(&VALUES, i) = (sym::u8(), first ^ (i % 2 == 1), false)
		}
	}
}
fn result(v: &(u8, bool, bool)) -> Result<u8, u8> {
	if v.1 {
		Err(v.0)
	} else {
		Ok(v.0)
	}
}

/// A source made with a value is one that has completed.
pub fn completion_ready() {
	let v = sym::u8();
	let s = Source::new_with_value(v);
	sym::check(s.state() == Poll::Ready(Ok(v)), "a source made with a value is not completed");
	let r = if sym::choice(2) == 0 { s.set_value(sym::u8()) } else { s.set_err(sym::u8()) };
	sym::check(r == Err(FutureCompletionSourceError::Invalid), "a completed source was completed again");
	let t = s.clone();
	let mut f = Box::pin(async move { t.future().await });
	sym::check(poll_once(f.as_mut()) == Poll::Ready(Ok(v)), "the result of a source made with a value");
	sym::check(s.state() == Poll::Ready(Ok(v)), "the result changed");
	sym::reach(0);
}
/// Racing completions: one succeeds, and everybody sees its result.
pub fn completion_once() {
	let (setters, observers) = (sym::param("setters", 2), sym::param("observers", 1));
	prepare(setters);
	let mut t = vec![];
	for i in 1..setters {
		t.push(sym::spawn(set, i))
	}
	for i in 0..observers {
		t.push(sym::spawn(observe, setters + i))
	}
	set(0);
	t.into_iter().for_each(sym::join);
	let won: Vec<_> = (0..setters).map(|i| unsafe { *slot(&VALUES, i) }).filter(|v| v.2).collect();
	sym::check(won.len() == 1, "not exactly one completion succeeded");
	let want = result(&won[0]);
	for i in 0..setters + observers {
		let seen = unsafe { *slot(&SEEN, i) };
		sym::check(seen.unwrap_or(want) == want, "somebody saw a result that is not the one set");
	}
	sym::check(source().state() == Poll::Ready(want), "the final result is not the one set");
	sym::check(source().set_value(7).is_err(), "a completed source was completed again");
	sym::check(source().state() == Poll::Ready(want), "the final result changed");
	sym::check(block_on(source().future()) == want, "the final result is not the one set");
	sym::reach(0);
}

extern "C" fn consume(i: usize) {
	let r = block_on_then(source().future(), || WAITING[i].store(1, Ordering::SeqCst));
	unsafe { *slot(&SEEN, i) = Some(r) }
	if sym::param("again", 0) == 1 {
		sym::check(block_on(source().future()) == r, "a second await gives another result");
	}
}
/// Polls once and gives up.
extern "C" fn give_up(i: usize) {
	let s = source();
	let mut f = Box::pin(async move { s.future().await });
	if let Poll::Ready(r) = poll_once(f.as_mut()) {
		unsafe { *slot(&SEEN, i) = Some(r) }
	}
}
/// A completion wakes whoever awaits it.
pub fn completion_wakes() {
	let (consumers, quitters) = (sym::param("consumers", 1), sym::param("quitters", 0));
	prepare(1);
	let mut t = vec![];
	for i in 0..quitters {
		t.push(sym::spawn(give_up, 1 + consumers + i))
	}
	for i in 0..consumers {
		t.push(sym::spawn(consume, 1 + i))
	}
	// with everybody waiting already, or not
	if sym::param("late", 0) == 1 {
		for i in 0..consumers {
			sym::wait(&WAITING[1 + i] as *const AtomicU8 as *const u8)
		}
	}
	set(0);
	t.into_iter().for_each(sym::join);
	let v = unsafe { *slot(&VALUES, 0) };
	sym::check(v.2, "the only completion was refused");
	for i in 1..1 + consumers {
		sym::check(unsafe { *slot(&SEEN, i) } == Some(result(&v)), "a consumer got another result");
	}
	for i in 1 + consumers..1 + consumers + quitters {
		sym::check(unsafe { *slot(&SEEN, i) }.unwrap_or(result(&v)) == result(&v), "a consumer got another result");
	}
	sym::reach(0);
}
