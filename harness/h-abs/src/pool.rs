use crate::exec::{block_on, flag_waker};
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use cancellation::CancellationTokenSource;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU8, Ordering};
use std::task::{Context, Poll, Waker};

const MAX: usize = 4;
struct Task {
	/// how often it will still be pending, and what it does then
	pending: usize,
	plan: usize,
	waker: Option<Waker>,
	/// woken (or spawned) since it was last polled
	due: bool,
	polls: usize,
	finished: bool,
	then_stop: bool,
	then_spawn: bool,
}
struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
static TASKS: Shared<Vec<Task>> = Shared(UnsafeCell::new(Vec::new()));
static STOPPED: AtomicU8 = AtomicU8::new(0);
fn tasks() -> &'static mut Vec<Task> { unsafe { &mut *TASKS.0.get() } }

struct Work(usize);
impl Future for Work {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let t = &mut tasks()[self.0];
		sym::check(!t.finished, "work was polled after it completed");
		t.polls += 1;
		t.due = false;
		t.waker = Some(cx.waker().clone());
		if t.pending == 0 {
			t.finished = true;
			let (stop, spawn) = (t.then_stop, t.then_spawn);
			if stop {
				AsyncPool::stop();
				STOPPED.store(1, Ordering::SeqCst);
			}
			if spawn {
				spawn_one(0, 0)
			}
			return Poll::Ready(());
		}
		t.pending -= 1;
		if t.plan > 0 {
			t.due = STOPPED.load(Ordering::SeqCst) == 0;
			for _ in 0..t.plan {
				cx.waker().wake_by_ref()
			}
		}
		Poll::Pending
	}
}
fn spawn_one(pending: usize, plan: usize) {
	let i = tasks().len();
	let due = STOPPED.load(Ordering::SeqCst) == 0;
	tasks().push(Task { pending, plan, waker: None, due, polls: 0, finished: false, then_stop: false, then_spawn: false });
	AsyncPool::spawn_work(Work(i));
}
fn wake(i: usize) {
	let t = &mut tasks()[i];
	if let Some(w) = t.waker.clone() {
		if !t.finished && STOPPED.load(Ordering::SeqCst) == 0 {
			t.due = true
		}
		if sym::choice(2) == 0 {
			w.wake_by_ref()
		} else {
			w.wake()
		}
	}
}
fn all_served() {
	for t in tasks().iter() {
		sym::check(!t.due, "woken work was not polled");
	}
}

/// Any history of spawning, waking, stopping and cancelling around a pool that is polled.
pub fn pool_history() {
	let source = CancellationTokenSource::new();
	let mut pool: Pin<Box<dyn Future<Output = Result<(), cancellation::OperationCanceled>>>> = Box::pin(AsyncPool::start(source.token().clone()));
	let (waker, woken) = flag_waker();
	let mut cx = Context::from_waker(&waker);
	let mut ended = false;
	let mut cancelled = false;
	for _ in 0..1 + sym::choice(sym::param("tasks", 2)) {
		let (pending, plan) = (sym::choice(sym::param("pending", 2) + 1), sym::choice(3));
		sym::assume(pending > 0 || plan == 0);
		spawn_one(pending, plan);
	}
	let last = tasks().len() - 1;
	match sym::choice(3) {
		0 => tasks()[last].then_stop = true,
		1 => tasks()[last].then_spawn = true,
		_ => (),
	}
	// the pool is polled when something woke it
	woken.store(1, Ordering::SeqCst);
	let n = sym::param("events", 4);
	for e in 0..=n {
		let mut stopped = STOPPED.load(Ordering::SeqCst) == 1;
		match if e == n { 4 } else { sym::choice(5) } {
			0 => {
				let k = sym::choice(tasks().len());
				wake(k);
				// and again, although it may have been polled since or be done
				if sym::choice(2) == 1 {
					wake(k)
				}
			}
			1 => spawn_one(0, 0),
			2 => {
				source.cancel();
				cancelled = true
			}
			3 => {
				AsyncPool::stop();
				STOPPED.store(1, Ordering::SeqCst)
			}
			_ => {
				if e == n {
					AsyncPool::stop();
					STOPPED.store(1, Ordering::SeqCst);
					stopped = true
				}
				if woken.swap(0, Ordering::SeqCst) == 0 {
					continue;
				}
				let r = pool.as_mut().poll(&mut cx);
				stopped = stopped || STOPPED.load(Ordering::SeqCst) == 1;
				match r {
					Poll::Pending => {
						sym::check(!stopped, "a stopped pool goes on");
						all_served();
					}
					Poll::Ready(Ok(())) => {
						sym::check(stopped && !cancelled, "the pool ended although it was not stopped");
						all_served();
						ended = true;
						sym::reach(0);
					}
					Poll::Ready(Err(_)) => {
						sym::check(cancelled, "the pool reports a cancellation that was not requested");
						ended = true;
						sym::reach(1);
					}
				}
			}
		}
		if ended {
			break;
		}
	}
	sym::check(ended, "a stopped pool never ended");
	for t in tasks().iter() {
		sym::observe_num(t.polls)
	}
	// wake-ups and work that come too late do nothing, and do not panic
	for k in 0..tasks().len() {
		let before = tasks()[k].polls;
		wake(k);
		sym::check(tasks()[k].polls == before, "work was polled by its wake-up");
	}
	if sym::param("late", 1) == 1 && sym::choice(2) == 1 {
		let k = tasks().len();
		spawn_one(0, 0);
		sym::check(tasks()[k].polls == 0, "work spawned after the stop was run");
	}
	// the pool of the thread is gone with it
	drop(pool);
	unsafe { std::mem::take(&mut *TASKS.0.get()) };
}

static READY: AtomicU8 = AtomicU8::new(0);
struct External(usize);
impl Future for External {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let t = &mut tasks()[self.0];
		sym::check(!t.finished, "work was polled after it completed");
		t.polls += 1;
		if t.polls == 1 {
			t.waker = Some(cx.waker().clone());
			READY.store(1, Ordering::SeqCst);
		}
		// it is done when the other thread says so
		if WAKES.load(Ordering::SeqCst) == 0 {
			return Poll::Pending;
		}
		t.finished = true;
		AsyncPool::stop();
		Poll::Ready(())
	}
}
static WAKES: AtomicU8 = AtomicU8::new(0);
extern "C" fn waking(_: usize) {
	sym::wait(&READY as *const AtomicU8 as *const u8);
	let w = tasks()[0].waker.clone().unwrap();
	for _ in 0..sym::param("wakes", 2) {
		WAKES.store(1, Ordering::SeqCst);
		w.wake_by_ref();
	}
}
/// Another thread wakes work while the pool runs, and as it stops.
pub fn pool_threads() {
	let source = CancellationTokenSource::new();
	tasks().push(Task { pending: 0, plan: 0, waker: None, due: false, polls: 0, finished: false, then_stop: false, then_spawn: false });
	AsyncPool::spawn_work(External(0));
	let mut t = vec![];
	for i in 0..sym::param("threads", 1) {
		t.push(sym::spawn(waking, i))
	}
	let r = block_on(AsyncPool::start(source.token().clone()));
	sym::check(r.is_ok(), "the pool ended with an error");
	sym::check(tasks()[0].finished, "the work was lost");
	t.into_iter().for_each(sym::join);
	sym::reach(0);
}
