//! A minimal executor: a thread waits until the waker it polled with has been called.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_by_ref, drop_it);
unsafe fn clone(p: *const ()) -> RawWaker {
	Arc::increment_strong_count(p as *const AtomicU8);
	RawWaker::new(p, &VTABLE)
}
unsafe fn wake(p: *const ()) { Arc::from_raw(p as *const AtomicU8).store(1, Ordering::SeqCst) }
unsafe fn wake_by_ref(p: *const ()) { (*(p as *const AtomicU8)).store(1, Ordering::SeqCst) }
unsafe fn drop_it(p: *const ()) { drop(Arc::from_raw(p as *const AtomicU8)) }

/// A waker and the flag it raises.
pub fn flag_waker() -> (Waker, Arc<AtomicU8>) {
	let flag = Arc::new(AtomicU8::new(0));
	(unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(flag.clone()) as *const (), &VTABLE)) }, flag)
}
pub fn block_on<F: Future>(f: F) -> F::Output { block_on_then(f, || ()) }
/// `before_wait` is called before each wait.
pub fn block_on_then<F: Future>(f: F, before_wait: impl Fn()) -> F::Output {
	let (waker, flag) = flag_waker();
	let mut cx = Context::from_waker(&waker);
	let mut f = Box::pin(f);
	loop {
		flag.store(0, Ordering::SeqCst);
		if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
			return v;
		}
		before_wait();
		sym::wait(&*flag as *const AtomicU8 as *const u8);
	}
}
/// Polls once; whether it was woken meanwhile is not waited for.
pub fn poll_once<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
	let (waker, _) = flag_waker();
	f.poll(&mut Context::from_waker(&waker))
}
