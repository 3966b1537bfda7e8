//! Stand-in for async-std, where a harness runs code that uses it: sleeping lets the other
//! threads run. The schedule is fair to those that sleep, so a thread that has slept very
//! often waits for something that does not come.
pub mod task {
	use std::cell::Cell;
	use std::future::Future;
	use std::pin::Pin;
	use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
	use std::time::Duration;

	const LIMIT: usize = 60;
	static VTABLE: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VTABLE), wake, wake, |_| ());
	fn wake(p: *const ()) { unsafe { (*(p as *const Cell<bool>)).set(true) } }
	pub fn block_on<F: Future<Output = T>, T>(f: F) -> T {
		let mut f = Box::pin(f);
		let woken = Cell::new(false);
		let waker = unsafe { Waker::from_raw(RawWaker::new(&woken as *const Cell<bool> as *const (), &VTABLE)) };
		loop {
			if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
				return v;
			}
			if !woken.replace(false) {
				std::thread::yield_now();
			}
		}
	}
	struct Sleep(bool);
	struct Count(Cell<usize>);
	unsafe impl Sync for Count {}
	static SLEPT: Count = Count(Cell::new(0));
	impl Future for Sleep {
		type Output = ();
		fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
			if self.0 {
				return Poll::Ready(());
			}
			self.0 = true;
			SLEPT.0.set(SLEPT.0.get() + 1);
			sym::check(SLEPT.0.get() < LIMIT, "somebody waits for something that does not come");
			std::thread::yield_now();
			cx.waker().wake_by_ref();
			Poll::Pending
		}
	}
	pub async fn sleep(_: Duration) { Sleep(false).await }
}
