//! Stand-in for tokio, where a harness runs code that uses it.
pub use futures::{join, try_join};

pub mod task {
	#[derive(Debug)]
	pub struct JoinError;
	#[cfg(feature = "threads")]
	pub fn spawn_blocking<F, R>(f: F) -> impl std::future::Future<Output = Result<R, JoinError>>
	where
		F: FnOnce() -> R + Send + 'static,
		R: Send + 'static,
	{
		let (tx, rx) = futures::channel::oneshot::channel();
		vstd::thread::spawn(move || {
			let _ = tx.send(f());
		});
		async move { rx.await.map_err(|_| JoinError) }
	}
	/// The closure runs to its end before the future is ready.
	#[cfg(not(feature = "threads"))]
	pub async fn spawn_blocking<F: FnOnce() -> R, R>(f: F) -> Result<R, JoinError> { Ok(f()) }
}
pub mod fs {
	pub async fn read(path: impl AsRef<std::path::Path>) -> std::io::Result<Vec<u8>> { vstd::fs::read(path) }
}
