//! Compiled into analyzer-host for the harness only: what it needs of private items.
pub use crate::lsp::analyzer::{AnyBackgroundLoad, BackgroundLoad};
pub use crate::lsp::request::RequestManager;
use analyzer_abstractions::fs::AnyEnumerableFileSystem;

pub fn lsp_file_system(manager: RequestManager) -> AnyEnumerableFileSystem { Box::new(crate::fs::LspEnumerableFileSystem::new(manager)) }
