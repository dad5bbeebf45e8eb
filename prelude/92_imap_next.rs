// ---- prelude: the crate imap-next as the proxy sees it: the extracted modules ----
pub mod imap_next {
pub use crate::client;
pub use crate::server;
pub use crate::stream;
}
