// ---- prelude: what the main program of the proxy uses besides ----
pub mod anyhow {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct Error { x: u8 }
pub type Result<T> = ::core::result::Result<T, Error>;
pub trait Context<T>: Sized {
    spec fn good(&self) -> Option<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> (r: Result<T>) requires call_requires(f, ()) ensures match r { Ok(x) => self.good() == Some(x), Err(_) => self.good() is None };
}
impl<T, E> Context<T> for ::core::result::Result<T, E> {
    open spec fn good(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> (r: Result<T>) { unimplemented!() }
}
impl From<crate::proxy::ProxyError> for Error { #[verifier::external_body] fn from(e: crate::proxy::ProxyError) -> (r: Error) { unimplemented!() } }
}
}
pub mod argh {
use vstd::prelude::*;
verus!{
pub trait FromArgs {}
/// The arguments of the program (ends it when they cannot be read).
#[verifier::external_body]
pub fn from_env<T>() -> (r: T) { unimplemented!() }
}
}
/// Where the log goes.
pub mod tracing_subscriber {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct EnvFilter { x: u8 }
impl EnvFilter { #[verifier::external_body] pub fn from_default_env() -> EnvFilter { unimplemented!() } }
#[verifier::external_body]
pub struct Builder { x: u8 }
#[verifier::external_body]
pub fn fmt() -> Builder { unimplemented!() }
impl Builder {
    #[verifier::external_body]
    pub fn with_env_filter(self, f: EnvFilter) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn with_target(self, b: bool) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file(self, b: bool) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn with_line_number(self, b: bool) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn without_time(self) -> Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn init(self) { unimplemented!() }
}
}
}
