//! The same random text every time.
use std::sync::atomic::{AtomicU64, Ordering};
/// which text is "random": 0 = letters, 1 = digits, 2 = mixed
pub static STYLE: AtomicU64 = AtomicU64::new(0);
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub trait Rng { fn gen_style(&self) -> u64 { 0 } }
impl Rng for ThreadRng {}
fn byte() -> u8 { match STYLE.load(Ordering::Relaxed) { 0 => b'A', 1 => b'1', _ => b'0' } }
pub mod distributions {
    pub struct Alphanumeric;
    pub trait DistString { fn append_string<R: ?Sized>(&self, rng: &mut R, s: &mut String, len: usize); fn sample_string<R: ?Sized>(&self, rng: &mut R, len: usize) -> String { let mut s = String::new(); self.append_string(rng, &mut s, len); s } }
    impl DistString for Alphanumeric { fn append_string<R: ?Sized>(&self, _: &mut R, s: &mut String, len: usize) { for _ in 0..len { s.push(super::byte() as char) } } }
}
