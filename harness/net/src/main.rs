//! hnet run <label> <seed> <seconds> [kind] / replay <kind> <seed>: the stream driver over loopback connections (T*)
#[path = "../../core/src/driver.rs"]
mod driver;
mod peer;
mod stream_case;
#[allow(dead_code)]
#[path = "../../core/src/util.rs"]
mod util;
fn main() { driver::main(&[("plain", stream_case::plain, true), ("tls", stream_case::tls, true)], 12) }
