#[path = "/repo/proxy/src/config.rs"]
pub mod config;
#[path = "/repo/proxy/src/proxy.rs"]
pub mod proxy;
#[path = "/repo/proxy/src/util.rs"]
pub mod util;
