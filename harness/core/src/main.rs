//! hcore run <label> <seed> <seconds> [kind]   random histories until one that concerns <label> (or `any`) is found
//! hcore replay <kind> <seed>                  one history, with trace
mod client;
mod driver;
mod gen;
mod server;
mod split;
mod util;
fn main() { driver::main(&[("client", client::case, true), ("server", server::case, true), ("split-client", split::client, false), ("split-server", split::server, false)], 20) }
