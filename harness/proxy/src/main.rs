//! hproxy run <label> <seed> <seconds> [kind] / replay <kind> <seed>: whole proxied sessions over loopback connections (P*)
#[path = "../../core/src/driver.rs"]
mod driver;
mod forward;
#[allow(dead_code)]
#[path = "../../core/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../net/src/peer.rs"]
mod peer;
mod pem;
mod program;
mod secure;
mod session;
#[allow(dead_code)]
#[path = "../../core/src/util.rs"]
mod util;
fn main() {
    let roots = pem::scratch().join("roots.pem");
    std::fs::write(&roots, peer::pem("ca.pem")).unwrap();
    std::env::set_var("SSL_CERT_FILE", &roots);
    driver::main(&[("forward", forward::forward, true), ("chaos", forward::chaos, true), ("secure", secure::case, true), ("pem", pem::case, true), ("program", program::program, false)], 12)
}
