//! hunit run <label> <seed> <seconds> [kind] / replay <kind> <seed>: handles (H01), tags (H02), configuration (P04)
#[path = "../../core/src/driver.rs"]
mod driver;
#[path = "../../core/src/util.rs"]
mod util;
mod config_case;
mod handles;
mod tags;
#[allow(dead_code)]
#[path = "/repo/proxy/src/config.rs"]
mod config;
fn main() {
    driver::main(&[("handles", handles::case, true), ("endpoints", handles::endpoints, true), ("tags", tags::case, true), ("config", config_case::case, true),
        ("deep-handles", handles::deep, false), ("deep-tags", tags::deep, false)], 240)
}
