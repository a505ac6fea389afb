//! vh: bounded concrete checking of Octane through its public API only (a real server on
//! loopback, `Response` in process, the config types), against executable specifications
//! written from the property statements.  It is the stand-in for code outside the verifier's
//! reach, the validation of the contracts assumed there, and the search for a failing input
//! when a proof obligation fails.  Never counted as proof.
mod core;
mod gen;
mod net;
mod props;
mod spec;

use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: u64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out");
    let only = get("--section").map(|s| (s, get("--index").and_then(|s| s.parse().ok())));
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(40);
    if let Some(d) = get("--dict") {
        load_dict(&std::fs::read_to_string(d).unwrap_or_default());
    }
    install_panic_hook();
    let mut run = Run::new(&prop, seed, scale, secs, only);
    if !props::dispatch(&prop, &mut run) {
        eprintln!("unknown property {}", prop);
        std::process::exit(3);
    }
    let j = run.report();
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("{}", j),
    }
    // servers are still running: leave without joining them
    std::process::exit(if run.failures.is_empty() { 0 } else { 1 });
}
