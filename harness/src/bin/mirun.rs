//! Runs cases given as JSON lines (on stdin, or embedded through MIRUN_FILE). Small enough for Miri.
use harness::{case::Case, exec, selftest};
use std::io::BufRead;

fn main() {
    exec::install_hook();
    let st: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(3);
    if let Err(e) = selftest::run(st) {
        println!("SELFTEST {}", e);
        std::process::exit(3);
    }
    println!("READY");
    let stdin = std::io::stdin();
    for (i, line) in stdin.lock().lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Case = match serde_json::from_str(&line) {
            Ok(c) => c,
            // A length that does not fit this platform's usize.
            Err(_) => {
                println!("SKIP {}", i);
                continue;
            }
        };
        println!("BEGIN {}", i);
        match exec::run_case(&c) {
            Ok(t) => println!("OK {} {}", i, t),
            Err(e) => {
                println!("FAIL {} {}", i, e.replace('\n', " "));
                std::process::exit(1);
            }
        }
    }
    println!("DONE");
}
