//! Runs one contract natively on the values of a verifier counterexample:
//! `replay <contract> <u32>...`. Exit 1: the contract is violated by the real
//! code; 0: it holds on these values; 3: the values do not meet its precondition.
//!
//! `replay --search <contract> <count> [<seconds>]` looks for such values when the verifier
//! refutes a contract and prints none. It never decides anything.
use cpuid_contracts::{core_::tape, ALL};
use std::panic::catch_unwind;

fn find(name: &str) -> fn() {
    ALL.iter().flat_map(|m| m.iter()).find(|(n, _)| *n == name).expect("known contract").1
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut name = a.next().expect("contract name");
    if name == "--search" {
        name = a.next().expect("contract name");
        let count: u64 = a.next().expect("count").parse().expect("count");
        let seconds = a.next().map_or(100, |v| v.parse().expect("seconds"));
        let start = std::time::Instant::now();
        let f = find(&name);
        std::panic::set_hook(Box::new(|_| ()));
        for seed in 1..=count {
            if seed % 64 == 0 && start.elapsed().as_secs() >= seconds {
                println!("SEARCH-NONE {name} {seed}");
                return;
            }
            tape::search(seed);
            if let Err(e) = catch_unwind(f) {
                if !e.is::<tape::Unmet>() {
                    println!("SEARCH-FOUND {}", tape::drawn().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
                    std::process::exit(1);
                }
            }
        }
        println!("SEARCH-NONE {name} {count}");
        return;
    }
    tape::load(a.map(|v| v.parse().expect("u32")).collect());
    match catch_unwind(find(&name)) {
        Ok(()) => println!("REPLAY-HOLDS {name}"),
        Err(e) if e.is::<tape::Unmet>() => {
            println!("REPLAY-ASSUMPTION-UNMET {name}");
            std::process::exit(3);
        }
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            println!("REPLAY-VIOLATED {name}: {}", m.unwrap_or_default());
            std::process::exit(1);
        }
    }
}
