//! The bounded stand-in for the leaf 2 walk, used only when the loop contract in
//! /repo can no longer be proved (the loop was rewritten): the contract
//! `c08_bound` on every position and every two adjacent byte values, natively.
use cpuid_contracts::{core_::tape, desc::REG_BOUND};

fn main() {
    let mut n = 0u64;
    for p in 1..=15 {
        for x in 0..256 {
            for y in 0..256 {
                tape::load(vec![p, x, y]);
                if std::panic::catch_unwind(REG_BOUND[0].1).is_err() {
                    println!("BOUNDED-VIOLATED c08_bound {p} {x} {y}");
                    std::process::exit(1);
                }
                n += 1;
            }
        }
    }
    println!("BOUNDED-HOLDS c08_bound {n}");
}
