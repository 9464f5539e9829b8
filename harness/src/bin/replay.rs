//! Native replay of a harness against the real crate (real `trackable`).
//!
//!   replay HARNESS HEX,HEX,...   one run with the given nondeterministic values
//!   replay --random N SEED PREFIX   N runs of every harness with that prefix
//!   replay --list
//!
//! Exit: 0 the harness' assertions held, 1 a panic (assertion or crash) was
//! reproduced, 3 an assumption did not hold (values outside the harness).
use bcv_core as lib;
use std::panic;

fn strip(name: &str) -> &str {
    name.split_once("::").map_or(name, |x| x.1)
}

fn run(f: fn(), vals: Vec<Vec<u8>>) -> i32 {
    lib::nd::QUEUE.with(|q| *q.borrow_mut() = vals.into_iter().collect());
    match panic::catch_unwind(f) {
        Ok(()) => 0,
        Err(e) => {
            if e.downcast_ref::<lib::nd::AssumptionFailed>().is_some() {
                3
            } else {
                1
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<lib::nd::AssumptionFailed>().is_none() {
            eprintln!("{}", i);
        }
    }));
    let table = lib::table();
    if args[0] == "--list" {
        for (n, _) in &table {
            println!("{}", strip(n));
        }
        return;
    }
    if args[0] == "--random" {
        let n: u64 = args[1].parse().unwrap();
        let mut s: u64 = args[2].parse::<u64>().unwrap() ^ 0x9E37_79B9_7F4A_7C15;
        let mut next = move || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        let mut ran = 0u64;
        let mut failed = false;
        for (name, f) in table.iter().filter(|(n, _)| strip(n).starts_with(&args[3])) {
            let mut good = 0;
            let mut tries = 0;
            while good < n && tries < n * 50 {
                tries += 1;
                let mode = next() % 3;
                let vals: Vec<Vec<u8>> = (0..64)
                    .map(|_| {
                        let v = next();
                        let v = match (mode, v >> 62) {
                            (0, _) => (v >> 8) % 4,
                            (1, 0) => v,
                            (1, 1) => u64::MAX - (v >> 8) % 3,
                            _ => (v >> 8) % 12,
                        };
                        v.to_le_bytes().to_vec()
                    })
                    .collect();
                match run(*f, vals.clone()) {
                    0 => good += 1,
                    3 => {}
                    _ => {
                        let h: Vec<String> = vals
                            .iter()
                            .map(|v| v.iter().map(|b| format!("{:02x}", b)).collect())
                            .collect();
                        println!("FAILED {} {}", strip(name), h.join(","));
                        failed = true;
                        break;
                    }
                }
            }
            ran += good;
        }
        println!("RAN {}", ran);
        std::process::exit(failed as i32);
    }
    let f = match table.iter().find(|(n, _)| strip(n) == args[0]) {
        Some((_, f)) => *f,
        None => {
            eprintln!("no such harness: {}", args[0]);
            std::process::exit(4);
        }
    };
    let vals = args
        .get(1)
        .map(|s| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    (0..x.len() / 2)
                        .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap())
                        .collect()
                })
                .collect()
        })
        .unwrap_or_default();
    std::process::exit(run(f, vals));
}
