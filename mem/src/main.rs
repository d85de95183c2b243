//! Runs the shared workload for Miri and AddressSanitizer: mem SEED FROM COUNT MAX.
//! Prints the case before it runs, and at the end what was seen.
#![allow(dead_code)]
#[path = "../../harness/src/corpus.rs"]
mod corpus;
#[path = "../../harness/src/gen_ev.rs"]
mod gen_ev;
#[path = "../../harness/src/gen_yaml.rs"]
mod gen_yaml;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sut.rs"]
mod sut;
#[path = "../../harness/src/workload.rs"]
mod workload;
use std::time::{Duration, Instant};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("canary") {
        // What the tools must notice.
        let v = vec![1u8; std::hint::black_box(5)];
        let x = unsafe { *v.as_ptr().add(std::hint::black_box(6)) };
        println!("canary {x}");
        return;
    }
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("a number")).collect();
    let [seed, from, count, max, secs] = a[..] else { panic!("mem SEED FROM COUNT MAX SECONDS") };
    sut::install_hook();
    let start = Instant::now();
    let mut seen = workload::Seen::default();
    let mut done = 0;
    for k in from..from + count {
        println!("case {k}");
        workload::case(rng::mix(seed).wrapping_add(rng::mix(k)), max as usize, &mut seen);
        done += 1;
        if let Some(b) = &seen.bad {
            println!("BAD {b}");
            std::process::exit(1);
        }
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
    }
    println!(
        "SEEN cases={done} strings={} bytes={} events={} tokens={} nodes={} out={} errors={} panics={} bangs={}",
        seen.strings, seen.bytes, seen.events, seen.tokens, seen.nodes, seen.out, seen.errors, seen.panics, seen.bangs
    );
}
