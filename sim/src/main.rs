#![recursion_limit = "256"]
#![allow(static_mut_refs, dead_code, unused_imports, unused_macros, clippy::all)]
mod alloc;
mod driver;
mod fed;
mod gen;
mod gql;
mod intercept;
#[macro_use]
mod json;
mod kernel;
mod net;
mod rng;
#[macro_use]
mod run;
mod sys;
mod world;
mod p01;
mod p13;
mod p12;
mod p17;
mod p11;
mod p10;
mod p07;
mod p14;
mod flaky;
mod stream;
mod p15;
mod jwt;
mod p25;
mod p24;
mod p02;
mod common;
mod p03;
mod p04;
mod p06;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

use run::Scn;
static SCNS: &[Scn] = &[
    Scn { id: "P01", setup: p01::setup, quick: 3000, thorough: 100_000, rule: "at least one federated query was answered and compared with the reference" },
    Scn { id: "P02", setup: p02::setup, quick: 3000, thorough: 100_000, rule: "at least one query was answered while subgraphs were failing" },
    Scn { id: "P03", setup: p03::setup, quick: 2500, thorough: 100_000, rule: "at least one mutation was executed and its upstream history judged" },
    Scn { id: "P04", setup: p04::setup4, quick: 2500, thorough: 100_000, rule: "overlapping requests were answered with router-level in-flight sharing on" },
    Scn { id: "P05", setup: p04::setup5, quick: 2500, thorough: 100_000, rule: "overlapping requests were answered with subgraph-level in-flight sharing configured" },
    Scn { id: "P06", setup: p06::setup, quick: 2500, thorough: 100_000, rule: "at least one request was answered and timed while subgraphs were slow or stalled" },
    Scn { id: "P07", setup: p07::setup7, quick: 2500, thorough: 100_000, rule: "a request was answered by some published supergraph version and judged" },
    Scn { id: "P08", setup: p07::setup8, quick: 2500, thorough: 100_000, rule: "a request was answered while or after the supergraph source failed and judged" },
    Scn { id: "P10", setup: p10::setup, quick: 2000, thorough: 100_000, rule: "a subscriber received at least one event, compared with the event sent" },
    Scn { id: "P11", setup: p11::setup, quick: 2000, thorough: 100_000, rule: "WebSocket clients over graphql-transport-ws; acknowledgement, one terminal message per operation, close codes, release" },
    Scn { id: "P12", setup: p12::setup, quick: 2500, thorough: 100_000, rule: "clients share pooled WebSocket connections of subgraphs: operations start, complete, fail, connections break, go idle" },
    Scn { id: "P13", setup: p13::setup, quick: 2500, thorough: 100_000, rule: "subscriptions over HTTP callbacks: events, heartbeats kept up or missed, completions, forged and lost messages" },
    Scn { id: "P14", setup: p14::setup, quick: 2500, thorough: 100_000, rule: "a request carrying a token was answered and judged against the key sets delivered to the router" },
    Scn { id: "P15", setup: p15::setup, quick: 2500, thorough: 100_000, rule: "a request touching guarded fields was answered and judged for its own user" },
    Scn { id: "P17", setup: p17::setup, quick: 2500, thorough: 100_000, rule: "long-lived clients come and go in every way; admissions against the limit, slots return" },
    Scn { id: "P24", setup: p24::setup, quick: 2000, thorough: 100_000, rule: "an operation was planned, executed or explained at least twice and compared" },
    Scn { id: "P25", setup: p25::setup, quick: 2500, thorough: 100_000, rule: "a request using fields with progressive overrides was answered and its fetches judged" },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let scn = |id: &str| SCNS.iter().find(|s| s.id == id);
    let code = match arg(1) {
        "list" => {
            for s in SCNS {
                println!("{}", s.id);
            }
            0
        }
        "check" => match scn(arg(2)) {
            Some(s) => driver::check(s, if arg(3) == "thorough" { "thorough" } else { "quick" }),
            None => 2,
        },
        "replay" => driver::replay(SCNS, arg(2)),
        "run" => match scn(arg(2)) {
            Some(s) => {
                let flag = |f: &str| a.iter().any(|x| x == f);
                let o = run::Opts { seed: arg(3).parse().unwrap_or(1), trace: flag("-t"), echo: flag("-e"), calm_sched: flag("--calm"), calm_net: flag("--calm"), ..Default::default() };
                let j = driver::run_one(s, o);
                for key in ["items", "trace", "log"] {
                    for l in j.get(key).and_then(|a| a.arr()).unwrap_or(&vec![]) {
                        println!("{}", l.str().unwrap_or(""));
                    }
                }
                if let json::J::Obj(o) = &j {
                    for (k, v) in o {
                        if !["items", "trace", "log", "cover"].contains(&k.as_str()) {
                            println!("{}: {}", k, v.str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()));
                        }
                    }
                }
                0
            }
            None => 2,
        },
        _ => {
            eprintln!("usage: hrsim list | check P [quick|thorough] | run P SEED [-t] [-e] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
