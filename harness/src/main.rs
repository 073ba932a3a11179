#![allow(dead_code)]
mod ast;
mod cli;
mod engine;
mod dev;
mod gen;
mod netns;
mod proj;
mod props;
mod site;
mod tgen;

use engine::*;
use std::collections::HashMap;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    if cmd == "netns" {
        netns::run(&args[3..]);
    }
    netns::keep();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str| o.get(k).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    if cmd == "props" {
        for (n, _) in props::ALL {
            println!("{}", n);
        }
        return;
    }
    let prop = get("prop").expect("--prop");
    let f = props::ALL.iter().find(|(n, _)| *n == prop).expect("unknown property").1;
    // Panics of the code under test are expected to be caught; keep them quiet.
    if std::env::var_os("VH_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let mut ctx = Ctx {
        work: PathBuf::from(get("work").expect("--work")),
        stuart: get("stuart").map(PathBuf::from),
        aux: get("aux").map(PathBuf::from),
        shard: num("shard", 0),
        counter: 0,
        thorough: get("tier").as_deref() == Some("thorough"),
    };
    // The local time zone must not matter. It cannot change within a process.
    let local_time = |shard: u64| {
        if prop == "C10" {
            let zones = ["UTC", "<+0545>-5:45", "EST5EDT,M3.2.0,M11.1.0", "<-11>11", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+14>-14"];
            std::env::set_var("TZ", zones[shard as usize % zones.len()]);
        }
    };
    match cmd.as_str() {
        "run" => {
            local_time(num("shard", 0));
            let a = RunArgs {
                prop: &prop,
                seed: num("seed", 1),
                shard: num("shard", 0),
                cases: num("cases", 100),
                first: num("first", 0),
                progress: get("progress").map(PathBuf::from),
                shrink_budget: num("shrink", 3000),
                max_secs: num("max-secs", 1 << 40),
            };
            // Templates nest deeply, and so does the recursion over them.
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || run_shard(f, &a, &mut ctx))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let text = r.to_string();
            match get("out") {
                Some(p) => std::fs::write(p, text).unwrap(),
                None => println!("{}", text),
            }
        }
        "replay" | "show" => {
            let text = std::fs::read_to_string(get("file").expect("--file")).unwrap();
            let j: serde_json::Value = serde_json::from_str(&text).unwrap();
            let mut src = match j["tape"].as_array() {
                Some(t) => Src::replay(&t.iter().map(|x| x.as_u64().unwrap() as u32).collect::<Vec<_>>()),
                None => Src::random(case_seed(
                    j["seed"].as_u64().unwrap(),
                    &prop,
                    j["shard"].as_u64().unwrap(),
                    j["index"].as_u64().unwrap(),
                )),
            };
            ctx.shard = j["shard"].as_u64().unwrap_or(0);
            local_time(ctx.shard);
            let o = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || f(&mut src, &mut ctx))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            println!("{}", serde_json::to_string_pretty(&o.show).unwrap());
            match o.fail {
                Some((k, d)) => {
                    println!("FAILS: {}\n{}", k, d);
                    std::process::exit(1);
                }
                None => println!("HOLDS"),
            }
        }
        _ => {
            eprintln!("usage: vh run|replay --prop P --work DIR ...");
            std::process::exit(64);
        }
    }
}
