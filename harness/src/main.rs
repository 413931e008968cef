mod alloc;
#[macro_use]
mod core;
mod cli;
mod items;
mod model;
mod plan;
mod props;
mod props2;
mod props3;
mod props4;
mod rng;
mod stream;

use crate::core::*;
use crate::rng::{hash, hex, unhex, Rng};
use std::io::Write;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, default: u64) -> u64 {
    arg(name).map_or(default, |x| x.parse().unwrap())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if let Some(w) = arg("--words") {
        rng::set_words(&w);
    }
    match args.get(1).map(|s| s.as_str()) {
        // run PROP --seed N --tier quick|thorough --out FILE [--threads N] [--trace DIR] [--bin CLI]
        Some("run") => {
            let cx = Cx {
                seed: num("--seed", 1),
                thorough: arg("--tier").as_deref() == Some("thorough"),
                threads: num("--threads", 8) as usize,
                out: arg("--out").unwrap(),
                trace: arg("--trace"),
                bin: arg("--bin"),
                scale: num("--scale", 100),
                until: std::time::Instant::now() + std::time::Duration::from_secs(num("--limit", 100_000)),
            };
            let rep = plan::run(&args[2], &cx);
            std::fs::write(&cx.out, rep.json()).unwrap();
        }
        // replay KIND HEX [--bin CLI] : 0 holds, 1 violated, 2 harness error
        Some("replay") => {
            if let Some(b) = arg("--bin") {
                cli::set_bin(&b);
            }
            let Some(check) = plan::kind(&args[2]) else {
                eprintln!("unknown kind {}", args[2]);
                std::process::exit(2);
            };
            let input = match arg("--file") {
                Some(f) => unhex(&std::fs::read_to_string(f).unwrap()),
                None => unhex(args.get(3).map_or("", |s| s)),
            };
            // with the same small stack as the workers
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let mut obs = Obs::default();
                run_check(check, &input, &mut obs)
            });
            match h.unwrap().join().unwrap() {
                Ok(()) => println!("HOLDS"),
                Err(v) if v.msg.starts_with("HARNESS") => {
                    println!("{}", v.msg);
                    std::process::exit(2);
                }
                Err(v) if !v.sig.is_empty() => println!("KNOWN {} {}", v.sig, v.msg),
                Err(v) => {
                    println!("VIOLATED {}", v.msg);
                    std::process::exit(1);
                }
            }
        }
        // serial PLAN --seed N --n N --skip N --of N : one thread, for interpreters; one line per case
        Some("serial") => {
            let (seed, n, skip, of) = (num("--seed", 1), num("--n", 10), num("--skip", 0), num("--of", 1));
            let mut done = 0u64;
            let mut tags = std::collections::BTreeMap::<String, u64>::new();
            let quiet = arg("--quiet").is_some();
            let mut out = std::io::stdout();
            for i in 0..n {
                let (kind, input) = plan::serial_case(&args[2], seed, skip + i * of);
                if !quiet {
                    let _ = writeln!(out, "CASE {} {}", kind, hex(&input));
                    let _ = out.flush();
                }
                let mut obs = Obs::default();
                let r = run_check(plan::kind(&kind).unwrap(), &input, &mut obs);
                for (k, v) in obs.tags {
                    *tags.entry(k).or_insert(0) += v;
                }
                if let Err(v) = r {
                    let _ = writeln!(out, "FAIL {} {} {}", kind, hex(&input), v.msg.replace('\n', " "));
                }
                done += 1;
            }
            for (k, v) in tags {
                let _ = writeln!(out, "TAG {} {}", v, k);
            }
            let _ = writeln!(out, "DONE {}", done);
        }
        // digest MODE --seed N --n N --out FILE [--only I] : outcomes, one line each
        Some("digest") => {
            let (seed, n) = (num("--seed", 1), num("--n", 100) as usize);
            let mode = args[2].as_str();
            let cases = props2::window(seed, n);
            let all = props::all_items();
            let one = |k: usize| {
                let (i, b) = &cases[k];
                props2::outcome(&all[*i as usize], b)
            };
            let mut lines: Vec<Option<String>> = vec![None; n];
            match mode {
                "forward" => (0..n).for_each(|k| lines[k] = Some(one(k))),
                "reverse" => (0..n).rev().for_each(|k| lines[k] = Some(one(k))),
                "only" => {
                    let k = num("--only", 0) as usize;
                    lines[k] = Some(one(k));
                }
                "warm" => {
                    let mut r = Rng::new(seed ^ 0xAAAA);
                    for _ in 0..num("--warm", 100000) {
                        let k = r.below(n as u64) as usize;
                        let _ = one(k);
                    }
                    (0..n).for_each(|k| lines[k] = Some(one(k)));
                }
                "threads" => {
                    // a new thread for each call, several at a time
                    let one = &one;
                    for chunk in (0..n).collect::<Vec<_>>().chunks(8) {
                        let got: Vec<(usize, String)> = std::thread::scope(|s| {
                            let hs: Vec<_> = chunk.iter().map(|k| (*k, s.spawn(move || one(*k)))).collect();
                            hs.into_iter().map(|(k, h)| (k, h.join().unwrap())).collect()
                        });
                        for (k, g) in got {
                            lines[k] = Some(g);
                        }
                    }
                }
                _ => panic!("mode"),
            }
            let mut text = String::new();
            for (k, l) in lines.iter().enumerate() {
                if let Some(l) = l {
                    let (i, b) = &cases[k];
                    text += &format!("{} {} {} {:016x} {}\n", k, all[*i as usize].name, hex(b), hash(l.as_bytes()), l.replace('\n', " "));
                }
            }
            match arg("--out") {
                Some(f) => std::fs::write(f, text).unwrap(),
                None => print!("{}", text),
            }
        }
        // portable --seed N --n N : encodings and decodings, for comparison between hosts
        Some("portable") => {
            let (seed, n, skip, of) = (num("--seed", 1), num("--n", 100), num("--skip", 0), num("--of", 1));
            let mut out = std::io::stdout();
            for i in 0..n {
                let _ = writeln!(out, "{}", plan::portable(seed, skip + i * of));
            }
            let _ = writeln!(out, "DONE");
        }
        Some("items") => props::all_items().iter().enumerate().for_each(|(i, x)| println!("{:02X} {}", i, x.name)),
        _ => {
            eprintln!("usage: d7mon run|replay|serial|digest|portable|items");
            std::process::exit(2);
        }
    }
}
