//! Conformance driver for the runner: runs programs that the specification
//! generated through it.
mod classical;
#[path = "../../harness/src/ffi.rs"]
mod ffi;
mod forms;
mod render;
mod uses;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/text.rs"]
#[allow(dead_code)]
mod text;

use classical::{Case, Out};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;

fn parse(line: &str) -> Value {
    let v: Value = serde_json::from_str(line).expect("driver: JSON");
    match v {
        Value::String(t) => serde_json::from_str(&t).expect("driver: JSON inside"),
        v => v,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get: HashMap<&str, &str> =
        a[2..].chunks(2).map(|p| (p[0].trim_start_matches("--"), p[1].as_str())).collect();
    let kind = get["kind"];
    let seed: u64 = get.get("seed").map_or(1, |s| s.parse().expect("driver: a number"));
    let only: Option<usize> = get.get("only").map(|s| s.parse().expect("driver: a number"));
    let progress = get.get("progress").map(|p| std::fs::File::create(p).expect("driver: progress file"));
    let path = get["in"];
    let dir = forms::Dir::new(path);
    let mut record = get.get("out").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("driver: output")));
    let (mut done, mut steps, mut ops) = (0u64, 0u64, 0u64);
    for (n, line) in std::io::BufReader::new(std::fs::File::open(path).expect("driver: input")).lines().enumerate() {
        if only.is_some_and(|o| o != n) {
            continue;
        }
        let v = parse(&line.expect("driver: readable"));
        let case = format!("{path}#{n}");
        if let Some(f) = &progress {
            f.write_at(format!("{case}\n").as_bytes(), 0).ok();
        }
        let list = v.as_array().or(v["hist"].as_array()).expect("driver: a behaviour is a list");
        if kind == "render" {
            let to = std::path::PathBuf::from(get["to"]).join(n.to_string());
            let l = forms::render(list, seed.wrapping_mul(1_000_003).wrapping_add(n as u64), &to);
            writeln!(record.as_mut().expect("driver: --out"), "{}", Value::Array(l)).expect("written");
            continue;
        }
        let mut c = Case { steps: list, seed: seed.wrapping_mul(1_000_003).wrapping_add(n as u64), ops: 0 };
        let r: Out = match kind {
            "runner" => forms::replay(&mut c, &dir),
            "shots" => forms::record(&mut c, &dir).map(|l| {
                for e in &l {
                    writeln!(record.as_mut().expect("driver: --out"), "{e}").expect("written");
                }
            }),
            _ => panic!("driver: unknown kind {kind}"),
        };
        ops += c.ops;
        match r {
            Ok(()) => {
                done += 1;
                steps += list.len() as u64;
            }
            Err(e) => {
                println!(
                    "{}",
                    json!({"fail": format!("{kind} {case}: {e}"), "kind": kind, "case": case, "behaviour": v})
                );
                std::process::exit(1);
            }
        }
    }
    if let Some(mut f) = record {
        f.flush().expect("written");
    }
    println!("{}", json!({"behaviours": done, "programs": done, "steps": steps, "ops": ops}));
}
