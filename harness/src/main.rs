//! Conformance driver: replays behaviours generated from the TLA+
//! specification into the real code.
mod alloc;
mod big;
mod calls;
mod classical;
mod ffi;
mod heap;
mod machine;
mod maths;
mod multi;
mod output;
mod qop;
mod replay;
mod rng;
mod seeds;
mod slots;
mod text;

use machine::{Direct, Machine, Qir};
use replay::{Fail, Lift, Player};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[global_allocator]
static MEMORY: alloc::Tracking = alloc::Tracking;

pub static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(String::as_str)
    }
    pub fn req(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("missing --{k}"))
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |v| v.parse().expect("number"))
    }
}

/// Where a run is, so that a death of this process can be attributed.
pub struct Progress(Option<std::fs::File>);
impl Progress {
    pub fn at(&mut self, s: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = s.as_bytes().to_vec();
            b.push(b'\n');
            f.write_at(&b, 0).ok();
        }
    }
}

pub fn lines(path: &str) -> impl Iterator<Item = String> {
    std::io::BufReader::new(std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}")))
        .lines()
        .map(|l| l.expect("readable"))
}

pub fn fail(kind: &str, case: &str, msg: &str, line: &str) -> ! {
    let o = serde_json::json!({"fail": msg, "case": case, "kind": kind, "behaviour": line});
    println!("{o}");
    std::io::stdout().flush().ok();
    std::process::exit(1)
}

fn machine(name: &str) -> Box<dyn Machine> {
    match name {
        "direct" => Box::new(Direct::new()),
        "qir" => Box::new(Qir { stat: false }),
        "static" => Box::new(Qir { stat: true }),
        _ => panic!("unknown machine {name}"),
    }
}

fn qreplay(a: &Args, progress: &mut Progress) {
    let path = a.req("in");
    let lift = match a.get("lift").unwrap_or("none") {
        "wide" => Lift::Wide,
        "pad" => Lift::Pad,
        _ => Lift::None,
    };
    let (shard, of) = a.get("shard").unwrap_or("0/1").split_once('/').unwrap();
    let (shard, of): (usize, usize) = (shard.parse().unwrap(), of.parse().unwrap());
    let seed = a.num("seed", 1);
    let only = a.get("only").map(|x| x.parse::<usize>().unwrap());
    let limit = a.num("limit", u64::MAX);
    let base = a.num("base", 0) as usize;
    let full = a.get("full") != Some("no");
    let born = a.num("born", 0);
    let mut compared = 0;
    let mut m = machine(a.req("machine"));
    let mut head = None;
    let mut prep = vec![];
    let (mut done, mut skipped, mut ops, mut runs, mut states) = (0u64, 0u64, 0, 0, 0);
    let mut idx = 0usize;
    for line in lines(path) {
        let v = replay::parse_line(&line);
        if v.get("start").is_some() {
            if head.is_none() {
                if let Some(p) = v.get("prep").and_then(|p| p.as_array()) {
                    prep = p.iter().map(qop::op).collect();
                }
                head = Some(replay::header(&v));
            }
            continue;
        }
        let n = idx + base;
        idx += 1;
        if n % of != shard || only.is_some_and(|o| o != n) {
            continue;
        }
        if done + skipped >= limit {
            break;
        }
        let case = format!("{path}#{n}");
        progress.at(&case);
        let h = head.as_ref().expect("header line first");
        let mut p = Player::new(h, lift, seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        p.bad = a.get("bad") == Some("yes");
        let res = catch_unwind(AssertUnwindSafe(|| {
            if v.is_array() {
                let recs: Vec<qop::Rec> = v.as_array().unwrap().iter().map(qop::rec).collect();
                if born > 0 {
                    compared += p.born(m.as_mut(), &recs, born)?;
                    return Ok(());
                }
                p.behaviour(m.as_mut(), &recs, full)
            } else {
                replay::lazy_case(&mut p, m.as_mut(), &prep, &v)
            }
        }));
        ops += p.ops;
        runs += p.runs;
        states += p.states;
        match res {
            Ok(Ok(())) => done += 1,
            Ok(Err(Fail::Skip)) => skipped += 1,
            Ok(Err(Fail::Other)) => fail("qreplay", &case, "unexpected outcome", &v.to_string()),
            Ok(Err(Fail::Wrong(e))) => fail("qreplay", &case, &e, &v.to_string()),
            Err(e) => {
                let t = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_default();
                fail("qreplay", &case, &format!("panicked: {t}"), &v.to_string());
            }
        }
    }
    println!(
        "{}",
        serde_json::json!({"behaviours": done, "skipped": skipped, "ops": ops, "runs": runs, "states": states, "compared": compared})
    );
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mut a = HashMap::new();
    let mut i = 2;
    while i + 1 < argv.len() {
        a.insert(argv[i].trim_start_matches("--").to_string(), argv[i + 1].clone());
        i += 2;
    }
    let a = Args(a);
    let mut progress = Progress(a.get("progress").map(|p| std::fs::File::create(p).unwrap()));
    if a.get("loud").is_none() {
        // one line, in case the process is taken down by it
        std::panic::set_hook(Box::new(|i| {
            let p = i.payload();
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            if !QUIET.load(std::sync::atomic::Ordering::Relaxed) {
                eprintln!("panic at {}: {m}", i.location().map(ToString::to_string).unwrap_or_default());
            }
        }));
    }
    match argv[1].as_str() {
        "qreplay" => qreplay(&a, &mut progress),
        "creplay" => classical::creplay(&a, &mut progress),
        "record" => classical::record(&a, &mut progress),
        x => panic!("unknown command {x}"),
    }
}
