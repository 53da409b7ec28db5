//! Replays behaviours of the specifications other than the quantum ones.
//! Each behaviour is a list of records; a record has the operation and what
//! it must report.
use crate::{Args, Progress, big, calls, fail, heap, lines, maths, multi, output, replay, seeds, slots, text};
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub struct Case<'a> {
    pub steps: &'a [Value],
    pub seed: u64,
    /// how many operations of the real system were performed
    pub ops: u64,
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("driver: no text {k} in {v}"))
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("driver: no number {k} in {v}"))
}
pub fn u(v: &Value, k: &str) -> usize {
    i(v, k) as usize
}

pub type Out = Result<(), String>;

fn player(kind: &str) -> fn(&mut Case) -> Out {
    match kind {
        "slots" => slots::replay,
        "big" => big::replay,
        "text" => text::replay,
        "output" => output::replay,
        "multi0" => |c| multi::replay(c, 0),
        "multi1" => |c| multi::replay(c, 1),
        "multi2" => |c| multi::replay(c, 2),
        "calls" => calls::replay,
        "heap" => heap::replay,
        "slice" => heap::slice,
        _ => panic!("driver: unknown kind {kind}"),
    }
}

pub fn creplay(a: &Args, progress: &mut Progress) {
    let path = a.req("in");
    let kind = a.req("kind").to_string();
    let f = player(&kind);
    let seed = a.num("seed", 1);
    let only = a.get("only").map(|x| x.parse::<usize>().unwrap());
    let (mut done, mut steps, mut ops) = (0u64, 0u64, 0u64);
    let mut n = 0;
    for line in lines(path) {
        let v = replay::parse_line(&line);
        if v.get("head").is_some() {
            continue;
        }
        let at = n;
        n += 1;
        if only.is_some_and(|o| o != at) {
            continue;
        }
        let case = format!("{path}#{at}");
        progress.at(&case);
        let list = v.as_array().expect("driver: a behaviour is a list");
        let mut c = Case {
            steps: list,
            seed: seed.wrapping_mul(1_000_003).wrapping_add(at as u64),
            ops: 0,
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        ops += c.ops;
        match r {
            Ok(Ok(())) => {
                done += 1;
                steps += list.len() as u64;
            }
            Ok(Err(e)) => fail(&kind, &case, &e, &v.to_string()),
            Err(e) => {
                let t = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_default();
                fail(&kind, &case, &format!("panicked: {t}"), &v.to_string());
            }
        }
    }
    println!("{}", serde_json::json!({"behaviours": done, "steps": steps, "ops": ops}));
}

/// Runs programs (behaviours without reports) and writes what the real
/// system reported, for the trace specifications.
pub fn record(a: &Args, progress: &mut Progress) {
    use std::io::Write;
    let path = a.req("in");
    let kind = a.req("kind");
    let seed = a.num("seed", 1);
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.req("out")).unwrap());
    let (mut done, mut events) = (0u64, 0u64);
    for (n, line) in lines(path).enumerate() {
        let v = replay::parse_line(&line);
        let case = format!("{path}#{n}");
        progress.at(&case);
        let list = v.as_array().expect("driver: a program is a list");
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            "slots" => slots::record(list, seed.wrapping_mul(7919).wrapping_add(n as u64)),
            "big" => big::record(list, seed.wrapping_mul(7919).wrapping_add(n as u64)),
            "dbl" => text::record_doubles(list, seed.wrapping_mul(7919).wrapping_add(n as u64)),
            "multi0" => multi::record(list, 0),
            "multi1" => multi::record(list, 1),
            "multi2" => multi::record(list, 2),
            "math" => maths::record(list, seed.wrapping_mul(7919).wrapping_add(n as u64)),
            "seeds" => seeds::record(list, seed.wrapping_mul(7919).wrapping_add(n as u64)),
            "seeds-direct" => seeds::record_direct(list, n as u64),
            _ => panic!("driver: unknown kind {kind}"),
        }));
        match r {
            Ok(l) => {
                for e in &l {
                    writeln!(out, "{e}").unwrap();
                }
                events += l.len() as u64;
                done += 1;
            }
            Err(_) => fail(kind, &case, "panicked", &v.to_string()),
        }
    }
    out.flush().unwrap();
    println!("{}", serde_json::json!({"programs": done, "events": events}));
}
