//! Module Multi: simulations on threads and as instances, interleaved.
use crate::classical::{Case, Out, s, u};
use crate::ffi::{self, Ending, q};
use crate::slots;
use qir_backend::*;
use quantum_sparse_sim::QuantumSim;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::mpsc::{Receiver, Sender, channel};

const SEEDS: [u64; 4] = [7, 7, 99, 7];

/// A simulator instance.
struct Instance {
    sim: QuantumSim,
    ids: HashMap<usize, usize>,
    res: HashMap<usize, bool>,
}

impl Instance {
    fn new(c: usize) -> Self {
        let mut sim = QuantumSim::default();
        sim.set_rng_seed(SEEDS[c - 1]);
        Self { sim, ids: HashMap::new(), res: HashMap::new() }
    }

    fn id(&mut self, a: usize) -> usize {
        let sim = &mut self.sim;
        *self.ids.entry(a).or_insert_with(|| sim.allocate())
    }

    fn op(&mut self, e: &Value) -> i64 {
        let (a, b) = (u(e, "a"), u(e, "b"));
        let op = s(e, "op");
        let x = self.id(a);
        match op {
            "x" => self.sim.x(x),
            "h" => self.sim.h(x),
            "z" => self.sim.z(x),
            "cx" | "bell" | "swap" => {
                let y = self.id(b);
                match op {
                    "cx" => self.sim.mcx(&[x], y),
                    "bell" => {
                        self.sim.h(x);
                        self.sim.mcx(&[x], y);
                    }
                    _ => self.sim.swap_qubit_ids(x, y),
                }
            }
            "m" => return i64::from(self.sim.measure(x)),
            "mz" | "mrz" | "rst" => {
                let m = self.sim.measure(x);
                if op != "mz" && m {
                    self.sim.x(x);
                }
                if op != "rst" {
                    self.res.insert(b, m);
                }
            }
            "isz" => return i64::from(self.sim.qubit_is_zero(x)),
            "rd" => return i64::from(self.res.get(&b).copied().unwrap_or(false)),
            "wr0" | "wr1" => {
                self.res.insert(b, op == "wr1");
            }
            "snap" => {
                let _ = self.sim.dump();
            }
            x => panic!("driver: unknown operation {x}"),
        }
        -1
    }
}

type Job = (usize, Value);
type Report = (i64, String);

/// One thread: a QIR program of its own and the instances that live there.
fn thread(c: usize, jobs: &Receiver<Job>, reports: &Sender<Report>) {
    let mut here = HashMap::new();
    ffi::buffered();
    set_rng_seed(SEEDS[c - 1]);
    while let Ok((who, e)) = jobs.recv() {
        let mut text = String::new();
        let v = if who == c {
            match s(&e, "op") {
                "say" => {
                    let m = ffi::mkstr(u(&e, "a").to_string().repeat(u(&e, "b")).as_bytes());
                    unsafe { __quantum__rt__message(m) };
                    ffi::free_str(m);
                    -1
                }
                "rec" => {
                    unsafe { __quantum__rt__result_record_output(q(u(&e, "b")), std::ptr::null_mut()) };
                    -1
                }
                "drain" => {
                    text = String::from_utf8_lossy(&ffi::drain_output()).into_owned();
                    -1
                }
                "out" => {
                    OUTPUT.with(|o| o.borrow_mut().use_std_out(true));
                    -1
                }
                "buf" => {
                    ffi::buffered();
                    -1
                }
                "snap" => {
                    let _ = capture_quantum_state();
                    -1
                }
                _ => slots::op(&e),
            }
        } else {
            here.entry(who).or_insert_with(|| Instance::new(who)).op(&e)
        };
        if reports.send((v, text)).is_err() {
            return;
        }
    }
}

struct Worker {
    jobs: Option<Sender<Job>>,
    reports: Receiver<Report>,
    join: Option<std::thread::JoinHandle<()>>,
}

impl Worker {
    fn new(c: usize) -> Self {
        let (jobs, r) = channel();
        let (t, reports) = channel();
        Self { jobs: Some(jobs), reports, join: Some(std::thread::spawn(move || thread(c, &r, &t))) }
    }
    fn send(&self, c: usize, e: &Value) {
        self.jobs.as_ref().unwrap().send((c, e.clone())).expect("thread lives");
    }
    fn end(&mut self) {
        self.jobs = None;
        self.join.take().unwrap().join().expect("thread ended");
    }
}

/// Which thread a simulation is on.
fn host(c: usize, kinds: &[&str]) -> usize {
    if kinds[c - 1] == "qir" { c } else { 1 }
}

struct World<'a> {
    kinds: &'a [&'a str],
    workers: HashMap<usize, Worker>,
}

impl<'a> World<'a> {
    fn new(kinds: &'a [&'a str]) -> Self {
        Self { kinds, workers: HashMap::new() }
    }

    /// One step; everything else stands still meanwhile.
    fn step(&mut self, e: &Value) -> Report {
        let c = u(e, "c");
        let h = host(c, self.kinds);
        if s(e, "op") == "fresh" {
            if let Some(mut w) = self.workers.remove(&h) {
                w.end();
            }
            return (-1, String::new());
        }
        let w = self.workers.entry(h).or_insert_with(|| Worker::new(h));
        w.send(c, e);
        w.reports.recv().expect("thread lives")
    }

    fn end(&mut self) {
        for w in self.workers.values_mut() {
            w.end();
        }
    }
}

fn live(list: &[Value]) -> impl Iterator<Item = &Value> {
    list.iter().filter(|e| u(e, "c") > 0)
}

fn interleaved(list: &[Value], kinds: &[&str]) -> Vec<Report> {
    let mut w = World::new(kinds);
    let r = live(list).map(|e| w.step(e)).collect();
    w.end();
    r
}

/// Every simulation by itself.
fn alone(list: &[Value], kinds: &[&str]) -> Vec<Report> {
    let all: Vec<&Value> = live(list).collect();
    let mut out = vec![(0, String::new()); all.len()];
    for c in 1..=kinds.len() {
        let mut w = World::new(kinds);
        for (n, e) in all.iter().enumerate() {
            if u(e, "c") == c {
                out[n] = w.step(e);
            }
        }
        w.end();
    }
    out
}

/// All threads at once.
fn free(list: &[Value], kinds: &[&str]) -> Vec<Report> {
    let all: Vec<&Value> = live(list).collect();
    let mut out = vec![(0, String::new()); all.len()];
    let barrier = std::sync::Barrier::new(kinds.len());
    let per: Vec<Vec<(usize, Report)>> = std::thread::scope(|t| {
        let hs: Vec<_> = (1..=kinds.len())
            .map(|h| {
                let (all, barrier) = (&all, &barrier);
                t.spawn(move || {
                    let mut w = World::new(kinds);
                    barrier.wait();
                    let r = all
                        .iter()
                        .enumerate()
                        .filter(|(_, e)| host(u(e, "c"), kinds) == h)
                        .map(|(n, e)| (n, w.step(e)))
                        .collect();
                    w.end();
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread ended")).collect()
    });
    for (n, r) in per.into_iter().flatten() {
        out[n] = r;
    }
    out
}

const KINDS: [&[&str]; 3] = [&["qir", "qir", "sim", "sim"], &["qir", "qir", "qir"], &["sim", "sim"]];

fn compare(list: &[Value], got: &[Report], how: &str) -> Out {
    for (n, (e, (v, t))) in live(list).zip(got).enumerate() {
        if *v != e["v"].as_i64().unwrap() || t != s(e, "t") {
            return Err(format!(
                "{how}, step {n}: {} in simulation {} reported {v} {t:?}, must report {} {:?}",
                s(e, "op"),
                u(e, "c"),
                e["v"],
                s(e, "t")
            ));
        }
    }
    Ok(())
}

pub fn replay(c: &mut Case, which: usize) -> Out {
    let kinds = KINDS[which];
    let list = c.steps;
    let want = s(list.last().unwrap(), "t");
    let shared = list.iter().any(|e| s(e, "op") == "out");
    c.ops += 2 * list.len() as u64;
    let (e, out, report) = ffi::captured(|| {
        compare(list, &interleaved(list, kinds), "interleaved")?;
        if !shared {
            compare(list, &free(list, kinds), "all at once")?;
        }
        Ok(())
    });
    if !report.is_empty() {
        return Err(report);
    }
    if e != Ending::Ok {
        return Err(format!("the program ended {e:?}"));
    }
    if out != want.as_bytes() {
        return Err(format!("standard output is {:?}, must be {want:?}", String::from_utf8_lossy(&out)));
    }
    Ok(())
}

pub fn record(list: &[Value], which: usize) -> Vec<Value> {
    let kinds = KINDS[which];
    let mut out = vec![json!({"op": "start", "run": 0, "c": 0, "n": 0, "v": 0, "t": ""})];
    let mut put = |run: usize, got: Vec<Report>| {
        let mut at = HashMap::new();
        for (e, (v, t)) in live(list).zip(got) {
            let n = at.entry(u(e, "c")).or_insert(0);
            *n += 1;
            out.push(json!({"op": e["op"], "run": run, "c": e["c"], "n": *n, "v": v, "t": t}));
        }
    };
    put(0, alone(list, kinds));
    put(1, interleaved(list, kinds));
    put(2, free(list, kinds));
    put(3, free(list, kinds));
    out
}
