//! Modules Runner and RunnerShots: programs given to the runner in every
//! form it takes, and what comes back.
use crate::classical::{Case, Out, i, s, u};
use crate::ffi;
use crate::render;
use crate::rng::Rng;
use crate::text::pieces;
use serde_json::{Value, json};
use std::io::{Cursor, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// A scratch directory beside the input.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(input: &str) -> Self {
        let d = PathBuf::from(format!("{input}.d"));
        std::fs::create_dir_all(&d).expect("driver: scratch directory");
        Dir(d)
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

pub fn bitcode(text: &str, to: &Path) -> Vec<u8> {
    use inkwell::{context::Context, memory_buffer::MemoryBuffer};
    let c = Context::create();
    let m = c
        .create_module_from_ir(MemoryBuffer::create_from_memory_range_copy(text.as_bytes(), "program"))
        .unwrap_or_else(|e| panic!("driver: the program cannot be read: {}\n{text}", e.to_string()));
    assert!(m.write_bitcode_to_path(to), "driver: bitcode written");
    std::fs::read(to).expect("driver: bitcode")
}

fn wrapped(b: &[u8]) -> Vec<u8> {
    let mut w = vec![0xDE, 0xC0, 0x17, 0x0B, 0, 0, 0, 0, 20, 0, 0, 0];
    w.extend((b.len() as u32).to_le_bytes());
    w.extend(0x0100_0007u32.to_le_bytes());
    w.extend(b);
    w
}

/// How a run ended and what it wrote.
pub struct Ran {
    pub result: Result<(), String>,
    pub out: Vec<u8>,
    /// what is left in the output buffer
    pub kept: Vec<u8>,
}

pub struct Request<'a> {
    pub form: &'a str,
    pub shots: u32,
    pub filter: Option<&'a str>,
    pub seed: Option<u64>,
    pub harm: &'a str,
    pub style: usize,
}

fn spoiled(harm: &str, bytes: &mut Vec<u8>, text: &str, is_text: bool, rng: &mut Rng) {
    match harm {
        "garbage" => {
            let n = 4 + rng.below(200);
            *bytes = if rng.flip() {
                (0..n).map(|_| b"%@#;{}()= abcdefine"[rng.below(19)]).collect()
            } else {
                (0..n).map(|_| rng.next() as u8 | 0x80).collect()
            };
            // comments alone are an empty program, which is rejected too
        }
        "empty" => bytes.clear(),
        "short" => *bytes = (0..=rng.below(3)).map(|_| b"BC\xC0\xDE;\n d"[rng.below(8)]).collect(),
        "cut" => {
            if is_text {
                // somewhere inside the last body
                let start = text.rfind("entry:\n").unwrap_or(0);
                let end = text[start..].find('}').map_or(text.len(), |e| start + e);
                let (lo, hi) = if start < end { (start, end) } else { (start, start + 5) };
                bytes.truncate(lo + rng.below((hi - lo).max(1)));
            } else {
                let n = bytes.len();
                bytes.truncate(4 + rng.below(n / 2));
            }
        }
        "verify" => {
            let bad = [
                "define void @broken() {\n  %a = add i32 %a, 1\n  ret void\n}\n",
                "define i32 @broken(i1 %c) {\n  br i1 %c, label %x, label %y\nx:\n  %a = add i32 1, 1\n  br label %y\ny:\n  ret i32 %a\n}\n",
            ];
            bytes.extend(bad[rng.below(2)].as_bytes());
        }
        _ => {}
    }
}

/// The program as the request wants it: in a file, or as bytes.
fn prepared(r: &Request, text: &str, dir: &Dir, rng: &mut Rng) -> (Option<PathBuf>, Vec<u8>) {
    let is_bc = matches!(r.form, "bc" | "bcll" | "cli-bc" | "bcbytes") || (r.form == "bitcode" && r.style % 2 == 0)
        || (matches!(r.form, "input" | "cli-stdin" | "cli-dash") && r.style % 4 == 1);
    // a program that does not verify is not one that bitcode can be made of
    let text_too = r.harm == "verify" && matches!(r.form, "bc" | "cli-bc");
    let mut bytes = if is_bc && r.harm != "verify" {
        let b = bitcode(text, &dir.file("made.bc"));
        if r.style % 3 == 2 && r.form != "bcll" { wrapped(&b) } else { b }
    } else {
        text.as_bytes().to_vec()
    };
    if r.harm != "textbc" {
        spoiled(r.harm, &mut bytes, text, !is_bc, rng);
    } else {
        bytes = text.as_bytes().to_vec();
    }
    let ext = if text_too { "ll" } else if r.form.ends_with("bc") { "bc" } else { "ll" };
    let name = match r.harm {
        "ext" => ["program.txt", "program.llx", "program.bc.ll2", "program.o"][r.style % 4].to_string(),
        "noext" => ["program", "bc", ".ll", "program-"][r.style % 4].to_string(),
        "upper" => format!("program.{}", ext.to_uppercase()),
        "textbc" => "program.bc".into(),
        "dir" | "missing" => format!("{}.{ext}", r.harm),
        _ => [format!("program.{ext}"), format!("pro gram.x.{ext}"), format!("-p.{ext}")][r.style % 3].clone(),
    };
    let file = dir.file(&name);
    let is_file = matches!(r.form, "ll" | "bc" | "bcll" | "cli-ll" | "cli-bc");
    if is_file {
        match r.harm {
            "missing" => {
                std::fs::remove_file(&file).ok();
            }
            "dir" => std::fs::create_dir_all(&file).expect("driver: directory"),
            _ => std::fs::write(&file, &bytes).expect("driver: program written"),
        }
    }
    (is_file.then_some(file), bytes)
}

/// Programs for a session of Python: for each step where it is.
pub fn render(steps: &[Value], seed: u64, dir: &Path) -> Vec<Value> {
    let programs = steps.iter().enumerate().map(|(n, e)| {
        let mut rng = Rng::new(seed.wrapping_add(n as u64));
        let d = Dir(dir.join(n.to_string()));
        std::fs::create_dir_all(&d.0).expect("driver: directory");
        let (text, r) = if e["req"].is_object() {
            (render::module(e), request(&e["req"]))
        } else {
            let r = Request { form: s(e, "form"), shots: 1, filter: None, seed: None, harm: "", style: u(e, "style") };
            (random_program(u(e, "p")), r)
        };
        let (file, bytes) = prepared(&r, &text, &d, &mut rng);
        let data = d.file("data");
        std::fs::write(&data, bytes).expect("driver: program written");
        // the files stay
        std::mem::forget(d);
        json!({"file": file, "data": data})
    });
    programs.collect()
}

pub fn run(r: &Request, text: &str, dir: &Dir, rng: &mut Rng) -> Ran {
    let (file, bytes) = prepared(r, text, dir, rng);
    if r.form.starts_with("cli") {
        return command(r, file.as_ref(), &bytes);
    }
    let mut whole = vec![];
    let mut little = Little { out: vec![], at_most: [1, 3, 7, 64][r.style % 4], calls: 0 };
    ffi::buffered();
    let result = if rng.one_in(3) {
        entered(r, file.as_ref(), &bytes, &mut little)
    } else {
        entered(r, file.as_ref(), &bytes, &mut whole)
    };
    whole.extend(little.out);
    Ran { result, out: whole, kept: ffi::drain_output() }
}

fn entered(r: &Request, file: Option<&PathBuf>, bytes: &[u8], out: &mut impl Write) -> Result<(), String> {
    match r.form {
        "ll" | "bc" | "bcll" => runner::run_file(file.expect("driver: a file"), r.filter, r.shots, r.seed, out),
        "input" if r.style % 2 == 0 => runner::run_input(&mut Cursor::new(bytes), r.filter, r.shots, r.seed, out),
        // a reader that gives a little at a time
        "input" => runner::run_input(&mut Slowly(bytes), r.filter, r.shots, r.seed, out),
        "bitcode" if r.seed.is_none() => runner::run_bitcode(bytes, r.filter, r.shots, out),
        _ => runner::run_bytes(bytes, r.filter, r.shots, r.seed, out),
    }
}

/// Takes a little of what it is given each time, and is interrupted now and then.
struct Little {
    out: Vec<u8>,
    at_most: usize,
    calls: usize,
}
impl Write for Little {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 5 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.at_most);
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Slowly<'a>(&'a [u8]);
impl Read for Slowly<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(7);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// The program itself, with arguments.
fn command(r: &Request, file: Option<&PathBuf>, bytes: &[u8]) -> Ran {
    let exe = std::env::current_exe().expect("driver: own path").with_file_name("qir-runner");
    let long = r.style % 2 == 0;
    let mut a: Vec<Vec<String>> = vec![];
    let opt = |l: &str, s: &str, v: String| {
        if r.style % 3 == 0 {
            vec![format!("--{l}={v}")]
        } else if long {
            vec![format!("--{l}"), v]
        } else {
            vec![format!("-{s}"), v]
        }
    };
    if let Some(f) = file {
        a.push(opt("file", "f", f.display().to_string()));
    } else if r.form == "cli-dash" {
        a.push(opt("file", "f", "-".into()));
    }
    if r.shots != 1 || r.style % 4 == 3 {
        a.push(opt("shots", "s", r.shots.to_string()));
    }
    if let Some(e) = r.filter {
        a.push(opt("entrypoint", "e", e.into()));
    }
    if let Some(s) = r.seed {
        a.push(opt("rngseed", "r", s.to_string()));
    }
    match r.harm {
        "shots" => {
            a.retain(|x| !x[0].starts_with("-s") && !x[0].starts_with("--s"));
            a.push(vec![format!("--shots={}", ["x", "-1", "4294967296", "1.5"][r.style % 4])]);
        }
        "option" => a.push(vec![["--bogus", "-z", "--shot", "--runs=3"][r.style % 4].into()]),
        "seed" => {
            a.retain(|x| !x[0].starts_with("-r") && !x[0].starts_with("--r"));
            a.push(vec![format!("--rngseed={}", ["-1", "18446744073709551616", "0x3", ""][r.style % 4])]);
        }
        "extra" => a.push(vec!["program.ll".into()]),
        "novalue" => a.push(vec![["-e", "--file", "-r"][r.style % 3].into()]),
        _ => {}
    }
    let at = r.style % a.len().max(1);
    if r.harm != "novalue" {
        a.rotate_left(at);
    }
    let mut p = Command::new(exe)
        .args(a.iter().flatten())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("driver: qir-runner started");
    let mut stdin = p.stdin.take().expect("driver: pipe");
    let data = bytes.to_vec();
    let feed = std::thread::spawn(move || {
        stdin.write_all(&data).ok();
    });
    let o = p.wait_with_output().expect("driver: qir-runner ended");
    feed.join().ok();
    let result = match o.status.code() {
        Some(0) => Ok(()),
        // a panic is not an error reported
        Some(101) | None => Err(format!("ended by {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr))),
        _ => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
    };
    let abnormal = matches!(o.status.code(), Some(101) | None);
    let kept = if abnormal { result.clone().unwrap_err().into_bytes() } else { vec![] };
    Ran { result, out: o.stdout, kept }
}

fn lossy(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.len() > 1500 { format!("{}...", t.chars().take(1500).collect::<String>()) } else { t.into_owned() }
}

/// Machine dumps as the specification writes them: results up to the last
/// that is one, and a state that is a single number without its phase.
fn plain(out: &[u8]) -> Vec<u8> {
    let mut t = vec![];
    for l in out.split_inclusive(|b| *b == b'\n') {
        match std::str::from_utf8(l).ok().and_then(|l| results(l).or_else(|| state(l))) {
            Some(s) => t.extend(s.into_bytes()),
            None => t.extend(l),
        }
    }
    t
}
fn results(l: &str) -> Option<String> {
    let list = l.strip_prefix("Global Results: [")?.strip_suffix("]\n")?;
    let mut all: Vec<&str> = list.split(", ").filter(|x| !x.is_empty()).collect();
    while all.last() == Some(&"0") {
        all.pop();
    }
    Some(format!("Global Results: [{}]\n", all.join(", ")))
}
fn state(l: &str) -> Option<String> {
    let terms = l.strip_prefix("STATE: [ ")?.strip_suffix(", ]\n")?;
    let mut whole = None;
    for x in terms.split(", ") {
        let (ket, amplitude) = x.strip_prefix('|')?.split_once("\u{27e9}: ")?;
        // a negative zero
        let n = &amplitude.strip_suffix('i')?.replace("+-", "-");
        // the sign between the parts, not one of an exponent
        let at = (1..n.len()).find(|k| matches!(n.as_bytes()[*k], b'+' | b'-') && n.as_bytes()[k - 1] != b'e')?;
        let (re, im): (f64, f64) = (n[..at].parse().ok()?, n[at..].parse().ok()?);
        let size = re * re + im * im;
        if (size - 1.0).abs() < 1e-6 && whole.is_none() {
            whole = Some(ket);
        } else if size > 1e-6 {
            return None;
        }
    }
    Some(format!("STATE: [ |{}\u{27e9}: 1+0i, ]\n", whole?))
}

fn request(q: &Value) -> Request<'_> {
    Request {
        form: s(q, "form"),
        shots: u(q, "shots") as u32,
        filter: q["filter"].as_array().unwrap().first().map(|x| x.as_str().unwrap()),
        seed: q["seed"].as_array().unwrap().first().map(|x| x.as_u64().unwrap()),
        harm: s(q, "harm"),
        style: u(q, "style"),
    }
}

pub fn replay(c: &mut Case, dir: &Dir) -> Out {
    c.ops += c.steps.len() as u64;
    let (ending, out, report) = ffi::captured(|| {
        for (n, e) in c.steps.iter().enumerate() {
            let mut rng = Rng::new(c.seed.wrapping_add(n as u64));
            let text = render::module(e);
            let r = request(&e["req"]);
            let want = pieces(&e["out"]).repeat(u(e, "times"));
            std::fs::write(dir.file("last.ll"), &text).ok();
            let mut got = run(&r, &text, dir, &mut rng);
            got.out = plain(&got.out);
            let at = format!("run {n} ({} {}, {} shots, entry point {:?})", r.form, r.harm, r.shots, r.filter);
            if s(e, "verdict") == "failed" {
                // in a process of its own, however that ends
                if got.result.is_ok() {
                    return Err(format!("{at} must fail, but ended well and wrote {:?}\n{text}", lossy(&got.out)));
                }
                if got.out != want {
                    return Err(format!("{at} wrote {:?} and failed, must write {:?}\n{text}", lossy(&got.out), lossy(&want)));
                }
                continue;
            }
            if !got.kept.is_empty() {
                return Err(format!("{at} left {:?}\n{text}", lossy(&got.kept)));
            }
            match (s(e, "verdict"), &got.result) {
                ("ran", Ok(())) => {
                    if got.out != want {
                        return Err(format!("{at} wrote {:?}, must be {:?}\n{text}", lossy(&got.out), lossy(&want)));
                    }
                }
                ("ran", Err(m)) => return Err(format!("{at} was rejected: {m}\n{text}")),
                ("rejected", Err(_)) => {
                    if !got.out.is_empty() {
                        return Err(format!("{at} was rejected after writing {:?}\n{text}", lossy(&got.out)));
                    }
                }
                (_, Err(_)) => {
                    if got.out.windows(4).any(|w| w == b"END\t") {
                        return Err(format!("{at} was refused after a shot: {:?}\n{text}", lossy(&got.out)));
                    }
                }
                (v, Ok(())) => return Err(format!("{at} must be {v}, but ran and wrote {:?}\n{text}", lossy(&got.out))),
            }
        }
        Ok(())
    });
    if !report.is_empty() {
        return Err(report);
    }
    if ending != ffi::Ending::Ok {
        let t = std::fs::read_to_string(dir.file("last.ll")).unwrap_or_default();
        return Err(format!("the runner took the process down ({ending:?}); the last program is\n{t}"));
    }
    if !out.is_empty() {
        return Err(format!("standard output got {:?}", lossy(&out)));
    }
    Ok(())
}

/// Programs whose results are random, by number.
fn random_program(p: usize) -> String {
    let head = "declare void @__quantum__qis__h__body(ptr)\ndeclare void @__quantum__qis__mz__body(ptr, ptr)\n\
        declare ptr @__quantum__qis__m__body(ptr)\ndeclare ptr @__quantum__rt__qubit_allocate()\n\
        declare void @__quantum__rt__qubit_release(ptr)\ndeclare void @__quantum__qis__cnot__body(ptr, ptr)\n\
        declare void @__quantum__qis__ry__body(double, ptr)\n\
        declare void @__quantum__rt__result_record_output(ptr, ptr)\n";
    let (q1, r1) = (render::pointer(1), render::pointer(1));
    let body = match p {
        0 => "call void @__quantum__qis__h__body(ptr null)\n  call void @__quantum__qis__mz__body(ptr null, ptr null)\n  \
              call void @__quantum__rt__result_record_output(ptr null, ptr null)\n"
            .to_string(),
        1 => format!(
            "call void @__quantum__qis__ry__body(double {}, ptr null)\n  call void @__quantum__qis__h__body({q1})\n  \
             call void @__quantum__qis__cnot__body({q1}, ptr null)\n  call void @__quantum__qis__mz__body(ptr null, ptr null)\n  \
             call void @__quantum__qis__mz__body({q1}, {r1})\n  call void @__quantum__rt__result_record_output(ptr null, ptr null)\n  \
             call void @__quantum__rt__result_record_output({r1}, ptr null)\n",
            render::number(1.1)
        ),
        _ => "%q = call ptr @__quantum__rt__qubit_allocate()\n  call void @__quantum__qis__h__body(ptr %q)\n  \
              %r = call ptr @__quantum__qis__m__body(ptr %q)\n  call void @__quantum__rt__result_record_output(ptr %r, ptr null)\n  \
              call void @__quantum__rt__qubit_release(ptr %q)\n"
            .to_string(),
    };
    format!("{head}\ndefine void @main() \"entry_point\" {{\n  {body}  ret void\n}}\n")
}

/// Some of them agree in their low or their high half.
const SEEDS: [u64; 8] = [0, 42, u64::MAX, 1 << 32, 42 + (7 << 32), 1 << 63, u32::MAX as u64, 43];

/// Runs programs with random results; one event for each run, with what
/// each shot recorded.
pub fn record(c: &mut Case, dir: &Dir) -> Result<Vec<Value>, String> {
    let mut list = vec![json!({"op": "start", "p": 0, "seed": 0, "own": false, "shots": 0, "out": []})];
    for (n, e) in c.steps.iter().enumerate() {
        c.ops += 1;
        let mut rng = Rng::new(c.seed.wrapping_add(n as u64));
        let p = u(e, "p");
        let r = Request {
            form: s(e, "form"),
            shots: u(e, "shots") as u32,
            filter: None,
            seed: usize::try_from(i(e, "seed")).ok().map(|k| SEEDS[k]),
            harm: "",
            style: u(e, "style"),
        };
        let got = run(&r, &random_program(p), dir, &mut rng);
        if let Err(m) = got.result {
            return Err(format!("run {n} was rejected: {m}"));
        }
        let text = String::from_utf8(got.out).map_err(|e| e.to_string())?;
        let mut shots: Vec<String> = vec![];
        for l in text.lines() {
            if l == "START" {
                shots.push(String::new());
            } else if let Some(x) = l.strip_prefix("OUTPUT\tRESULT\t") {
                if let Some(s) = shots.last_mut() {
                    s.push_str(x);
                }
            }
        }
        list.push(json!({"op": "run", "p": p, "seed": i(e, "seed"), "own": r.form.starts_with("cli"), "shots": r.shots, "out": shots}));
    }
    Ok(list)
}
