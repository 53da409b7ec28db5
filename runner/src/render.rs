//! Programs of the specification as LLVM modules.
use crate::classical::{i, s, u};
use crate::rng::Rng;
use crate::text::{byte_list, double, int64, pieces};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn quoted(b: &[u8]) -> String {
    let mut t = String::from("\"");
    for c in b {
        if *c == b'"' || *c == b'\\' || !(32..127).contains(c) {
            write!(t, "\\{c:02X}").unwrap();
        } else {
            t.push(*c as char);
        }
    }
    t.push('"');
    t
}

pub fn number(x: f64) -> String {
    format!("0x{:016X}", x.to_bits())
}

pub fn pointer(n: usize) -> String {
    if n == 0 { "ptr null".into() } else { format!("ptr inttoptr (i64 {n} to ptr)") }
}

/// Constants and declarations of a module.
#[derive(Default)]
pub struct Parts {
    pub globals: Vec<String>,
    pub items: Vec<String>,
}
impl Parts {
    pub fn text(&mut self, b: &[u8]) -> String {
        let n = self.globals.len();
        let q = quoted(b);
        self.globals.push(format!(
            "@t{n} = private constant [{} x i8] c{}\\00\"",
            b.len() + 1,
            &q[..q.len() - 1]
        ));
        format!("ptr @t{n}")
    }
}

pub struct Ctx<'a> {
    p: &'a Value,
    pub decl: &'a BTreeMap<String, usize>,
    pub parts: Parts,
    types: BTreeMap<String, String>,
    ids: [usize; 3],
    pub fresh: usize,
}

impl Ctx<'_> {
    pub fn v(&mut self) -> String {
        self.fresh += 1;
        format!("%v{}", self.fresh)
    }
    /// A call; the first one decides the types in the declaration.
    pub fn call(&mut self, nm: &str, ret: &str, args: &[String]) -> String {
        let kinds: Vec<&str> = args.iter().map(|a| if a.contains("byval") { a.rsplit_once(' ').unwrap().0 } else { a.split(' ').next().unwrap() }).collect();
        self.types.entry(nm.into()).or_insert_with(|| format!("{ret}|{}", kinds.join("; ")));
        format!("call {ret} @{}({})", quoted(nm.as_bytes()), args.join(", "))
    }
    pub fn qubit(&self, dynamic: bool, k: usize) -> String {
        if dynamic { format!("ptr %q{k}") } else { pointer(self.ids[k]) }
    }
}

/// `@name` declared with so many parameters.
pub fn declare(nm: &str, n: usize, types: Option<&String>) -> String {
    let (ret, args) = match types {
        Some(t) => {
            let (r, a) = t.split_once('|').unwrap();
            let a: Vec<&str> = a.split("; ").filter(|x| !x.is_empty()).collect();
            (r, if a.len() == n { a } else { vec!["ptr"; n] })
        }
        None => ("void", vec!["ptr"; n]),
    };
    format!("declare {ret} @{}({})", quoted(nm.as_bytes()), args.join(", "))
}

#[allow(clippy::too_many_lines)]
fn body(c: &mut Ctx, f: &Value, dynamic: bool, entry: bool) -> String {
    let mut t = String::from("entry:\n");
    let ops = f["body"].as_array().unwrap();
    let refs: Vec<&Value> = ops.iter().filter(|o| s(o, "op") == "ref").collect();
    if !refs.is_empty() {
        t += "  br i1 false, label %never, label %begin\nnever:\n";
        for o in refs {
            let n = c.decl[s(o, "nm")];
            let args = vec!["ptr null"; n].join(", ");
            writeln!(t, "  call void @{}({args})", quoted(s(o, "nm").as_bytes())).unwrap();
        }
        t += "  br label %begin\nbegin:\n";
    }
    let dynamic = dynamic && entry;
    if dynamic {
        for k in 0..3 {
            let x = c.call("__quantum__rt__qubit_allocate", "ptr", &[]);
            writeln!(t, "  %q{k} = {x}").unwrap();
        }
        for k in 0..2 {
            let x = c.call("__quantum__rt__result_get_zero", "ptr", &[]);
            writeln!(t, "  %z{k} = {x}\n  %r{k} = alloca ptr\n  store ptr %z{k}, ptr %r{k}").unwrap();
        }
    }
    for o in ops {
        let nm = s(o, "nm");
        let r = u(o, "r");
        let q: Vec<usize> = o["q"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let label = |c: &mut Ctx| match o["l"].as_array().unwrap().first() {
            None => "ptr null".to_string(),
            Some(l) => c.parts.text(&pieces(l)),
        };
        let result = |c: &mut Ctx, t: &mut String| {
            if dynamic {
                let v = c.v();
                writeln!(t, "  {v} = load ptr, ptr %r{r}").unwrap();
                format!("ptr {v}")
            } else {
                pointer(r)
            }
        };
        match s(o, "op") {
            "g" => {
                let mut a = vec![];
                if ["rx", "ry", "rxx", "ryy"].iter().any(|g| nm.ends_with(&format!("__{g}__body"))) {
                    a.push(format!("double {}", number(std::f64::consts::PI)));
                } else if ["rz", "rzz"].iter().any(|g| nm.ends_with(&format!("__{g}__body"))) {
                    a.push(format!("double {}", number(0.3)));
                }
                a.extend(q.iter().map(|k| c.qubit(dynamic, *k)));
                let x = c.call(nm, "void", &a);
                writeln!(t, "  {x}").unwrap();
            }
            "m" => {
                let target = c.qubit(dynamic, q[0]);
                if dynamic {
                    let v = c.v();
                    let x = c.call(nm, "ptr", &[target]);
                    writeln!(t, "  {v} = {x}\n  store ptr {v}, ptr %r{r}").unwrap();
                } else {
                    let x = c.call(nm, "void", &[target, pointer(r)]);
                    writeln!(t, "  {x}").unwrap();
                }
            }
            "if" => {
                let v = result(c, &mut t);
                let b = c.v();
                let x = if nm.ends_with("result_equal") {
                    let one = c.v();
                    let x = c.call("__quantum__rt__result_get_one", "ptr", &[]);
                    writeln!(t, "  {one} = {x}").unwrap();
                    c.call(nm, "i1", &[v, format!("ptr {one}")])
                } else {
                    c.call(nm, "i1", &[v])
                };
                let target = c.qubit(dynamic, q[0]);
                let flip = c.call("__quantum__qis__x__body", "void", &[target]);
                let k = c.fresh;
                writeln!(
                    t,
                    "  {b} = {x}\n  br i1 {b}, label %then{k}, label %else{k}\nthen{k}:\n  {flip}\n  br label %else{k}\nelse{k}:"
                )
                .unwrap();
            }
            "wr" => {
                let x = c.call(nm, "void", &[format!("i1 {}", o["in"][0] == 1), pointer(r)]);
                writeln!(t, "  {x}").unwrap();
            }
            "init" => {
                let x = c.call(nm, "void", &["ptr null".into()]);
                writeln!(t, "  {x}").unwrap();
            }
            "bar" => {
                let x = c.call(nm, "void", &[]);
                writeln!(t, "  {x}").unwrap();
            }
            "asm" => t += "  call void @llvm.donothing()\n",
            "call" => writeln!(t, "  call void @{}()", quoted(s(&c.p["funcs"][r - 1], "nm").as_bytes())).unwrap(),
            "use" => crate::uses::render(c, &mut t, o, dynamic),
            "msg" | "fail" => {
                let l = c.parts.text(&byte_list(&o["in"]));
                let v = c.v();
                let x = c.call("__quantum__rt__string_create", "ptr", &[l]);
                writeln!(t, "  {v} = {x}").unwrap();
                let x = c.call(nm, "void", &[format!("ptr {v}")]);
                writeln!(t, "  {x}").unwrap();
            }
            "frame" => {
                if c.p["old"] == true {
                    for e in ["start", "end"] {
                        let x = c.call(&format!("__quantum__rt__{nm}_{e}_record_output"), "void", &[]);
                        writeln!(t, "  {x}").unwrap();
                    }
                } else {
                    let l = label(c);
                    let x = c.call(&format!("__quantum__rt__{nm}_record_output"), "void", &[format!("i64 {r}"), l]);
                    writeln!(t, "  {x}").unwrap();
                }
            }
            "rec" => {
                let v = match nm {
                    "__quantum__rt__result_record_output" => result(c, &mut t),
                    "__quantum__rt__int_record_output" => format!("i64 {}", int64(&byte_list(&o["in"]))),
                    "__quantum__rt__double_record_output" => format!("double {}", number(double(s(o, "d")))),
                    _ => format!("i1 {}", r == 1),
                };
                let a = if c.decl[nm] == 1 { vec![v] } else { vec![v, label(c)] };
                let x = c.call(nm, "void", &a);
                writeln!(t, "  {x}").unwrap();
            }
            "ref" => {}
            x => panic!("driver: unknown operation {x}"),
        }
    }
    if dynamic && c.p["release"] == true {
        for k in 0..3 {
            let x = c.call("__quantum__rt__qubit_release", "void", &[format!("ptr %q{k}")]);
            writeln!(t, "  {x}").unwrap();
        }
    }
    t += &match s(c.p, "ret") {
        n if entry && !n.is_empty() => format!("  ret i64 {n}\n"),
        _ => "  ret void\n".to_string(),
    };
    t
}

/// The module; the order of its parts is free.
pub fn module(e: &Value) -> String {
    let p = &e["p"];
    let decl: BTreeMap<String, usize> =
        e["decl"].as_array().unwrap().iter().map(|d| (s(d, "nm").to_string(), u(d, "n"))).collect();
    let mut rng = Rng::new(i(p, "seed") as u64);
    let ids = [0, 1, 2].map(|k| p["ids"][k].as_u64().unwrap() as usize);
    let mut c = Ctx { p, decl: &decl, parts: Parts::default(), types: BTreeMap::new(), ids, fresh: 0 };
    let mut items = vec![];
    let mut groups = vec![];
    let own = s(p, "own");
    for (k, f) in p["funcs"].as_array().unwrap().iter().enumerate() {
        let entry = f["entry"] == true;
        let b = body(&mut c, f, p["dyn"] == true, entry);
        let mut attrs: Vec<String> = f["attrs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| {
                let (key, val) = (a[0].as_str().unwrap(), byte_list(&a[1]));
                if val.is_empty() && rng.flip() {
                    quoted(key.as_bytes())
                } else {
                    format!("{}={}", quoted(key.as_bytes()), quoted(&val))
                }
            })
            .collect();
        for x in (1..attrs.len()).rev() {
            attrs.swap(x, rng.below(x + 1));
        }
        let given = if attrs.is_empty() {
            String::new()
        } else if rng.flip() {
            groups.push(format!("attributes #{k} = {{ {} }}", attrs.join(" ")));
            format!(" #{k}")
        } else {
            format!(" {}", attrs.join(" "))
        };
        items.push(format!(
            "define {}{} @{}({}){given} {{\n{b}}}",
            if f["internal"] == true { "internal " } else { "" },
            if entry && !s(p, "ret").is_empty() { "i64" } else { "void" },
            quoted(s(f, "nm").as_bytes()),
            if u(f, "params") > 0 { "i64 %arg" } else { "" },
        ));
    }
    let mut declared = BTreeSet::new();
    for (nm, n) in &decl {
        if nm != own {
            items.push(declare(nm, *n, c.types.get(nm)));
            declared.insert(nm.clone());
        }
    }
    if !own.is_empty() {
        let n = decl.get(own).copied().unwrap_or(0);
        let args = vec!["ptr"; n].join(", ");
        items.push(format!("define void @{}({args}) {{\n  ret void\n}}", quoted(own.as_bytes())));
    }
    items.push("declare void @llvm.donothing()".into());
    items.append(&mut c.parts.items);
    for x in (1..items.len()).rev() {
        items.swap(x, rng.below(x + 1));
    }
    format!(
        "; a program\nsource_filename = \"program\"\n\n{}\n\n{}\n\n{}\n",
        c.parts.globals.join("\n"),
        items.join("\n\n"),
        groups.join("\n")
    )
}
