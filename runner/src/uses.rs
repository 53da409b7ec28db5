//! Uses of the rest of the runtime, as instructions of LLVM.
use crate::classical::{s, u};
use crate::render::{Ctx, number, pointer};
use crate::text::{byte_list, double, int64};
use serde_json::Value;
use std::fmt::Write;

const RT: &str = "__quantum__rt__";
const QIS: &str = "__quantum__qis__";

fn got(c: &mut Ctx, t: &mut String, nm: &str, ret: &str, args: &[String]) -> String {
    let v = c.v();
    let x = c.call(nm, ret, args);
    writeln!(t, "  {v} = {x}").unwrap();
    v
}

fn gone(c: &mut Ctx, t: &mut String, nm: &str, args: &[String]) {
    let x = c.call(nm, "void", args);
    writeln!(t, "  {x}").unwrap();
}

fn rt(n: &str) -> String {
    format!("{RT}{n}")
}

/// A pointer that the runtime gives.
fn made(c: &mut Ctx, t: &mut String, n: &str, args: &[String]) -> String {
    format!("ptr {}", got(c, t, &rt(n), "ptr", args))
}

fn record(c: &mut Ctx, t: &mut String, kind: &str, v: String) {
    let nm = rt(&format!("{kind}_record_output"));
    let a = if c.decl[&nm] == 1 { vec![v] } else { vec![v, "ptr null".into()] };
    gone(c, t, &nm, &a);
}

fn tell(c: &mut Ctx, t: &mut String, text: &str) {
    gone(c, t, &rt("message"), &[text.to_string()]);
}

fn string(c: &mut Ctx, t: &mut String, b: &[u8]) -> String {
    let l = c.parts.text(b);
    made(c, t, "string_create", &[l])
}

fn store(t: &mut String, v: &str, to: &str) {
    writeln!(t, "  store {v}, {to}").unwrap();
}

fn load(c: &mut Ctx, t: &mut String, ty: &str, from: &str) -> String {
    let v = c.v();
    writeln!(t, "  {v} = load {ty}, {from}").unwrap();
    format!("{ty} {v}")
}

fn after(c: &mut Ctx, t: &mut String, p: &str, n: usize) -> String {
    let v = c.v();
    writeln!(t, "  {v} = getelementptr i8, {p}, i64 {n}").unwrap();
    format!("ptr {v}")
}

fn element(c: &mut Ctx, t: &mut String, a: &str, k: usize) -> String {
    made(c, t, "array_get_element_ptr_1d", &[a.to_string(), format!("i64 {k}")])
}

fn array(c: &mut Ctx, t: &mut String, size: usize, v: &[String]) -> String {
    let a = made(c, t, "array_create_1d", &[format!("i32 {size}"), format!("i64 {}", v.len())]);
    for (k, x) in v.iter().enumerate() {
        let p = element(c, t, &a, k);
        store(t, x, &p);
    }
    a
}

fn count(c: &mut Ctx, t: &mut String, what: &str, x: &str, by: i32) {
    gone(c, t, &rt(&format!("{what}_update_reference_count")), &[x.to_string(), format!("i32 {by}")]);
}

fn alias(c: &mut Ctx, t: &mut String, what: &str, x: &str, by: i32) {
    gone(c, t, &rt(&format!("{what}_update_alias_count")), &[x.to_string(), format!("i32 {by}")]);
}

/// The four functions of a callable, and their table.  Each records the
/// number it is given and the captured one, adjoints with a thousand more,
/// and controlled ones the number of their controls first.
fn table(c: &mut Ctx) -> (String, String) {
    let n = c.parts.globals.len();
    for (k, own) in ["body", "adj", "ctl", "ctladj"].iter().enumerate() {
        let mut t = String::new();
        let mut args = "ptr %a".to_string();
        if k > 1 {
            let ctls = load(c, &mut t, "ptr", "ptr %a");
            let size = got(c, &mut t, &rt("array_get_size_1d"), "i64", &[ctls.clone()]);
            record(c, &mut t, "int", format!("i64 {size}"));
            let p = after(c, &mut t, "ptr %a", 8);
            args = load(c, &mut t, "ptr", &p);
        }
        let x = load(c, &mut t, "i64", &args);
        let held = load(c, &mut t, "i64", "ptr %c");
        let (y, z) = (c.v(), c.v());
        writeln!(t, "  {y} = add {x}, {}", if k % 2 == 1 { 1000 } else { 0 }).unwrap();
        writeln!(t, "  {z} = add i64 {y}, {}", held.trim_start_matches("i64 ")).unwrap();
        record(c, &mut t, "int", format!("i64 {z}"));
        c.parts.items.push(format!("define internal void @f{n}_{own}(ptr %c, ptr %a, ptr %r) {{\n{t}  ret void\n}}"));
    }
    c.parts.globals.push(format!(
        "@t{n} = internal constant [4 x ptr] [ptr @f{n}_body, ptr @f{n}_adj, ptr @f{n}_ctl, ptr @f{n}_ctladj]"
    ));
    // what is done to the captured, once or twice, and the count
    let m = c.parts.globals.len();
    for k in 1..3 {
        let mut t = String::new();
        let held = load(c, &mut t, "i64", "ptr %c");
        let (x, y, z) = (c.v(), c.v(), c.v());
        writeln!(t, "  {x} = mul {held}, {k}\n  {y} = sext i32 %n to i64\n  {z} = add i64 {x}, {y}").unwrap();
        record(c, &mut t, "int", format!("i64 {z}"));
        c.parts.items.push(format!("define internal void @m{m}_{k}(ptr %c, i32 %n) {{\n{t}  ret void\n}}"));
    }
    c.parts.globals.push(format!("@t{m} = internal constant [2 x ptr] [ptr @m{m}_1, ptr @m{m}_2]"));
    (format!("ptr @t{n}"), format!("ptr @t{m}"))
}

/// A controlled function: its arguments in a tuple if there are some besides the qubit.
fn controlled(c: &mut Ctx, t: &mut String, nm: &str, ctls: &str, args: &[String]) {
    if let [target] = args {
        return gone(c, t, nm, &[ctls.to_string(), target.clone()]);
    }
    let size = 8 * args.len();
    let tup = made(c, t, "tuple_create", &[format!("i64 {size}")]);
    for (k, x) in args.iter().enumerate() {
        let p = after(c, t, &tup, 8 * k);
        store(t, x, &p);
    }
    gone(c, t, nm, &[ctls.to_string(), tup]);
}

fn angle(quarters: i64, of: f64) -> String {
    format!("double {}", number(quarters as f64 * std::f64::consts::PI / of))
}

const RANGES: [(i64, i64, i64, usize); 8] =
    [(0, 1, 2, 3), (2, -1, 0, 3), (0, 2, 2, 2), (1, 1, 0, 0), (2, -2, 0, 2), (1, 1, 1, 1), (0, 3, 2, 1), (1, 1, 2, 2)];

fn range(c: &mut Ctx, t: &mut String, v: [&str; 3]) -> String {
    let p = c.v();
    writeln!(t, "  {p} = alloca {{ i64, i64, i64 }}").unwrap();
    for (k, x) in v.iter().enumerate() {
        let at = after(c, t, &format!("ptr {p}"), 8 * k);
        store(t, x, &at);
    }
    format!("ptr byval({{ i64, i64, i64 }}) {p}")
}

fn pauli(p: usize) -> String {
    format!("i8 {p}")
}

#[allow(clippy::too_many_lines)]
pub fn render(c: &mut Ctx, t: &mut String, o: &Value, dynamic: bool) {
    let q: Vec<usize> = o["q"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let (r, d) = (u(o, "r"), s(o, "d"));
    let given = byte_list(&o["in"]);
    let ints: Vec<String> = given.chunks(8).map(|b| format!("i64 {}", int64(b))).collect();
    let text = |k: usize| text_of(&o["l"][k]);
    match s(o, "nm") {
        "strings" => {
            let a = string(c, t, &text(0));
            let b = string(c, t, &text(1));
            let both = made(c, t, "string_concatenate", &[a.clone(), b.clone()]);
            tell(c, t, &both);
            let n = got(c, t, &rt("string_get_length"), "i32", &[both.clone()]);
            let wide = c.v();
            writeln!(t, "  {wide} = zext i32 {n} to i64").unwrap();
            record(c, t, "int", format!("i64 {wide}"));
            let e = got(c, t, &rt("string_equal"), "i1", &[a.clone(), b]);
            record(c, t, "bool", format!("i1 {e}"));
            count(c, t, "string", &a, -1);
            let p = made(c, t, "string_get_data", &[both]);
            let again = made(c, t, "string_create", &[p]);
            tell(c, t, &again);
        }
        "texts" => {
            for (f, x) in [
                ("int_to_string", ints[0].clone()),
                ("bool_to_string", format!("i1 {}", r % 2 == 1)),
                ("double_to_string", format!("double {}", number(double(d)))),
                ("pauli_to_string", pauli(r / 2)),
                ("qubit_to_string", pointer(q[0])),
            ] {
                let x = made(c, t, f, &[x]);
                tell(c, t, &x);
            }
        }
        "big" => {
            let a = made(c, t, "bigint_create_i64", &[ints[0].clone()]);
            let b = made(c, t, "bigint_create_i64", &[ints[1].clone()]);
            let (f, rest) = match d {
                "add" => ("add", vec![b]),
                "sub" => ("subtract", vec![b]),
                "mul" => ("multiply", vec![b]),
                "div" => ("divide", vec![b]),
                "mod" => ("modulus", vec![b]),
                "and" => ("bitand", vec![b]),
                "or" => ("bitor", vec![b]),
                "xor" => ("bitxor", vec![b]),
                "pow" => ("power", vec![format!("i32 {r}")]),
                "shl" => ("shiftleft", vec![format!("i64 {r}")]),
                "shr" => ("shiftright", vec![format!("i64 {r}")]),
                "neg" => ("negate", vec![]),
                "not" => ("bitnot", vec![]),
                "eq" => ("equal", vec![b]),
                "gt" => ("greater", vec![b]),
                "ge" => ("greater_eq", vec![b]),
                x => panic!("driver: unknown operation {x}"),
            };
            let nm = format!("bigint_{f}");
            let args: Vec<String> = [a.clone()].into_iter().chain(rest).collect();
            if matches!(d, "eq" | "gt" | "ge") {
                let e = got(c, t, &rt(&nm), "i1", &args);
                record(c, t, "bool", format!("i1 {e}"));
            } else {
                let v = made(c, t, &nm, &args);
                count(c, t, "bigint", &a, -1);
                let x = made(c, t, "bigint_to_string", &[v]);
                tell(c, t, &x);
            }
        }
        "array" => {
            let a = array(c, t, 8, &ints[..2]);
            alias(c, t, "array", &a, 1);
            let b = made(c, t, "array_copy", &[a.clone(), "i1 false".into()]);
            let p = element(c, t, &b, 1);
            store(t, &ints[2], &p);
            alias(c, t, "array", &a, -1);
            let both = made(c, t, "array_concatenate", &[a.clone(), b.clone()]);
            count(c, t, "array", &a, -1);
            count(c, t, "array", &b, -1);
            let n = got(c, t, &rt("array_get_size_1d"), "i64", &[both.clone()]);
            record(c, t, "int", format!("i64 {n}"));
            for k in 0..4 {
                let p = element(c, t, &both, k);
                let x = load(c, t, "i64", &p);
                record(c, t, "int", x);
            }
        }
        "tuple" => {
            let a = made(c, t, "tuple_create", &["i64 16".into()]);
            store(t, &ints[0], &a);
            let p = after(c, t, &a, 8);
            store(t, &ints[1], &p);
            alias(c, t, "tuple", &a, 1);
            let b = made(c, t, "tuple_copy", &[a.clone(), "i1 false".into()]);
            store(t, &ints[2], &b);
            alias(c, t, "tuple", &a, -1);
            let second = after(c, t, &b, 8);
            for p in [&a, &b, &second] {
                let x = load(c, t, "i64", p);
                record(c, t, "int", x);
            }
            count(c, t, "tuple", &a, -1);
            count(c, t, "tuple", &b, -1);
        }
        "callable" => {
            let (tab, mem) = table(c);
            let held = made(c, t, "tuple_create", &["i64 8".into()]);
            store(t, &format!("i64 {}", q[2]), &held);
            let a = made(c, t, "callable_create", &[tab, mem, held]);
            let f = made(c, t, "callable_copy", &[a.clone(), "i1 true".into()]);
            let g = made(c, t, "callable_copy", &[a.clone(), "i1 true".into()]);
            gone(c, t, &rt("callable_make_adjoint"), &[if r % 2 == 1 { f.clone() } else { g.clone() }]);
            gone(c, t, &rt("callable_make_controlled"), &[if r > 1 { f.clone() } else { g.clone() }]);
            alias(c, t, "callable", &f, 1);
            gone(c, t, &rt("capture_update_reference_count"), &[f.clone(), "i32 5".into()]);
            gone(c, t, &rt("capture_update_alias_count"), &[f.clone(), "i32 -2".into()]);
            let mut args = made(c, t, "tuple_create", &["i64 8".into()]);
            store(t, &format!("i64 {}", q[0]), &args);
            // what a callable of no controls is given must not need them
            let ctls: Vec<String> = (0..q[1]).map(pointer).collect();
            let ctls = array(c, t, 8, &ctls);
            if r > 1 {
                let all = made(c, t, "tuple_create", &["i64 16".into()]);
                store(t, &ctls, &all);
                let p = after(c, t, &all, 8);
                store(t, &args, &p);
                args = all;
            }
            gone(c, t, &rt("callable_invoke"), &[f.clone(), args, "ptr null".into()]);
            alias(c, t, "callable", &f, -1);
            for x in [&a, &f, &g] {
                count(c, t, "callable", x, -1);
            }
        }
        "math" => {
            let nm = format!("{QIS}{d}__body");
            let args: Vec<String> = o["l"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_str().unwrap())
                .map(|x| if d == "drawrandomint" { format!("i64 {x}") } else { format!("double {}", number(x.parse().unwrap())) })
                .collect();
            let (kind, ty) = match (d, &d[..3]) {
                ("drawrandomint", _) => ("int", "i64"),
                (_, "isi" | "isn") => ("bool", "i1"),
                _ => ("double", "double"),
            };
            let v = got(c, t, &nm, ty, &args);
            record(c, t, kind, format!("{ty} {v}"));
        }
        "between" => {
            let x: Vec<String> =
                o["l"].as_array().unwrap().iter().map(|x| number(x.as_str().unwrap().parse().unwrap())).collect();
            let args: Vec<String> = x[..r].iter().map(|x| format!("double {x}")).collect();
            let v = got(c, t, &format!("{QIS}{d}__body"), "double", &args);
            let (lo, hi, both) = (c.v(), c.v(), c.v());
            writeln!(
                t,
                "  {lo} = fcmp oge double {v}, {}\n  {hi} = fcmp ole double {v}, {}\n  {both} = and i1 {lo}, {hi}",
                x[r],
                x[r + 1]
            )
            .unwrap();
            record(c, t, "bool", format!("i1 {both}"));
        }
        "memory" => {
            let p = made(c, t, "memory_allocate", &["i64 16".into()]);
            let p = after(c, t, &p, 8);
            store(t, &ints[0], &p);
            let x = load(c, t, "i64", &p);
            record(c, t, "int", x);
        }
        "results" => {
            let known = [made(c, t, "result_get_zero", &[]), made(c, t, "result_get_one", &[])];
            for x in &known {
                count(c, t, "result", x, 1);
            }
            let e = got(c, t, &rt("result_equal"), "i1", &[known[r / 2].clone(), known[r % 2].clone()]);
            record(c, t, "bool", format!("i1 {e}"));
            let x = made(c, t, "result_to_string", &[known[r % 2].clone()]);
            tell(c, t, &x);
            for x in &known {
                count(c, t, "result", x, -1);
            }
        }
        "turns" => {
            let target = c.qubit(dynamic, q[2]);
            let ctls: Vec<String> = q[..r].iter().map(|k| c.qubit(dynamic, *k)).collect();
            let ctls = if r > 0 { array(c, t, 8, &ctls) } else { String::new() };
            let h = format!("{QIS}h__body");
            if d == "z" {
                gone(c, t, &h, &[target.clone()]);
            }
            let axis = pauli(match d {
                "x" => 1,
                "y" => 3,
                _ => 2,
            });
            for g in o["l"].as_array().unwrap() {
                let (g, by) = (g[0].as_str().unwrap(), g[1].as_i64().unwrap());
                let back = if g.ends_with("adj") { -1 } else { 1 };
                let args = match g.split("__").next().unwrap() {
                    "rx" | "ry" | "rz" => vec![angle(by, 2.0), target.clone()],
                    "r" => vec![axis.clone(), angle(by * back, 2.0), target.clone()],
                    "exp" => {
                        let ps = array(c, t, 1, &[axis.clone()]);
                        let qs = array(c, t, 8, &[target.clone()]);
                        vec![ps, angle(-by * back, 4.0), qs]
                    }
                    _ => vec![target.clone()],
                };
                for _ in 0..if g.starts_with("t__") { 2 } else { 1 } {
                    let nm = format!("{QIS}{g}");
                    if r > 0 { controlled(c, t, &nm, &ctls, &args) } else { gone(c, t, &nm, &args) }
                }
            }
            if d == "z" {
                gone(c, t, &h, &[target]);
            }
        }
        "flips" => {
            let ctls: Vec<String> = q[..r].iter().map(|k| c.qubit(dynamic, *k)).collect();
            let ctls = array(c, t, 8, &ctls);
            let target = c.qubit(dynamic, q[2]);
            controlled(c, t, &format!("{QIS}{d}__ctl"), &ctls, &[target.clone()]);
            if d == "h" {
                gone(c, t, &format!("{QIS}z__body"), &[target.clone()]);
                controlled(c, t, &format!("{QIS}h__ctl"), &ctls, &[target]);
            }
        }
        "exp" => {
            let qs: Vec<String> = q.iter().map(|k| c.qubit(dynamic, *k)).collect();
            let paulis = array(c, t, 1, &[pauli(r % 4), pauli(r / 4)]);
            let targets = array(c, t, 8, &qs[..2]);
            for g in o["l"].as_array().unwrap() {
                let g = g[0].as_str().unwrap();
                let args = [paulis.clone(), angle(1, 4.0), targets.clone()];
                if g.contains("ctl") {
                    let ctls = array(c, t, 8, &qs[2..]);
                    controlled(c, t, &format!("{QIS}{g}"), &ctls, &args);
                } else {
                    gone(c, t, &format!("{QIS}{g}"), &args);
                }
            }
        }
        "bytes" => {
            let b = c.parts.text(&given);
            let x = made(c, t, "bigint_create_array", &["i32 8".into(), b]);
            let n = got(c, t, &rt("bigint_get_length"), "i32", &[x.clone()]);
            let wide = c.v();
            writeln!(t, "  {wide} = zext i32 {n} to i64").unwrap();
            record(c, t, "int", format!("i64 {wide}"));
            let p = made(c, t, "bigint_get_data", &[x.clone()]);
            let (last, at) = (c.v(), c.v());
            writeln!(t, "  {last} = sub i64 {wide}, 1\n  {at} = getelementptr i8, {p}, i64 {last}").unwrap();
            let byte = load(c, t, "i8", &format!("ptr {at}"));
            let wide = c.v();
            writeln!(t, "  {wide} = zext {byte} to i64").unwrap();
            record(c, t, "int", format!("i64 {wide}"));
            let x = made(c, t, "bigint_to_string", &[x]);
            tell(c, t, &x);
        }
        "range" => {
            let shown = range(c, t, [&ints[0], &ints[1], &ints[2]]);
            let x = format!("ptr {}", got(c, t, "quantum__rt__range_to_string", "ptr", &[shown]));
            tell(c, t, &x);
            let (from, step, to, n) = RANGES[r - 1];
            let v = [from, step, to].map(|x| format!("i64 {x}"));
            let v = range(c, t, [&v[0], &v[1], &v[2]]);
            let a = array(c, t, 8, &ints);
            let b = format!("ptr {}", got(c, t, "quantum__rt__array_slice_1d", "ptr", &[a, v, "i1 true".into()]));
            let size = got(c, t, &rt("array_get_size_1d"), "i64", &[b.clone()]);
            record(c, t, "int", format!("i64 {size}"));
            for k in 0..n {
                let p = element(c, t, &b, k);
                let x = load(c, t, "i64", &p);
                record(c, t, "int", x);
            }
        }
        "measure" => {
            let qs: Vec<String> = q[..2].iter().map(|k| c.qubit(dynamic, *k)).collect();
            let paulis = array(c, t, 1, &[pauli(2), pauli(2)]);
            let qs = array(c, t, 8, &qs);
            let m = got(c, t, &format!("{QIS}measure__body"), "ptr", &[paulis.clone(), qs.clone()]);
            let m = format!("ptr {m}");
            let x = made(c, t, "result_to_string", &[m.clone()]);
            tell(c, t, &x);
            let why = string(c, t, b"not as measured");
            let sure = format!("double {}", number(1.0));
            let near = format!("double {}", number(1e-6));
            let args = [paulis, qs, m, sure, why, near];
            let nm = format!("{QIS}assertmeasurementprobability__");
            if r == 0 {
                gone(c, t, &(nm + "body"), &args);
            } else {
                let none = array(c, t, 8, &[]);
                controlled(c, t, &(nm + "ctl"), &none, &args);
            }
        }
        "qarr" => {
            let a = made(c, t, "qubit_allocate_array", &[format!("i64 {r}")]);
            let all: Vec<String> = (0..r)
                .map(|k| {
                    let p = element(c, t, &a, k);
                    load(c, t, "ptr", &p)
                })
                .collect();
            for x in &all {
                gone(c, t, &format!("{QIS}x__body"), &[x.clone()]);
            }
            let target = c.qubit(dynamic, q[0]);
            gone(c, t, &format!("{QIS}x__ctl"), &[a.clone(), target]);
            let n = got(c, t, &rt("array_get_size_1d"), "i64", &[a.clone()]);
            record(c, t, "int", format!("i64 {n}"));
            for x in &all {
                gone(c, t, &format!("{QIS}reset__body"), &[x.clone()]);
            }
            gone(c, t, &rt("qubit_release_array"), &[a]);
        }
        "loop" => {
            let two = d.ends_with("cnot__body");
            let args: Vec<String> = q[..if two { 2 } else { 1 }].iter().map(|k| c.qubit(dynamic, *k)).collect();
            let call = c.call(d, "void", &args);
            c.v();
            let n = c.fresh;
            writeln!(
                t,
                "  br label %from{n}\nfrom{n}:\n  br label %again{n}\nagain{n}:\n  %turn{n} = phi i64 [ 0, %from{n} ], [ %next{n}, %again{n} ]\n  \
                 {call}\n  %next{n} = add i64 %turn{n}, 1\n  %more{n} = icmp ult i64 %next{n}, {r}\n  \
                 br i1 %more{n}, label %again{n}, label %done{n}\ndone{n}:"
            )
            .unwrap();
        }
        "dump" => gone(c, t, &format!("{QIS}dumpmachine__body"), &["ptr null".into()]),
        x => panic!("driver: unknown use {x}"),
    }
}

/// The bytes of a text of code points.
fn text_of(l: &Value) -> Vec<u8> {
    let points = l.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap());
    points.collect::<String>().into_bytes()
}
