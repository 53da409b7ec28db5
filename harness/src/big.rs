//! Modules BigGen, BigTrace: big integers.
use crate::classical::{Case, Out, i, s, u};
use crate::ffi;
use crate::rng::Rng;
use num_bigint::BigInt;
use qir_stdlib::bigints::*;
use qir_stdlib::strings::*;
use serde_json::{Value, json};

type P = *const BigInt;

fn bytes(p: P) -> Vec<u8> {
    unsafe {
        let n = __quantum__rt__bigint_get_length(p) as usize;
        let d = __quantum__rt__bigint_get_data(p);
        std::slice::from_raw_parts(d, n).to_vec()
    }
}

fn create(b: &[u8]) -> P {
    unsafe { __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) }
}

fn byte_list(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

enum Report {
    Num(P),
    Truth(bool),
    Text(String),
}

fn run(op: &str, a: P, b: P, k: i64) -> Report {
    use Report::*;
    unsafe {
        match op {
            "add" => Num(__quantum__rt__bigint_add(a, b)),
            "sub" => Num(__quantum__rt__bigint_subtract(a, b)),
            "mul" => Num(__quantum__rt__bigint_multiply(a, b)),
            "div" => Num(__quantum__rt__bigint_divide(a, b)),
            "mod" => Num(__quantum__rt__bigint_modulus(a, b)),
            "and" => Num(__quantum__rt__bigint_bitand(a, b)),
            "or" => Num(__quantum__rt__bigint_bitor(a, b)),
            "xor" => Num(__quantum__rt__bigint_bitxor(a, b)),
            "pow" => Num(__quantum__rt__bigint_power(a, k as u32)),
            "shl" => Num(__quantum__rt__bigint_shiftleft(a, k as u64)),
            "shr" => Num(__quantum__rt__bigint_shiftright(a, k as u64)),
            "neg" => Num(__quantum__rt__bigint_negate(a)),
            "not" => Num(__quantum__rt__bigint_bitnot(a)),
            "copy" => Num(create(&bytes(a))),
            "eq" => Truth(__quantum__rt__bigint_equal(a, b)),
            "gt" => Truth(__quantum__rt__bigint_greater(a, b)),
            "ge" => Truth(__quantum__rt__bigint_greater_eq(a, b)),
            "text" => Text(
                String::from_utf8(ffi::take_str(__quantum__rt__bigint_to_string(a))).expect("text"),
            ),
            x => panic!("driver: unknown operation {x}"),
        }
    }
}

pub fn replay(c: &mut Case) -> Out {
    let mut regs: Vec<P> = vec![];
    let mut vals: Vec<Vec<u8>> = vec![];
    let check = |n: usize, regs: &[P], vals: &[Vec<u8>], who: &[usize]| -> Out {
        for &x in who {
            let now = bytes(regs[x]);
            if now != vals[x] {
                return Err(format!("step {n}: number {} is now {now:?}, it was {:?}", x + 1, vals[x]));
            }
        }
        Ok(())
    };
    for (n, e) in c.steps.iter().enumerate() {
        c.ops += 1;
        let op = s(e, "op");
        let input = byte_list(&e["in"]);
        let got = match op {
            "i64" => Report::Num(__quantum__rt__bigint_create_i64(i64::from_le_bytes(
                input.clone().try_into().expect("eight bytes"),
            ))),
            "bytes" => Report::Num(create(&input)),
            _ => {
                let (a, b) = (u(e, "a") - 1, u(e, "b") - 1);
                let b = if b < regs.len() { b } else { a };
                let r = run(op, regs[a], regs[b], i(e, "k"));
                check(n, &regs, &vals, &[a, b])?;
                r
            }
        };
        match got {
            Report::Num(p) => {
                let (now, want) = (bytes(p), byte_list(&e["o"]));
                if now != want {
                    return Err(format!("step {n}: {op} gave bytes {now:?}, the exact result is {want:?}"));
                }
                regs.push(p);
                vals.push(now);
            }
            Report::Truth(t) => {
                if Some(t) != e["v"].as_bool() {
                    return Err(format!("step {n}: {op} gave {t}"));
                }
            }
            Report::Text(t) => {
                if t != s(e, "t") {
                    return Err(format!("step {n}: text {t}, the number is {}", s(e, "t")));
                }
            }
        }
    }
    let all: Vec<usize> = (0..regs.len()).collect();
    check(c.steps.len(), &regs, &vals, &all)?;
    for p in regs {
        unsafe { __quantum__rt__bigint_update_reference_count(p, -1) };
    }
    Ok(())
}

fn pattern(r: &mut Rng, kind: &str, n: usize, like: &[u8]) -> Vec<u8> {
    match kind {
        "zeros" => {
            let mut v = vec![0; n];
            v[n - 1] = [1, 0x7f, 0x80, 0xff][r.below(4)];
            v
        }
        "ones" => {
            let mut v = vec![0xff; n];
            v[n - 1] = [0xff, 0x7f, 0, 0xfe][r.below(4)];
            v
        }
        "edge" => (0..n).map(|_| [0, 0xff, 0x80, 0x7f, 1][r.below(5)]).collect(),
        "sparse" => (0..n).map(|_| if r.below(8) == 0 { r.below(256) as u8 } else { 0 }).collect(),
        "near" if !like.is_empty() => {
            // differs from the other operand in one byte at most
            let mut v = like.to_vec();
            let k = r.below(v.len());
            v[k] = v[k].wrapping_add([0, 1, 255][r.below(3)]);
            v
        }
        _ => (0..n).map(|_| r.below(256) as u8).collect(),
    }
}

pub fn record(list: &[Value], seed: u64) -> Vec<Value> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let ev = |op: &str, a: &[u8], b: &[u8], k: i64, o: Vec<u8>, v: bool, t: String| {
        json!({"op": op, "a": a, "b": b, "k": k, "o": o, "v": v, "t": t})
    };
    out.push(ev("start", &[], &[], 0, vec![], false, String::new()));
    for e in list {
        let op = s(e, "op");
        let a = pattern(&mut r, s(e, "pa"), u(e, "la"), &[]);
        let b = pattern(&mut r, s(e, "pb"), u(e, "lb"), &a);
        let (x, y) = (create(&a), create(&b));
        if matches!(op, "div" | "mod") && b.iter().all(|z| *z == 0) {
            continue;
        }
        out.push(match run(op, x, y, i(e, "k")) {
            Report::Num(p) => {
                let o = bytes(p);
                unsafe { __quantum__rt__bigint_update_reference_count(p, -1) };
                ev(op, &a, &b, i(e, "k"), o, false, String::new())
            }
            Report::Truth(t) => ev(op, &a, &b, 0, vec![], t, String::new()),
            Report::Text(t) => ev(op, &a, &b, 0, vec![], false, t),
        });
        // the operands are what they were
        out.push(ev("neg", &a, &b, 0, bytes(unsafe { __quantum__rt__bigint_negate(x) }), false, String::new()));
        out.push(ev("copy", &b, &a, 0, bytes(y), false, String::new()));
        unsafe {
            __quantum__rt__bigint_update_reference_count(x, -1);
            __quantum__rt__bigint_update_reference_count(y, -1);
        }
    }
    out
}
