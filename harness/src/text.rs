//! Modules StrGen and DblTrace: strings and the texts of values.
use crate::classical::{Case, Out, i, s, u};
use crate::ffi::{self, q};
use crate::rng::Rng;
use qir_backend::*;
use serde_json::{Value, json};
use std::ffi::CString;

/// A text of the specification as bytes.
pub fn pieces(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for p in v.as_array().unwrap() {
        match p {
            Value::String(t) => out.extend(t.as_bytes()),
            p => out.push(p.as_u64().expect("a byte") as u8),
        }
    }
    out
}

pub fn byte_list(v: &Value) -> Vec<u8> {
    pieces(v)
}

pub fn int64(b: &[u8]) -> i64 {
    i64::from_le_bytes(b.try_into().expect("eight bytes"))
}

pub fn double(t: &str) -> f64 {
    t.parse().expect("a double")
}

pub fn replay(c: &mut Case) -> Out {
    let mut strs: Vec<(*const CString, Vec<u8>)> = vec![];
    for (n, e) in c.steps.iter().enumerate() {
        c.ops += 1;
        let op = s(e, "op");
        let (a, b) = (u(e, "a"), u(e, "b"));
        let input = byte_list(&e["in"]);
        let want = pieces(&e["t"]);
        let got = unsafe {
            match op {
                "eq" | "eqsame" => {
                    let (x, y) = (&strs[a - 1], &strs[b - 1]);
                    let r = __quantum__rt__string_equal(x.0, y.0);
                    if r != (x.1 == y.1) {
                        return Err(format!("step {n}: equality of {:?} and {:?} is {r}", x.1, y.1));
                    }
                    for z in [x, y] {
                        if ffi::str_bytes(z.0) != z.1 {
                            return Err(format!("step {n}: a compared string changed"));
                        }
                    }
                    continue;
                }
                "create" | "raw" => ffi::mkstr(&input),
                "twin" => ffi::mkstr(&want),
                "cat" => {
                    let (x, y) = (&strs[a - 1], &strs[b - 1]);
                    let r = __quantum__rt__string_concatenate(x.0, y.0);
                    for z in [x, y] {
                        if ffi::str_bytes(z.0) != z.1 {
                            return Err(format!("step {n}: a concatenated string changed"));
                        }
                    }
                    r
                }
                "int" => __quantum__rt__int_to_string(int64(&input)),
                "dbl" => __quantum__rt__double_to_string(double(s(e, "d"))),
                "bool" => __quantum__rt__bool_to_string(e["v"] == true),
                "pauli" => __quantum__rt__pauli_to_string(
                    ffi::pauli_of(a as u8).ok_or_else(|| format!("step {n}: no Pauli has the number {a}"))?,
                ),
                "res" => qir_backend::result_bool::__quantum__rt__result_to_string(q(a)),
                "range" => quantum__rt__range_to_string(ffi::range(int64(&input[..8]), int64(&input[8..16]), int64(&input[16..]))),
                "qubit" => __quantum__rt__qubit_to_string(q(a)),
                "big" => {
                    let x = __quantum__rt__bigint_create_array(input.len() as u32, input.as_ptr());
                    let r = __quantum__rt__bigint_to_string(x);
                    __quantum__rt__bigint_update_reference_count(x, -1);
                    r
                }
                x => panic!("driver: unknown operation {x}"),
            }
        };
        let have = ffi::str_bytes(got);
        let len = unsafe { __quantum__rt__string_get_length(got) } as usize;
        if have != want || len != want.len() {
            return Err(format!(
                "step {n}: {op} {} gave {:?} of length {len}, must be {:?}",
                s(e, "d"),
                String::from_utf8_lossy(&have),
                String::from_utf8_lossy(&want)
            ));
        }
        strs.push((got, want));
    }
    for (k, (p, t)) in strs.iter().enumerate() {
        if ffi::str_bytes(*p) != *t {
            return Err(format!("at the end: string {} changed", k + 1));
        }
    }
    for (p, _) in strs {
        ffi::free_str(p);
    }
    Ok(())
}

pub fn some_double(r: &mut Rng, class: &str, e: i64, f: i64) -> f64 {
    let unit = |r: &mut Rng| (r.next() >> 11) as f64 / (1u64 << 53) as f64;
    let sign = if r.flip() { 1.0 } else { -1.0 };
    let x = match class {
        "bits" => loop {
            let x = f64::from_bits(r.next());
            if x.is_finite() {
                break x;
            }
        },
        "unit" => unit(r) * 10f64.powi(f as i32 / 4),
        "int" => (r.next() >> (r.below(60) as u32)) as f64,
        "pow2" => 2f64.powi(e as i32),
        "pow10" => format!("1e{e}").parse().unwrap(),
        "nearpow10" => {
            let x: f64 = format!("1e{f}").parse().unwrap();
            f64::from_bits(x.to_bits().wrapping_add(r.below(5) as u64).wrapping_sub(2))
        }
        "sub" => f64::from_bits(r.next() >> (12 + r.below(50) as u32)),
        "half" => (r.next() >> (12 + r.below(40) as u32)) as f64 + 0.5,
        _ => format!("{}e{}", r.next() % 10u64.pow(1 + r.below(17) as u32), f).parse().unwrap(),
    };
    sign * x
}

/// A finite double as sign * m * 2^e, m as bytes.
pub fn parts(x: f64) -> (i64, Vec<u8>, i64) {
    let b = x.to_bits();
    let (e, f) = ((b >> 52) & 0x7ff, b & ((1 << 52) - 1));
    let (m, e) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e as i64 - 1075) };
    (if x.is_sign_negative() { -1 } else { 1 }, m.to_le_bytes()[..7].to_vec(), e)
}

pub fn record_doubles(list: &[Value], seed: u64) -> Vec<Value> {
    let mut r = Rng::new(seed);
    list.iter()
        .map(|p| {
            let x = some_double(&mut r, s(p, "c"), i(p, "e"), i(p, "f"));
            let t = ffi::take_str(__quantum__rt__double_to_string(x));
            let (sg, m, e) = parts(x);
            json!({"s": sg, "m": m, "e": e, "t": t})
        })
        .collect()
}
