//! Module Slots: static qubits and results.
use crate::classical::{Case, Out, s, u};
use crate::ffi::{self, q};
use qir_backend::result_bool::*;
use qir_backend::*;
use serde_json::{Value, json};

/// What a dump shows of the results: -1 when it lists none, else a number made of the places that show a one.
fn shown(dump: &[u8]) -> i64 {
    let text = String::from_utf8_lossy(dump);
    let Some(line) = text.lines().find_map(|l| l.strip_prefix("Global Results: ")) else {
        return -1;
    };
    let Some(list) = line.strip_prefix('[').and_then(|l| l.strip_suffix(']')) else {
        return -2;
    };
    let mut sum = 0;
    for (place, bit) in list.split(',').enumerate() {
        match bit.trim() {
            "0" => (),
            "1" => sum += i64::try_from((place % 1013) * (place % 1013) + 3 * place + 1).unwrap(),
            _ => return -2,
        }
    }
    sum
}

pub fn op(e: &Value) -> i64 {
    let (a, b) = (u(e, "a"), u(e, "b"));
    match s(e, "op") {
        "x" => __quantum__qis__x__body(q(a)),
        "h" => __quantum__qis__h__body(q(a)),
        "z" => __quantum__qis__z__body(q(a)),
        "cx" => __quantum__qis__cnot__body(q(a), q(b)),
        "bell" => {
            __quantum__qis__h__body(q(a));
            __quantum__qis__cx__body(q(a), q(b));
        }
        "swap" => __quantum__qis__swap__body(q(a), q(b)),
        "mz" => __quantum__qis__mz__body(q(a), q(b)),
        "mrz" => __quantum__qis__mresetz__body(q(a), q(b)),
        "m" => {
            return i64::from(__quantum__rt__result_equal(
                __quantum__qis__m__body(q(a)),
                __quantum__rt__result_get_one(),
            ));
        }
        "rst" => __quantum__qis__reset__body(q(a)),
        "isz" => return i64::from(qubit_is_zero(q(a))),
        "rd" => return i64::from(__quantum__rt__read_result(q(b))),
        "rdq" => return i64::from(__quantum__qis__read_result__body(q(b))),
        "wr0" => __quantum__rt__write_result(false, q(b)),
        "wr1" => __quantum__rt__write_result(true, q(b)),
        "rec" => {
            ffi::drain_output();
            unsafe { __quantum__rt__result_record_output(q(b), std::ptr::null_mut()) };
            let t = ffi::drain_output();
            return match t.as_slice() {
                b"OUTPUT\tRESULT\t0\n" => 0,
                b"OUTPUT\tRESULT\t1\n" => 1,
                _ => -2,
            };
        }
        "dump" => {
            ffi::drain_output();
            __quantum__qis__dumpmachine__body(std::ptr::null_mut());
            return shown(&ffi::drain_output());
        }
        "init" => __quantum__rt__initialize(std::ptr::null_mut()),
        "skip" => (),
        x => panic!("driver: unknown operation {x}"),
    }
    -1
}

pub fn replay(c: &mut Case) -> Out {
    ffi::buffered();
    __quantum__rt__initialize(std::ptr::null_mut());
    for (n, e) in c.steps.iter().enumerate() {
        let got = op(e);
        c.ops += 1;
        let want = e["v"].as_i64().unwrap();
        if got != want {
            return Err(format!(
                "step {n}: {} qubit {} result {} reported {got}, must report {want}",
                s(e, "op"),
                u(e, "a"),
                u(e, "b")
            ));
        }
    }
    Ok(())
}

pub fn record(list: &[Value], seed: u64) -> Vec<Value> {
    ffi::buffered();
    set_rng_seed(seed);
    __quantum__rt__initialize(std::ptr::null_mut());
    let mut out = vec![json!({"op": "start", "a": 0, "b": 0, "v": -1})];
    for e in list {
        if s(e, "op") == "skip" {
            continue;
        }
        let v = op(e);
        out.push(json!({"op": e["op"], "a": e["a"], "b": e["b"], "v": v}));
    }
    out
}
