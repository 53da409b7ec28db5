//! Module Output: recorded output, messages and failures.
use crate::classical::{Case, Out, s, u};
use crate::ffi::{self, Ending, q};
use crate::text::{byte_list, double, int64, pieces};
use qir_backend::legacy_output as blegacy;
use qir_backend::*;
use qir_stdlib::output_recording::{OutputRecorder, legacy};
use serde_json::Value;
use std::ffi::{CString, c_char};
use std::io::Write;

fn recorder<T>(f: impl FnOnce(&mut OutputRecorder) -> T) -> T {
    OUTPUT.with(|o| f(&mut o.borrow_mut()))
}

pub struct Recorder {
    strs: Vec<(*const CString, Vec<u8>)>,
}

impl Recorder {
    pub fn new() -> Self {
        Self { strs: vec![] }
    }

    /// One operation; a draining one compares what was drained.
    #[allow(clippy::cognitive_complexity)]
    pub fn op(&mut self, e: &Value) -> Out {
        let (a, b) = (u(e, "a"), u(e, "b"));
        let op = s(e, "op");
        let bytes = byte_list(&e["in"]);
        let int = || int64(&bytes);
        let dbl = || double(s(e, "d"));
        let label = e["l"].as_array().unwrap().first().map(|l| {
            let mut b = byte_list(l);
            b.push(0);
            b
        });
        let l = label
            .as_ref()
            .map_or(std::ptr::null_mut(), |b| b.as_ptr().cast::<c_char>().cast_mut());
        unsafe {
            match op {
                "str" => self.strs.push((ffi::mkstr(&bytes), bytes)),
                "msg" => __quantum__rt__message(self.strs[a - 1].0),
                "msgrec" => {
                    qir_stdlib::output_recording::__quantum__rt__message_record_output(self.strs[a - 1].0);
                }
                "int" => __quantum__rt__int_record_output(int(), l),
                "array" => __quantum__rt__array_record_output(int(), l),
                "tuple" => __quantum__rt__tuple_record_output(int(), l),
                "dbl" => __quantum__rt__double_record_output(dbl(), l),
                "bool" => __quantum__rt__bool_record_output(a == 1, l),
                "res" => __quantum__rt__result_record_output(q(a), l),
                "lint" => legacy::__quantum__rt__int_record_output(int()),
                "larr" => legacy::__quantum__rt__array_record_output(int()),
                "ltup" => legacy::__quantum__rt__tuple_record_output(int()),
                "ldbl" => legacy::__quantum__rt__double_record_output(dbl()),
                "lbool" => legacy::__quantum__rt__bool_record_output(a == 1),
                "lres" => blegacy::__quantum__rt__result_record_output(q(a)),
                "las" => legacy::__quantum__rt__array_start_record_output(),
                "lae" => legacy::__quantum__rt__array_end_record_output(),
                "lts" => legacy::__quantum__rt__tuple_start_record_output(),
                "lte" => legacy::__quantum__rt__tuple_end_record_output(),
                "wr" => __quantum__rt__write_result(b == 1, q(a)),
                "init" => __quantum__rt__initialize(std::ptr::null_mut()),
                "out" => recorder(|o| o.use_std_out(true)),
                "buf" => recorder(|o| o.use_std_out(false)),
                "raw" => recorder(|o| o.write_all(&bytes).expect("written")),
                "many" => recorder(|o| {
                    for _ in 0..(if b == 1 { a } else { 1 }) {
                        o.write_all(&vec![b'y'; if b == 1 { 1024 } else { 1024 * a }]).expect("written");
                    }
                }),
                "nl" => recorder(|o| o.write_newline()),
                "drain" => {
                    let have = ffi::drain_output();
                    let want = pieces(&e["t"]);
                    if have != want {
                        return Err(format!(
                            "drained {:?}, must be {:?}",
                            String::from_utf8_lossy(&have),
                            String::from_utf8_lossy(&want)
                        ));
                    }
                }
                x => panic!("driver: unknown operation {x}"),
            }
        }
        if let Some(b) = label {
            if b != { let mut x = byte_list(&e["l"][0]); x.push(0); x } {
                return Err("the label changed".into());
            }
        }
        Ok(())
    }

    /// The strings that were recorded are as they were.
    pub fn finish(self) -> Out {
        for (k, (p, t)) in self.strs.iter().enumerate() {
            if ffi::str_bytes(*p) != *t {
                return Err(format!("string {} changed", k + 1));
            }
        }
        for (p, _) in self.strs {
            ffi::free_str(p);
        }
        Ok(())
    }
}

/// Makes the program fail.
fn doom(e: &Value) {
    let text = byte_list(&e["in"]);
    let (a, b) = (u(e, "a"), u(e, "b"));
    let sizes = byte_list(&e["l"][0]);
    let (n, m) = (sizes[0] as usize, sizes[1] as usize);
    unsafe {
        let msg = ffi::mkstr(&text);
        let one = result_bool::__quantum__rt__result_get_one();
        let paulis = |n: usize| ffi::parr(&vec!["Z".to_string(); n]);
        let qubits = |n: usize| {
            let ids: Vec<usize> = (0..n).map(|_| __quantum__rt__qubit_allocate() as usize).collect();
            ffi::qarr(&ids)
        };
        match s(e, "op") {
            "fail" => __quantum__rt__fail(msg),
            "assert" => {
                __quantum__qis__assertmeasurementprobability__body(paulis(n + 1), qubits(n + 1), one, 1.0, msg, 0.5);
            }
            "assertc" => {
                #[repr(C)]
                struct Args(*const QirArray, *const QirArray, *mut std::ffi::c_void, f64, *const CString, f64);
                let mut args = Args(paulis(n + 1), qubits(n + 1), one, 0.75, msg, 0.25);
                __quantum__qis__assertmeasurementprobability__ctl(qubits(m), (&raw mut args).cast());
            }
            "concat" => {
                let x = __quantum__rt__array_create_1d(1 + (a % 8) as u32, n as u64);
                let y = __quantum__rt__array_create_1d(1 + ((a + 1 + b % 7) % 8) as u32, m as u64);
                __quantum__rt__array_concatenate(x, y);
            }
            "measure" => {
                __quantum__qis__measure__body(paulis(n), qubits(m));
            }
            "assertsize" => {
                __quantum__qis__assertmeasurementprobability__body(paulis(n), qubits(m), one, 0.5, msg, 2.0);
            }
            "rint" => {
                let (lo, hi) = match b % 3 {
                    0 => (i64::MIN + a as i64, i64::MAX),
                    1 => (a as i64 - 128, a as i64 - 127),
                    _ => (-(a as i64) - 1, a as i64),
                };
                qir_stdlib::math::__quantum__qis__drawrandomint__body(hi, lo);
            }
            "rdbl" => {
                let lo = a as f64 - 128.0;
                let hi = match b % 3 {
                    0 => f64::from_bits((lo + 256.0).to_bits() + 1) - 256.0,
                    1 => f64::INFINITY,
                    _ => lo + 0.5,
                };
                let hi = if hi > lo { hi } else { lo + 1.0 };
                qir_stdlib::math::__quantum__qis__drawrandomdouble__body(hi, lo);
            }
            x => panic!("driver: unknown failure {x}"),
        }
    }
}

pub fn replay(c: &mut Case) -> Out {
    let last = c.steps.last().expect("an end");
    let n = c.steps.len() - 1;
    c.ops += n as u64;
    let dead = s(last, "op") != "end";
    let (ending, out, report) = ffi::captured(|| {
        // a fresh thread: the recorder starts as documented
        std::thread::scope(|t| {
            t.spawn(|| {
                let mut r = Recorder::new();
                for (k, e) in c.steps[..n].iter().enumerate() {
                    if dead && k == n - 1 {
                        // nothing recorded so far has been lost or changed
                        for (p, t) in &r.strs {
                            if ffi::str_bytes(*p) != *t {
                                return Err("a string changed".into());
                            }
                        }
                        doom(e);
                        return Err(format!("step {k}: {} did not fail", s(e, "op")));
                    }
                    r.op(e).map_err(|t| format!("step {k}: {t}"))?;
                }
                r.finish()
            })
            .join()
            .expect("no panic")
        })
    });
    if !report.is_empty() {
        return Err(report);
    }
    let want = pieces(&last["t"]);
    let right = match s(last, "op") {
        "deadline" => {
            out.len() > want.len() + 1
                && out.starts_with(&want)
                && out.ends_with(b"\n")
                && out[want.len()..out.len() - 1].iter().all(|b| (32..127).contains(b))
        }
        _ => out == want,
    };
    if (ending == Ending::Died) != dead || ending == Ending::Code(3) {
        return Err(format!("the program ended {ending:?}, must {}", if dead { "fail" } else { "return" }));
    }
    if !right {
        return Err(format!(
            "standard output is {:?}, must be {:?}{}",
            String::from_utf8_lossy(&out),
            String::from_utf8_lossy(&want),
            if s(last, "op") == "deadline" { " and one line's rest" } else { "" }
        ));
    }
    Ok(())
}
