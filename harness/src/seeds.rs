//! Module Seeds: scripts of seeding and running programs.
use crate::classical::{s, u};
use crate::ffi::{self, q};
use crate::rng::Rng;
use qir_backend::result_bool::*;
use qir_backend::*;
use num_bigint::BigUint;
use num_complex::Complex64;
use quantum_sparse_sim::QuantumSim;
use serde_json::{Value, json};

struct Bits {
    out: String,
    obs: bool,
    r: Rng,
}
impl Bits {
    fn put(&mut self, b: bool) {
        self.out.push(if b { '1' } else { '0' });
        self.look();
    }
    /// Looks at the state, if this run is an observed one.
    fn look(&mut self) {
        if !self.obs {
            return;
        }
        match self.r.below(5) {
            0 => {
                let _ = capture_quantum_state();
            }
            1 => {
                __quantum__qis__dumpmachine__body(std::ptr::null_mut());
                ffi::drain_output();
            }
            2 => {
                qubit_is_zero(q(0));
            }
            3 => crate::machine::assert_prob(&["Z".to_string()], &[0], true, 0.5, 1.0, None),
            _ => (),
        }
    }
}

fn one(r: *mut std::ffi::c_void) -> bool {
    __quantum__rt__result_equal(r, __quantum__rt__result_get_one())
}

fn joint(ps: &[&str], ids: &[usize]) -> bool {
    let p: Vec<String> = ps.iter().map(|x| (*x).to_string()).collect();
    let (p, a) = (ffi::parr(&p), ffi::qarr(ids));
    let r = unsafe { __quantum__qis__measure__body(p, a) };
    ffi::free_arr(p);
    ffi::free_arr(a);
    one(r)
}

fn program(p: usize, b: &mut Bits) {
    __quantum__rt__initialize(std::ptr::null_mut());
    match p {
        // static, one qubit measured again and again
        1 => {
            for n in 0..64 {
                __quantum__qis__h__body(q(n % 3));
                b.look();
                __quantum__qis__mz__body(q(n % 3), q(n));
                b.look();
            }
            for n in 0..64 {
                b.put(__quantum__rt__read_result(q(n)));
            }
        }
        // dynamic, entangled
        2 => {
            for _ in 0..70 {
                let a = __quantum__rt__qubit_allocate();
                let c = __quantum__rt__qubit_allocate();
                __quantum__qis__h__body(a);
                __quantum__qis__cnot__body(a, c);
                b.look();
                let x = one(__quantum__qis__m__body(a));
                b.put(x);
                assert_eq!(x, one(__quantum__qis__m__body(c)), "halves of a pair");
                __quantum__rt__qubit_release(c);
                __quantum__rt__qubit_release(a);
            }
        }
        // outcomes that are not shown: reset and release of entangled qubits
        3 => {
            for _ in 0..70 {
                let a = __quantum__rt__qubit_allocate();
                let c = __quantum__rt__qubit_allocate();
                __quantum__qis__h__body(a);
                __quantum__qis__cnot__body(a, c);
                b.look();
                __quantum__qis__reset__body(c);
                __quantum__qis__h__body(c);
                b.put(one(__quantum__qis__m__body(a)));
                __quantum__rt__qubit_release(c);
                __quantum__qis__mresetz__body(a, q(2));
                __quantum__rt__qubit_release(a);
            }
        }
        // nothing random
        4 => {
            for n in 0..5 {
                __quantum__qis__x__body(q(n));
                __quantum__qis__mz__body(q(n), q(n));
                b.put(__quantum__rt__read_result(q(n)));
                b.put(__quantum__rt__read_result(q(n + 10)));
            }
        }
        // biased
        5 => {
            let t = __quantum__rt__qubit_allocate_array(3);
            unsafe {
                let id = |n| *__quantum__rt__array_get_element_ptr_1d(t, n).cast::<usize>();
                for n in 0..200 {
                    let (a, c) = (id(n % 3), id((n + 1) % 3));
                    __quantum__qis__ry__body(0.9 + n as f64, q(a));
                    __quantum__qis__rxx__body(0.4, q(a), q(c));
                    b.put(joint(&["X", "Y"], &[a, c]));
                }
                __quantum__rt__qubit_release_array(t);
            }
        }
        // left as it is, everything pending
        _ => {
            for n in 0..6 {
                __quantum__qis__h__body(q(n));
                __quantum__qis__ry__body(1.0, q(n));
            }
            b.put(joint(&["Z", "Z", "X"], &[0, 3, 5]));
            __quantum__qis__h__body(q(1));
            __quantum__qis__x__body(q(9));
            __quantum__qis__mz__body(q(9), q(70));
            b.put(__quantum__rt__read_result(q(70)));
            __quantum__qis__cx__body(q(1), q(2));
        }
    }
}

/// Something that happens to go on, in whatever state things are.
fn junk(p: usize) -> String {
    match p {
        1 => {
            let a = __quantum__rt__qubit_allocate();
            __quantum__qis__h__body(a);
            let r = one(__quantum__qis__m__body(a));
            __quantum__qis__h__body(a);
            __quantum__qis__ry__body(0.3, a);
            return if r { "1" } else { "0" }.into();
        }
        2 => {
            for n in 0..90 {
                __quantum__rt__write_result(true, q(n));
            }
            let a = __quantum__rt__qubit_allocate();
            __quantum__qis__x__body(a);
            __quantum__qis__rx__body(0.7, a);
        }
        _ => {
            let l = __quantum__rt__qubit_allocate_array(70);
            for n in 0..70 {
                unsafe { __quantum__qis__s__body(*__quantum__rt__array_get_element_ptr_1d(l, n).cast()) };
            }
        }
    }
    String::new()
}

fn blank() -> String {
    __quantum__rt__initialize(std::ptr::null_mut());
    let (st, n) = capture_quantum_state();
    let zero = st.len() == 1 && st[0].0.bits() == 0 && (st[0].1.norm() - 1.0).abs() < 1e-9;
    let res = (0..300).filter(|i| __quantum__rt__read_result(q(*i))).count();
    // what is allocated now is in |0>, with nothing pending
    let a = __quantum__rt__qubit_allocate();
    let mut text = format!("{n} qubits, state {}, results {res}", if zero { "|0>" } else { "not |0>" });
    if a as usize != 0 || !qubit_is_zero(a) {
        text += &format!(", first qubit {} not |0>", a as usize);
    }
    __quantum__rt__initialize(std::ptr::null_mut());
    text
}

/// Some of them agree in their low or their high half.
const SEEDS: [u64; 8] = [0, 42, u64::MAX, 1 << 32, 42 + (7 << 32), 1 << 63, u32::MAX as u64, 43];

type State = (Vec<(BigUint, Complex64)>, usize);
fn same(mut a: State, mut b: State) -> bool {
    a.0.sort_by(|x, y| x.0.cmp(&y.0));
    b.0.sort_by(|x, y| x.0.cmp(&y.0));
    a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).norm() < 1e-9)
}

/// What a process of its own gets that never seeds anything.
fn unseeded(f: impl FnOnce() -> String + Send + 'static) -> String {
    let (_, _, text) = ffi::captured(|| Err(std::thread::spawn(f).join().expect("thread")));
    text
}

pub fn record(list: &[Value], seed: u64) -> Vec<Value> {
    let list = list.to_vec();
    let work = move || {
        ffi::buffered();
        let mut out = vec![json!({"op": "start", "p": 0, "out": ""})];
        for (n, e) in list.iter().enumerate() {
            let p = u(e, "p");
            let text = match s(e, "op") {
                "seed" if u(e, "obs") == 1 => {
                    let all = || {
                        // reading a result may make room for it
                        let res: Vec<bool> = (0..100 * (p % 2)).map(|i| __quantum__rt__read_result(q(i))).collect();
                        (capture_quantum_state(), res)
                    };
                    let before = all();
                    set_rng_seed(SEEDS[p]);
                    let after = all();
                    if after.1 == before.1 && same(after.0, before.0) { "kept" } else { "changed" }.into()
                }
                "seed" => {
                    set_rng_seed(SEEDS[p]);
                    String::new()
                }
                "junk" => junk(p),
                "blank" => blank(),
                "fresh" => unseeded(move || {
                    ffi::buffered();
                    let mut b = Bits { out: String::new(), obs: false, r: Rng::new(1) };
                    program(p, &mut b);
                    b.out
                }),
                _ => {
                    let mut b = Bits {
                        out: String::new(),
                        obs: u(e, "obs") == 1,
                        r: Rng::new(seed + n as u64),
                    };
                    program(p, &mut b);
                    b.out
                }
            };
            out.push(json!({"op": e["op"], "p": p, "out": text}));
        }
        out
    };
    if seed % 2 == 0 {
        std::thread::spawn(work).join().expect("thread")
    } else {
        work()
    }
}

/// The same with simulator instances: seeding and handing the generator on.
pub fn record_direct(list: &[Value], seed: u64) -> Vec<Value> {
    let mut out = vec![json!({"op": "start", "p": 0, "out": ""})];
    let mut sim = QuantumSim::default();
    let mut r = Rng::new(seed);
    for e in list {
        let p = u(e, "p");
        let mut text = String::new();
        match s(e, "op") {
            "seed" if u(e, "obs") == 1 => {
                let before = sim.get_state();
                sim.set_rng_seed(SEEDS[p]);
                text = if same(sim.get_state(), before) { "kept" } else { "changed" }.into();
            }
            "seed" => sim.set_rng_seed(SEEDS[p]),
            "fresh" => {
                text = unseeded(|| {
                    let mut sim = QuantumSim::new(None);
                    let a = sim.allocate();
                    (0..64)
                        .map(|_| {
                            sim.h(a);
                            if sim.measure(a) { '1' } else { '0' }
                        })
                        .collect()
                });
            }
            "blank" => {
                sim = QuantumSim::new(Some(sim.take_rng()));
                let (st, n) = sim.get_state();
                let zero = st.len() == 1 && st[0].0.bits() == 0;
                text = format!("{n} qubits, state {}, results 0", if zero { "|0>" } else { "not |0>" });
            }
            "junk" => {
                let a = sim.allocate();
                sim.h(a);
                sim.ry(0.4, a);
                sim.mcx(&[], a);
                if p == 1 {
                    text.push(if sim.measure(a) { '1' } else { '0' });
                }
            }
            _ => {
                sim = QuantumSim::new(Some(sim.take_rng()));
                let obs = u(e, "obs") == 1;
                let rounds = if matches!(p, 1 | 2 | 3 | 5) { 70 } else { 3 };
                for n in 0..rounds {
                    let a = sim.allocate();
                    let b = sim.allocate();
                    sim.h(a);
                    sim.mcx(&[a], b);
                    if obs && r.flip() {
                        let _ = sim.get_state();
                        let _ = sim.dump();
                        let _ = sim.qubit_is_zero(a);
                        let _ = sim.joint_probability(&[a, b]);
                    }
                    if p == 4 {
                        sim.mcx(&[a], b);
                        sim.h(a);
                    } else if p == 5 {
                        sim.ry(0.2 + f64::from(n), a);
                    }
                    let x = match p {
                        2 => sim.joint_measure(&[a]),
                        _ => sim.measure(a),
                    };
                    text.push(if x { '1' } else { '0' });
                    sim.release(if n % 2 == 0 { a } else { b });
                    sim.release(if n % 2 == 0 { b } else { a });
                }
            }
        }
        out.push(json!({"op": e["op"], "p": p, "out": text}));
    }
    out
}
