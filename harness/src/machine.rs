//! The real simulator behind one interface, driven either directly
//! (`QuantumSim`) or through the QIR functions (`__quantum__*`).
use crate::ffi;
use crate::qop::Op;
use crate::rng::Rng;
use ndarray::Array2;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use quantum_sparse_sim::QuantumSim;
use quantum_sparse_sim::exp::Pauli as SPauli;
use std::collections::HashMap;
use std::f64::consts::PI;

pub type Sparse = (Vec<(BigUint, C)>, usize);

/// What the operation reported, if anything.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Seen {
    Nothing,
    Bit(bool),
    Prob(f64),
    Unsupported,
}

pub struct Mats(pub HashMap<String, Array2<C>>);

pub trait Machine {
    fn reset(&mut self);
    fn seed(&mut self, s: u64);
    fn alloc(&mut self) -> usize;
    fn release(&mut self, id: usize);
    fn alloc_many(&mut self, n: usize) -> Vec<usize> {
        (0..n).map(|_| self.alloc()).collect()
    }
    fn release_many(&mut self, ids: &[usize]) {
        for id in ids {
            self.release(*id);
        }
    }
    fn state(&mut self) -> Sparse;
    /// `spare` is a live qubit the operation does not name.
    fn run(&mut self, o: &Op, spare: Option<usize>, m: &Mats, form: &mut Rng) -> Seen;
    fn dump(&mut self) -> Vec<(BigUint, C)>;
    /// Does the machine allocate qubits on first use?
    fn is_static(&self) -> bool {
        false
    }
    fn is_qir(&self) -> bool {
        false
    }
}

/// Adds a multiple of 4*pi (the same operator), or leaves the angle alone.
fn turn(theta: f64, form: &mut Rng) -> f64 {
    match form.below(8) {
        0 => theta + 4.0 * PI,
        1 => theta - 4.0 * PI,
        _ => theta,
    }
}

pub struct Direct {
    pub sim: QuantumSim,
}
impl Direct {
    pub fn new() -> Self {
        Direct {
            sim: QuantumSim::default(),
        }
    }
}
fn sp(p: &str) -> SPauli {
    match p {
        "I" => SPauli::I,
        "X" => SPauli::X,
        "Y" => SPauli::Y,
        _ => SPauli::Z,
    }
}
fn to_z(s: &mut QuantumSim, p: &[String], t: &[usize]) -> Vec<usize> {
    let mut z = vec![];
    for (p, &q) in p.iter().zip(t) {
        match p.as_str() {
            "X" => s.h(q),
            "Y" => {
                s.sadj(q);
                s.h(q);
            }
            "I" => continue,
            _ => (),
        }
        z.push(q);
    }
    z
}
fn from_z(s: &mut QuantumSim, p: &[String], t: &[usize]) {
    for (p, &q) in p.iter().zip(t) {
        match p.as_str() {
            "X" => s.h(q),
            "Y" => {
                s.h(q);
                s.s(q);
            }
            _ => (),
        }
    }
}

pub fn parse_dump(text: &str) -> Vec<(BigUint, C)> {
    let body = text
        .trim_end()
        .strip_prefix("STATE: [ ")
        .and_then(|s| s.strip_suffix("]"))
        .unwrap_or_else(|| panic!("dump is not of the documented form: {text:?}"));
    let mut out = vec![];
    for e in body.split(", ").filter(|e| !e.is_empty()) {
        let e = e.strip_prefix('|').expect("dump entry");
        let (k, v) = e.split_once("\u{27e9}: ").expect("dump entry");
        let v = v.parse::<C>().expect("dump amplitude");
        out.push((k.parse::<BigUint>().expect("dump label"), v));
    }
    out
}

impl Machine for Direct {
    fn reset(&mut self) {
        self.sim = QuantumSim::default();
    }
    fn seed(&mut self, s: u64) {
        self.sim.set_rng_seed(s);
    }
    fn alloc(&mut self) -> usize {
        self.sim.allocate()
    }
    fn release(&mut self, id: usize) {
        self.sim.release(id);
    }
    fn state(&mut self) -> Sparse {
        self.sim.get_state()
    }
    fn dump(&mut self) -> Vec<(BigUint, C)> {
        parse_dump(&self.sim.dump())
    }
    fn run(&mut self, o: &Op, _spare: Option<usize>, m: &Mats, form: &mut Rng) -> Seen {
        let s = &mut self.sim;
        let c = o.c.as_slice();
        let t = o.t.first().copied().unwrap_or(0);
        // A controlled gate with no controls is the plain gate.
        let plain = c.is_empty() && !form.one_in(6);
        let th = o.theta();
        match o.op.as_str() {
            "x" if plain => s.x(t),
            "x" => s.mcx(c, t),
            "y" if plain => s.y(t),
            "y" => s.mcy(c, t),
            "z" if plain => s.z(t),
            "z" => s.mcz(c, t),
            "h" if plain => s.h(t),
            "h" => s.mch(c, t),
            "s" if plain => s.s(t),
            "s" => s.mcs(c, t),
            "sa" if plain => s.sadj(t),
            "sa" => s.mcsadj(c, t),
            "t" if plain => s.t(t),
            "t" => s.mct(c, t),
            "ta" if plain => s.tadj(t),
            "ta" => s.mctadj(c, t),
            "sx" => {
                s.h(t);
                s.s(t);
                s.h(t);
            }
            "rx" if plain => s.rx(turn(th, form), t),
            "rx" => s.mcrx(c, turn(th, form), t),
            "ry" if plain => s.ry(turn(th, form), t),
            "ry" => s.mcry(c, turn(th, form), t),
            "rz" if plain => s.rz(turn(th, form), t),
            "rz" => s.mcrz(c, turn(th, form), t),
            "ph" => s.mcphase(c, C::from_polar(1.0, o.phase()), t),
            "exp" | "r" | "rxx" | "ryy" | "rzz" => {
                let ps: Vec<SPauli> = match o.op.as_str() {
                    "rxx" => vec![SPauli::X, SPauli::X],
                    "ryy" => vec![SPauli::Y, SPauli::Y],
                    "rzz" => vec![SPauli::Z, SPauli::Z],
                    _ => o.p.iter().map(|p| sp(p)).collect(),
                };
                let a = if o.op == "exp" { o.half() } else { -th / 2.0 };
                // 2*pi is a full turn of the exponent
                let a = turn(2.0 * a, form) / 2.0;
                if plain {
                    s.exp(&ps, a, &o.t);
                } else {
                    s.mcexp(c, &ps, a, &o.t);
                }
            }
            "ap" | "apa" => {
                let u = m.0[&o.u].clone();
                let u = &if o.op == "apa" {
                    u.t().mapv(|x| x.conj())
                } else {
                    u
                };
                if c.is_empty() && form.flip() {
                    s.apply(u, &o.t, None);
                } else {
                    s.apply(u, &o.t, Some(c));
                }
            }
            "sw" => s.swap_qubit_ids(o.t[0], o.t[1]),
            "m" => {
                if form.one_in(4) {
                    return Seen::Bit(s.joint_measure(&[t]));
                }
                return Seen::Bit(s.measure(t));
            }
            "mr" => {
                let r = s.measure(t);
                if r {
                    s.x(t);
                }
                return Seen::Bit(r);
            }
            "rst" => {
                if s.measure(t) {
                    s.x(t);
                }
            }
            "jm" => {
                let z = to_z(s, &o.p, &o.t);
                let r = s.joint_measure(&z);
                from_z(s, &o.p, &o.t);
                return Seen::Bit(r);
            }
            "pr" => {
                let z = to_z(s, &o.p, &o.t);
                let r = s.joint_probability(&z);
                from_z(s, &o.p, &o.t);
                return Seen::Prob(r);
            }
            "zq" => return Seen::Bit(s.qubit_is_zero(t)),
            "fc" => return Seen::Prob(s.force_collapse(o.r == 1, t)),
            _ => return Seen::Unsupported,
        }
        Seen::Nothing
    }
}

use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;

/// The QIR functions.  `stat`: qubits are static numbers, never allocated.
pub struct Qir {
    pub stat: bool,
}

#[repr(C)]
struct RotArgs {
    theta: f64,
    qubit: usize,
}
#[repr(C)]
struct PauliRotArgs {
    pauli: Pauli,
    theta: f64,
    qubit: usize,
}
#[repr(C)]
struct ExpArgs {
    paulis: *const QirArray,
    theta: f64,
    qubits: *const QirArray,
}

fn with_tuple<T>(args: T, f: impl FnOnce(*mut *const Vec<u8>)) {
    let t = __quantum__rt__tuple_create(size_of::<T>() as u64);
    unsafe {
        t.cast::<T>().write(args);
        f(t);
        __quantum__rt__tuple_update_reference_count(t, -1);
    }
}

impl Machine for Qir {
    fn is_static(&self) -> bool {
        self.stat
    }
    fn is_qir(&self) -> bool {
        true
    }
    fn reset(&mut self) {
        ffi::buffered();
        ffi::drain_output();
        __quantum__rt__initialize(std::ptr::null_mut());
    }
    fn seed(&mut self, s: u64) {
        set_rng_seed(s);
    }
    fn alloc(&mut self) -> usize {
        __quantum__rt__qubit_allocate() as usize
    }
    fn release(&mut self, id: usize) {
        __quantum__rt__qubit_release(ffi::q(id));
    }
    fn alloc_many(&mut self, n: usize) -> Vec<usize> {
        let a = __quantum__rt__qubit_allocate_array(n as u64);
        unsafe {
            let len = __quantum__rt__array_get_size_1d(a);
            let ids = (0..len)
                .map(|i| __quantum__rt__array_get_element_ptr_1d(a, i).cast::<usize>().read_unaligned())
                .collect();
            ffi::free_arr(a);
            ids
        }
    }
    fn release_many(&mut self, ids: &[usize]) {
        unsafe { __quantum__rt__qubit_release_array(ffi::qarr(ids)) }
    }
    fn state(&mut self) -> Sparse {
        capture_quantum_state()
    }
    fn dump(&mut self) -> Vec<(BigUint, C)> {
        ffi::drain_output();
        __quantum__qis__dumpmachine__body(std::ptr::null_mut());
        let out = String::from_utf8(ffi::drain_output()).expect("dump is text");
        let line = out
            .lines()
            .find(|l| l.starts_with("STATE"))
            .unwrap_or_else(|| panic!("no state line in the dump: {out:?}"));
        parse_dump(line)
    }
    #[allow(clippy::too_many_lines)]
    fn run(&mut self, o: &Op, spare: Option<usize>, _m: &Mats, form: &mut Rng) -> Seen {
        let c = o.c.as_slice();
        let tq = o.t.first().copied().unwrap_or(0);
        let t = ffi::q(tq);
        let plain = c.is_empty() && !form.one_in(6);
        let th = o.theta();
        if form.one_in(8) {
            // neither does anything
            __quantum__qis__barrier__body();
            __quantum__rt__result_update_reference_count(ffi::q(form.below(3)), 1 - 2 * form.below(2) as i32);
        }
        unsafe {
            let ctl = |f: unsafe extern "C" fn(*const QirArray, *mut std::ffi::c_void)| {
                let a = ffi::qarr(c);
                f(a, t);
                ffi::free_arr(a);
            };
            let rctl = |f: unsafe extern "C" fn(*const QirArray, *mut *const Vec<u8>), th: f64| {
                let a = ffi::qarr(c);
                with_tuple(
                    RotArgs {
                        theta: th,
                        qubit: tq,
                    },
                    |u| f(a, u),
                );
                ffi::free_arr(a);
            };
            match o.op.as_str() {
                "x" if plain => __quantum__qis__x__body(t),
                "x" if c.len() == 1 && form.flip() => {
                    if form.flip() {
                        __quantum__qis__cnot__body(ffi::q(c[0]), t);
                    } else {
                        __quantum__qis__cx__body(ffi::q(c[0]), t);
                    }
                }
                "x" if c.len() == 2 && form.flip() => {
                    __quantum__qis__ccx__body(ffi::q(c[0]), ffi::q(c[1]), t);
                }
                "x" => ctl(__quantum__qis__x__ctl),
                "y" if plain => __quantum__qis__y__body(t),
                "y" if c.len() == 1 && form.flip() => __quantum__qis__cy__body(ffi::q(c[0]), t),
                "y" => ctl(__quantum__qis__y__ctl),
                "z" if plain => __quantum__qis__z__body(t),
                "z" if c.len() == 1 && form.flip() => __quantum__qis__cz__body(ffi::q(c[0]), t),
                "z" => ctl(__quantum__qis__z__ctl),
                "h" if plain => __quantum__qis__h__body(t),
                "h" => ctl(__quantum__qis__h__ctl),
                "s" if plain => __quantum__qis__s__body(t),
                "s" => ctl(__quantum__qis__s__ctl),
                "sa" if plain => __quantum__qis__s__adj(t),
                "sa" => ctl(__quantum__qis__s__ctladj),
                "t" if plain => __quantum__qis__t__body(t),
                "t" => ctl(__quantum__qis__t__ctl),
                "ta" if plain => __quantum__qis__t__adj(t),
                "ta" => ctl(__quantum__qis__t__ctladj),
                "sx" => __quantum__qis__sx__body(t),
                "rx" if plain => __quantum__qis__rx__body(turn(th, form), t),
                "rx" => rctl(__quantum__qis__rx__ctl, turn(th, form)),
                "ry" if plain => __quantum__qis__ry__body(turn(th, form), t),
                "ry" => rctl(__quantum__qis__ry__ctl, turn(th, form)),
                "rz" if plain => __quantum__qis__rz__body(turn(th, form), t),
                "rz" => rctl(__quantum__qis__rz__ctl, turn(th, form)),
                "ph" => {
                    // A controlled rotation about the identity is a phase of exp(-i*theta/2)
                    // on its controls.
                    let mut all = c.to_vec();
                    all.push(tq);
                    let a = ffi::qarr(&all);
                    let adj = form.flip();
                    let theta = if adj { 2.0 } else { -2.0 } * o.phase();
                    let Some(sq) = spare else {
                        // The exponential of the empty Pauli string is a phase.
                        let none = ffi::qarr(&[]);
                        with_tuple(
                            ExpArgs {
                                paulis: none,
                                theta: o.phase(),
                                qubits: none,
                            },
                            |u| __quantum__qis__exp__ctl(a, u),
                        );
                        ffi::free_arr(none);
                        ffi::free_arr(a);
                        return Seen::Nothing;
                    };
                    with_tuple(
                        PauliRotArgs {
                            pauli: Pauli::I,
                            theta,
                            qubit: sq,
                        },
                        |u| {
                            if adj {
                                __quantum__qis__r__ctladj(a, u);
                            } else {
                                __quantum__qis__r__ctl(a, u);
                            }
                        },
                    );
                    ffi::free_arr(a);
                }
                "r" => {
                    let adj = form.flip();
                    let theta = turn(if adj { -th } else { th }, form);
                    let p = ffi::pauli(&o.p[0]);
                    if plain {
                        if adj {
                            __quantum__qis__r__adj(p, theta, t);
                        } else {
                            __quantum__qis__r__body(p, theta, t);
                        }
                    } else {
                        let a = ffi::qarr(c);
                        with_tuple(
                            PauliRotArgs {
                                pauli: p,
                                theta,
                                qubit: tq,
                            },
                            |u| {
                                if adj {
                                    __quantum__qis__r__ctladj(a, u);
                                } else {
                                    __quantum__qis__r__ctl(a, u);
                                }
                            },
                        );
                        ffi::free_arr(a);
                    }
                }
                "rxx" => __quantum__qis__rxx__body(turn(th, form), t, ffi::q(o.t[1])),
                "ryy" => __quantum__qis__ryy__body(turn(th, form), t, ffi::q(o.t[1])),
                "rzz" => __quantum__qis__rzz__body(turn(th, form), t, ffi::q(o.t[1])),
                "exp" => {
                    let adj = form.flip();
                    let theta = turn(if adj { -2.0 } else { 2.0 } * o.half(), form) / 2.0;
                    let ps = ffi::parr(&o.p);
                    let qs = ffi::qarr(&o.t);
                    if plain {
                        if adj {
                            __quantum__qis__exp__adj(ps, theta, qs);
                        } else {
                            __quantum__qis__exp__body(ps, theta, qs);
                        }
                    } else {
                        let a = ffi::qarr(c);
                        with_tuple(
                            ExpArgs {
                                paulis: ps,
                                theta,
                                qubits: qs,
                            },
                            |u| {
                                if adj {
                                    __quantum__qis__exp__ctladj(a, u);
                                } else {
                                    __quantum__qis__exp__ctl(a, u);
                                }
                            },
                        );
                        ffi::free_arr(a);
                    }
                    ffi::free_arr(ps);
                    ffi::free_arr(qs);
                }
                "sw" => __quantum__qis__swap__body(t, ffi::q(o.t[1])),
                "m" => match form.below(4) {
                    0 => {
                        let ps = ffi::parr(&["Z".to_string()]);
                        let qs = ffi::qarr(&[tq]);
                        let r = __quantum__qis__measure__body(ps, qs);
                        ffi::free_arr(ps);
                        ffi::free_arr(qs);
                        return Seen::Bit(__quantum__rt__result_equal(
                            r,
                            __quantum__rt__result_get_one(),
                        ));
                    }
                    1 => {
                        let n = form.below(70);
                        __quantum__qis__mz__body(t, ffi::q(n));
                        return Seen::Bit(if form.flip() {
                            __quantum__qis__read_result__body(ffi::q(n))
                        } else {
                            __quantum__rt__read_result(ffi::q(n))
                        });
                    }
                    _ => {
                        let r = __quantum__qis__m__body(t);
                        return Seen::Bit(__quantum__rt__result_equal(
                            r,
                            __quantum__rt__result_get_one(),
                        ));
                    }
                },
                "mr" => {
                    let n = form.below(70);
                    __quantum__qis__mresetz__body(t, ffi::q(n));
                    return Seen::Bit(__quantum__rt__read_result(ffi::q(n)));
                }
                "rst" => __quantum__qis__reset__body(t),
                "jm" => {
                    let ps = ffi::parr(&o.p);
                    let qs = ffi::qarr(&o.t);
                    let r = __quantum__qis__measure__body(ps, qs);
                    ffi::free_arr(ps);
                    ffi::free_arr(qs);
                    return Seen::Bit(__quantum__rt__result_equal(
                        r,
                        __quantum__rt__result_get_one(),
                    ));
                }
                "zq" => return Seen::Bit(qubit_is_zero(t)),
                _ => return Seen::Unsupported,
            }
        }
        Seen::Nothing
    }
}

/// Asserts, through the QIR function, that the parity of `ps` on `ids` is
/// `one` with probability `prob` within `tol`.
pub fn assert_prob(ps: &[String], ids: &[usize], one: bool, prob: f64, tol: f64, ctl: Option<usize>) {
    #[repr(C)]
    struct Args {
        paulis: *const QirArray,
        qubits: *const QirArray,
        result: *mut std::ffi::c_void,
        prob: f64,
        msg: *const std::ffi::CString,
        tol: f64,
    }
    let p = ffi::parr(ps);
    let qs = ffi::qarr(ids);
    let msg = ffi::mkstr(b"assertion on probability");
    let result = if one {
        __quantum__rt__result_get_one()
    } else {
        __quantum__rt__result_get_zero()
    };
    unsafe {
        if let Some(cq) = ctl {
            let a = ffi::qarr(&[cq]);
            with_tuple(
                Args {
                    paulis: p,
                    qubits: qs,
                    result,
                    prob,
                    msg,
                    tol,
                },
                |u| __quantum__qis__assertmeasurementprobability__ctl(a, u),
            );
            ffi::free_arr(a);
        } else {
            __quantum__qis__assertmeasurementprobability__body(p, qs, result, prob, msg, tol);
        }
    }
    ffi::free_arr(p);
    ffi::free_arr(qs);
    ffi::free_str(msg);
}
