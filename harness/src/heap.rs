//! Modules HeapGen and Slices: objects, their contents and their memory.
use crate::alloc::{self, Did};
use crate::classical::{Case, Out, i, s, u};
use crate::ffi::{self, Ending};
use num_bigint::BigInt;
use qir_backend::*;
use serde_json::Value;
use std::cell::Cell;
use std::ffi::CString;

#[derive(Clone, Copy)]
pub enum Ptr {
    Arr(*const QirArray),
    Tup(*mut *const Vec<u8>),
    Str(*const CString),
    Big(*const BigInt),
    Call(*const Callable),
}
use Ptr::*;

struct Object {
    p: Ptr,
    kind: String,
    es: usize,
    n: usize,
    blocks: Vec<u64>,
    dead: bool,
}

thread_local! {
    static CALLED: Cell<i64> = const { Cell::new(-1) };
}
extern "C" fn body(_: *mut u8, _: *mut u8, _: *mut u8) {
    CALLED.set(0);
}
extern "C" fn adj(_: *mut u8, _: *mut u8, _: *mut u8) {
    CALLED.set(1);
}
extern "C" fn other(_: *mut u8, _: *mut u8, _: *mut u8) {
    CALLED.set(2);
}
type Entry = extern "C" fn(*mut u8, *mut u8, *mut u8);
struct Table([Entry; 4]);
static TABLE: Table = Table([body, adj, other, other]);

/// Byte j of an element with value v.
fn pat(v: u64, j: usize) -> u8 {
    if v == 0 { 0 } else { (v as usize + 31 * j) as u8 }
}

fn list(e: &Value) -> Vec<u64> {
    e["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}

unsafe fn refs(p: Ptr, k: i32) {
    unsafe {
        match p {
            Arr(a) => __quantum__rt__array_update_reference_count(a, k),
            Tup(t) => __quantum__rt__tuple_update_reference_count(t, k),
            Str(t) => __quantum__rt__string_update_reference_count(t, k),
            Big(b) => __quantum__rt__bigint_update_reference_count(b, k),
            Call(c) => __quantum__rt__callable_update_reference_count(c, k),
        }
    }
}

unsafe fn aliases(p: Ptr, k: i32) {
    unsafe {
        match p {
            Arr(a) => __quantum__rt__array_update_alias_count(a, k),
            Tup(t) => __quantum__rt__tuple_update_alias_count(t, k),
            Call(c) => __quantum__rt__callable_update_alias_count(c, k),
            _ => panic!("driver: no alias count"),
        }
    }
}

fn at(p: Ptr) -> usize {
    match p {
        Arr(a) => a as usize,
        Tup(t) => t as usize,
        Str(t) => t as usize,
        Big(b) => b as usize,
        Call(c) => c as usize,
    }
}

/// Are the object's contents these?
unsafe fn same(o: &Object, d: &[u64]) -> Out {
    unsafe {
        match o.p {
            Arr(a) => {
                let n = __quantum__rt__array_get_size_1d(a);
                if n != d.len() as u64 {
                    return Err(format!("has length {n}, must have {}", d.len()));
                }
                for (x, v) in d.iter().enumerate() {
                    let e = __quantum__rt__array_get_element_ptr_1d(a, x as u64).cast::<u8>();
                    if o.kind == "qarr" || o.kind == "ids" {
                        let id = e.cast::<u64>().read_unaligned();
                        if id != *v {
                            return Err(format!("holds qubit {id} at {x}, must hold {v}"));
                        }
                        continue;
                    }
                    for j in 0..o.es {
                        if *e.add(j) != pat(*v, j) {
                            return Err(format!(
                                "element {x} of {} bytes holds {} at byte {j}, must hold {}",
                                o.es,
                                *e.add(j),
                                pat(*v, j)
                            ));
                        }
                    }
                }
            }
            Tup(t) => {
                for (x, v) in d.iter().enumerate() {
                    let b = *t.cast::<u8>().add(x);
                    if u64::from(b) != *v {
                        return Err(format!("byte {x} is {b}, must be {v}"));
                    }
                }
            }
            Str(t) => {
                let b = ffi::str_bytes(t);
                let n = __quantum__rt__string_get_length(t);
                if n as usize != d.len() || !b.iter().map(|x| u64::from(*x)).eq(d.iter().copied()) {
                    return Err(format!("is the text {b:?} of length {n}, must be {d:?}"));
                }
            }
            Big(b) => {
                let n = __quantum__rt__bigint_get_length(b) as usize;
                let v = std::slice::from_raw_parts(__quantum__rt__bigint_get_data(b), n);
                if !v.iter().map(|x| u64::from(*x)).eq(d.iter().copied()) {
                    return Err(format!("is {v:?}, must be {d:?}"));
                }
            }
            Call(c) => {
                CALLED.set(-1);
                __quantum__rt__callable_invoke(c, std::ptr::null_mut(), std::ptr::null_mut());
                if CALLED.get() != d[0] as i64 {
                    return Err(format!("ran specialisation {}, must run {}", CALLED.get(), d[0]));
                }
            }
        }
    }
    Ok(())
}

pub fn replay(c: &mut Case) -> Out {
    __quantum__rt__initialize(std::ptr::null_mut());
    alloc::fresh();
    let mut objs: Vec<Object> = vec![];
    let mut now: Vec<Vec<u64>> = vec![];
    let mut rng = crate::rng::Rng::new(c.seed);
    for (n, e) in c.steps.iter().enumerate() {
        let op = s(e, "op");
        if op == "skip" {
            continue;
        }
        c.ops += 1;
        let at_step = |m: String| format!("step {n}: {op}: {m}");
        let d = list(e);
        let o = u(e, "o").wrapping_sub(1);
        let kind = s(e, "kind");
        let es = u(e, "es");
        match op {
            "new" | "cat" | "slice" | "calc" | "lit" => {
                let quantum = kind == "qarr";
                let (p, did) = match op {
                    "new" => create(kind, es, u(e, "i"), &d),
                    "calc" => {
                        let Big(b) = objs[o].p else { panic!("driver: calc") };
                        same_number(b, e["v"].as_u64().unwrap())
                    }
                    "lit" => literal(e["v"].as_u64().unwrap()),
                    "cat" => {
                        let (x, y) = (objs[o].p, objs[u(e, "p") - 1].p);
                        alloc::track(|| unsafe {
                            match (x, y) {
                                (Arr(a), Arr(b)) => Arr(__quantum__rt__array_concatenate(a, b)),
                                (Str(a), Str(b)) => Str(__quantum__rt__string_concatenate(a, b)),
                                _ => panic!("driver: cat"),
                            }
                        })
                    }
                    _ => {
                        let Arr(a) = objs[o].p else { panic!("driver: slice") };
                        let range = ffi::range(i(e, "i"), i(e, "k"), i(e, "v"));
                        alloc::track(|| unsafe { Arr(quantum__rt__array_slice_1d(a, range)) })
                    }
                };
                adopt(&mut objs, p, kind, es, d.len(), did, quantum).map_err(at_step)?;
                now.push(d.clone());
                unsafe { same(objs.last().unwrap(), &d) }.map_err(at_step)?;
            }
            "copy" => {
                let f = e["f"].as_bool().unwrap();
                let old = objs[o].p;
                let (p, did) = alloc::track(|| unsafe {
                    match old {
                        Arr(a) => Arr(__quantum__rt__array_copy(a, f)),
                        Tup(t) => Tup(__quantum__rt__tuple_copy(t, f)),
                        Call(x) => Call(__quantum__rt__callable_copy(x, f)),
                        _ => panic!("driver: copy"),
                    }
                });
                if u(e, "x") == o + 1 {
                    if at(p) != at(old) {
                        return Err(at_step("gave another object, must be the same".into()));
                    }
                    quiet(&did, 0).map_err(at_step)?;
                } else {
                    if at(p) == at(old) {
                        return Err(at_step("gave the same object, must be a new one".into()));
                    }
                    adopt(&mut objs, p, kind, es, d.len(), did, false).map_err(at_step)?;
                    now.push(d.clone());
                    unsafe { same(objs.last().unwrap(), &d) }.map_err(at_step)?;
                }
            }
            "set" => {
                let x = u(e, "i") - 1;
                let v = e["v"].as_u64().unwrap();
                let ob = &objs[o];
                unsafe {
                    match ob.p {
                        Arr(a) => {
                            let w = __quantum__rt__array_get_element_ptr_1d(a, x as u64).cast::<u8>();
                            for j in 0..ob.es {
                                *w.add(j) = pat(v, j);
                            }
                        }
                        Tup(t) => *t.cast::<u8>().add(x) = v as u8,
                        Call(k) => {
                            let ((), did) = alloc::track(|| __quantum__rt__callable_make_adjoint(k));
                            quiet(&did, 0).map_err(at_step)?;
                        }
                        _ => panic!("driver: set"),
                    }
                    now[o] = d.clone();
                    same(ob, &d).map_err(at_step)?;
                }
            }
            "fill" => {
                let ob = &objs[o];
                unsafe {
                    for (x, v) in d.iter().enumerate() {
                        match ob.p {
                            Arr(a) => {
                                let w = __quantum__rt__array_get_element_ptr_1d(a, x as u64).cast::<u8>();
                                for j in 0..ob.es {
                                    *w.add(j) = pat(*v, j);
                                }
                            }
                            Tup(t) => *t.cast::<u8>().add(x) = *v as u8,
                            _ => panic!("driver: fill"),
                        }
                    }
                    now[o] = d.clone();
                    same(ob, &d).map_err(at_step)?;
                }
            }
            "get" => unsafe { same(&objs[o], &d) }.map_err(at_step)?,
            "ref" | "al" | "relq" => {
                let k = i(e, "k") as i32;
                let p = objs[o].p;
                let ((), did) = alloc::track(|| unsafe {
                    match (op, p) {
                        ("ref", _) => refs(p, k),
                        ("al", _) => aliases(p, k),
                        (_, Arr(a)) => __quantum__rt__qubit_release_array(a),
                        _ => panic!("driver: relq"),
                    }
                });
                if op == "relq" {
                    objs[o].kind = "ids".into();
                }
                let mine: Vec<u64> = objs[o].blocks.iter().filter(|b| did.freed.contains(b)).copied().collect();
                if e["dead"] == true {
                    // what cannot change may be one object under several names
                    if let Some(twin) = (0..objs.len()).find(|x| *x != o && !objs[*x].dead && at(objs[*x].p) == at(p)) {
                        if !mine.is_empty() {
                            return Err(at_step(format!("object {} lost memory while referenced", twin + 1)));
                        }
                        let blocks = std::mem::take(&mut objs[o].blocks);
                        objs[twin].blocks.extend(blocks);
                    }
                    let left = objs[o].blocks.len() - mine.len();
                    // with aliases left, the bookkeeping block may remain
                    let may = usize::from(i(e, "al") > 0);
                    if left > may {
                        return Err(at_step(format!(
                            "{left} of {} blocks of memory of object {} ({}) were not returned with its last reference",
                            objs[o].blocks.len(),
                            o + 1,
                            objs[o].kind
                        )));
                    }
                    objs[o].dead = true;
                } else if !mine.is_empty() {
                    return Err(at_step(format!("object {} ({}) lost memory while referenced", o + 1, objs[o].kind)));
                }
                if op != "relq" {
                    quiet(&did, mine.len()).map_err(at_step)?;
                }
                if !objs[o].dead {
                    unsafe { same(&objs[o], &d) }.map_err(at_step)?;
                }
            }
            "doom" => {
                let p = objs[o].p;
                let k = i(e, "k") as i32;
                let end = ffi::forked(|| {
                    unsafe { aliases(p, k) };
                    0
                });
                if end != Ending::Died {
                    return Err(at_step(format!("driving the alias count of a {kind} below zero did not fail")));
                }
            }
            x => panic!("driver: unknown operation {x}"),
        }
        if rng.one_in(6) || n + 1 == c.steps.len() {
            for (x, ob) in objs.iter().enumerate().filter(|(_, ob)| !ob.dead) {
                unsafe { same(ob, &now[x]) }.map_err(|m| at_step(format!("object {} ({}) {m}", x + 1, ob.kind)))?;
            }
        }
    }
    Ok(())
}

fn quiet(did: &Did, allowed: usize) -> Out {
    if !did.made.is_empty() {
        return Err(format!("left {} new blocks of memory behind", did.made.len()));
    }
    if did.freed.len() > allowed {
        return Err("returned memory that is still in use".into());
    }
    Ok(())
}

fn adopt(objs: &mut Vec<Object>, p: Ptr, kind: &str, es: usize, n: usize, did: Did, quantum: bool) -> Out {
    if !did.freed.is_empty() && !quantum {
        return Err("returned memory that is still in use".into());
    }
    let blocks = if quantum {
        // the simulator may take memory of its own
        let mut v = vec![];
        if let Arr(a) = p {
            v.extend(alloc::block_of(at(p)));
            if n > 0 {
                v.extend(alloc::block_of(unsafe { __quantum__rt__array_get_element_ptr_1d(a, 0) } as usize));
            }
        }
        v.dedup();
        v
    } else {
        did.made
    };
    for b in &blocks {
        if objs.iter().any(|o| o.blocks.contains(b)) {
            return Err("shares memory with another object".into());
        }
    }
    objs.push(Object { p, kind: kind.into(), es, n, blocks, dead: false });
    let _ = objs.last().map(|o| o.n);
    Ok(())
}

fn create(kind: &str, es: usize, n: usize, d: &[u64]) -> (Ptr, Did) {
    let bytes: Vec<u8> = d.iter().map(|x| *x as u8).collect();
    let text = CString::new(bytes.iter().map(|x| (*x).max(1)).collect::<Vec<u8>>()).unwrap();
    alloc::track(|| unsafe {
        match kind {
            "arr" => Arr(__quantum__rt__array_create_1d(es as u32, n as u64)),
            "tup" => Tup(__quantum__rt__tuple_create(n as u64)),
            "str" => Str(__quantum__rt__string_create(text.as_ptr().cast_mut())),
            "big" => Big(__quantum__rt__bigint_create_array(bytes.len() as u32, bytes.as_ptr())),
            "call" => Call(__quantum__rt__callable_create(
                (&raw const TABLE.0).cast_mut().cast::<*mut u8>(),
                std::ptr::null_mut(),
                std::ptr::null_mut(),
            )),
            "qarr" => Arr(__quantum__rt__qubit_allocate_array(n as u64)),
            x => panic!("driver: kind {x}"),
        }
    })
}

/// The same number again, by operations that change nothing.
fn same_number(b: *const BigInt, how: u64) -> (Ptr, Did) {
    use qir_stdlib::bigints::*;
    let zero = __quantum__rt__bigint_create_i64(0);
    let one = __quantum__rt__bigint_create_i64(1);
    let r = alloc::track(|| unsafe {
        Big(match how {
            1 => __quantum__rt__bigint_shiftleft(b, 0),
            2 => __quantum__rt__bigint_shiftright(b, 0),
            3 => __quantum__rt__bigint_power(b, 1),
            4 => __quantum__rt__bigint_bitand(b, b),
            5 => __quantum__rt__bigint_bitor(b, b),
            6 => __quantum__rt__bigint_add(b, zero),
            7 => __quantum__rt__bigint_multiply(b, one),
            8 => __quantum__rt__bigint_divide(b, one),
            _ => __quantum__rt__bigint_subtract(b, zero),
        })
    });
    unsafe {
        __quantum__rt__bigint_update_reference_count(zero, -1);
        __quantum__rt__bigint_update_reference_count(one, -1);
    }
    r
}

fn literal(which: u64) -> (Ptr, Did) {
    use qir_backend::result_bool::{__quantum__rt__result_get_one, __quantum__rt__result_to_string};
    use qir_stdlib::strings::*;
    let zero = __quantum__rt__bigint_create_i64(0);
    let r = alloc::track(|| unsafe {
        Str(match which {
            1 => __quantum__rt__bool_to_string(true),
            2 => __quantum__rt__bool_to_string(false),
            3 => __quantum__rt__pauli_to_string(Pauli::I),
            4 => __quantum__rt__pauli_to_string(Pauli::X),
            5 => __quantum__rt__pauli_to_string(Pauli::Z),
            6 => __quantum__rt__pauli_to_string(Pauli::Y),
            7 => __quantum__rt__int_to_string(0),
            8 => __quantum__rt__int_to_string(-1),
            9 => __quantum__rt__double_to_string(0.0),
            10 => quantum__rt__range_to_string(ffi::range(0, 1, 0)),
            11 => __quantum__rt__result_to_string(__quantum__rt__result_get_one()),
            _ => __quantum__rt__bigint_to_string(zero),
        })
    });
    unsafe { __quantum__rt__bigint_update_reference_count(zero, -1) };
    r
}

/// One slice of one array, for every size of elements.
pub fn slice(c: &mut Case) -> Out {
    let e = &c.steps[0];
    let n = u(e, "n");
    let d = list(e);
    let big = |k: &str| {
        match i(e, k) {
            2_000_000 => i64::MAX,
            1_000_000 => 1 << 62,
            -1_000_000 => -(1 << 62),
            -2_000_000 => i64::MIN,
            v => v,
        }
    };
    for es in [1usize, 2, 3, 8, 16] {
        c.ops += 1;
        unsafe {
            let a = __quantum__rt__array_create_1d(es as u32, n as u64);
            for x in 0..n {
                let w = __quantum__rt__array_get_element_ptr_1d(a, x as u64).cast::<u8>();
                for j in 0..es {
                    *w.add(j) = pat(x as u64 + 1, j);
                }
            }
            let r = quantum__rt__array_slice_1d(a, ffi::range(big("a"), big("s"), big("b")));
            let ob = |p: *const QirArray, m: usize| Object {
                p: Arr(p),
                kind: "arr".into(),
                es,
                n: m,
                blocks: vec![],
                dead: false,
            };
            let who = format!("slice {}..{}..{} of {n} elements of {es} bytes", big("a"), big("s"), big("b"));
            same(&ob(r, d.len()), &d).map_err(|m| format!("{who}: {m}"))?;
            let before: Vec<u64> = (1..=n as u64).collect();
            same(&ob(a, n), &before).map_err(|m| format!("{who}: the original {m}"))?;
            __quantum__rt__array_update_reference_count(r, -1);
            __quantum__rt__array_update_reference_count(a, -1);
        }
    }
    Ok(())
}
