//! Module CallGen: callables.
use crate::alloc;
use crate::classical::{Case, Out, i, s, u};
use qir_backend::*;
use serde_json::Value;
use std::cell::RefCell;

type Tup = *mut *const Vec<u8>;
type Arr = *const QirArray;

#[derive(Default)]
struct World {
    ran: Vec<(u64, u64, u64)>, // table, specialisation, captured value
    ctls: Vec<u64>,
    pay: Vec<u64>,
    npay: usize,
    null: bool,
    keep: u64,
    kept: Vec<usize>,
    res: usize,
    caps: Vec<(u64, i32)>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

unsafe fn read(a: Arr) -> Vec<u64> {
    unsafe {
        (0..__quantum__rt__array_get_size_1d(a))
            .map(|k| __quantum__rt__array_get_element_ptr_1d(a, k).cast::<u64>().read_unaligned())
            .collect()
    }
}

fn run(tab: u64, idx: u64, cap: *mut u8, args: *mut u8, res: *mut u8) {
    alloc::untracked(|| ran(tab, idx, cap, args, res));
}

fn ran(tab: u64, idx: u64, cap: *mut u8, args: *mut u8, res: *mut u8) {
    W.with(|w| unsafe {
        let w = &mut *w.borrow_mut();
        let c = if cap.is_null() { 0 } else { cap.cast::<u64>().read_unaligned() };
        w.ran.push((tab, idx, c));
        w.null = args.is_null();
        let mut words = args.cast::<u64>();
        if !args.is_null() {
            if idx >= 2 {
                let a = words.read_unaligned() as usize as Arr;
                w.ctls = read(a);
                words = words.add(1);
                if w.keep == 1 {
                    __quantum__rt__array_update_reference_count(a, 1);
                    w.kept.push(a as usize);
                }
            }
            w.pay = (0..w.npay).map(|k| words.add(k).read_unaligned()).collect();
            if w.keep == 2 {
                __quantum__rt__tuple_update_reference_count(args.cast(), 1);
                w.kept.push(args as usize);
            }
        }
        w.res = res as usize;
        if !res.is_null() {
            *res.cast::<u64>() = 0xFEED_0000 + tab * 16 + idx;
        }
    });
}

macro_rules! entries {
    ($($name:ident $tab:expr, $idx:expr;)*) => { $(
        extern "C" fn $name(cap: *mut u8, args: *mut u8, res: *mut u8) {
            run($tab, $idx, cap, args, res);
        } )*
    };
}
entries! {
    t10 1, 0; t11 1, 1; t12 1, 2; t13 1, 3;
    t20 2, 0; t21 2, 1; t22 2, 2; t23 2, 3;
    t30 3, 0; t31 3, 1; t32 3, 2; t33 3, 3;
}

/// Applies the captured callable with the same functors and arguments, as
/// the compiler does for partial application.
fn forward(idx: u64, cap: *mut u8, args: *mut u8, res: *mut u8) {
    unsafe {
        let inner = cap.cast::<usize>().read_unaligned() as *const Callable;
        let copy = __quantum__rt__callable_copy(inner, true);
        if idx & 1 == 1 {
            __quantum__rt__callable_make_adjoint(copy);
        }
        if idx & 2 == 2 {
            __quantum__rt__callable_make_controlled(copy);
        }
        __quantum__rt__callable_invoke(copy, args, res);
        __quantum__rt__callable_update_reference_count(copy, -1);
    }
}
extern "C" fn f0(c: *mut u8, a: *mut u8, r: *mut u8) {
    forward(0, c, a, r);
}
extern "C" fn f1(c: *mut u8, a: *mut u8, r: *mut u8) {
    forward(1, c, a, r);
}
extern "C" fn f2(c: *mut u8, a: *mut u8, r: *mut u8) {
    forward(2, c, a, r);
}
extern "C" fn f3(c: *mut u8, a: *mut u8, r: *mut u8) {
    forward(3, c, a, r);
}
type Entry = extern "C" fn(*mut u8, *mut u8, *mut u8);
static TABLES: [[Entry; 4]; 4] =
    [[f0, f1, f2, f3], [t10, t11, t12, t13], [t20, t21, t22, t23], [t30, t31, t32, t33]];

extern "C" fn capref(cap: *mut u8, k: i32) {
    W.with(|w| w.borrow_mut().caps.push((1000 + unsafe { cap.cast::<u64>().read_unaligned() }, k)));
}
extern "C" fn capal(cap: *mut u8, k: i32) {
    W.with(|w| w.borrow_mut().caps.push((2000 + unsafe { cap.cast::<u64>().read_unaligned() }, k)));
}
type Mem = Option<extern "C" fn(*mut u8, i32)>;
static MEMS: [[Mem; 2]; 4] = [[None, None], [Some(capref), None], [None, Some(capal)], [Some(capref), Some(capal)]];

fn words(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}

unsafe fn tuple(w: &[u64]) -> Tup {
    unsafe {
        let (t, _) = alloc::track(|| __quantum__rt__tuple_create(8 * w.len() as u64));
        for (k, x) in w.iter().enumerate() {
            t.cast::<u64>().add(k).write_unaligned(*x);
        }
        t
    }
}

fn array(w: &[u64]) -> Arr {
    let (a, _) = alloc::track(|| __quantum__rt__array_create_1d(8, w.len() as u64));
    for (k, x) in w.iter().enumerate() {
        unsafe { __quantum__rt__array_get_element_ptr_1d(a, k as u64).cast::<u64>().write_unaligned(*x) };
    }
    a
}

unsafe fn invoke(e: &Value, c: *const Callable, n: usize) -> Out {
    let lists: Vec<Vec<u64>> = e["lists"].as_array().unwrap().iter().map(words).collect();
    let pay = words(&e["pay"]);
    let null = e["null"] == true;
    let al = i(e, "al") as i32;
    let bad = |m: String| Err(format!("step {n}: {m}"));
    unsafe {
        // the caller's tuples and arrays, innermost first
        let mut tups: Vec<(Tup, Vec<u64>)> = vec![];
        let mut arrs: Vec<(Arr, Vec<u64>)> = vec![];
        if lists.is_empty() {
            if !null {
                tups.push((tuple(&pay), pay.clone()));
            }
        } else {
            for (k, l) in lists.iter().enumerate().rev() {
                let a = array(l);
                let mut w = vec![a as usize as u64];
                match tups.last() {
                    Some((t, _)) if k + 1 < lists.len() => w.push(*t as usize as u64),
                    _ => w.extend(&pay),
                }
                arrs.push((a, l.clone()));
                tups.push((tuple(&w), w));
            }
        }
        for (t, _) in &tups {
            __quantum__rt__tuple_update_alias_count(*t, al);
        }
        for (a, _) in &arrs {
            __quantum__rt__array_update_alias_count(*a, al);
        }
        let mut result = [0u64; 2];
        let with_res = n % 3 != 0;
        W.with(|w| {
            let w = &mut *w.borrow_mut();
            *w = World { npay: pay.len(), keep: e["keep"].as_u64().unwrap(), ..World::default() };
        });
        let args = tups.last().map_or(std::ptr::null_mut(), |(t, _)| t.cast::<u8>());
        let res = if with_res { result.as_mut_ptr().cast::<u8>() } else { std::ptr::null_mut() };
        let ((), did) = alloc::track(|| __quantum__rt__callable_invoke(c, args, res));
        let w = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
        let want = &e["want"];
        let expect = (want["tab"].as_u64().unwrap(), want["idx"].as_u64().unwrap(), want["cap"].as_u64().unwrap());
        if w.ran != [expect] {
            return bad(format!("ran (table, specialisation, capture) {:?}, must run {expect:?} once", w.ran));
        }
        if w.null != null {
            return bad("an absent argument tuple is not what the implementation got".into());
        }
        if w.ctls != words(&e["flat"]) {
            return bad(format!("controls {:?}, must be {:?}", w.ctls, words(&e["flat"])));
        }
        if w.pay != pay {
            return bad(format!("arguments {:?}, must be {pay:?}", w.pay));
        }
        if w.res != res as usize {
            return bad("the result location is not the caller's".into());
        }
        if with_res && result[0] != 0xFEED_0000 + expect.0 * 16 + expect.1 {
            return bad("the result did not arrive".into());
        }
        // what the implementation kept is still there
        for k in &w.kept {
            if w.keep == 1 && read(*k as Arr) != words(&e["flat"]) {
                return bad("a control list the implementation kept changed".into());
            }
        }
        let (_, gone) = alloc::track(|| {
            for k in &w.kept {
                if w.keep == 1 {
                    __quantum__rt__array_update_reference_count(*k as Arr, -1);
                } else {
                    __quantum__rt__tuple_update_reference_count(*k as Tup, -1);
                }
            }
        });
        // (the memory behind a kept tuple's control list goes with the invocation)
        if did.made.iter().any(|b| !gone.freed.contains(b)) {
            return bad("the invocation left memory behind".into());
        }
        for b in did.freed.iter().chain(gone.freed.iter()) {
            if !did.made.contains(b) {
                return bad("the invocation returned memory of the caller".into());
            }
        }
        for (t, w) in &tups {
            for (k, x) in w.iter().enumerate() {
                if t.cast::<u64>().add(k).read_unaligned() != *x {
                    return bad("the caller's argument tuple changed".into());
                }
            }
        }
        for (a, l) in &arrs {
            if read(*a) != *l {
                return bad("the caller's control list changed".into());
            }
        }
        // the counts are what they were: the caller's last reference returns the memory
        for (t, _) in &tups {
            let b = alloc::block_of(*t as usize);
            let ((), d) = alloc::track(|| {
                __quantum__rt__tuple_update_alias_count(*t, -al);
                __quantum__rt__tuple_update_reference_count(*t, -1);
            });
            if b.is_some_and(|b| !d.freed.contains(&b)) {
                return bad("the caller's tuple has a reference too many after the invocation".into());
            }
        }
        for (a, _) in &arrs {
            let b = alloc::block_of(*a as usize);
            let ((), d) = alloc::track(|| {
                __quantum__rt__array_update_alias_count(*a, -al);
                __quantum__rt__array_update_reference_count(*a, -1);
            });
            if b.is_some_and(|b| !d.freed.contains(&b)) {
                return bad("the caller's control list has a reference too many after the invocation".into());
            }
        }
    }
    Ok(())
}

pub fn replay(c: &mut Case) -> Out {
    alloc::fresh();
    let mut cs: Vec<*const Callable> = vec![];
    // captured values live as long as the behaviour
    let mut caps: Vec<Box<u64>> = vec![];
    for (n, e) in c.steps.iter().enumerate() {
        let op = s(e, "op");
        if op == "skip" {
            continue;
        }
        c.ops += 1;
        let o = u(e, "o").wrapping_sub(1);
        let k = i(e, "k") as i32;
        unsafe {
            match op {
                "new" => {
                    let mut b = Box::new(u(e, "cap") as u64);
                    let cap = if *b == 0 { std::ptr::null_mut() } else { (&raw mut *b).cast::<u8>() };
                    caps.push(b);
                    let m = u(e, "mem");
                    // 4: no table at all
                    let mem = if m == 4 || cap.is_null() {
                        std::ptr::null_mut()
                    } else {
                        (&raw const MEMS[m]).cast_mut().cast::<*mut u8>()
                    };
                    cs.push(__quantum__rt__callable_create(
                        (&raw const TABLES[u(e, "tab")]).cast_mut().cast::<*mut u8>(),
                        mem,
                        cap,
                    ));
                }
                "fwd" => {
                    let t = __quantum__rt__callable_copy(cs[o], true);
                    let mut b = Box::new(t as usize as u64);
                    let cap = (&raw mut *b).cast::<u8>();
                    caps.push(b);
                    cs.push(__quantum__rt__callable_create(
                        (&raw const TABLES[0]).cast_mut().cast::<*mut u8>(),
                        std::ptr::null_mut(),
                        cap,
                    ));
                }
                "adj" => (0..k).for_each(|_| __quantum__rt__callable_make_adjoint(cs[o])),
                "ctl" => (0..k).for_each(|_| __quantum__rt__callable_make_controlled(cs[o])),
                "al" => __quantum__rt__callable_update_alias_count(cs[o], k),
                "ref" => __quantum__rt__callable_update_reference_count(cs[o], k),
                "copy" => {
                    let p = __quantum__rt__callable_copy(cs[o], e["f"] == true);
                    let fresh = u(e, "x") != o + 1;
                    if fresh == (p == cs[o]) {
                        return Err(format!("step {n}: a copy gave a {} object", if fresh { "shared" } else { "new" }));
                    }
                    if fresh {
                        cs.push(p);
                    }
                }
                "capref" | "capal" => {
                    W.with(|w| w.borrow_mut().caps.clear());
                    if op == "capref" {
                        __quantum__rt__capture_update_reference_count(cs[o], k);
                    } else {
                        __quantum__rt__capture_update_alias_count(cs[o], k);
                    }
                    let got = W.with(|w| std::mem::take(&mut w.borrow_mut().caps));
                    let cap = u(e, "cap") as u64;
                    let want: Vec<(u64, i32)> = if e["f"] == true && cap != 0 {
                        vec![((if op == "capref" { 1000 } else { 2000 }) + cap, k)]
                    } else {
                        vec![]
                    };
                    if got != want {
                        return Err(format!("step {n}: {op}: callbacks {got:?}, must be {want:?}"));
                    }
                }
                "inv" => invoke(e, cs[o], n)?,
                x => panic!("driver: unknown operation {x}"),
            }
        }
    }
    Ok(())
}
