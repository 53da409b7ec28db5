//! Module MathTrace: calls of the mathematical functions and random draws.
use crate::classical::{i, s};
use crate::ffi::{self, Ending};
use crate::rng::Rng;
use crate::text::parts;
use qir_stdlib::math::*;
use serde_json::{Value, json};

fn dbl(x: f64) -> Value {
    let k = if x.is_nan() {
        "nan"
    } else if x.is_infinite() {
        "inf"
    } else {
        "fin"
    };
    let (s, m, e) = if x.is_finite() { parts(x) } else { (if x < 0.0 { -1 } else { 1 }, vec![], 0) };
    json!({"k": k, "s": s, "m": m, "e": e})
}

fn near(x: f64, r: &mut Rng, n: u64) -> f64 {
    f64::from_bits(x.to_bits().wrapping_add(r.below(2 * n as usize + 1) as u64).wrapping_sub(n))
}

fn pick(c: &str, e: i64, r: &mut Rng) -> f64 {
    let unit = |r: &mut Rng| (r.next() >> 11) as f64 / (1u64 << 53) as f64;
    let sign = if r.flip() { 1.0 } else { -1.0 };
    let edges = [
        0.0, 1.0, 0.5, 2.0, 3.0, 10.0, f64::INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON,
        5e-324, std::f64::consts::PI, std::f64::consts::FRAC_PI_2, std::f64::consts::E, 710.4758600739439, 1e16, 4503599627370496.5,
    ];
    sign * match c {
        "bits" => f64::from_bits(r.next()),
        "unit" => unit(r),
        "one" => unit(r) * 2f64.powi((e % 6) as i32),
        "big" => unit(r) * 2f64.powi((e.abs() % 60) as i32),
        "pihalf" => near(std::f64::consts::FRAC_PI_2 * (r.below(1 << (e.abs() % 20)) + 1) as f64, r, 3),
        "nearone" => near(1.0, r, 4),
        "near1" => 1.0 - (unit(r) + 0.5) * (if r.below(4) == 0 { -1.0 } else { 1.0 }) * 2f64.powi(-(e.abs() as i32 % 53) - 1),
        "tiny" => (1.0 + unit(r)) * 2f64.powi(-(e.abs() as i32) - 20),
        "sub" => f64::from_bits(r.next() >> (12 + r.below(50) as u32)),
        "int" => r.below(100) as f64,
        "huge" => (1.0 + unit(r)) * 2f64.powi(e.abs() as i32 * 3),
        "hyper" => unit(r) * 720.0,
        _ => edges[r.below(edges.len())],
    }
}

fn pair(p: &str, c: &str, d: &str, e: i64, r: &mut Rng) -> (f64, f64) {
    let x = pick(c, e, r);
    match p {
        // the same magnitude
        "same" => (x, x * (r.below(1000) as f64 + 1.0) / 300.0),
        // exactly half way between two multiples
        "tie" | "tiebit" => {
            let sc = 2f64.powi(e as i32);
            let y = (r.below(1000) + 1) as f64;
            let bits = 1 + r.below(30);
            let n = r.below(1 << bits) as f64;
            let x = if r.flip() { 1.0 } else { -1.0 } * (n + 0.5) * y * sc;
            let x = if p == "tie" { x } else { near(x, r, 2) };
            (x, if r.flip() { y * sc } else { -y * sc })
        }
        "edge" => (pick("edge", e, r), pick("edge", e, r)),
        "far" => (pick("one", e, r) * 2f64.powi(e.abs() as i32), pick("one", e, r)),
        "neg" => {
            let v = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, x];
            (v[r.below(7)], v[r.below(7)])
        }
        _ => (x, pick(d, e, r)),
    }
}

fn ints(e: i64, r: &mut Rng) -> Value {
    let base = match r.below(5) {
        0 => i64::MIN,
        1 => i64::MAX - 8,
        2 => r.next() as i64 / 2,
        _ => e - 4,
    };
    let mut width = 0;
    let mut all = false;
    let (lo, hi) = match r.below(8) {
        0 => (base, base),
        1..=3 => {
            width = r.below(7) as i64;
            all = true;
            (base, base + width)
        }
        4 => (i64::MIN, i64::MAX),
        5 => {
            let (a, b) = (r.next() as i64, r.next() as i64);
            (a.min(b), a.max(b))
        }
        6 => (base + 1 + (e.abs() % 8), base + e.abs() % 8),
        _ => {
            let (a, b) = (r.next() as i64, r.next() as i64);
            (a.max(b), a.min(b))
        }
    };
    let bytes = |x: i64| json!(x.to_le_bytes());
    let (mut got, mut failed) = (vec![], false);
    if lo > hi {
        failed = ffi::forked(|| {
            ffi::buffered();
            __quantum__qis__drawrandomint__body(lo, hi);
            0
        }) == Ending::Died;
    } else {
        let n = if all { 60 * (width + 1) } else { 128 };
        let mut list: Vec<i64> = (0..n).map(|_| __quantum__qis__drawrandomint__body(lo, hi)).collect();
        list.sort_unstable();
        list.dedup();
        got = list.into_iter().map(bytes).collect();
    }
    json!({"f": "ints", "lo": bytes(lo), "hi": bytes(hi), "width": width, "all": all, "got": got, "failed": failed})
}

fn doubles(c: &str, d: &str, e: i64, r: &mut Rng) -> Value {
    let mut finite = |c: &str| loop {
        let x = pick(c, e, r);
        if x.is_finite() {
            break x;
        }
    };
    let (a, b) = (finite(c), finite(d));
    let up = if a == 0.0 { 5e-324 } else { f64::from_bits(a.to_bits() + 1) };
    let (lo, hi) = match e.rem_euclid(6) {
        0 => (a, a),
        1 if up.is_finite() => (a.min(up), a.max(up)),
        2 => (a.max(b), a.min(b)),
        3 => (-f64::MAX, a.abs()),
        _ => (a.min(b), a.max(b)),
    };
    let (mut got, mut failed) = (vec![], false);
    if lo > hi {
        failed = ffi::forked(|| {
            ffi::buffered();
            __quantum__qis__drawrandomdouble__body(lo, hi);
            0
        }) == Ending::Died;
    } else {
        got = (0..128).map(|_| dbl(__quantum__qis__drawrandomdouble__body(lo, hi))).collect();
    }
    // a range of many doubles, and its quarters
    let wide = lo < hi && hi / 2.0 - lo / 2.0 > 1e-6 * lo.abs().max(hi.abs()) && hi - lo > 1e-300;
    let cut = |k: f64| dbl(if wide { (lo / 4.0 * (4.0 - k) + hi / 4.0 * k).clamp(lo, hi) } else { lo });
    json!({"f": "doubles", "lo": dbl(lo), "hi": dbl(hi), "cuts": [cut(1.0), cut(2.0), cut(3.0)], "wide": wide, "got": got, "failed": failed})
}

pub fn record(list: &[Value], seed: u64) -> Vec<Value> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    for p in list {
        let (f, c, d, e) = (s(p, "f"), s(p, "c"), s(p, "d"), i(p, "e"));
        let x = pick(c, e, &mut r);
        let one = |g: extern "C" fn(f64) -> f64| json!({"f": f, "x": dbl(x), "y": dbl(0.0), "r": dbl(g(x))});
        let v = match f {
            "sin" => one(__quantum__qis__sin__body),
            "cos" => one(__quantum__qis__cos__body),
            "tan" => one(__quantum__qis__tan__body),
            "sinh" => one(__quantum__qis__sinh__body),
            "cosh" => one(__quantum__qis__cosh__body),
            "tanh" => one(__quantum__qis__tanh__body),
            "arcsin" => one(__quantum__qis__arcsin__body),
            "arccos" => one(__quantum__qis__arccos__body),
            "arctan" => one(__quantum__qis__arctan__body),
            "sqrt" => one(__quantum__qis__sqrt__body),
            "log" => one(__quantum__qis__log__body),
            "arctan2" | "rem" => {
                let (x, y) = pair(s(p, "p"), c, d, e, &mut r);
                let g = if f == "rem" { __quantum__qis__ieeeremainder__body } else { __quantum__qis__arctan2__body };
                json!({"f": f, "x": dbl(x), "y": dbl(y), "r": dbl(g(x, y))})
            }
            "ints" => ints(e, &mut r),
            "doubles" => doubles(c, d, e, &mut r),
            _ => {
                for (n, b) in [
                    ("isnan", __quantum__qis__isnan__body(x)),
                    ("isinf", __quantum__qis__isinf__body(x)),
                    ("isneginf", __quantum__qis__isnegativeinfinity__body(x)),
                ] {
                    out.push(json!({"f": n, "x": dbl(x), "b": b}));
                }
                out.push(json!({"f": "nan", "x": dbl(__quantum__qis__nan__body())}));
                json!({"f": "inf", "x": dbl(__quantum__qis__infinity__body())})
            }
        };
        out.push(v);
    }
    out
}
