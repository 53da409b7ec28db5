//! Operations and states as the specification writes them.
use num_complex::Complex64 as C;
use serde_json::Value;
use std::f64::consts::{FRAC_1_SQRT_2, PI};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub op: String,
    pub c: Vec<usize>,
    pub t: Vec<usize>,
    pub k: i64,
    pub j: i64,
    pub p: Vec<String>,
    pub u: String,
    pub r: u8,
    /// added to the angle (the conformance driver's own, zero in the specification)
    pub d: f64,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub o: Op,
    pub w: Option<(f64, f64)>, // weights of outcome 1 and 0
    pub wzero: (bool, bool),   // exactly zero?
    pub ids: Vec<usize>,
    pub v: Vec<C>,
}

fn ints(v: &Value) -> Vec<usize> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as usize)
        .collect()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap().to_string())
        .collect()
}

/// a + b*w + c*w^2 + d*w^3 with w = exp(i*pi/4)
pub fn ring(v: &Value) -> C {
    let a: Vec<f64> = v
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_i64().unwrap() as f64)
        .collect();
    C::new(
        a[0] + (a[1] - a[3]) * FRAC_1_SQRT_2,
        a[2] + (a[1] + a[3]) * FRAC_1_SQRT_2,
    )
}

/// Amplitudes, normalised.
pub fn vector(v: &Value) -> Vec<C> {
    let raw: Vec<C> = v.as_array().unwrap().iter().map(ring).collect();
    let n: f64 = raw.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt();
    raw.iter().map(|x| x / n).collect()
}

pub fn op(v: &Value) -> Op {
    if let Some(a) = v.as_array() {
        return Op {
            op: a[0].as_str().unwrap().into(),
            c: ints(&a[1]),
            t: ints(&a[2]),
            k: a[3].as_i64().unwrap(),
            j: a[4].as_i64().unwrap(),
            p: strs(&a[5]),
            u: a[6].as_str().unwrap().into(),
            r: a[7].as_u64().unwrap() as u8,
            d: 0.0,
        };
    }
    Op {
        op: v["op"].as_str().unwrap().into(),
        c: ints(&v["c"]),
        t: ints(&v["t"]),
        k: v["k"].as_i64().unwrap(),
        j: v["j"].as_i64().unwrap(),
        p: strs(&v["p"]),
        u: v["u"].as_str().unwrap().into(),
        r: v["r"].as_u64().unwrap() as u8,
        d: 0.0,
    }
}

pub fn rec(v: &Value) -> Rec {
    let w: Vec<i64> = v["w"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_i64().unwrap())
        .collect();
    let s2 = std::f64::consts::SQRT_2;
    Rec {
        o: op(v),
        w: if w.len() == 4 {
            Some((
                w[0] as f64 + w[1] as f64 * s2,
                w[2] as f64 + w[3] as f64 * s2,
            ))
        } else {
            None
        },
        wzero: if w.len() == 4 {
            (w[0] == 0 && w[1] == 0, w[2] == 0 && w[3] == 0)
        } else {
            (false, false)
        },
        ids: ints(&v["ids"]),
        v: vector(&v["v"]),
    }
}

impl Rec {
    /// Exact probability of outcome 1 and whether it is exactly 0 / exactly 1.
    pub fn prob(&self) -> Option<f64> {
        self.w.map(|(a, b)| {
            if self.wzero.0 {
                0.0
            } else if self.wzero.1 {
                1.0
            } else {
                a / (a + b)
            }
        })
    }
}

impl Op {
    /// Rotation angle theta = k*pi/2 + 2*j*atan(4/3).
    pub fn theta(&self) -> f64 {
        self.k as f64 * PI / 2.0 + 2.0 * self.j as f64 * (4.0_f64 / 3.0).atan() + self.d
    }
    /// Exponent angle k*pi/4 + j*atan(4/3).
    pub fn half(&self) -> f64 {
        self.k as f64 * PI / 4.0 + self.j as f64 * (4.0_f64 / 3.0).atan() + self.d / 2.0
    }
    pub fn phase(&self) -> f64 {
        self.k as f64 * PI / 4.0 + self.d
    }
    pub fn rotates(&self) -> bool {
        matches!(self.op.as_str(), "rx" | "ry" | "rz" | "ph" | "r" | "exp" | "rxx" | "ryy" | "rzz")
    }
    /// The same operator as two with angles `phi` and the rest.
    pub fn split(&self, phi: f64) -> [Op; 2] {
        let mut a = self.clone();
        a.k = 0;
        a.j = 0;
        a.d = phi;
        let mut b = self.clone();
        b.d = self.d - phi;
        [a, b]
    }
    pub fn measures(&self) -> bool {
        matches!(self.op.as_str(), "m" | "mr" | "rst" | "rel" | "rels" | "jm")
    }
    pub fn visible(&self) -> bool {
        matches!(self.op.as_str(), "m" | "mr" | "jm")
    }
    pub fn short(&self) -> String {
        let mut s = self.op.clone();
        if !self.c.is_empty() {
            s += &format!(" ctl{:?}", self.c);
        }
        s += &format!(" {:?}", self.t);
        if self.k != 0 || self.j != 0 {
            s += &format!(" k={} j={}", self.k, self.j);
        }
        if !self.p.is_empty() {
            s += &format!(" {}", self.p.join(""));
        }
        if !self.u.is_empty() {
            s += &format!(" {}", self.u);
        }
        if self.measures() || self.op == "fc" {
            s += &format!(" -> {}", self.r);
        }
        s
    }
}
