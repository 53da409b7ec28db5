//! Replays behaviours of the specification into the real simulator and
//! compares everything observable with what the specification says.
use crate::machine::{Machine, Mats, Seen};
use crate::qop::{self, Op, Rec};
use crate::rng::Rng;
use ndarray::Array2;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use num_traits::Zero;
use serde_json::Value;
use std::collections::{BTreeSet, HashMap};
use std::f64::consts::FRAC_1_SQRT_2;

pub const TOL: f64 = 1e-7;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lift {
    None,
    /// other identifiers, more qubits around, holes in the identifier space
    Wide,
    /// long stretches of cancelling gates
    Pad,
}

pub struct Header {
    pub mats: Mats,
    pub n: usize,
    pub start: usize,
}

/// A line is a JSON value or a JSON string holding one.
pub fn parse_line(line: &str) -> Value {
    let v: Value = serde_json::from_str(line).expect("specification output is JSON");
    match v {
        Value::String(s) => serde_json::from_str(&s).expect("specification output is JSON"),
        v => v,
    }
}

pub fn header(v: &Value) -> Header {
    let mut mats = HashMap::new();
    if let Some(o) = v["mats"].as_object() {
        for (name, m) in o {
            let rows = m["m"].as_array().unwrap();
            let n = rows.len();
            let s = qop::ring(&m["s"]);
            let mut a = Array2::<C>::zeros((n, n));
            for (i, r) in rows.iter().enumerate() {
                for (j, e) in r.as_array().unwrap().iter().enumerate() {
                    a[[i, j]] = qop::ring(e) / s;
                }
            }
            mats.insert(name.clone(), a);
        }
    }
    Header {
        mats: Mats(mats),
        n: v["n"].as_u64().unwrap() as usize,
        start: v["start"].as_u64().unwrap() as usize,
    }
}

/// A tensor factor: qubit identifiers (bit 0 first) and amplitudes.
pub type Factor = (Vec<usize>, Vec<C>);

/// The expected amplitudes with the live qubits numbered by increasing id.
pub fn expected(factors: &[Factor], live: &[usize]) -> Result<HashMap<BigUint, C>, String> {
    let pos: HashMap<usize, usize> = live.iter().enumerate().map(|(n, id)| (*id, n)).collect();
    let mut acc: HashMap<BigUint, C> = HashMap::from([(BigUint::zero(), C::new(1.0, 0.0))]);
    for (ids, amps) in factors {
        let mut next = HashMap::new();
        for (n, a) in amps.iter().enumerate() {
            if a.norm() < 1e-12 {
                continue;
            }
            let mut bits = BigUint::zero();
            for (b, id) in ids.iter().enumerate() {
                if n >> b & 1 == 1 {
                    let p = pos.get(id).ok_or_else(|| {
                        format!("qubit {id} should be in use, the state has {live:?}")
                    })?;
                    bits.set_bit(*p as u64, true);
                }
            }
            for (k, v) in &acc {
                next.insert(k | &bits, v * a);
            }
        }
        acc = next;
    }
    Ok(acc)
}

fn show(m: &HashMap<BigUint, C>) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    v.iter()
        .take(20)
        .map(|(k, a)| format!("|{k}>:{:.6}{:+.6}i", a.re, a.im))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Equal up to one global phase; and the snapshot is in canonical form.
pub fn compare(actual: &(Vec<(BigUint, C)>, usize), want: &HashMap<BigUint, C>) -> Result<(), String> {
    let (list, count) = actual;
    for w in list.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!(
                "snapshot is not sorted or repeats a state: {} before {}",
                w[0].0, w[1].0
            ));
        }
    }
    if let Some((k, _)) = list.last()
        && k.bits() > *count as u64
    {
        return Err(format!("snapshot has state {k} with {count} qubits"));
    }
    let norm: f64 = list.iter().map(|(_, a)| a.norm_sqr()).sum();
    if (norm - 1.0).abs() > 1e-6 || !norm.is_finite() {
        return Err(format!("state has squared norm {norm}"));
    }
    let got: HashMap<BigUint, C> = list.iter().cloned().collect();
    let mut ov = C::zero();
    for (k, a) in want {
        if let Some(b) = got.get(k) {
            ov += a.conj() * b;
        }
    }
    let fail = || {
        Err(format!(
            "state differs: expected {} got {}",
            show(want),
            show(&got)
        ))
    };
    if (ov.norm() - 1.0).abs() > 1e-6 {
        return fail();
    }
    let ph = ov / ov.norm();
    for (k, b) in &got {
        let a = want.get(k).copied().unwrap_or_default();
        if (b - ph * a).norm() > TOL {
            return fail();
        }
    }
    for (k, a) in want {
        if !got.contains_key(k) && a.norm() > TOL {
            return fail();
        }
    }
    Ok(())
}

#[derive(Debug)]
pub enum Fail {
    /// the real system contradicts the specification
    Wrong(String),
    /// an outcome other than the behaviour's (both possible)
    Other,
    /// the behaviour cannot be performed at this interface
    Skip,
}

/// A run in progress.
pub struct Ctx {
    pub map: Vec<usize>, // slot -> identifier
    pub live: BTreeSet<usize>,
    pub around: Vec<Factor>,
    /// qubits beside the behaviour's on which unrelated work goes on
    pub beside: Vec<usize>,
    pub work: Vec<Op>,
    /// above all identifiers ever in use
    pub top: usize,
    /// qubits around in an eigenstate: of which Pauli, and is it of eigenvalue -1?
    pub known: Vec<(usize, &'static str, bool)>,
    /// a qubit that is hardly ever one: which of `around`, where in it, its
    /// identifier and that probability
    pub faint: Option<(usize, usize, usize, f64)>,
}

pub struct Player<'a> {
    pub h: &'a Header,
    pub lift: Lift,
    pub seed: u64,
    /// operations performed by the real system
    pub ops: u64,
    pub runs: u64,
    pub states: u64,
    /// behaviours with an invalid operation
    pub bad: bool,
}

fn mex(s: &BTreeSet<usize>) -> usize {
    (0..).find(|x| !s.contains(x)).unwrap()
}

const FREE: usize = usize::MAX;

impl<'a> Player<'a> {
    pub fn new(h: &'a Header, lift: Lift, seed: u64) -> Self {
        Player {
            h,
            lift,
            seed,
            ops: 0,
            runs: 0,
            states: 0,
            bad: false,
        }
    }

    pub fn mapped(o: &Op, map: &[usize]) -> Op {
        let mut o = o.clone();
        for x in o.c.iter_mut().chain(o.t.iter_mut()) {
            *x = map[*x];
        }
        o
    }

    fn op(name: &str, c: Vec<usize>, t: Vec<usize>, k: i64) -> Op {
        Op {
            op: name.into(),
            c,
            t,
            k,
            j: 0,
            p: vec![],
            u: String::new(),
            r: 0,
            d: 0.0,
        }
    }

    /// Start of a run: the qubits the behaviour starts with, and, when lifted,
    /// what is around them.
    pub fn open(&mut self, m: &mut dyn Machine) -> Result<Ctx, Fail> {
        m.reset();
        self.runs += 1;
        let start = self.h.start;
        let mut live = BTreeSet::new();
        if self.lift != Lift::Wide {
            if m.is_static() {
                // the numbers of the qubits, in any order and with gaps
                let mut r = Rng::new(self.seed ^ 0x51A7);
                let mut map: Vec<usize> = (0..self.h.n + [0, 1, 3, 62][r.below(4)]).collect();
                r.shuffle(&mut map);
                map.truncate(self.h.n);
                return Ok(Ctx {
                    map,
                    live,
                    around: vec![],
                    beside: vec![],
                    work: vec![],
                    top: 0,
                    known: vec![],
                    faint: None,
                });
            }
            let mut map = vec![FREE; self.h.n];
            for (slot, id) in map.iter_mut().zip(self.allocate(m, start, &mut live)?) {
                *slot = id;
            }
            return Ok(Ctx {
                map,
                live,
                around: vec![],
                    beside: vec![],
                    work: vec![],
            top: 0,
            known: vec![],
            faint: None,
            });
        }
        let mut r = Rng::new(self.seed ^ 0xA11CE);
        let total = if r.one_in(12) {
            [200, 257, 300, 600][r.below(4)] // ... of a system of hundreds
        } else {
            [start + 2, start + 5, 40, 66, 70, 130][r.below(6)].max(start + 1)
        };
        let total = if self.heavy() { total.max(40) } else { total };
        let mut ids: Vec<usize> = (0..total).collect();
        if !m.is_static() {
            self.allocate(m, total, &mut live)?;
        }
        r.shuffle(&mut ids);
        if r.flip() && total > 64 + start {
            // make sure of the high identifiers
            let hi = ids.iter().position(|x| *x == total - 1).unwrap();
            let at = r.below(start.max(1));
            ids.swap(hi, at);
        }
        let mut map = vec![FREE; self.h.n];
        map[..start].copy_from_slice(&ids[..start]);
        if m.is_static() {
            map.copy_from_slice(&ids[..self.h.n]);
        }
        let rest = &ids[if m.is_static() { self.h.n } else { start }..];
        // Some neighbours are in other states than zero ...
        let mut around = vec![];
        let mut known = vec![];
        let mut faint = None;
        let c = |x: f64| C::new(x, 0.0);
        let mut at = 0;
        let s = FRAC_1_SQRT_2;
        let none = Mats(HashMap::new());
        let mut form = Rng::new(7);
        for _ in 0..4 {
            if at + 2 > rest.len() {
                break;
            }
            let a = rest[at];
            let b = rest[at + 1];
            let (ops, f): (Vec<Op>, Factor) = match r.below(6) {
                4 if faint.is_none() => {
                    // one that is almost, but not quite, in a basis state
                    let mut o = Self::op("ry", vec![], vec![a], 0);
                    o.d = [0.03, 0.01, 2e-3, 3e-4, 1e-5][r.below(5)];
                    let (x, y) = ((o.d / 2.0).cos(), (o.d / 2.0).sin());
                    let entangled = r.flip();
                    let which = usize::from(entangled);
                    faint = Some((around.len(), which, [a, b][which], y * y));
                    if !entangled {
                        (vec![o], (vec![a], vec![c(x), c(y)]))
                    } else {
                        (
                            vec![o, Self::op("x", vec![a], vec![b], 0), Self::op("x", vec![], vec![a], 0)],
                            (vec![a, b], vec![c(0.0), c(x), c(y), c(0.0)]),
                        )
                    }
                }
                0 => (vec![Self::op("x", vec![], vec![a], 0)], (vec![a], vec![c(0.0), c(1.0)])),
                1 => (
                    vec![Self::op("h", vec![], vec![a], 0)],
                    (vec![a], vec![c(s), c(s)]),
                ),
                2 => (
                    vec![
                        Self::op("h", vec![], vec![a], 0),
                        Self::op("x", vec![a], vec![b], 0),
                    ],
                    (vec![a, b], vec![c(s), c(0.0), c(0.0), c(s)]),
                ),
                3 => (
                    vec![Self::op("ry", vec![], vec![a], 1)],
                    (vec![a], vec![c(s), c(s)]),
                ),
                _ => (
                    vec![Self::op("rx", vec![], vec![a], 1)],
                    (vec![a], vec![c(s), C::new(0.0, -s)]),
                ),
            };
            at += f.0.len();
            if let [o] = ops.as_slice()
                && o.d == 0.0
            {
                known.push(match o.op.as_str() {
                    "x" => (a, "Z", true),
                    "rx" => (a, "Y", true),
                    _ => (a, "X", false),
                });
            }
            for o in ops {
                m.run(&o, None, &none, &mut form);
            }
            around.push(f);
        }
        let beside: Vec<usize> = rest[at.min(rest.len())..].iter().take(2).copied().collect();
        at += beside.len();
        // ... many perhaps in |1> ...
        let ones = if r.flip() { [1, 2, 3, 8, 40, 66][r.below(6)] } else { 0 };
        for a in rest[at.min(rest.len())..].iter().take(ones) {
            m.run(&Self::op("x", vec![], vec![*a], 0), None, &none, &mut form);
            around.push((vec![*a], vec![c(0.0), c(1.0)]));
            known.push((*a, "Z", true));
            at += 1;
        }
        // ... and some are gone again.
        if !m.is_static() && r.flip() {
            for id in &rest[at.min(rest.len())..] {
                if r.one_in(3) {
                    m.release(*id);
                    live.remove(id);
                }
            }
        }
        // ... now and then, so many in superposition that the state is a large one ...
        let heavy = self.heavy();
        if heavy || r.one_in(150) {
            let (many, stat) = (if heavy { 8 } else { 5 } + r.below(4), m.is_static());
            for a in rest[at.min(rest.len())..].iter().filter(|a| stat || live.contains(a)).take(many) {
                m.run(&Self::op("h", vec![], vec![*a], 0), None, &none, &mut form);
                around.push((vec![*a], vec![c(s), c(s)]));
                known.push((*a, "X", false));
            }
        }
        for id in &rest[at.min(rest.len())..] {
            if live.contains(id) && known.len() < 80 && known.iter().all(|k| k.0 != *id) {
                known.push((*id, "Z", false));
            }
        }
        let beside = if r.flip() { beside } else { vec![] };
        Ok(Ctx {
            map,
            live,
            around,
            beside,
            work: vec![],
            top: 0,
            known,
            faint,
        })
    }

    /// Is this behaviour one that takes place in a state of thousands of terms?
    fn heavy(&self) -> bool {
        self.lift == Lift::Wide && Rng::new(self.seed ^ 0x8EA71).one_in(300)
    }

    fn allocate(&self, m: &mut dyn Machine, n: usize, live: &mut BTreeSet<usize>) -> Result<Vec<usize>, Fail> {
        let ids = if self.runs % 2 == 0 {
            m.alloc_many(n)
        } else {
            (0..n).map(|_| m.alloc()).collect()
        };
        if ids.len() != n {
            return Err(Fail::Wrong(format!("allocating {n} qubits gave {}", ids.len())));
        }
        for id in &ids {
            if *id != mex(live) {
                return Err(Fail::Wrong(format!(
                    "allocation returned {id}, the lowest free identifier is {}",
                    mex(live)
                )));
            }
            live.insert(*id);
        }
        Ok(ids)
    }

    /// Releases every qubit, in any order, and looks at what is left.
    fn close(&mut self, m: &mut dyn Machine, ctx: &mut Ctx) -> Result<(), String> {
        let mut r = Rng::new(self.seed ^ 0xC105E);
        let mut ids: Vec<usize> = ctx.live.iter().copied().collect();
        r.shuffle(&mut ids);
        let keep = if ids.is_empty() { 0 } else { r.below(2).min(ids.len() - 1) };
        m.release_many(&ids[keep..]);
        if r.flip() || keep > 0 {
            // one that is allocated now is in no way connected to the others
            let mut live: BTreeSet<usize> = ids[..keep].iter().copied().collect();
            let id = m.alloc();
            if id != mex(&live) {
                return Err(format!("allocation returned {id}, the lowest free identifier is {}", mex(&live)));
            }
            live.insert(id);
            let none = Mats(HashMap::new());
            m.run(&Self::op("x", vec![], vec![id], 0), None, &none, &mut r);
            let (st, n) = m.state();
            let pos = live.iter().position(|x| *x == id).unwrap() as u64;
            if n != live.len() || st.iter().any(|(k, _)| !k.bit(pos)) {
                return Err(format!("a fresh qubit {id} with X applied is not |1> in {n} qubits: {st:?}"));
            }
            m.release_many(&live.iter().copied().collect::<Vec<_>>());
        }
        let (st, n) = m.state();
        let ok = n == 0 && st.len() == 1 && st[0].0.is_zero() && (st[0].1.norm() - 1.0).abs() < 1e-6;
        if !ok {
            return Err(format!("with no qubits the state is {st:?} of {n}"));
        }
        Ok(())
    }

    /// An invalid operation with identifiers filled in: free slots get one that
    /// is not in use (any, or only such as have been in use before).
    pub fn invalid(&self, o: &Op, ctx: &Ctx, any: bool) -> Option<Op> {
        let top = ctx.live.iter().max().map_or(0, |x| x + 1).max(ctx.top);
        let mut holes: Vec<usize> = (0..top).filter(|x| !ctx.live.contains(x)).collect();
        let mut r = Rng::new(self.seed ^ 0x1D);
        if any && (holes.is_empty() || r.one_in(3)) {
            holes = vec![top, top + 1, top + 70];
        }
        r.shuffle(&mut holes);
        let mut b = o.clone();
        b.op = b.u.clone();
        let mut next = 0;
        let mut given: HashMap<usize, usize> = HashMap::new();
        for x in b.c.iter_mut().chain(b.t.iter_mut()) {
            let id = ctx.map.get(*x).copied().unwrap_or(FREE);
            *x = if id != FREE {
                id
            } else if let Some(g) = given.get(x) {
                *g
            } else {
                let g = *holes.get(next)?;
                next += 1;
                given.insert(*x, g);
                g
            };
        }
        self.more_operands(&mut b, ctx, &mut r);
        let n = b.t.len();
        b.u = match (b.op.as_str(), n) {
            ("ap", 1) => "H1",
            ("ap", 2) => "IS",
            ("ap", 3) => "Q3",
            ("apsize", 1) => "IS",
            ("apsize", _) => "H1",
            ("apsq", _) => "apsq",
            _ => "",
        }
        .into();
        if b.op == "apsize" || b.op == "apsq" {
            b.op = "ap".into();
        }
        if b.op == "r" {
            b.p = vec![b.p[0].clone()];
        }
        Some(b)
    }

    /// Neighbours as further operands of an invalid operation: it stays invalid, among many.
    fn more_operands(&self, b: &mut Op, ctx: &Ctx, r: &mut Rng) {
        let n = [0, 1, 2, 3, 7, 30, 70][r.below(7)];
        let mut known: Vec<(usize, &str)> =
            ctx.known.iter().map(|k| (k.0, k.1)).filter(|(id, _)| !b.c.contains(id) && !b.t.contains(id)).collect();
        r.shuffle(&mut known);
        known.truncate(n);
        if matches!(b.op.as_str(), "jm" | "pr") || (b.op == "exp" && r.flip()) {
            for (id, p) in known {
                // the Pauli it is in an eigenstate of: the state must not grow
                let pos = r.below(b.t.len() + 1);
                b.t.insert(pos, id);
                b.p.insert(pos, p.into());
            }
        } else if matches!(
            b.op.as_str(),
            "x" | "y" | "z" | "h" | "s" | "sa" | "t" | "ta" | "rx" | "ry" | "rz" | "ph" | "r" | "exp"
        ) {
            for (id, _) in known {
                let pos = r.below(b.c.len() + 1);
                b.c.insert(pos, id);
            }
            if r.flip() {
                b.c.sort_unstable();
            }
        }
    }

    /// The invalid operation, and what follows, must fail by the time the state is observed.
    fn doomed(&mut self, m: &mut dyn Machine, recs: &[Rec], seeds: &[u64]) -> Result<(), Fail> {
        let Some(at) = recs.iter().position(|r| r.o.op == "bad") else {
            return Err(Fail::Skip);
        };
        let quiet = |_: usize| false;
        let mut mats = Mats(self.h.mats.0.clone());
        mats.0.insert("apsq".into(), Array2::<C>::eye(4).slice(ndarray::s![0..2, ..]).to_owned());
        let mut r = Rng::new(self.seed ^ 0xD00);
        for _ in 0..2 {
            // releasing the last qubit discards the state and all that is pending on it: observe before
            let last = (at + 1..recs.len()).find(|&n| recs[n].ids.is_empty()).unwrap_or(recs.len());
            let upto = if r.flip() { at + 1 } else { at + 1 + r.below(last - at) };
            let mut ctx = self.run(m, &recs[..at], at, seeds, &quiet)?;
            let Some(o) = self.invalid(&recs[at].o, &ctx, !m.is_qir()) else {
                return Err(Fail::Skip);
            };
            let mut supported = true;
            if m.is_qir() && matches!(o.op.as_str(), "ap" | "fc") {
                supported = false;
            }
            if !supported {
                return Err(Fail::Skip);
            }
            let end = crate::ffi::forked(|| {
                let mut form = r.clone();
                if o.op == "rel" {
                    m.release(o.t[0]);
                } else if o.op == "pr" && m.is_qir() {
                    crate::machine::assert_prob(&o.p, &o.t, true, 0.5, 1.0, None);
                } else {
                    m.run(&o, None, &mats, &mut form);
                }
                for (n, rec) in recs[..upto].iter().enumerate().skip(at + 1) {
                    // only the bookkeeping of an allocation may be wrong
                    if let Err(Fail::Skip) = self.step(m, &mut ctx, rec, n) {
                        break;
                    }
                }
                std::hint::black_box(m.state());
                0
            });
            self.ops += 1;
            if end != crate::ffi::Ending::Died {
                return Err(Fail::Wrong(format!(
                    "step {at}: invalid {} ({:?}) did not fail although the state was observed {} steps later",
                    o.short(),
                    recs[at].o.short(),
                    upto - at
                )));
            }
        }
        Ok(())
    }

    /// One step of a behaviour.
    pub fn step(
        &mut self,
        m: &mut dyn Machine,
        ctx: &mut Ctx,
        rec: &Rec,
        at: usize,
    ) -> Result<(), Fail> {
        self.ops += 1;
        let o = &rec.o;
        let mut form = Rng::new(self.seed.wrapping_mul(31).wrapping_add(at as u64));
        match o.op.as_str() {
            "al" => {
                let id = m.alloc();
                if id != mex(&ctx.live) {
                    return Err(Fail::Wrong(format!(
                        "step {at}: allocation returned {id}, the lowest free identifier is {}",
                        mex(&ctx.live)
                    )));
                }
                ctx.live.insert(id);
                ctx.map[o.t[0]] = id;
                return Ok(());
            }
            "rel" => {
                let id = ctx.map[o.t[0]];
                m.release(id);
                ctx.top = ctx.top.max(id + 1);
                ctx.live.remove(&id);
                ctx.map[o.t[0]] = FREE;
                return Ok(());
            }
            "als" => {
                let ids = m.alloc_many(o.t.len());
                if ids.len() != o.t.len() {
                    return Err(Fail::Wrong(format!("step {at}: allocating {} qubits gave {}", o.t.len(), ids.len())));
                }
                for (slot, id) in o.t.iter().zip(ids) {
                    if id != mex(&ctx.live) {
                        return Err(Fail::Wrong(format!(
                            "step {at}: allocation of several returned {id}, the lowest free identifier is {}",
                            mex(&ctx.live)
                        )));
                    }
                    ctx.live.insert(id);
                    ctx.map[*slot] = id;
                }
                return Ok(());
            }
            "rels" => {
                let ids: Vec<usize> = o.t.iter().map(|s| ctx.map[*s]).collect();
                m.release_many(&ids);
                for (slot, id) in o.t.iter().zip(ids) {
                    ctx.top = ctx.top.max(id + 1);
                    ctx.live.remove(&id);
                    ctx.map[*slot] = FREE;
                }
                return Ok(());
            }
            "bad" => return Ok(()), // see doomed
            "obs" => {
                let _ = m.state();
                return Ok(());
            }
            "dump" => {
                let d = m.dump();
                let n = self.count(m, ctx);
                return self.check_list(ctx, rec, (d, n)).map_err(|e| {
                    Fail::Wrong(format!("step {at}: dump: {e}"))
                });
            }
            _ => (),
        }
        let mut mo = Self::mapped(o, &ctx.map);
        let flip = self.extend(ctx, &mut mo, at, m);
        let spare = rec
            .ids
            .iter()
            .find(|s| !o.c.contains(s) && !o.t.contains(s))
            .map(|s| ctx.map[*s]);
        if o.op == "pr" && m.is_qir() {
            let p1 = rec.prob().unwrap();
            let one = form.flip();
            crate::machine::assert_prob(
                &mo.p,
                &mo.t,
                one ^ flip,
                if one { p1 } else { 1.0 - p1 },
                1e-7,
                if form.one_in(4) { spare } else { None },
            );
            return Ok(());
        }
        if o.op == "as" && m.is_qir() {
            let p1 = rec.prob().unwrap();
            let one = o.u == "one";
            let prob = (if one { p1 } else { 1.0 - p1 }) + o.k as f64 / 16.0;
            // a negative j: exactly k/16 is tolerated, which only an exact probability settles
            let tol = if o.j < 0 { (-o.j - 1) as f64 / 16.0 } else { (2 * o.j + 1) as f64 / 32.0 };
            #[allow(clippy::float_cmp)]
            if o.j < 0 {
                let st = m.state().0;
                if st.len() != 1 || st[0].1.norm_sqr() != 1.0 {
                    return Ok(());
                }
            }
            let ctl = if form.one_in(4) { spare } else { None };
            if o.r == 1 {
                crate::machine::assert_prob(&mo.p, &mo.t, one ^ flip, prob, tol, ctl);
            } else if crate::ffi::forked(|| {
                crate::machine::assert_prob(&mo.p, &mo.t, one ^ flip, prob, tol, ctl);
                0
            }) != crate::ffi::Ending::Died
            {
                return Err(Fail::Wrong(format!(
                    "step {at}: asserting probability {prob} within {tol} did not fail, it is {}",
                    if one { p1 } else { 1.0 - p1 }
                )));
            }
            return Ok(());
        }
        if o.rotates() && form.one_in(5) {
            // the same rotation in two parts, of any angles
            let phi = match form.below(4) {
                0 => form.angle(7.0),
                1 => form.angle(0.01),
                2 => form.angle(1e-6),
                _ => form.angle(700.0),
            };
            let [a, b] = mo.split(phi);
            m.run(&a, spare, &self.h.mats, &mut form);
            mo = b;
        }
        if o.op == "as" {
            mo.op = "pr".into();
        }
        let larger = self.larger(ctx, &mut mo, at, m);
        let seen = m.run(&mo, spare, larger.as_ref().unwrap_or(&self.h.mats), &mut form);
        match seen {
            Seen::Unsupported => return Err(Fail::Skip),
            Seen::Nothing => (),
            Seen::Bit(b) if o.op == "zq" => {
                let want = rec.wzero.0;
                if b != want {
                    return Err(Fail::Wrong(format!(
                        "step {at}: zero check of qubit {} is {b}, probability of one is {}",
                        mo.t[0],
                        rec.prob().unwrap()
                    )));
                }
            }
            Seen::Bit(b) => {
                let b = b ^ flip;
                let p = rec.prob().unwrap();
                if (b && rec.wzero.0) || (!b && rec.wzero.1) {
                    return Err(Fail::Wrong(format!(
                        "step {at}: {} returned {b}, probability of one is {p}",
                        o.short()
                    )));
                }
                if b != (o.r == 1) {
                    return Err(Fail::Other);
                }
            }
            Seen::Prob(p) => {
                let p = if flip { 1.0 - p } else { p };
                let p1 = rec.prob().unwrap();
                let want = if o.op == "fc" && o.r == 0 { 1.0 - p1 } else { p1 };
                if (p - want).abs() > TOL || p.is_nan() {
                    return Err(Fail::Wrong(format!(
                        "step {at}: {} reported probability {p}, it is {want}",
                        o.short()
                    )));
                }
            }
        }
        Ok(())
    }

    /// The same operation with more operands, whose part in it is known: controls that
    /// are one, and qubits in eigenstates of the Paulis they get.  Returns whether
    /// that exchanges the outcomes of a parity.
    fn extend(&self, ctx: &Ctx, o: &mut Op, at: usize, m: &dyn Machine) -> bool {
        if ctx.known.is_empty() {
            return false;
        }
        let mut r = Rng::new(self.seed.wrapping_mul(131).wrapping_add(at as u64 + 5));
        if !r.one_in(3) {
            return false;
        }
        let mut known = ctx.known.clone();
        r.shuffle(&mut known);
        let n = [1, 1, 2, 3, 4, 7, 20, 70][r.below(8)];
        let mut flip = false;
        if matches!(o.op.as_str(), "jm" | "pr" | "as") || (o.op == "exp" && r.flip()) {
            for (id, p, minus) in known.into_iter().take(n) {
                let pos = r.below(o.t.len() + 1);
                o.t.insert(pos, id);
                o.p.insert(pos, p.into());
                flip ^= minus;
            }
            if o.op == "exp" && flip {
                o.k = -o.k;
                o.j = -o.j;
                o.d = -o.d;
            }
            return flip && o.op != "exp";
        }
        let can = matches!(
            o.op.as_str(),
            "x" | "y" | "z" | "h" | "s" | "sa" | "t" | "ta" | "rx" | "ry" | "rz" | "ph" | "r" | "ap" | "apa" | "exp"
        );
        if can && !(m.is_qir() && o.op.starts_with("ap")) {
            // the matrix of a controlled unitary is a full one
            let n = if o.op.starts_with("ap") { n.min(3) } else { n };
            for (id, _, _) in known.into_iter().filter(|(_, p, minus)| *p == "Z" && *minus).take(n) {
                let pos = r.below(o.c.len() + 1);
                o.c.insert(pos, id);
            }
        }
        false
    }

    /// A matrix on further qubits that are in its eigenstates of eigenvalue one.
    fn larger(&self, ctx: &Ctx, o: &mut Op, at: usize, m: &dyn Machine) -> Option<Mats> {
        if m.is_qir() || !o.op.starts_with("ap") || ctx.known.is_empty() {
            return None;
        }
        let mut r = Rng::new(self.seed.wrapping_mul(137).wrapping_add(at as u64 + 11));
        if !r.one_in(3) {
            return None;
        }
        let mut known: Vec<_> = ctx.known.iter().filter(|k| !o.c.contains(&k.0)).copied().collect();
        r.shuffle(&mut known);
        let n = if r.one_in(4) { 4 } else { 1 + r.below(3) };
        known.truncate(n.min(7usize.saturating_sub(o.t.len() + o.c.len())));
        let mut u = self.h.mats.0[&o.u].clone();
        for (id, pauli, minus) in known {
            let i = C::new(0.0, 1.0);
            let (one, zero) = (C::new(1.0, 0.0), C::zero());
            let p = match pauli {
                "X" => [[zero, one], [one, zero]],
                "Y" => [[zero, -i], [i, zero]],
                _ => [[one, zero], [zero, -one]],
            };
            let sign = if minus { -1.0 } else { 1.0 };
            let w = C::from_polar(1.0, r.angle(3.0)); // of the other eigenstate
            let v = Array2::from_shape_fn((2, 2), |(a, b)| {
                let d = if a == b { one } else { zero };
                (d + p[a][b] * sign) / 2.0 + w * (d - p[a][b] * sign) / 2.0
            });
            // its bit goes anywhere among the others
            let pos = r.below(o.t.len() + 1);
            o.t.insert(pos, id);
            let bit = o.t.len() - 1 - pos; // the first target is the highest
            let low = (1usize << bit) - 1;
            let rest = |x: usize| (x & low) | (x >> (bit + 1) << bit);
            let old = u;
            u = Array2::from_shape_fn((old.nrows() * 2, old.ncols() * 2), |(a, b)| {
                old[[rest(a), rest(b)]] * v[[a >> bit & 1, b >> bit & 1]]
            });
        }
        Some(Mats(HashMap::from([(o.u.clone(), u)])))
    }

    /// What is seen of a qubit that is one with a small probability, and what forcing it does.
    fn faint(&mut self, m: &mut dyn Machine, ctx: &mut Ctx, rec: &Rec) -> Result<(), String> {
        let Some((f, bit, id, p)) = ctx.faint.filter(|x| x.3 > 1e-8) else {
            return Ok(());
        };
        let mut r = Rng::new(self.seed ^ 0xFA1);
        let none = Mats(HashMap::new());
        let z = |name: &str, out: u8| {
            let mut o = Self::op(name, vec![], vec![id], 0);
            o.p = vec!["Z".into()];
            o.r = out;
            o
        };
        if m.run(&z("zq", 0), None, &none, &mut r) == Seen::Bit(true) {
            return Err(format!("the zero check of {id} is true, it is one with probability {p}"));
        }
        let near = |got: f64, want: f64| (got - want).abs() <= 1e-12 + 1e-6 * want.min(1.0 - want);
        if let Seen::Prob(q) = m.run(&z("pr", 0), None, &none, &mut r)
            && !near(q, p)
        {
            return Err(format!("the probability of {id} is given as {q}, it is {p}"));
        }
        if m.is_qir() {
            // asserted within a tenth of it, and off by as much as it is
            crate::machine::assert_prob(&["Z".into()], &[id], true, p, p / 10.0, None);
            if crate::ffi::forked(|| {
                crate::machine::assert_prob(&["Z".into()], &[id], true, 0.0, p / 2.0, None);
                0
            }) != crate::ffi::Ending::Died
            {
                return Err(format!("{id} was found to be one with probability 0 within {}, it is {p}", p / 2.0));
            }
        }
        // an amplitude below 1e-10 may be lost: do not make it a large one
        let out = u8::from(!r.one_in(3) && p > 1e-5);
        let Seen::Prob(q) = m.run(&z("fc", out), None, &none, &mut r) else {
            return Ok(());
        };
        if !near(q, if out == 1 { p } else { 1.0 - p }) {
            return Err(format!("forcing {id} to be {out} reported {q}, the probability of one is {p}"));
        }
        let amps = &mut ctx.around[f].1;
        for (n, a) in amps.iter_mut().enumerate() {
            if (n >> bit & 1 == 1) != (out == 1) {
                *a = C::zero();
            } else if a.norm() > 0.0 {
                *a /= a.norm();
            }
        }
        self.check(m, ctx, rec).map_err(|e| format!("{id} forced to be {out}: {e}"))
    }

    fn count(&self, m: &mut dyn Machine, ctx: &Ctx) -> usize {
        if m.is_static() {
            m.state().1
        } else {
            ctx.live.len()
        }
    }

    fn check_list(&self, ctx: &Ctx, rec: &Rec, got: (Vec<(BigUint, C)>, usize)) -> Result<(), String> {
        let live: Vec<usize> = if ctx.live.is_empty() && got.1 > 0 {
            (0..got.1).collect() // static
        } else {
            if got.1 != ctx.live.len() {
                return Err(format!(
                    "snapshot reports {} qubits, {} are allocated",
                    got.1,
                    ctx.live.len()
                ));
            }
            ctx.live.iter().copied().collect()
        };
        let mut f = ctx.around.clone();
        f.push((rec.ids.iter().map(|s| ctx.map[*s]).collect(), rec.v.clone()));
        compare(&got, &expected(&f, &live)?)
    }

    pub fn check(&mut self, m: &mut dyn Machine, ctx: &Ctx, rec: &Rec) -> Result<(), String> {
        self.states += 1;
        let got = m.state();
        self.check_list(ctx, rec, got)
    }

    /// Steps 0..upto; `peek(i)`: observe the state after step i.
    fn run(
        &mut self,
        m: &mut dyn Machine,
        recs: &[Rec],
        upto: usize,
        seeds: &[u64],
        peek: &dyn Fn(usize) -> bool,
    ) -> Result<Ctx, Fail> {
        let mut ctx = self.open(m)?;
        let mut pad = Rng::new(self.seed ^ 0xBADBAD);
        let pad_at = if self.lift == Lift::Pad {
            pad.below(recs.len())
        } else {
            FREE
        };
        for (i, rec) in recs.iter().enumerate().take(upto) {
            if i == pad_at {
                let before: Vec<usize> = if i == 0 { (0..self.h.start).collect() } else { recs[i - 1].ids.clone() };
                let ids: Vec<usize> = before.iter().map(|s| ctx.map[*s]).filter(|x| *x != FREE).collect();
                self.padding(m, &ids, &mut pad);
            }
            self.beside(m, &mut ctx, i);
            if rec.o.measures() {
                m.seed(seeds[i]);
            }
            if rec.o.op == "dump" {
                self.retract(m, &mut ctx);
            }
            self.step(m, &mut ctx, rec, i)?;
            if (peek(i) && i + 1 < upto) || i + 1 == upto {
                self.retract(m, &mut ctx);
            }
            if peek(i) && i + 1 < upto {
                self.check(m, &ctx, rec)
                    .map_err(|e| Fail::Wrong(format!("after step {i} ({}): {e}", rec.o.short())))?;
            }
        }
        Ok(ctx)
    }

    /// Some unrelated work on other qubits ...
    fn beside(&mut self, m: &mut dyn Machine, ctx: &mut Ctx, at: usize) {
        if ctx.beside.is_empty() {
            return;
        }
        let mut r = Rng::new(self.seed.wrapping_mul(77).wrapping_add(at as u64));
        let none = Mats(HashMap::new());
        for _ in 0..r.below(4) {
            let n = r.below(ctx.beside.len());
            let (a, b) = (ctx.beside[n], ctx.beside[(n + 1) % ctx.beside.len()]);
            let g = ["x", "y", "z", "h", "s", "t", "h", "rx", "ry", "cx"][r.below(10)];
            let mut o = if g == "cx" && a != b {
                Self::op("x", vec![b], vec![a], 0)
            } else {
                Self::op(if g == "cx" { "h" } else { g }, vec![], vec![a], 0)
            };
            if o.rotates() {
                o.d = r.angle(4.0);
            }
            m.run(&o, None, &none, &mut r);
            self.ops += 1;
            ctx.work.push(o);
        }
    }

    /// ... that is taken back before the state is compared.
    fn retract(&mut self, m: &mut dyn Machine, ctx: &mut Ctx) {
        let none = Mats(HashMap::new());
        let mut form = Rng::new(9);
        while let Some(mut o) = ctx.work.pop() {
            match o.op.as_str() {
                "s" => o.op = "sa".into(),
                "t" => o.op = "ta".into(),
                _ => o.d = -o.d,
            }
            m.run(&o, None, &none, &mut form);
            self.ops += 1;
        }
    }

    /// About as many cancelling gates as the operation queue holds.
    fn padding(&mut self, m: &mut dyn Machine, ids: &[usize], r: &mut Rng) {
        if ids.is_empty() {
            return;
        }
        let n = 4990 + r.below(20);
        let kind = r.below(4);
        let none = Mats(HashMap::new());
        let mut form = Rng::new(3);
        for _ in 0..n {
            let a = ids[r.below(ids.len())];
            let b = ids[r.below(ids.len())];
            let (g, gi) = match (kind, r.below(4)) {
                (0, _) => ("x", "x"),
                (1, 0) => ("x", "x"),
                (1, 1) => ("y", "y"),
                (1, _) => ("z", "z"),
                (2, 0) => ("s", "sa"),
                (2, 1) => ("ta", "t"),
                (2, 2) => ("z", "z"),
                (2, _) => ("t", "ta"),
                (_, 0) => ("z", "z"),
                (_, 1) => ("x", "x"),
                (_, 2) => ("s", "sa"),
                (_, _) => ("y", "y"),
            };
            let c = if kind == 3 && a != b { vec![b] } else { vec![] };
            m.run(&Self::op(g, c.clone(), vec![a], 0), None, &none, &mut form);
            m.run(&Self::op(gi, c, vec![a], 0), None, &none, &mut form);
            self.ops += 2;
        }
    }

    /// Seeds that make every measurement come out as in the behaviour.
    fn seeds(&mut self, m: &mut dyn Machine, recs: &[Rec]) -> Result<Vec<u64>, Fail> {
        let mut seeds = vec![0; recs.len()];
        let quiet = |_: usize| false;
        for i in 0..recs.len() {
            let o = &recs[i].o;
            if !o.measures() {
                continue;
            }
            let p1 = recs[i].prob().unwrap();
            let p = if o.r == 1 { p1 } else { 1.0 - p1 };
            if p < 3e-4 {
                return Err(Fail::Skip);
            }
            let tries = if p > 1.0 - 1e-12 { 1 } else { (21.0 / p).ceil() as u64 + 5 };
            let mut last = None;
            let mut found = false;
            for s in 0..tries {
                seeds[i] = self.seed.wrapping_mul(1000).wrapping_add(s);
                match self.run(m, recs, i + 1, &seeds, &quiet) {
                    Ok(ctx) => {
                        if o.visible() {
                            found = true;
                            break;
                        }
                        match self.check(m, &ctx, &recs[i]) {
                            Ok(()) => {
                                found = true;
                                break;
                            }
                            Err(e) => last = Some(e),
                        }
                    }
                    Err(Fail::Other) => (),
                    Err(e) => return Err(e),
                }
            }
            if !found {
                return Err(Fail::Wrong(format!(
                    "step {i}: {} has probability {p} but none of {tries} seeds gives it{}",
                    o.short(),
                    last.map(|e| format!(": {e}")).unwrap_or_default()
                )));
            }
        }
        Ok(seeds)
    }

    /// Replays one behaviour in every way: each prefix unobserved until its
    /// end, and the whole with observations in between.
    pub fn behaviour(&mut self, m: &mut dyn Machine, recs: &[Rec], full: bool) -> Result<(), Fail> {
        let seeds = self.seeds(m, recs)?;
        if self.bad {
            return self.doomed(m, recs, &seeds);
        }
        let quiet = |_: usize| false;
        let wrong = |e: Fail| match e {
            Fail::Other => Fail::Wrong("the same seed gave another outcome".into()),
            e => e,
        };
        let firsts: Vec<usize> = if full && self.heavy() {
            (1..=recs.len()).step_by(5).collect()
        } else if full {
            (1..=recs.len()).collect()
        } else {
            vec![recs.len()]
        };
        for upto in firsts {
            // An "obs" step changes nothing: its state was compared just before.
            if upto < recs.len() && recs[upto - 1].o.op == "obs" && upto > 1 {
                continue;
            }
            let ctx = self.run(m, recs, upto, &seeds, &quiet).map_err(wrong)?;
            self.check(m, &ctx, &recs[upto - 1]).map_err(|e| {
                Fail::Wrong(format!("after step {} ({}): {e}", upto - 1, recs[upto - 1].o.short()))
            })?;
        }
        let mut r = Rng::new(self.seed ^ 0x0B5);
        let mask = r.next();
        let peek = move |i: usize| mask >> (i % 64) & 1 == 1;
        let mut ctx = self.run(m, recs, recs.len(), &seeds, &peek).map_err(wrong)?;
        self.check(m, &ctx, &recs[recs.len() - 1])
            .map_err(|e| Fail::Wrong(format!("at the end, observed on the way: {e}")))?;
        self.faint(m, &mut ctx, &recs[recs.len() - 1])
            .map_err(|e| Fail::Wrong(format!("after the last step, a neighbour almost in |0>: {e}")))?;
        if !m.is_static() {
            self.close(m, &mut ctx)
                .map_err(|e| Fail::Wrong(format!("releasing all qubits after the last step: {e}")))?;
        }
        Ok(())
    }
}

impl Player<'_> {
    /// Runs the behaviour `shots` times without fixing outcomes, each time as
    /// far as it follows the behaviour, and compares how often each
    /// measurement gave one with its probability (within six deviations).
    pub fn born(&mut self, m: &mut dyn Machine, recs: &[Rec], shots: u64) -> Result<u64, Fail> {
        let last = recs.iter().rposition(|r| {
            r.o.visible() && !r.wzero.0 && !r.wzero.1
        });
        let Some(last) = last else {
            return Err(Fail::Skip);
        };
        m.seed(self.seed);
        let mut count = vec![(0u64, 0u64); recs.len()];
        for _ in 0..shots {
            let mut ctx = self.open(m)?;
            for (i, rec) in recs.iter().enumerate().take(last + 1) {
                if rec.o.measures() && !rec.o.visible() && !rec.wzero.0 && !rec.wzero.1 {
                    break; // the outcome is not visible: the state is not known any more
                }
                let r = self.step(m, &mut ctx, rec, i);
                if rec.o.visible() {
                    count[i].0 += 1;
                    let hit = match r {
                        Ok(()) => rec.o.r == 1,
                        Err(Fail::Other) => rec.o.r == 0,
                        Err(e) => return Err(e),
                    };
                    count[i].1 += u64::from(hit);
                    if r.is_err() {
                        break;
                    }
                } else {
                    r?;
                }
            }
        }
        let mut compared = 0;
        for (i, (n, k)) in count.iter().enumerate() {
            if *n < 30 {
                continue;
            }
            let p = recs[i].prob().unwrap();
            let (n, k) = (*n as f64, *k as f64);
            compared += 1;
            if (k - n * p).abs() > 6.0 * (n * p * (1.0 - p)).sqrt() + 4.0 {
                return Err(Fail::Wrong(format!(
                    "step {i}: {} gave one {k} times out of {n}, its probability is {p}",
                    recs[i].o.short()
                )));
            }
        }
        Ok(compared)
    }
}

/// Lines of module LazySim: a list of operations after a preparation, and the
/// state at the end.
pub fn lazy_case(
    p: &mut Player,
    m: &mut dyn Machine,
    prep: &[Op],
    line: &Value,
) -> Result<(), Fail> {
    let ops: Vec<Op> = line["ops"].as_array().unwrap().iter().map(qop::op).collect();
    let end = Rec {
        o: Op {
            op: "end".into(),
            c: vec![],
            t: vec![],
            k: 0,
            j: 0,
            p: vec![],
            u: String::new(),
            r: 0,
            d: 0.0,
        },
        w: None,
        wzero: (false, false),
        ids: (0..p.h.n).collect(),
        v: qop::vector(&line["v"]),
    };
    if let Some((bad, pre)) = ops.split_last().filter(|(l, _)| l.op == "bad") {
        let mut ctx = p.open(m)?;
        // one more that is released again, so that its identifier is known everywhere
        let extra = m.alloc();
        m.release(extra);
        ctx.top = extra + 1;
        let mut form = Rng::new(p.seed.wrapping_add(77));
        for (i, o) in prep.iter().chain(pre.iter()).enumerate() {
            if i == prep.len() {
                let _ = m.state();
            }
            m.run(&Player::mapped(o, &ctx.map), None, &p.h.mats, &mut form);
        }
        let o = p.invalid(bad, &ctx, false).expect("driver: a free identifier");
        if m.is_qir() && matches!(o.op.as_str(), "ap" | "fc") {
            return Err(Fail::Skip);
        }
        let end = crate::ffi::forked(|| {
            if o.op == "rel" {
                m.release(o.t[0]);
            } else if o.op == "pr" && m.is_qir() {
                crate::machine::assert_prob(&o.p, &o.t, true, 0.5, 1.0, None);
            } else {
                m.run(&o, None, &p.h.mats, &mut form);
            }
            std::hint::black_box(m.state());
            0
        });
        p.ops += 1;
        if end != crate::ffi::Ending::Died {
            let txt: Vec<String> = ops.iter().map(Op::short).collect();
            return Err(Fail::Wrong(format!("{}: {} did not fail", txt.join("; "), o.short())));
        }
        return Ok(());
    }
    let mut tries = 0;
    // Outcomes are not reported by every operation: find seeds by the result.
    loop {
        let mut ctx = p.open(m)?;
        let mut form = Rng::new(p.seed.wrapping_add(77));
        let mut other = false;
        for (i, o) in prep.iter().chain(ops.iter()).enumerate() {
            p.ops += 1;
            if i == prep.len() {
                // the preparation is applied before anything is pending
                let _ = m.state();
            }
            let mo = Player::mapped(o, &ctx.map);
            if o.measures() {
                m.seed(p.seed.wrapping_mul(997).wrapping_add(tries * 31 + i as u64));
            }
            if o.op == "rel" {
                m.release(mo.t[0]);
                ctx.live.remove(&mo.t[0]);
                continue;
            }
            let spare = (0..p.h.n)
                .find(|s| !o.c.contains(s) && !o.t.contains(s))
                .map(|s| ctx.map[s]);
            match m.run(&mo, spare, &p.h.mats, &mut form) {
                Seen::Unsupported => return Err(Fail::Skip),
                Seen::Bit(b) if b != (o.r == 1) => {
                    other = true;
                    break;
                }
                _ => (),
            }
        }
        tries += 1;
        if other && tries < 1500 {
            continue;
        }
        let rel: Vec<usize> = ops.iter().filter(|o| o.op == "rel").map(|o| o.t[0]).collect();
        let mut end = end.clone();
        if !rel.is_empty() {
            // drop the released qubits (they are zero in the expected state)
            let keep: Vec<usize> = (0..p.h.n).filter(|q| !rel.contains(q)).collect();
            let mut v = vec![C::zero(); 1 << keep.len()];
            for (n, a) in end.v.iter().enumerate() {
                let mut k = 0;
                for (b, q) in keep.iter().enumerate() {
                    k |= (n >> q & 1) << b;
                }
                v[k] += a;
            }
            end.ids = keep;
            end.v = v;
        }
        let res = p.check(m, &ctx, &end);
        match res {
            Ok(()) => return Ok(()),
            Err(e) => {
                let hidden = ops.iter().any(|o| matches!(o.op.as_str(), "rst" | "rel"));
                if (hidden || other) && tries < 1500 {
                    continue;
                }
                let txt: Vec<String> = ops.iter().map(Op::short).collect();
                return Err(Fail::Wrong(format!("{}: {e}", txt.join("; "))));
            }
        }
    }
}
