//! Properties of the QIR backend (qir-backend), driven through its C ABI functions.

use crate::alloc;
use crate::engine::{guarded, hash_str, in_fork, job, Ctx, Fnv, Job, Res, Tier};
use crate::ops::{gate_model, parse_dump, Op, R};
use crate::p_sim::{arrangements, pauli_strings, seed_of};
use crate::refmodel::{Model, G, P};
use qir_backend::exp::*;
use qir_backend::legacy_output;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::f64::consts::PI;
use std::ffi::{c_void, CString};
use std::io::Write;
use std::rc::Rc;
use std::time::Duration;

type Q = *mut c_void;
type Tup = *mut *const Vec<u8>;

pub fn q(id: usize) -> Q {
    id as Q
}

struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}

/// Runs `f` on a fresh OS thread (the backend's state is thread-local), turning a panic into Err.
pub fn fresh<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let f = Snd(f);
    let mut out: Snd<Option<Result<T, String>>> = Snd(None);
    let o = Snd(&mut out);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn_scoped(s, move || {
                let f = f;
                let o = o;
                let (f, o) = (f, o);
                OUTPUT.with(|x| x.borrow_mut().use_std_out(false));
                let r = guarded(f.0);
                o.0 .0 = Some(r);
            })
            .expect("thread")
            // join, so that the thread-local destructors have run
            .join()
            .expect("thread");
    });
    out.0.expect("thread result")
}

pub fn flat(r: Result<Res, String>) -> Res {
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("unexpected panic: {p}")),
    }
}

pub fn drain() -> Vec<u8> {
    OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

pub fn pauli(p: P) -> Pauli {
    match p {
        P::I => Pauli::I,
        P::X => Pauli::X,
        P::Y => Pauli::Y,
        P::Z => Pauli::Z,
    }
}

/// A runtime array of qubits.
pub fn qarr(ids: &[usize]) -> *const QirArray {
    let a = __quantum__rt__array_create_1d(8, ids.len() as u64);
    for (k, i) in ids.iter().enumerate() {
        unsafe { *__quantum__rt__array_get_element_ptr_1d(a, k as u64).cast::<Q>() = q(*i) };
    }
    a
}
pub fn parr(ps: &[P]) -> *const QirArray {
    let a = __quantum__rt__array_create_1d(1, ps.len() as u64);
    for (k, p) in ps.iter().enumerate() {
        unsafe { *__quantum__rt__array_get_element_ptr_1d(a, k as u64).cast::<Pauli>() = pauli(*p) };
    }
    a
}
pub fn drop_arr(a: *const QirArray) {
    unsafe { __quantum__rt__array_update_reference_count(a, -1) };
}
pub unsafe fn tuple_of<T>(v: T) -> Tup {
    let t = __quantum__rt__tuple_create(std::mem::size_of::<T>() as u64);
    *t.cast::<T>() = v;
    t
}

#[repr(C)]
pub struct RotArgs {
    pub theta: f64,
    pub qubit: Q,
}
#[repr(C)]
pub struct PRotArgs {
    pub pauli: Pauli,
    pub theta: f64,
    pub qubit: Q,
}
#[repr(C)]
pub struct ExpArgs {
    pub paulis: *const QirArray,
    pub theta: f64,
    pub qubits: *const QirArray,
}
#[repr(C)]
pub struct AssertArgs {
    pub paulis: *const QirArray,
    pub qubits: *const QirArray,
    pub result: Q,
    pub prob: f64,
    pub msg: *const CString,
    pub tol: f64,
}

// ------------------------------------------------------------------ intrinsics

#[derive(Clone, Copy)]
pub enum F {
    One(extern "C" fn(Q)),
    Rot(extern "C" fn(f64, Q)),
    Two(extern "C" fn(Q, Q)),
    Three(extern "C" fn(Q, Q, Q)),
    Rot2(extern "C" fn(f64, Q, Q)),
    Ctl(unsafe extern "C" fn(*const QirArray, Q)),
    RotCtl(unsafe extern "C" fn(*const QirArray, Tup)),
    R(extern "C" fn(Pauli, f64, Q)),
    RCtl(unsafe extern "C" fn(*const QirArray, Tup)),
    Exp(unsafe extern "C" fn(*const QirArray, f64, *const QirArray)),
    ExpCtl(unsafe extern "C" fn(*const QirArray, Tup)),
    Barrier(extern "C" fn()),
}

/// What an intrinsic means.
#[derive(Clone, Copy)]
pub enum M {
    G(G),
    Sx,
    Rot(P),
    C(G),
    CC(G),
    Swap,
    Rot2(P),
    R(f64),
    Exp(f64),
    Nop,
}

#[derive(Clone, Copy)]
pub struct Intr {
    pub name: &'static str,
    pub f: F,
    pub m: M,
}

pub fn intrinsics() -> Vec<Intr> {
    let i = |name, f, m| Intr { name, f, m };
    vec![
        i("h__body", F::One(__quantum__qis__h__body), M::G(G::H)),
        i("s__body", F::One(__quantum__qis__s__body), M::G(G::S)),
        i("s__adj", F::One(__quantum__qis__s__adj), M::G(G::Sadj)),
        i("t__body", F::One(__quantum__qis__t__body), M::G(G::T)),
        i("t__adj", F::One(__quantum__qis__t__adj), M::G(G::Tadj)),
        i("x__body", F::One(__quantum__qis__x__body), M::G(G::X)),
        i("y__body", F::One(__quantum__qis__y__body), M::G(G::Y)),
        i("z__body", F::One(__quantum__qis__z__body), M::G(G::Z)),
        i("sx__body", F::One(__quantum__qis__sx__body), M::Sx),
        i("rx__body", F::Rot(__quantum__qis__rx__body), M::Rot(P::X)),
        i("ry__body", F::Rot(__quantum__qis__ry__body), M::Rot(P::Y)),
        i("rz__body", F::Rot(__quantum__qis__rz__body), M::Rot(P::Z)),
        i("cnot__body", F::Two(__quantum__qis__cnot__body), M::C(G::X)),
        i("cx__body", F::Two(__quantum__qis__cx__body), M::C(G::X)),
        i("cy__body", F::Two(__quantum__qis__cy__body), M::C(G::Y)),
        i("cz__body", F::Two(__quantum__qis__cz__body), M::C(G::Z)),
        i("swap__body", F::Two(__quantum__qis__swap__body), M::Swap),
        i("ccx__body", F::Three(__quantum__qis__ccx__body), M::CC(G::X)),
        i("rxx__body", F::Rot2(__quantum__qis__rxx__body), M::Rot2(P::X)),
        i("ryy__body", F::Rot2(__quantum__qis__ryy__body), M::Rot2(P::Y)),
        i("rzz__body", F::Rot2(__quantum__qis__rzz__body), M::Rot2(P::Z)),
        i("h__ctl", F::Ctl(__quantum__qis__h__ctl), M::G(G::H)),
        i("s__ctl", F::Ctl(__quantum__qis__s__ctl), M::G(G::S)),
        i("s__ctladj", F::Ctl(__quantum__qis__s__ctladj), M::G(G::Sadj)),
        i("t__ctl", F::Ctl(__quantum__qis__t__ctl), M::G(G::T)),
        i("t__ctladj", F::Ctl(__quantum__qis__t__ctladj), M::G(G::Tadj)),
        i("x__ctl", F::Ctl(__quantum__qis__x__ctl), M::G(G::X)),
        i("y__ctl", F::Ctl(__quantum__qis__y__ctl), M::G(G::Y)),
        i("z__ctl", F::Ctl(__quantum__qis__z__ctl), M::G(G::Z)),
        i("rx__ctl", F::RotCtl(__quantum__qis__rx__ctl), M::Rot(P::X)),
        i("ry__ctl", F::RotCtl(__quantum__qis__ry__ctl), M::Rot(P::Y)),
        i("rz__ctl", F::RotCtl(__quantum__qis__rz__ctl), M::Rot(P::Z)),
        i("r__body", F::R(__quantum__qis__r__body), M::R(1.0)),
        i("r__adj", F::R(__quantum__qis__r__adj), M::R(-1.0)),
        i("r__ctl", F::RCtl(__quantum__qis__r__ctl), M::R(1.0)),
        i("r__ctladj", F::RCtl(__quantum__qis__r__ctladj), M::R(-1.0)),
        i("exp__body", F::Exp(__quantum__qis__exp__body), M::Exp(1.0)),
        i("exp__adj", F::Exp(__quantum__qis__exp__adj), M::Exp(-1.0)),
        i("exp__ctl", F::ExpCtl(__quantum__qis__exp__ctl), M::Exp(1.0)),
        i("exp__ctladj", F::ExpCtl(__quantum__qis__exp__ctladj), M::Exp(-1.0)),
        i("barrier__body", F::Barrier(__quantum__qis__barrier__body), M::Nop),
    ]
}

#[derive(Clone)]
pub struct Call {
    pub i: Intr,
    pub ctls: Vec<usize>,
    pub ts: Vec<usize>,
    pub ps: Vec<P>,
    pub th: f64,
}

impl Call {
    pub fn show(&self) -> String {
        let mut s = format!("{}(", self.i.name);
        if matches!(self.i.f, F::Ctl(_) | F::RotCtl(_) | F::RCtl(_) | F::ExpCtl(_)) {
            s += &format!("controls {:?} ", self.ctls);
        }
        if !self.ps.is_empty() {
            s += &format!("paulis {:?} ", self.ps);
        }
        s += &format!("theta {} targets {:?})", self.th, self.ts);
        s
    }
    pub fn call(&self) {
        let (t, th) = (&self.ts, self.th);
        unsafe {
            match self.i.f {
                F::One(f) => f(q(t[0])),
                F::Rot(f) => f(th, q(t[0])),
                F::Two(f) => f(q(t[0]), q(t[1])),
                F::Three(f) => f(q(t[0]), q(t[1]), q(t[2])),
                F::Rot2(f) => f(th, q(t[0]), q(t[1])),
                F::R(f) => f(pauli(self.ps[0]), th, q(t[0])),
                F::Barrier(f) => f(),
                F::Ctl(f) => {
                    let c = qarr(&self.ctls);
                    f(c, q(t[0]));
                    drop_arr(c);
                }
                F::RotCtl(f) => {
                    let c = qarr(&self.ctls);
                    let a = tuple_of(RotArgs { theta: th, qubit: q(t[0]) });
                    f(c, a);
                    __quantum__rt__tuple_update_reference_count(a, -1);
                    drop_arr(c);
                }
                F::RCtl(f) => {
                    let c = qarr(&self.ctls);
                    let a = tuple_of(PRotArgs { pauli: pauli(self.ps[0]), theta: th, qubit: q(t[0]) });
                    f(c, a);
                    __quantum__rt__tuple_update_reference_count(a, -1);
                    drop_arr(c);
                }
                F::Exp(f) => {
                    let (p, a) = (parr(&self.ps), qarr(t));
                    f(p, th, a);
                    drop_arr(p);
                    drop_arr(a);
                }
                F::ExpCtl(f) => {
                    let c = qarr(&self.ctls);
                    let (p, a) = (parr(&self.ps), qarr(t));
                    let g = tuple_of(ExpArgs { paulis: p, theta: th, qubits: a });
                    f(c, g);
                    __quantum__rt__tuple_update_reference_count(g, -1);
                    drop_arr(p);
                    drop_arr(a);
                    drop_arr(c);
                }
            }
        }
    }
    /// Qubits that come into existence by this call.
    pub fn names(&self) -> Vec<usize> {
        if let (F::R(_), P::I) = (self.i.f, self.ps.first().copied().unwrap_or(P::X)) {
            return vec![]; // rotation about the identity: a no-op
        }
        if let (F::RCtl(_), P::I, true) = (self.i.f, self.ps.first().copied().unwrap_or(P::X), self.ctls.is_empty()) {
            return vec![];
        }
        [self.ctls.clone(), self.ts.clone()].concat()
    }
    /// The unitary it denotes.
    pub fn meaning(&self) -> Vec<Op> {
        let (t, th) = (&self.ts, self.th);
        let k = self.ctls.clone();
        match self.i.m {
            M::Nop => vec![],
            M::G(g) => vec![Op::MC(g, k, t[0])],
            M::Sx => vec![Op::Rot(P::X, PI / 2.0, t[0])],
            M::Rot(p) => vec![Op::MCRot(p, th, k, t[0])],
            M::C(g) => vec![Op::MC(g, vec![t[0]], t[1])],
            M::CC(g) => vec![Op::MC(g, vec![t[0], t[1]], t[2])],
            M::Swap => vec![Op::Swap(t[0], t[1])],
            M::Rot2(p) => vec![Op::Exp(vec![p, p], -th / 2.0, t.clone())],
            M::R(s) => match self.ps[0] {
                P::I => {
                    if k.is_empty() {
                        vec![]
                    } else {
                        vec![Op::Phase(-s * th / 2.0, k[1..].to_vec(), k[0])]
                    }
                }
                p => vec![Op::MCRot(p, s * th, k, t[0])],
            },
            M::Exp(s) => vec![Op::MCExp(k, self.ps.clone(), s * th, t.clone())],
        }
    }
}

/// All calls of all intrinsics over `ids`.
pub fn calls(ids: &[usize], angles: &[f64], max_ctl: usize, max_t: usize) -> Vec<Call> {
    let mut v = vec![];
    for i in intrinsics() {
        let mk = |ctls: &[usize], ts: &[usize], ps: &[P], th: f64| Call {
            i,
            ctls: ctls.to_vec(),
            ts: ts.to_vec(),
            ps: ps.to_vec(),
            th,
        };
        let rest = |ts: &[usize]| -> Vec<usize> { ids.iter().copied().filter(|x| !ts.contains(x)).collect() };
        let ctl_lists = |ts: &[usize]| -> Vec<Vec<usize>> {
            let r = rest(ts);
            (0..=max_ctl.min(r.len())).flat_map(|k| arrangements(&r, k)).collect()
        };
        let two = if ids.len() >= 2 { arrangements(ids, 2) } else { vec![] };
        let three = if ids.len() >= 3 { arrangements(ids, 3) } else { vec![] };
        match i.f {
            F::One(_) => v.extend(ids.iter().map(|t| mk(&[], &[*t], &[], 0.0))),
            F::Rot(_) => {
                for t in ids {
                    v.extend(angles.iter().map(|a| mk(&[], &[*t], &[], *a)));
                }
            }
            F::Two(_) => v.extend(two.iter().map(|t| mk(&[], t, &[], 0.0))),
            F::Three(_) => v.extend(three.iter().map(|t| mk(&[], t, &[], 0.0))),
            F::Rot2(_) => {
                for t in &two {
                    v.extend(angles.iter().map(|a| mk(&[], t, &[], *a)));
                }
            }
            F::Ctl(_) => {
                for t in ids {
                    v.extend(ctl_lists(&[*t]).iter().map(|c| mk(c, &[*t], &[], 0.0)));
                }
            }
            F::RotCtl(_) => {
                for t in ids {
                    for c in ctl_lists(&[*t]) {
                        v.extend(angles.iter().map(|a| mk(&c, &[*t], &[], *a)));
                    }
                }
            }
            F::R(_) => {
                for t in ids {
                    for p in [P::I, P::X, P::Y, P::Z] {
                        v.extend(angles.iter().map(|a| mk(&[], &[*t], &[p], *a)));
                    }
                }
            }
            F::RCtl(_) => {
                for t in ids {
                    for c in ctl_lists(&[*t]) {
                        for p in [P::I, P::X, P::Y, P::Z] {
                            v.extend(angles.iter().map(|a| mk(&c, &[*t], &[p], *a)));
                        }
                    }
                }
            }
            F::Exp(_) | F::ExpCtl(_) => {
                let ctl = matches!(i.f, F::ExpCtl(_));
                for n in 0..=max_t.min(ids.len()) {
                    for ts in arrangements(ids, n) {
                        let cl = if ctl { ctl_lists(&ts) } else { vec![vec![]] };
                        for c in cl {
                            for ps in pauli_strings(n) {
                                v.extend(angles.iter().map(|a| mk(&c, &ts, &ps, *a)));
                            }
                        }
                    }
                }
            }
            F::Barrier(_) => v.push(mk(&[], &[], &[], 0.0)),
        }
    }
    v
}

// ------------------------------------------------------------------ model of the backend

#[derive(Default, Clone)]
pub struct BM {
    pub m: Model,
    pub max: usize,
    pub res: Vec<bool>,
    /// a result identifier was written or measured into (not only read)
    pub stored: bool,
    pub accessed: bool,
}

#[derive(Clone)]
pub enum B {
    Gate(Rc<Call>),
    Alloc,
    Release(usize, R),
    M(usize, R),
    Mz(usize, usize, R),
    MResetZ(usize, usize, R),
    Reset(usize, R),
    Measure(Vec<P>, Vec<usize>, R),
    Read(usize),
    RtRead(usize),
    Write(bool, usize),
    Rec(usize, Option<&'static [u8]>),
    RecLegacy(usize),
    Dump,
    Snap,
    IsZero(usize),
    /// Asserts the probability the model gives to odd parity.
    Assert(Vec<P>, Vec<usize>),
    Init,
}

impl B {
    pub fn show(&self) -> String {
        match self {
            B::Gate(c) => c.show(),
            B::Alloc => "qubit_allocate".into(),
            B::Release(q, r) => format!("qubit_release({q}) draw {r:?}"),
            B::M(q, r) => format!("m({q}) draw {r:?}"),
            B::Mz(q, i, r) => format!("mz({q} -> result {i}) draw {r:?}"),
            B::MResetZ(q, i, r) => format!("mresetz({q} -> result {i}) draw {r:?}"),
            B::Reset(q, r) => format!("reset({q}) draw {r:?}"),
            B::Measure(p, q, r) => format!("measure({p:?}, {q:?}) draw {r:?}"),
            B::Read(i) => format!("qis read_result({i})"),
            B::RtRead(i) => format!("rt read_result({i})"),
            B::Write(b, i) => format!("write_result({b} -> {i})"),
            B::Rec(i, t) => format!("result_record_output({i}, {t:?})"),
            B::RecLegacy(i) => format!("legacy result_record_output({i})"),
            B::Dump => "dumpmachine".into(),
            B::Snap => "capture_quantum_state".into(),
            B::IsZero(q) => format!("qubit_is_zero({q})"),
            B::Assert(p, q) => format!("assert({p:?}, {q:?} = One with the model's probability)"),
            B::Init => "initialize".into(),
        }
    }
}

impl BM {
    pub fn ensure(&mut self, q: usize) {
        while self.max < q + 1 {
            let _ = self.m.allocate();
            self.max += 1;
        }
    }
    fn touch(&mut self, r: usize) {
        self.accessed = true;
        if self.res.len() < r + 1 {
            self.res.resize(r + 1, false);
        }
    }
    pub fn get(&self, r: usize) -> bool {
        self.res.get(r).copied().unwrap_or(false)
    }
    fn basis(&mut self, ps: &[P], qs: &[usize], back: bool) {
        for (p, t) in ps.iter().zip(qs) {
            // Z-basis change from the textbook: X = H Z H, Y = (S H) Z (S H)^-1
            let seq: &[G] = match (p, back) {
                (P::X, _) => &[G::H],
                (P::Y, false) => &[G::Sadj, G::H],
                (P::Y, true) => &[G::H, G::S],
                _ => &[],
            };
            for g in seq {
                gate_model(&mut self.m, &Op::G1(*g, *t));
            }
        }
    }
    fn support(ps: &[P], qs: &[usize]) -> Vec<usize> {
        ps.iter().zip(qs).filter(|(p, _)| **p != P::I).map(|(_, q)| *q).collect()
    }
    /// Probability of odd parity in the given Pauli bases, per candidate.
    pub fn pauli_prob(&mut self, ps: &[P], qs: &[usize]) -> Vec<f64> {
        let sup = Self::support(ps, qs);
        self.basis(ps, qs, false);
        let r = self.m.prob(&sup);
        self.basis(ps, qs, true);
        r
    }
    pub fn pauli_observe(&mut self, ps: &[P], qs: &[usize], v: bool) -> Res {
        let sup = Self::support(ps, qs);
        self.basis(ps, qs, false);
        let r = self.m.observe(&sup, v);
        self.basis(ps, qs, true);
        r
    }
    pub fn hash(&self) -> u64 {
        let mut h = Fnv::new();
        h.u64(self.m.hash());
        h.u64(self.max as u64);
        h.u64(self.res.len() as u64);
        for (k, b) in self.res.iter().enumerate() {
            if *b {
                h.u64(k as u64);
            }
        }
        h.0
    }

    pub fn step(&mut self, b: &B, ctx: &mut Ctx) -> Res {
        ctx.log(|| b.show());
        ctx.transitions += 1;
        self.inner(b, ctx).map_err(|e| format!("at {}: {e}", b.show()))
    }

    fn value(r: Q) -> Result<bool, String> {
        let (one, zero) = (__quantum__rt__result_get_one(), __quantum__rt__result_get_zero());
        match (__quantum__rt__result_equal(r, one), __quantum__rt__result_equal(r, zero)) {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            _ => Err(format!("returned result {r:?} is neither One nor Zero")),
        }
    }

    fn inner(&mut self, b: &B, ctx: &mut Ctx) -> Res {
        let script = |r: &R| rand::verif_script::set(&[r.word()]);
        match b {
            B::Gate(c) => {
                c.call();
                for t in c.names() {
                    self.ensure(t);
                }
                for o in c.meaning() {
                    gate_model(&mut self.m, &o);
                }
            }
            B::Alloc => {
                let got = __quantum__rt__qubit_allocate() as usize;
                let want = self.m.allocate();
                self.max = self.max.max(want + 1);
                if got != want {
                    return Err(format!("qubit_allocate returned {got}, lowest free identifier is {want}"));
                }
            }
            B::Release(t, r) => {
                script(r);
                __quantum__rt__qubit_release(q(*t));
                self.m.release(*t);
            }
            B::M(t, r) => {
                script(r);
                let v = Self::value(__quantum__qis__m__body(q(*t)))?;
                ctx.log(|| format!("  -> {v}"));
                self.ensure(*t);
                self.m.observe(&[*t], v)?;
            }
            B::Mz(t, i, r) | B::MResetZ(t, i, r) => {
                script(r);
                let reset = matches!(b, B::MResetZ(..));
                if reset {
                    __quantum__qis__mresetz__body(q(*t), q(*i));
                } else {
                    __quantum__qis__mz__body(q(*t), q(*i));
                }
                let v = __quantum__qis__read_result__body(q(*i));
                ctx.log(|| format!("  -> {v}"));
                self.ensure(*t);
                self.m.observe(&[*t], v)?;
                if reset && v {
                    gate_model(&mut self.m, &Op::G1(G::X, *t));
                }
                self.touch(*i);
                self.res[*i] = v;
                self.stored = true;
            }
            B::Reset(t, r) => {
                script(r);
                __quantum__qis__reset__body(q(*t));
                self.ensure(*t);
                self.m.reset_hidden(*t);
            }
            B::Measure(ps, qs, r) => {
                script(r);
                let (p, a) = (parr(ps), qarr(qs));
                let v = Self::value(unsafe { __quantum__qis__measure__body(p, a) })?;
                drop_arr(p);
                drop_arr(a);
                ctx.log(|| format!("  -> {v}"));
                for t in Self::support(ps, qs) {
                    self.ensure(t);
                }
                self.pauli_observe(ps, qs, v)?;
            }
            B::Read(i) | B::RtRead(i) => {
                let v = if matches!(b, B::Read(_)) {
                    __quantum__qis__read_result__body(q(*i))
                } else {
                    __quantum__rt__read_result(q(*i))
                };
                let want = self.get(*i);
                self.touch(*i);
                if v != want {
                    return Err(format!("read {v}, the value last stored there is {want}"));
                }
            }
            B::Write(v, i) => {
                __quantum__rt__write_result(*v, q(*i));
                self.touch(*i);
                self.res[*i] = *v;
                self.stored = true;
            }
            B::Rec(..) | B::RecLegacy(_) => {
                let _ = drain();
                let (i, got, pre, post) = match b {
                    B::Rec(i, tag) => {
                        let t = tag.map(|t| CString::new(t).unwrap());
                        let p = t.as_ref().map_or(std::ptr::null_mut(), |t| t.as_ptr().cast_mut());
                        unsafe { __quantum__rt__result_record_output(q(*i), p) };
                        let post = match tag {
                            Some(t) => [b"\t", *t, b"\n"].concat(),
                            None => b"\n".to_vec(),
                        };
                        (*i, drain(), "OUTPUT\tRESULT\t", post)
                    }
                    B::RecLegacy(i) => {
                        legacy_output::__quantum__rt__result_record_output(q(*i));
                        (*i, drain(), "RESULT\t", b"\n".to_vec())
                    }
                    _ => unreachable!(),
                };
                let want: Vec<bool> = if self.stored {
                    vec![self.get(i)]
                } else if self.accessed {
                    // identifiers were only read so far: static and dynamic reading of the program differ
                    vec![false, i == 1]
                } else {
                    vec![i == 1]
                };
                let ok = want.iter().any(|w| {
                    let mut x = pre.as_bytes().to_vec();
                    x.push(if *w { b'1' } else { b'0' });
                    x.extend_from_slice(&post);
                    x == got
                });
                if !ok {
                    return Err(format!(
                        "recorded {:?}, the value held for result {i} is {want:?}",
                        String::from_utf8_lossy(&got)
                    ));
                }
            }
            B::Dump => {
                let _ = drain();
                __quantum__qis__dumpmachine__body(std::ptr::null_mut());
                let out = String::from_utf8(drain()).map_err(|e| e.to_string())?;
                let mut rest = out.as_str();
                let mut bits: Option<Vec<bool>> = None;
                if let Some(r) = rest.strip_prefix("Global Results: ") {
                    let (l, r) = r.split_once('\n').ok_or("results line not terminated")?;
                    rest = r;
                    let inner = l
                        .strip_prefix('[')
                        .and_then(|l| l.strip_suffix(']'))
                        .ok_or_else(|| format!("results line malformed: {l:?}"))?;
                    let mut v = vec![];
                    for c in inner.split(',') {
                        match c.trim() {
                            "" => {}
                            "0" => v.push(false),
                            "1" => v.push(true),
                            o => return Err(format!("results line has an entry {o:?}")),
                        }
                    }
                    bits = Some(v);
                }
                let held: Vec<bool> = self.res.clone();
                let trim = |v: &[bool]| v.iter().rposition(|b| *b).map_or(vec![], |k| v[..=k].to_vec());
                match &bits {
                    Some(b) => {
                        if trim(b) != trim(&held) {
                            return Err(format!("dump lists results {b:?}, held are {held:?}"));
                        }
                        if b.is_empty() {
                            return Err("dump lists an empty result register".into());
                        }
                    }
                    None => {
                        if self.stored {
                            return Err(format!("dump lists no results, held are {held:?}"));
                        }
                    }
                }
                let s = parse_dump(rest)?;
                let n = self.m.alloc.len();
                self.m.compare(&s, n)?;
            }
            B::Snap => {
                let (s, n) = capture_quantum_state();
                self.m.compare(&s, n)?;
            }
            B::IsZero(t) => {
                let got = qubit_is_zero(q(*t));
                self.ensure(*t);
                let ps = self.m.prob(&[*t]);
                if !ps.iter().any(|p| if got { *p < 1e-8 } else { *p > 1e-13 }) {
                    return Err(format!("qubit_is_zero({t}) = {got}, probability of 1 is {ps:?}"));
                }
            }
            B::Assert(ps, qs) => {
                for t in Self::support(ps, qs) {
                    self.ensure(t);
                }
                let p = self.pauli_prob(ps, qs)[0];
                let before = drain();
                assert_call(ps, qs, true, p, 1e-7, b"m", None);
                if !before.is_empty() || !drain().is_empty() {
                    return Err("a passing assertion recorded something".into());
                }
            }
            B::Init => {
                __quantum__rt__initialize(std::ptr::null_mut());
                *self = BM::default();
            }
        }
        Ok(())
    }

    pub fn finish(&mut self, ctx: &mut Ctx) -> Res {
        let (s, n) = capture_quantum_state();
        self.m.compare(&s, n)?;
        ctx.state(self.hash());
        ctx.traces += 1;
        Ok(())
    }
}

/// Runs the operations on a fresh thread in lock step with a fresh model.
pub fn lockstep(ops: &[&B], ctx: &mut Ctx) -> Res {
    flat(fresh(|| {
        rand::verif_script::set(&[0]);
        let mut bm = BM::default();
        for o in ops {
            bm.step(o, ctx)?;
        }
        bm.finish(ctx)
    }))
}

fn intr(name: &str) -> Intr {
    intrinsics().into_iter().find(|i| i.name == name).unwrap()
}
pub fn g(name: &str, ctls: &[usize], ts: &[usize], th: f64) -> B {
    B::Gate(Rc::new(Call { i: intr(name), ctls: ctls.to_vec(), ts: ts.to_vec(), ps: vec![], th }))
}
pub type BStage = Rc<Vec<Vec<B>>>;
pub fn beach(v: Vec<B>) -> BStage {
    Rc::new(v.into_iter().map(|b| vec![b]).collect())
}

#[derive(Clone)]
pub struct BScn {
    pub name: String,
    pub prep: Vec<B>,
}

pub fn bstages(name: &str, s: &BScn, st: Vec<BStage>) -> Job {
    let n: u64 = st.iter().map(|x| x.len() as u64).product();
    let prep = s.prep.clone();
    job(format!("{name}/{}", s.name), n, move |i, ctx| {
        let mut i = i;
        let mut ops: Vec<&B> = vec![];
        for x in st.iter().rev() {
            let k = (i % x.len() as u64) as usize;
            i /= x.len() as u64;
            ops.extend(x[k].iter().rev());
        }
        ops.extend(prep.iter().rev());
        ops.reverse();
        lockstep(&ops, ctx)
    })
}

fn mix(ids: &[usize]) -> Vec<B> {
    let mut v = vec![];
    for (k, t) in ids.iter().enumerate() {
        v.push(g("ry__body", &[], &[*t], 0.7 + 0.41 * k as f64));
        v.push(g("rz__body", &[], &[*t], 0.3 + 0.53 * k as f64));
    }
    for w in ids.windows(2) {
        v.push(g("cx__body", &[], &[w[0], w[1]], 0.0));
        v.push(g("ry__ctl", &[w[1]], &[w[0]], 0.9));
    }
    v
}
pub fn dynamic(n: usize) -> BScn {
    let mut prep = vec![B::Alloc; n];
    prep.extend(mix(&(0..n).collect::<Vec<_>>()));
    prep.push(B::Snap);
    BScn { name: format!("dynamic{n}"), prep }
}
/// As `dynamic`, deferred operations left pending on every qubit.
pub fn pending(n: usize) -> BScn {
    let mut s = dynamic(n);
    s.name = format!("pending{n}");
    for k in 0..n {
        match k % 3 {
            0 => s.prep.push(g("h__body", &[], &[k], 0.0)),
            1 => s.prep.push(g("rx__body", &[], &[k], 0.4)),
            _ => {
                s.prep.push(g("rx__body", &[], &[k], 0.4));
                s.prep.push(g("ry__body", &[], &[k], 0.8));
            }
        }
    }
    s
}
pub fn statics(ids: &[usize]) -> BScn {
    BScn { name: format!("static{ids:?}"), prep: mix(ids) }
}
fn fresh_zero(n: usize) -> BScn {
    BScn { name: format!("zero{n}"), prep: vec![B::Alloc; n] }
}
pub fn nothing() -> BScn {
    BScn { name: "nothing".into(), prep: vec![] }
}
pub fn bghz(n: usize) -> BScn {
    let mut prep = vec![B::Alloc; n];
    prep.push(g("h__body", &[], &[0], 0.0));
    for k in 1..n {
        prep.push(g("cnot__body", &[], &[k - 1, k], 0.0));
    }
    BScn { name: format!("ghz{n}"), prep }
}
/// One eigenstate of each Pauli per qubit.
fn eigen() -> BScn {
    let mut prep = vec![B::Alloc; 3];
    prep.push(g("h__body", &[], &[0], 0.0));
    prep.push(g("h__body", &[], &[1], 0.0));
    prep.push(g("s__body", &[], &[1], 0.0));
    prep.push(g("x__body", &[], &[2], 0.0));
    BScn { name: "eigen".into(), prep }
}

pub fn gates_of(v: Vec<Call>) -> Vec<B> {
    v.into_iter().map(|c| B::Gate(Rc::new(c))).collect()
}

pub fn c12(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let angles = [0.6, -1.3, PI, 0.0, 2.0 * PI];
    let one4 = beach(gates_of(calls(&[0, 1, 2, 3], &angles, 3, 3)));
    v.push(bstages("every-intrinsic", &dynamic(4), vec![one4.clone()]));
    v.push(bstages("every-intrinsic", &pending(4), vec![one4]));
    let one3 = beach(gates_of(calls(&[5, 0, 2], &angles, 2, 3)));
    v.push(bstages("every-intrinsic-static", &statics(&[2, 5, 0]), vec![one3.clone()]));
    // first reference of the qubits is the intrinsic itself
    v.push(bstages("first-use", &nothing(), vec![one3]));
    let touch = vec![
        vec![],
        vec![g("h__body", &[], &[3], 0.0)],
        vec![g("x__body", &[], &[0], 0.0)],
        vec![B::IsZero(7)],
        vec![g("h__body", &[], &[1], 0.0), g("cx__body", &[], &[1, 4], 0.0)],
    ];
    let f2 = beach(gates_of(calls(&[6, 1, 3], &[0.6], 2, 2)));
    v.push(bstages("first-use-after", &nothing(), vec![Rc::new(touch), f2]));
    let two2 = beach(gates_of(calls(&[0, 1], &[0.6, PI], 1, 2)));
    v.push(bstages("pairs2", &dynamic(2), vec![two2.clone(), two2.clone()]));
    v.push(bstages("pairs2", &pending(2), vec![two2.clone(), two2.clone()]));
    let small3 = beach(gates_of(calls(&[0, 1, 2], &[0.6], 2, 1)));
    v.push(bstages("pairs3", &dynamic(3), vec![small3.clone(), small3.clone()]));
    let small2 = beach(gates_of(calls(&[0, 1], &[0.6], 1, 1)));
    v.push(bstages("triples2", &pending(2), vec![small2.clone(), small2.clone(), small2.clone()]));
    if t == Tier::Thorough {
        v.push(bstages("pairs3", &pending(3), vec![small3.clone(), small3]));
        v.push(bstages("triples2", &dynamic(2), vec![two2.clone(), small2.clone(), two2.clone()]));
        let s3 = beach(gates_of(calls(&[2, 0, 3], &[0.6], 2, 2)));
        v.push(bstages("first-use-pairs", &nothing(), vec![s3.clone(), s3]));
        v.push(bstages("triples2", &nothing(), vec![two2.clone(), small2.clone(), small2.clone()]));
        v.push(bstages("quads2", &nothing(), vec![small2.clone(), small2.clone(), small2.clone(), beach(mix(&[0, 1]))]));
    }
    v
}

// ------------------------------------------------------------------ C13: result registers

pub fn c13(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let hist = |name: &str, ids: &[usize], depth: u32, rich: bool| -> Job {
        let mut a = vec![];
        for i in ids {
            a.push(B::Write(true, *i));
            a.push(B::Write(false, *i));
            a.push(B::Read(*i));
            a.push(B::Mz(1, *i, R::Lo)); // qubit 1 holds |1>
            if rich {
                a.push(B::RtRead(*i));
                a.push(B::Mz(0, *i, R::Lo)); // qubit 0 holds |0>
                a.push(B::MResetZ(2, *i, R::Hi)); // qubit 2 holds |1> until reset
                a.push(B::Rec(*i, None));
                a.push(B::RecLegacy(*i));
            }
        }
        a.push(B::M(1, R::Lo));
        if rich {
            a.push(B::Dump);
        }
        let ids = ids.to_vec();
        let k = a.len() as u64;
        job(format!("{name}/depth{depth}"), k.pow(depth), move |i, ctx| {
            let mut i = i;
            let mut ops: Vec<B> = vec![B::Alloc, B::Alloc, B::Alloc];
            ops.push(g("x__body", &[], &[1], 0.0));
            ops.push(g("x__body", &[], &[2], 0.0));
            for _ in 0..depth {
                ops.push(a[(i % k) as usize].clone());
                i /= k;
            }
            for r in &ids {
                ops.push(B::Read(*r));
            }
            let mx = ids.iter().copied().max().unwrap();
            // cells nobody wrote are 0
            ops.push(B::Read(mx + 1));
            ops.push(B::Read(mx.saturating_sub(1)));
            for r in ids.iter().rev() {
                ops.push(B::RtRead(*r));
                ops.push(B::Rec(*r, None));
            }
            let refs: Vec<&B> = ops.iter().collect();
            lockstep(&refs, ctx)
        })
    };
    v.push(hist("small", &[0, 1, 2], t.pick(4, 5), false));
    v.push(hist("growing", &[0, 1, 63, 64, 200], t.pick(3, 4), false));
    v.push(hist("descending", &[1000, 64, 0], t.pick(4, 5), false));
    v.push(hist("all-accesses", &[0, 3], t.pick(4, 5), true));
    v.push(hist("all-accesses-wide", &[64, 1, 130], t.pick(3, 4), true));
    // every identifier in a range, ascending and descending pairs
    let n: u64 = t.pick(140, 300);
    v.push(job("pairs-of-identifiers", n * n * 4, move |i, ctx| {
        let (a, b, k) = ((i / 4 / n) as usize, (i / 4 % n) as usize, i % 4);
        let ops = [
            B::Write(k & 1 == 1, a),
            B::Write(k & 2 == 2, b),
            B::Read(a),
            B::Read(b),
            B::Read(a + 1),
            B::Rec(a, None),
            B::Rec(b, None),
        ];
        lockstep(&ops.iter().collect::<Vec<_>>(), ctx)
    }));
    v
}

// ------------------------------------------------------------------ C14: measurement and reset

fn measure_calls(ids: &[usize], max: usize, rs: &[R]) -> Vec<B> {
    let mut v = vec![];
    for r in rs {
        for n in 0..=max {
            for ts in arrangements(ids, n) {
                for ps in pauli_strings(n) {
                    v.push(B::Measure(ps, ts.clone(), *r));
                }
            }
        }
    }
    v
}
fn meters(ids: &[usize], rs: &[R]) -> Vec<B> {
    let mut v = vec![];
    for t in ids {
        for r in rs {
            v.push(B::M(*t, *r));
            v.push(B::Mz(*t, 0, *r));
            v.push(B::Mz(*t, 65, *r));
            v.push(B::MResetZ(*t, 0, *r));
            v.push(B::MResetZ(*t, 3, *r));
            v.push(B::Reset(*t, *r));
        }
    }
    v
}

/// Counts outcomes over a grid of draws and compares with the probability.
fn bborn(name: &str, s: &BScn, st: BStage, targets: Vec<(Vec<P>, Vec<usize>, u8)>, n: u32) -> Job {
    let prep = s.prep.clone();
    let m = targets.len() as u64;
    job(format!("{name}/{}", s.name), st.len() as u64 * m, move |i, ctx| {
        let (ps, qs, how) = &targets[(i % m) as usize];
        let pre = &st[(i / m) as usize];
        let mut ones = 0u32;
        let mut want = 0.0;
        for k in 0..n {
            let r = R::Frac(k, n);
            flat(fresh(|| {
                rand::verif_script::set(&[0]);
                let mut bm = BM::default();
                for o in prep.iter().chain(pre) {
                    bm.step(o, ctx)?;
                }
                want = bm.pauli_prob(ps, qs)[0];
                let op = match how {
                    0 => B::Measure(ps.clone(), qs.clone(), r),
                    1 => B::M(qs[0], r),
                    2 => B::Mz(qs[0], 2, r),
                    _ => B::MResetZ(qs[0], 2, r),
                };
                // the outcome is what the model is told by the step
                let before = bm.clone();
                bm.step(&op, ctx)?;
                let one = match how {
                    2 | 3 => bm.get(2),
                    _ => {
                        // decide the outcome from the collapsed model
                        let p = bm.pauli_prob(ps, qs)[0];
                        drop(before);
                        p > 0.5
                    }
                };
                if one {
                    ones += 1;
                }
                bm.finish(ctx)
            }))?;
        }
        let e = want * f64::from(n);
        if (f64::from(ones) - e).abs() > 1.0 + 1e-6 {
            return Err(format!(
                "{ones} of {n} equally spaced draws give One, probability is {want} ({ps:?} on {qs:?}, entry point {how})"
            ));
        }
        Ok(())
    })
}

pub fn c14(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let rs = [R::Lo, R::Hi, R::Frac(2, 7), R::Frac(5, 7)];
    let ends = [R::Lo, R::Hi];
    let ids = [0, 1, 2];
    let all = {
        let mut a = measure_calls(&ids, 3, &ends);
        a.extend(meters(&ids, &rs));
        beach(a)
    };
    let few = {
        let mut a = measure_calls(&ids, t.pick(1, 2), &ends);
        a.extend(meters(&ids, &ends));
        beach(a)
    };
    let gs = beach(gates_of(
        calls(&ids, &[0.6], 1, 0)
            .into_iter()
            .filter(|c| matches!(c.i.f, F::One(_) | F::Rot(_) | F::Two(_) | F::Ctl(_)))
            .collect(),
    ));
    for s in [fresh_zero(3), dynamic(3), pending(3), bghz(3), eigen(), statics(&[2, 0, 1]), nothing()] {
        v.push(bstages("one", &s, vec![all.clone()]));
        v.push(bstages("two", &s, vec![all.clone(), few.clone()]));
        v.push(bstages("measure-gate-measure", &s, vec![few.clone(), gs.clone(), few.clone()]));
    }
    if t == Tier::Thorough {
        for s in [dynamic(3), pending(3), bghz(3)] {
            v.push(bstages("two-full", &s, vec![all.clone(), all.clone()]));
            v.push(bstages("three", &s, vec![few.clone(), few.clone(), beach(meters(&ids, &ends))]));
        }
    }
    // the repeated measurement agrees (deterministic from the model), and the Born rule
    let mut targets = vec![];
    for n in 0..=3 {
        for ts in arrangements(&ids, n) {
            if n < 3 || ts == [0, 1, 2] || ts == [2, 0, 1] {
                for ps in pauli_strings(n) {
                    targets.push((ps, ts.clone(), 0u8));
                }
            }
        }
    }
    for q in ids {
        for how in 1..=3 {
            targets.push((vec![P::Z], vec![q], how));
        }
    }
    let pre: BStage = Rc::new(vec![vec![], vec![g("h__body", &[], &[0], 0.0)], vec![g("rx__body", &[], &[1], 0.9)]]);
    for s in [fresh_zero(3), dynamic(3), pending(3), bghz(3), eigen()] {
        v.push(bborn("born", &s, pre.clone(), targets.clone(), t.pick(11, 64)));
    }
    v
}

// ------------------------------------------------------------------ C15: assertions

pub unsafe fn rt_string(b: &[u8]) -> *const CString {
    let c = CString::new(b).unwrap();
    __quantum__rt__string_create(c.as_ptr().cast_mut())
}

pub fn assert_call(ps: &[P], qs: &[usize], one: bool, prob: f64, tol: f64, msg: &[u8], ctl: Option<&[usize]>) {
    unsafe {
        let (p, a) = (parr(ps), qarr(qs));
        let m = rt_string(msg);
        let r = if one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
        match ctl {
            None => __quantum__qis__assertmeasurementprobability__body(p, a, r, prob, m, tol),
            Some(c) => {
                let c = qarr(c);
                let t = tuple_of(AssertArgs { paulis: p, qubits: a, result: r, prob, msg: m, tol });
                __quantum__qis__assertmeasurementprobability__ctl(c, t);
                __quantum__rt__tuple_update_reference_count(t, -1);
                drop_arr(c);
            }
        }
        __quantum__rt__string_update_reference_count(m, -1);
        drop_arr(p);
        drop_arr(a);
    }
}

pub fn c15(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let ids = [0usize, 1, 2];
    let mut pq: Vec<(Vec<P>, Vec<usize>)> = vec![];
    for n in 0..=3 {
        for ts in arrangements(&ids, n) {
            for ps in pauli_strings(n) {
                pq.push((ps, ts.clone()));
            }
        }
    }
    let pq = Rc::new(pq);
    let scns = vec![fresh_zero(3), dynamic(3), pending(3), bghz(3), eigen()];
    const TOLS: [f64; 4] = [1e-6, 1e-3, 0.2, 0.0];
    // passing: inside the tolerance on both sides
    for s in &scns {
        let (prep, pq) = (s.prep.clone(), pq.clone());
        job_push(&mut v, format!("passes/{}", s.name), pq.len() as u64 * 2 * 3 * 4 * 2, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (one, side, tol, ctl) = (nx(2) == 1, nx(3), TOLS[nx(4)], nx(2) == 1);
            let (ps, qs) = &pq[nx(pq.len() as u64)];
            flat(fresh(|| {
                rand::verif_script::set(&[0]);
                let mut bm = BM::default();
                for o in &prep {
                    bm.step(o, ctx)?;
                }
                let p1 = bm.pauli_prob(ps, qs)[0];
                let p = if one { p1 } else { 1.0 - p1 };
                // a tolerance of zero cannot be met exactly in floating point: pad it
                let tol = if tol == 0.0 { 1e-9 } else { tol };
                let prob = p + [0.0, 0.9, -0.9][side] * tol;
                ctx.log(|| format!("assert({ps:?} on {qs:?} = {one}, prob {prob} +- {tol}), actual {p}, controlled {ctl}"));
                ctx.transitions += 1;
                assert_call(ps, qs, one, prob, tol, b"should hold", ctl.then_some(&[2usize, 1][..]));
                let out = drain();
                if !out.is_empty() {
                    return Err(format!("a passing assertion recorded {:?}", String::from_utf8_lossy(&out)));
                }
                bm.finish(ctx)
            }))
        });
    }
    // certain outcomes asserted without any tolerance
    {
        let mut zs: Vec<(Vec<P>, Vec<usize>)> = vec![];
        for n in 0..=3 {
            for ts in arrangements(&ids, n) {
                for m in 0..1usize << n {
                    zs.push(((0..n).map(|k| if m >> k & 1 == 1 { P::Z } else { P::I }).collect(), ts.clone()));
                }
            }
        }
        let nz = zs.len() as u64;
        job_push(&mut v, "exact".into(), nz * 8 * 2 * 2 * 2, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (set, one, ctl, tol) = (nx(8), nx(2) == 1, nx(2) == 1, [0.0, 0.25][nx(2)]);
            let (ps, qs) = &zs[nx(nz)];
            flat(fresh(|| {
                rand::verif_script::set(&[0]);
                let mut bm = BM::default();
                for q in ids {
                    let on = g(if set >> q & 1 == 1 { "x__body" } else { "z__body" }, &[], &[q], 0.0);
                    bm.step(&on, ctx)?;
                }
                let odd = ps.iter().zip(qs).filter(|(p, q)| **p == P::Z && set >> **q & 1 == 1).count() % 2 == 1;
                let prob = f64::from(u8::from(odd == one));
                ctx.log(|| format!("assert({ps:?} on {qs:?} = {one}, prob {prob} +- {tol}), controlled {ctl}"));
                ctx.transitions += 1;
                assert_call(ps, qs, one, prob, tol, b"should hold", ctl.then_some(&[2usize, 1][..]));
                let out = drain();
                if !out.is_empty() {
                    return Err(format!("a passing assertion recorded {:?}", String::from_utf8_lossy(&out)));
                }
                bm.finish(ctx)
            }))
        });
    }
    // sequences of assertions and gates: passing leaves the state (also for later gates) unchanged
    for s in &scns {
        let prep = s.prep.clone();
        let few: Vec<(Vec<P>, Vec<usize>)> =
            pq.iter().filter(|(p, _)| p.len() <= t.pick(2, 3)).cloned().collect();
        let gs = gates_of(
            calls(&ids, &[0.6], 1, 0)
                .into_iter()
                .filter(|c| matches!(c.i.f, F::One(_) | F::Rot(_) | F::Two(_)))
                .collect(),
        );
        let n = few.len() as u64 * gs.len() as u64;
        job_push(&mut v, format!("assert-then-gate/{}", s.name), n, move |i, ctx| {
            let (ps, qs) = &few[(i / gs.len() as u64) as usize];
            let gt = &gs[(i % gs.len() as u64) as usize];
            flat(fresh(|| {
                rand::verif_script::set(&[0]);
                let mut bm = BM::default();
                for o in &prep {
                    bm.step(o, ctx)?;
                }
                for k in 0..2 {
                    let p = bm.pauli_prob(ps, qs)[0];
                    ctx.log(|| format!("assert({ps:?} on {qs:?} = One, prob {p})"));
                    assert_call(ps, qs, true, p, 1e-7, b"m", None);
                    if k == 0 {
                        bm.step(gt, ctx)?;
                    }
                }
                bm.finish(ctx)
            }))
        });
    }
    // states of the computational basis: every deviation counts, however small
    {
        let mut zs: Vec<(Vec<P>, Vec<usize>)> = vec![];
        for n in 1..=2 {
            for ts in arrangements(&ids, n) {
                for m in 1..1usize << n {
                    zs.push(((0..n).map(|k| if m >> k & 1 == 1 { P::Z } else { P::I }).collect(), ts.clone()));
                }
            }
        }
        let devs = [1e-3, 1e-6, 1e-9, 1e-11, 1e-13, -1e-3, -1e-7, -1e-11];
        let nz = zs.len() as u64;
        job_push(&mut v, "fails-slightly".into(), nz * 2 * 2 * 8 * 3, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (on, one, dev, part) = (nx(2) == 1, nx(2) == 1, devs[nx(8)], [0.0, 0.25, 0.8][nx(3)]);
            let (ps, qs) = &zs[nx(nz)];
            let odd = on && ps.iter().filter(|p| **p == P::Z).count() % 2 == 1;
            let (prob, tol) = (f64::from(u8::from(odd == one)) + dev, f64::abs(dev) * part);
            ctx.log(|| format!("qubits in |{}>: assert({ps:?} on {qs:?} = {one}, prob {prob:e} +- {tol:e}) must fail", u8::from(on)));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{ps:?}{qs:?}{one}{on}{dev}{part}")));
            let f = in_fork(Duration::from_secs(30), || {
                let _ = fresh(|| {
                    OUTPUT.with(|x| x.borrow_mut().use_std_out(true));
                    for k in ids {
                        let f = if on { __quantum__qis__x__body } else { __quantum__qis__z__body };
                        f(q(k));
                    }
                    assert_call(ps, qs, one, prob, tol, b"wrong", None);
                    println!("RETURNED");
                });
            });
            let out = String::from_utf8_lossy(&f.out).into_owned();
            if out != "INFO\twrong\n" || !f.aborted() {
                return Err(format!("assertion off by {dev:e} with tolerance {tol:e}: output {out:?}, ended with {:?} (expected the message and an abort)", f.end));
            }
            Ok(())
        });
    }
    // failing: outside the tolerance
    for s in &scns {
        let (prep, pq) = (s.prep.clone(), pq.clone());
        let step: usize = t.pick(7, 1);
        let pq: Vec<_> = pq.iter().enumerate().filter(|(k, (p, _))| p.len() < 2 || k % step == 0).map(|x| x.1.clone()).collect();
        job_push(&mut v, format!("fails/{}", s.name), pq.len() as u64 * 2 * 2 * 2 * 2, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (one, side, wide, ctl) = (nx(2) == 1, nx(2), nx(2) == 1, nx(2) == 1);
            let (ps, qs) = &pq[nx(pq.len() as u64)];
            let mut bm = BM::default();
            for o in &prep {
                // only the model: the real execution happens in the child
                if let B::Gate(c) = o {
                    for x in c.meaning() {
                        gate_model(&mut bm.m, &x);
                    }
                } else if let B::Alloc = o {
                    let _ = bm.m.allocate();
                }
            }
            let p1 = bm.pauli_prob(ps, qs)[0];
            let p = if one { p1 } else { 1.0 - p1 };
            let tol = if wide { 0.2 } else { 1e-6 };
            let prob = p + [1.1, -1.1][side] * tol;
            ctx.log(|| format!("assert({ps:?} on {qs:?} = {one}, prob {prob} +- {tol}) must fail, actual {p}, controlled {ctl}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{ps:?}{qs:?}{one}{p:.6}")));
            let f = in_fork(Duration::from_secs(30), || {
                let _ = fresh(|| {
                    OUTPUT.with(|x| x.borrow_mut().use_std_out(true));
                    let mut scratch = Ctx::default();
                    let mut real = BM::default();
                    for o in &prep {
                        let _ = real.step(o, &mut scratch);
                    }
                    assert_call(ps, qs, one, prob, tol, b"it is\twrong", ctl.then_some(&[2usize][..]));
                    println!("RETURNED");
                });
            });
            let out = String::from_utf8_lossy(&f.out).into_owned();
            if out != "INFO\tit is\\twrong\n" || !f.aborted() {
                return Err(format!(
                    "assertion off by more than its tolerance: output {out:?}, ended with {:?} (expected the message and an abort)",
                    f.end
                ));
            }
            Ok(())
        });
    }
    v
}
fn job_push(v: &mut Vec<Job>, name: String, n: u64, f: impl Fn(u64, &mut Ctx) -> Res + 'static) {
    v.push(job(name, n, f));
}

// ------------------------------------------------------------------ observation strings (C16, C17)

/// A call whose visible effect is put into words (no model involved): used by the differential checks.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Alloc,
    AllocArr(u64),
    Gate(usize, usize),
    Cx(usize, usize),
    Rx(usize),
    M(usize, u64),
    Mz(usize, usize, u64),
    Reset(usize, u64),
    ReleaseLast,
    Read(usize),
    Write(usize),
    Rec(usize),
    Rec2(usize),
    Dump,
    Snap,
    IsZero(usize),
    Seed(u64),
    Flip(usize),
    Msg,
    Drain,
    /// Select the buffer (true) or standard output as destination.
    Buf(bool),
    Init,
}

#[derive(Default)]
pub struct WState {
    dynamic: Vec<usize>,
    /// Only tracks which identifiers are in use.
    bm: BM,
}
impl WState {
    /// Whether the call names usable qubits only (otherwise the runtime rightly refuses it).
    fn valid(&mut self, w: &W) -> bool {
        let qs: Vec<usize> = match w {
            W::Gate(_, t) | W::Rx(t) | W::M(t, _) | W::Mz(t, _, _) | W::Reset(t, _) | W::IsZero(t) | W::Flip(t) => vec![*t],
            W::Cx(a, b) => vec![*a, *b],
            _ => vec![],
        };
        // A call that is not made must not leave qubits behind in the model.
        let (alloc, max) = (self.bm.m.alloc.clone(), self.bm.max);
        for t in &qs {
            self.bm.ensure(*t);
        }
        let ok = qs.iter().all(|t| self.bm.m.alloc.contains(t));
        if !ok {
            (self.bm.m.alloc, self.bm.max) = (alloc, max);
        }
        ok
    }
    fn used(&mut self, id: usize) {
        self.bm.m.alloc.insert(id);
        self.bm.max = self.bm.max.max(id + 1);
    }
}

pub fn w_run(w: &W, st: &mut WState, genuine: bool) -> String {
    if !st.valid(w) {
        return "skipped".into();
    }
    let set = |d: u64| if !genuine { rand::verif_script::set(&[if d == 0 { 0 } else { u64::MAX }]) };
    match w {
        W::Alloc => {
            let i = __quantum__rt__qubit_allocate() as usize;
            st.dynamic.push(i);
            st.used(i);
            format!("{i}")
        }
        W::AllocArr(n) => {
            let a = __quantum__rt__qubit_allocate_array(*n);
            let ids: Vec<usize> = (0..*n)
                .map(|k| unsafe { *__quantum__rt__array_get_element_ptr_1d(a, k).cast::<Q>() as usize })
                .collect();
            st.dynamic.extend(&ids);
            for i in &ids {
                st.used(*i);
            }
            drop_arr(a);
            format!("{ids:?}")
        }
        W::Gate(k, t) => {
            match k {
                0 => __quantum__qis__h__body(q(*t)),
                1 => __quantum__qis__x__body(q(*t)),
                _ => __quantum__qis__t__body(q(*t)),
            }
            String::new()
        }
        W::Cx(a, b) => {
            __quantum__qis__cx__body(q(*a), q(*b));
            String::new()
        }
        W::Rx(t) => {
            __quantum__qis__rx__body(0.7, q(*t));
            String::new()
        }
        W::M(t, d) => {
            set(*d);
            format!("{:?}", __quantum__qis__m__body(q(*t)))
        }
        W::Mz(t, r, d) => {
            set(*d);
            __quantum__qis__mz__body(q(*t), q(*r));
            String::new()
        }
        W::Reset(t, d) => {
            set(*d);
            __quantum__qis__reset__body(q(*t));
            String::new()
        }
        W::ReleaseLast => {
            set(0);
            if let Some(i) = st.dynamic.pop() {
                __quantum__rt__qubit_release(q(i));
                st.bm.m.alloc.remove(&i);
                format!("{i}")
            } else {
                "none".into()
            }
        }
        W::Read(r) => format!("{}", __quantum__qis__read_result__body(q(*r))),
        W::Write(r) => {
            __quantum__rt__write_result(true, q(*r));
            String::new()
        }
        W::Rec(r) => {
            unsafe { __quantum__rt__result_record_output(q(*r), std::ptr::null_mut()) };
            String::new()
        }
        W::Rec2(r) => {
            legacy_output::__quantum__rt__result_record_output(q(*r));
            String::new()
        }
        W::Dump => {
            __quantum__qis__dumpmachine__body(std::ptr::null_mut());
            String::new()
        }
        W::Snap => {
            let (s, n) = capture_quantum_state();
            let mut o = format!("{n}:");
            for (i, a) in s {
                o += &format!(" {i}={:.9}{:+.9}i", a.re + 0.0, a.im + 0.0);
            }
            o
        }
        W::IsZero(t) => format!("{}", qubit_is_zero(q(*t))),
        W::Seed(s) => {
            set_rng_seed(*s);
            String::new()
        }
        W::Flip(t) => {
            // a fair coin; the genuine generator when seeded
            let mut o = String::new();
            for _ in 0..16 {
                __quantum__qis__h__body(q(*t));
                let one = !__quantum__qis__m__body(q(*t)).is_null();
                o.push(if one { '1' } else { '0' });
                if one {
                    __quantum__qis__x__body(q(*t));
                }
            }
            o
        }
        W::Msg => {
            unsafe {
                let s = rt_string(b"hello");
                __quantum__rt__message(s);
                __quantum__rt__string_update_reference_count(s, -1);
            }
            String::new()
        }
        W::Drain => String::from_utf8_lossy(&drain()).into_owned(),
        W::Buf(b) => {
            OUTPUT.with(|x| x.borrow_mut().use_std_out(!*b));
            String::new()
        }
        W::Init => {
            __quantum__rt__initialize(std::ptr::null_mut());
            *st = WState::default();
            String::new()
        }
    }
}

// ------------------------------------------------------------------ C16: initialise isolates shots

pub fn dirt() -> Vec<W> {
    vec![
        W::Alloc,
        W::AllocArr(3),
        W::Gate(0, 0),
        W::Gate(1, 2),
        W::Gate(1, 70),
        W::Rx(1),
        W::Cx(0, 1),
        W::M(0, 1),
        W::Mz(0, 0, 1),
        W::Mz(2, 70, 0),
        W::Reset(1, 1),
        W::ReleaseLast,
        W::Write(1),
        W::Write(100),
        W::Read(3),
        W::Dump,
        W::IsZero(5),
        W::Init,
    ]
}
fn probes() -> Vec<W> {
    vec![
        W::Alloc,
        W::AllocArr(2),
        W::Gate(0, 0),
        W::Gate(1, 1),
        W::Gate(2, 0),
        W::Rx(0),
        W::Cx(1, 0),
        W::M(0, 1),
        W::Mz(1, 1, 1),
        W::Read(0),
        W::Read(1),
        W::Read(70),
        W::Rec(1),
        W::Rec(0),
        W::Rec2(1),
        W::Dump,
        W::Snap,
        W::IsZero(0),
        W::IsZero(2),
        W::Write(0),
        W::Reset(0, 1),
    ]
}

pub fn c16(t: Tier) -> Vec<Job> {
    let (d, p) = (Rc::new(dirt()), Rc::new(probes()));
    let mut v = vec![];
    let mk = |dd: u32, pd: u32| {
        let (d, p) = (d.clone(), p.clone());
        let (nd, np) = ((d.len() as u64).pow(dd), (p.len() as u64).pow(pd));
        // the solo observations of each probe program, computed once per process
        let solo: std::cell::RefCell<std::collections::HashMap<u64, Vec<String>>> = Default::default();
        job(format!("dirty{dd}-probe{pd}"), nd * np, move |i, ctx| {
            let (di, pi) = (i / np, i % np);
            let decode = |mut k: u64, n: u32, a: &[W]| -> Vec<W> {
                (0..n)
                    .map(|_| {
                        let w = a[(k % a.len() as u64) as usize].clone();
                        k /= a.len() as u64;
                        w
                    })
                    .collect()
            };
            let dirty = decode(di, dd, &d);
            let mut probe = decode(pi, pd, &p);
            // every probe ends by looking at everything
            probe.extend([W::Snap, W::Drain, W::Alloc, W::Snap]);
            let run = |pre: &[W], init: bool| -> Result<Vec<String>, String> {
                fresh(|| {
                    rand::verif_script::set(&[0]);
                    let mut st = WState::default();
                    for w in pre {
                        let _ = w_run(w, &mut st, false);
                    }
                    if init {
                        let _ = w_run(&W::Init, &mut st, false);
                        let _ = drain();
                        rand::verif_script::set(&[0]);
                    }
                    probe.iter().map(|w| w_run(w, &mut st, false)).collect()
                })
            };
            if !solo.borrow().contains_key(&pi) {
                let s = run(&[], false)?;
                solo.borrow_mut().insert(pi, s);
            }
            ctx.log(|| format!("before: {dirty:?}; initialize; then {probe:?}"));
            let got = run(&dirty, true)?;
            ctx.transitions += u64::from(dd + pd) + 4;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{got:?}")));
            let solo = solo.borrow();
            let want = &solo[&pi];
            if &got != want {
                return Err(format!(
                    "after {dirty:?} and initialize, the program {probe:?} observes {got:?}; in a fresh thread it observes {want:?}"
                ));
            }
            Ok(())
        })
    };
    v.push(mk(1, 3));
    v.push(mk(2, 2));
    v.push(mk(3, 1));
    if t == Tier::Thorough {
        v.push(mk(2, 3));
        v.push(mk(4, 1));
        v.push(mk(3, 2));
    }
    v
}

// ------------------------------------------------------------------ C17: threads are isolated

/// The programs run by the threads of a scenario.
pub fn thread_programs() -> Vec<(&'static str, Vec<W>)> {
    vec![
        ("bell", vec![W::Alloc, W::Alloc, W::Gate(0, 0), W::Cx(0, 1), W::Snap, W::M(0, 1), W::Snap]),
        ("static", vec![W::Gate(1, 2), W::Mz(2, 1, 0), W::Rx(0), W::Read(1), W::Rec(1), W::Dump, W::Drain]),
        ("results", vec![W::Write(0), W::Write(70), W::Rec(70), W::Rec2(0), W::Read(70), W::Read(1), W::Drain]),
        ("seeded", vec![W::Seed(7), W::Flip(0), W::Flip(1), W::Snap, W::Flip(0), W::Init, W::Flip(0)]),
        ("seeded2", vec![W::Seed(7), W::Gate(0, 3), W::Flip(0), W::Init, W::Flip(2), W::Snap, W::Drain]),
        ("messages", vec![W::Msg, W::Rec(1), W::Msg, W::Drain, W::Rec(0), W::Msg, W::Drain]),
        ("reinit", vec![W::AllocArr(3), W::Gate(1, 2), W::Init, W::Alloc, W::Gate(0, 0), W::IsZero(0), W::Snap]),
        ("release", vec![W::Alloc, W::Gate(1, 0), W::ReleaseLast, W::Alloc, W::IsZero(0), W::ReleaseLast, W::Snap]),
        // these start with the recorder as the thread finds it
        ("destination", vec![W::Rec(0), W::Msg, W::Drain, W::Buf(true), W::Rec2(1), W::Drain, W::Rec(1)]),
        ("destinations", vec![W::Buf(true), W::Msg, W::Buf(false), W::Msg, W::Drain, W::Buf(true), W::Drain]),
    ]
}

/// Standard output (file descriptor 1) collected in memory until dropped.
struct StdOut {
    saved: i32,
    mem: i32,
    pos: i64,
}
impl StdOut {
    fn new() -> Self {
        let _ = std::io::stdout().flush();
        unsafe {
            let saved = libc::dup(1);
            let mem = libc::memfd_create(c"stdout".as_ptr(), 0);
            assert!(saved >= 0 && mem >= 0 && libc::dup2(mem, 1) == 1);
            StdOut { saved, mem, pos: 0 }
        }
    }
    /// What arrived since the last call.
    fn take(&mut self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let mut out = vec![];
        loop {
            let mut b = [0u8; 4096];
            let n = unsafe { libc::pread(self.mem, b.as_mut_ptr().cast(), b.len(), self.pos) };
            if n <= 0 {
                return out;
            }
            self.pos += n as i64;
            out.extend_from_slice(&b[..n as usize]);
        }
    }
}
impl Drop for StdOut {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.saved, 1);
            libc::close(self.saved);
            libc::close(self.mem);
        }
    }
}

fn genuine(p: &[W]) -> bool {
    p.iter().any(|w| matches!(w, W::Seed(_)))
}

/// The `k`-th interleaving of sequences of the given lengths (in a fixed enumeration).
fn interleaving(mut k: u64, lens: &[usize]) -> Vec<usize> {
    fn count(l: &[usize]) -> u64 {
        let mut n = 0u64;
        let mut r = 1u64;
        for x in l {
            for j in 1..=*x as u64 {
                n += 1;
                r = r * n / j;
            }
        }
        r
    }
    let mut l = lens.to_vec();
    let mut out = vec![];
    while l.iter().any(|x| *x > 0) {
        for t in 0..l.len() {
            if l[t] == 0 {
                continue;
            }
            l[t] -= 1;
            let c = count(&l);
            if k < c {
                out.push(t);
                break;
            }
            k -= c;
            l[t] += 1;
        }
    }
    out
}
fn interleavings(lens: &[usize]) -> u64 {
    let mut n = 0u64;
    let mut r = 1u64;
    for x in lens {
        for j in 1..=*x as u64 {
            n += 1;
            r = r * n / j;
        }
    }
    r
}

/// Executes the first `len` calls of programs on separate OS threads, one call at a time in the given order. A thread is created at
/// its first call and has ended (thread-local destructors included) before the call after its last one.
pub fn scheduled(progs: &[&[W]], len: usize, order: &[usize]) -> Result<Vec<Vec<String>>, String> {
    use std::sync::mpsc::{channel, Receiver, Sender};
    struct T {
        go: Sender<W>,
        back: Receiver<Result<String, String>>,
        h: Option<std::thread::JoinHandle<()>>,
    }
    let mut ts: Vec<Option<T>> = progs.iter().map(|_| None).collect();
    let mut pos = vec![0usize; progs.len()];
    let mut obs: Vec<Vec<String>> = vec![vec![]; progs.len()];
    let mut stdout = StdOut::new();
    for &t in order {
        if ts[t].is_none() {
            let (go, rx) = channel::<W>();
            let (tx, back) = channel();
            let gen = genuine(progs[t]);
            let buffered = !progs[t].iter().any(|w| matches!(w, W::Buf(_)));
            let h = std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    if buffered {
                        OUTPUT.with(|x| x.borrow_mut().use_std_out(false));
                    }
                    if gen {
                        rand::verif_script::clear();
                    } else {
                        rand::verif_script::set(&[0]);
                    }
                    let mut st = WState::default();
                    while let Ok(w) = rx.recv() {
                        let r = guarded(|| w_run(&w, &mut st, gen));
                        if tx.send(r).is_err() {
                            break;
                        }
                    }
                })
                .expect("thread");
            ts[t] = Some(T { go, back, h: Some(h) });
        }
        let th = ts[t].as_mut().unwrap();
        let w = progs[t][pos[t]].clone();
        pos[t] += 1;
        th.go.send(w.clone()).map_err(|e| e.to_string())?;
        let r = th.back.recv().map_err(|e| e.to_string())?;
        match r {
            Ok(s) => obs[t].push(s),
            Err(p) => obs[t].push(format!("panic: {p}")),
        }
        let printed = stdout.take();
        if !printed.is_empty() {
            *obs[t].last_mut().unwrap() += &format!(" prints {:?}", String::from_utf8_lossy(&printed));
        }
        if pos[t] == len {
            let mut x = ts[t].take().unwrap();
            drop(x.go);
            if let Some(h) = x.h.take() {
                h.join().map_err(|_| "thread panicked".to_string())?;
            }
        }
    }
    Ok(obs)
}

/// What each program observes when it runs alone, in a process of its own, so that nothing another program did
/// can have an influence.
pub fn solo_observations(progs: &[(&'static str, Vec<W>)]) -> Vec<Vec<String>> {
    progs
        .iter()
        .map(|p| {
            let f = in_fork(Duration::from_secs(60), || {
                let r = scheduled(&[&p.1], p.1.len(), &vec![0; p.1.len()]).map_or_else(|e| vec![e], |mut v| v.remove(0));
                print!("{}", serde_json::to_string(&r).unwrap());
            });
            serde_json::from_slice(&f.out).unwrap_or_else(|e| vec![format!("alone: {:?} {e}", f.end)])
        })
        .collect()
}

pub fn c17(t: Tier) -> Vec<Job> {
    let progs = Rc::new(thread_programs());
    let np = progs.len() as u64;
    let solo = Rc::new(std::cell::OnceCell::<Vec<Vec<String>>>::new());
    let mk = |name: &str, len: usize, n: usize, pick: Vec<Vec<usize>>| -> Job {
        let progs = progs.clone();
        let lens = vec![len; n];
        let il = interleavings(&lens);
        let solo = solo.clone();
        job(format!("{name}/len{len}"), pick.len() as u64 * il, move |i, ctx| {
            let sel = &pick[(i / il) as usize];
            let order = interleaving(i % il, &lens);
            let pr: Vec<&[W]> = sel.iter().map(|k| &progs[*k].1[..]).collect();
            ctx.log(|| format!("programs {:?}, schedule {order:?}", sel.iter().map(|k| progs[*k].0).collect::<Vec<_>>()));
            let want = solo.get_or_init(|| solo_observations(&progs));
            let got = scheduled(&pr, len, &order)?;
            ctx.transitions += order.len() as u64;
            ctx.traces += n as u64;
            ctx.state(hash_str(&format!("{sel:?}{order:?}")));
            for (t, k) in sel.iter().enumerate() {
                if got[t][..] != want[*k][..len] {
                    return Err(format!(
                        "thread {t} running {:?} observes {:?} under schedule {order:?}; alone it observes {:?}",
                        progs[*k].0, got[t], &want[*k][..len]
                    ));
                }
            }
            Ok(())
        })
    };
    let mut pairs = vec![];
    for a in 0..np as usize {
        for b in a..np as usize {
            pairs.push(vec![a, b]);
        }
    }
    let mut triples = vec![];
    for a in 0..np as usize {
        for b in a..np as usize {
            for c in b..np as usize {
                triples.push(vec![a, b, c]);
            }
        }
    }
    let mut v = vec![mk("two-threads", t.pick(5, 7), 2, pairs)];
    if t == Tier::Thorough {
        v.push(mk("three-threads", 4, 3, triples));
    } else {
        v.push(mk("three-threads", 3, 3, triples));
        // full programs, all interleavings of seven calls each, a few pairs
        v.push(mk("two-threads-full", 7, 2, vec![vec![0, 3], vec![1, 5], vec![6, 7]]));
    }
    v
}

// ------------------------------------------------------------------ C11, backend half: seeds across shots

pub fn c11_backend(t: Tier) -> Vec<Job> {
    let seeds: u64 = t.pick(128, 2048);
    let flips = |n: usize, kind: usize| -> String {
        let mut s = String::new();
        for j in 0..n {
            let t = j % 3;
            __quantum__qis__h__body(q(t));
            let one = match kind {
                0 => !__quantum__qis__m__body(q(t)).is_null(),
                1 => {
                    __quantum__qis__mz__body(q(t), q(j));
                    __quantum__qis__read_result__body(q(j))
                }
                _ => {
                    let (p, a) = (parr(&[P::Z]), qarr(&[t]));
                    let r = unsafe { __quantum__qis__measure__body(p, a) };
                    drop_arr(p);
                    drop_arr(a);
                    !r.is_null()
                }
            };
            s.push(if one { '1' } else { '0' });
            if one {
                __quantum__qis__x__body(q(t));
            }
        }
        s
    };
    vec![
        job("backend-same-seed", seeds * 3 * 4, move |i, ctx| {
            let (seed, kind, noise) = (seed_of(i / 12), (i % 3) as usize, (i / 3 % 4) as usize);
            ctx.log(|| format!("seed {seed}, measurement kind {kind}, noise {noise}"));
            let run = |noise: usize| {
                fresh(|| {
                    rand::verif_script::clear();
                    if noise & 1 == 1 {
                        let _ = flips(5, 0);
                    }
                    if noise & 2 == 2 {
                        // seed first, initialise afterwards: the order the runner uses
                        set_rng_seed(seed);
                        __quantum__rt__initialize(std::ptr::null_mut());
                    } else {
                        __quantum__rt__initialize(std::ptr::null_mut());
                        set_rng_seed(seed);
                    }
                    flips(32, kind)
                })
            };
            let (a, b) = (run(0)?, run(noise)?);
            ctx.transitions += 64;
            ctx.traces += 2;
            ctx.state(hash_str(&a));
            if a != b {
                return Err(format!("seed {seed}: the same program measures {a} and {b} (variant {noise})"));
            }
            Ok(())
        }),
        job("backend-sources", 12 * 16 * 4, move |i, ctx| {
            let (kind, seed, noise) = ((i % 12) as usize, seed_of(i / 12 % 16), i / 192);
            ctx.log(|| format!("seed {seed}, source of randomness {kind}, variant {noise}"));
            // everything that draws, made visible on the other half of an entangled pair
            let run = |noise: u64, n: usize| {
                fresh(|| {
                    rand::verif_script::clear();
                    if noise == 1 {
                        let _ = flips(5, 0);
                    }
                    if noise == 2 {
                        set_rng_seed(!seed);
                    }
                    set_rng_seed(seed);
                    __quantum__rt__initialize(std::ptr::null_mut());
                    let mut s = String::new();
                    let b = if matches!(kind, 8..=10) { __quantum__rt__qubit_allocate() } else { q(1) };
                    for _ in 0..n {
                        if noise == 3 {
                            // what does not draw does not matter
                            let _ = qubit_is_zero(b);
                            __quantum__qis__dumpmachine__body(std::ptr::null_mut());
                            let _ = drain();
                            let _ = capture_quantum_state();
                        }
                        let pauli = |ps: &[P], qs: &[usize]| {
                            let (p, a) = (parr(ps), qarr(qs));
                            let r = unsafe { __quantum__qis__measure__body(p, a) };
                            drop_arr(p);
                            drop_arr(a);
                            !r.is_null()
                        };
                        let mut x = q(0);
                        let mut arr = std::ptr::null();
                        if kind == 8 {
                            x = __quantum__rt__qubit_allocate();
                        }
                        if kind == 9 || kind == 10 {
                            arr = __quantum__rt__qubit_allocate_array(2);
                            x = unsafe { *__quantum__rt__array_get_element_ptr_1d(arr, (kind - 9) as u64).cast() };
                        }
                        __quantum__qis__h__body(x);
                        __quantum__qis__cx__body(x, b);
                        let direct = match kind {
                            0 => Some(!__quantum__qis__m__body(x).is_null()),
                            1 | 2 => {
                                if kind == 1 {
                                    __quantum__qis__mz__body(x, q(3));
                                } else {
                                    __quantum__qis__mresetz__body(x, q(3));
                                }
                                Some(__quantum__qis__read_result__body(q(3)))
                            }
                            3 => {
                                __quantum__qis__reset__body(x);
                                None
                            }
                            4 => Some(pauli(&[P::Z], &[0])),
                            5 => Some(pauli(&[P::Z, P::I], &[0, 2])),
                            6 => {
                                // each Pauli basis, each outcome equally likely
                                let r = pauli(&[P::X, P::Z], &[2, 0]);
                                s.push(if r { 'a' } else { 'b' });
                                None
                            }
                            7 => {
                                let r = pauli(&[P::Y], &[2]);
                                s.push(if r { 'a' } else { 'b' });
                                None
                            }
                            8 => {
                                __quantum__rt__qubit_release(x);
                                None
                            }
                            9 | 10 => {
                                unsafe { __quantum__rt__qubit_release_array(arr) };
                                None
                            }
                            _ => None,
                        };
                        let one = !__quantum__qis__m__body(b).is_null();
                        if direct.is_some_and(|d| d != one) {
                            s.push('!');
                        }
                        s.push(if one { '1' } else { '0' });
                        __quantum__qis__reset__body(b);
                        if !matches!(kind, 8..=10) {
                            __quantum__qis__reset__body(q(0));
                            __quantum__qis__reset__body(q(2));
                        }
                    }
                    s
                })
            };
            let (a, b) = (run(0, 40)?, run(noise, 40)?);
            ctx.transitions += 240;
            ctx.traces += 2;
            ctx.state(hash_str(&a));
            if a != b {
                return Err(format!("seed {seed}: the same program measures {a} and {b} (variant {noise})"));
            }
            if a.contains('!') {
                return Err(format!("the two halves of an entangled pair disagree: {a}"));
            }
            if !a.contains('0') || !a.contains('1') || matches!(kind, 6 | 7) && (!a.contains('a') || !a.contains('b')) {
                return Err(format!("seed {seed}: 40 fair outcomes all equal: {a}"));
            }
            // positions draw fresh numbers: the stream does not repeat with a short period
            if let Some(p) = (1..14).find(|p| a.as_bytes().windows(p + 1).all(|w| w[0] == w[*p])) {
                return Err(format!("seed {seed}: the outcomes repeat with period {p}: {a}"));
            }
            Ok(())
        }),
        job("backend-different-seeds", 2, move |i, ctx| {
            // all seeds give different outcomes, and so do threads without a seed
            ctx.log(|| if i == 0 { "different seeds" } else { "no seed" }.to_string());
            let mut seen = std::collections::HashMap::new();
            let list = if i == 0 { crate::p_sim::distinct_seeds(64) } else { (0..16).collect() };
            for seed in list {
                let w = fresh(|| {
                    rand::verif_script::clear();
                    if i == 0 {
                        set_rng_seed(seed);
                    }
                    __quantum__rt__initialize(std::ptr::null_mut());
                    flips(128, 0)
                })?;
                ctx.transitions += 128;
                ctx.traces += 1;
                ctx.state(hash_str(&w));
                if let Some(o) = seen.insert(w, seed) {
                    return Err(format!("{} {o} and {seed} give the same 128 outcomes", if i == 0 { "seeds" } else { "threads without a seed" }));
                }
            }
            Ok(())
        }),
        job("backend-shots-continue", seeds * 8, move |i, ctx| {
            let (seed, shots) = (seed_of(i / 8), (i % 8) as usize + 1);
            let per = 48 / shots;
            ctx.log(|| format!("seed {seed}, {shots} shots of {per} flips"));
            let whole = fresh(|| {
                rand::verif_script::clear();
                set_rng_seed(seed);
                __quantum__rt__initialize(std::ptr::null_mut());
                flips(per * shots, 0)
            })?;
            let parts = fresh(|| {
                rand::verif_script::clear();
                set_rng_seed(seed);
                (0..shots)
                    .map(|_| {
                        __quantum__rt__initialize(std::ptr::null_mut());
                        let mut o = flips(per, 0);
                        o.truncate(per);
                        o
                    })
                    .collect::<String>()
            })?;
            ctx.transitions += 96;
            ctx.traces += 2;
            ctx.state(hash_str(&parts));
            if whole != parts {
                return Err(format!("seed {seed}: {shots} shots measure {parts}, the uninterrupted stream is {whole}"));
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ C18: qubit arrays

#[derive(Clone, Copy, Debug)]
enum A18 {
    Alloc(u64),
    Retain(usize),
    Drop(usize),
    Release(usize),
    Alias(usize),
    Unalias(usize),
    Copy(usize, bool),
    Flip(usize),
    Single,
}

pub fn c18(t: Tier) -> Vec<Job> {
    use A18::*;
    struct Obj {
        ptr: *const QirArray,
        data: *const u8,
        refs: i32,
        alias: i32,
        ids: Vec<usize>,
        /// owned: the qubits are allocated through this array and not yet released
        owns: bool,
        alive: bool,
    }
    fn data_of(a: *const QirArray, n: u64) -> *const u8 {
        if n == 0 {
            std::ptr::null()
        } else {
            unsafe { __quantum__rt__array_get_element_ptr_1d(a, 0).cast_const().cast() }
        }
    }
    let run = Rc::new(move |ops: &[A18], ctx: &mut Ctx| -> Res {
        alloc::begin();
        let r = flat(fresh(|| {
            rand::verif_script::set(&[0]);
            let mut objs: Vec<Obj> = vec![];
            let mut m = Model::default();
            let check = |objs: &[Obj], m: &mut Model| -> Res {
                for (k, o) in objs.iter().enumerate() {
                    if o.alive {
                        if !alloc::is_live(o.ptr.cast(), 1) {
                            return Err(format!("array {k} was freed while it has {} references", o.refs));
                        }
                        let n = unsafe { __quantum__rt__array_get_size_1d(o.ptr) };
                        if n != o.ids.len() as u64 {
                            return Err(format!("array {k} has length {n}, expected {}", o.ids.len()));
                        }
                        for (j, id) in o.ids.iter().enumerate() {
                            let e = unsafe {
                                *__quantum__rt__array_get_element_ptr_1d(o.ptr, j as u64).cast::<Q>() as usize
                            };
                            if e != *id {
                                return Err(format!("element {j} of array {k} is qubit {e}, expected {id}"));
                            }
                        }
                    } else if alloc::is_live(o.ptr.cast(), 1) || (!o.data.is_null() && alloc::is_live(o.data, 1)) {
                        return Err(format!("array {k} has no references left but is still allocated"));
                    }
                }
                let (s, n) = capture_quantum_state();
                m.compare(&s, n)
            };
            for op in ops {
                ctx.log(|| format!("{op:?}"));
                ctx.transitions += 1;
                // the k-th living object
                let pick = |objs: &[Obj], k: usize| objs.iter().enumerate().filter(|(_, o)| o.alive).map(|x| x.0).nth(k);
                match *op {
                    Alloc(n) => {
                        let (a, _) = alloc::tracked(|| __quantum__rt__qubit_allocate_array(n));
                        let len = unsafe { __quantum__rt__array_get_size_1d(a) };
                        if len != n {
                            return Err(format!("array of {n} qubits has length {len}"));
                        }
                        let ids: Vec<usize> = (0..n)
                            .map(|k| unsafe { *__quantum__rt__array_get_element_ptr_1d(a, k).cast::<Q>() as usize })
                            .collect();
                        for id in &ids {
                            let want = m.allocate();
                            if *id != want {
                                return Err(format!("array qubit {id}, lowest free identifier was {want}"));
                            }
                        }
                        objs.push(Obj { ptr: a, data: data_of(a, n), refs: 1, alias: 0, ids, owns: true, alive: true });
                    }
                    Single => {
                        let id = __quantum__rt__qubit_allocate() as usize;
                        let want = m.allocate();
                        if id != want {
                            return Err(format!("allocated qubit {id}, lowest free identifier was {want}"));
                        }
                        __quantum__qis__x__body(q(id));
                        gate_model(&mut m, &Op::G1(G::X, id));
                    }
                    Retain(k) => {
                        if let Some(k) = pick(&objs, k) {
                            alloc::tracked(|| unsafe { __quantum__rt__array_update_reference_count(objs[k].ptr, 1) });
                            objs[k].refs += 1;
                        }
                    }
                    Drop(k) => {
                        if let Some(k) = pick(&objs, k) {
                            // a program gives its last reference back through release
                            if objs[k].refs > 1 || (!objs[k].owns && objs[k].alias == 0) {
                                alloc::tracked(|| unsafe { __quantum__rt__array_update_reference_count(objs[k].ptr, -1) });
                                objs[k].refs -= 1;
                                objs[k].alive = objs[k].refs > 0;
                            }
                        }
                    }
                    Alias(k) | Unalias(k) => {
                        if let Some(k) = pick(&objs, k) {
                            let d = if let Alias(_) = op { 1 } else { -1 };
                            if objs[k].alias + d >= 0 {
                                alloc::tracked(|| unsafe { __quantum__rt__array_update_alias_count(objs[k].ptr, d) });
                                objs[k].alias += d;
                            }
                        }
                    }
                    Copy(k, force) => {
                        if let Some(k) = pick(&objs, k) {
                            let (p, _) = alloc::tracked(|| unsafe { __quantum__rt__array_copy(objs[k].ptr, force) });
                            if force || objs[k].alias > 0 {
                                if p == objs[k].ptr {
                                    return Err("copy returned the aliased array itself".into());
                                }
                                let ids = objs[k].ids.clone();
                                let data = data_of(p, ids.len() as u64);
                                objs.push(Obj { ptr: p, data, refs: 1, alias: 0, ids, owns: false, alive: true });
                            } else {
                                if p != objs[k].ptr {
                                    return Err("copy of an unaliased array is a new object".into());
                                }
                                objs[k].refs += 1;
                            }
                        }
                    }
                    Flip(k) => {
                        if let Some(k) = pick(&objs, k) {
                            if objs[k].owns {
                                if let Some(id) = objs[k].ids.last() {
                                    __quantum__qis__x__body(q(*id));
                                    gate_model(&mut m, &Op::G1(G::X, *id));
                                }
                            }
                        }
                    }
                    Release(k) => {
                        if let Some(k) = pick(&objs, k) {
                            if objs[k].owns && objs[k].alias == 0 {
                                alloc::tracked(|| unsafe { __quantum__rt__qubit_release_array(objs[k].ptr) });
                                for id in &objs[k].ids {
                                    m.release(*id);
                                }
                                objs[k].owns = false;
                                objs[k].refs -= 1;
                                objs[k].alive = objs[k].refs > 0;
                            }
                        }
                    }
                }
                check(&objs, &mut m)?;
            }
            // give everything back
            for k in 0..objs.len() {
                if !objs[k].alive {
                    continue;
                }
                if objs[k].alias > 0 {
                    let d = -objs[k].alias;
                    alloc::tracked(|| unsafe { __quantum__rt__array_update_alias_count(objs[k].ptr, d) });
                    objs[k].alias = 0;
                }
                while objs[k].refs > 0 {
                    if objs[k].owns && objs[k].refs == 1 {
                        alloc::tracked(|| unsafe { __quantum__rt__qubit_release_array(objs[k].ptr) });
                        for id in &objs[k].ids {
                            m.release(*id);
                        }
                        objs[k].owns = false;
                    } else {
                        alloc::tracked(|| unsafe { __quantum__rt__array_update_reference_count(objs[k].ptr, -1) });
                    }
                    objs[k].refs -= 1;
                }
                objs[k].alive = false;
                check(&objs, &mut m)?;
            }
            ctx.state(m.hash());
            ctx.traces += 1;
            Ok(())
        }));
        let h = alloc::end();
        r?;
        h.check(0)
    });
    let alpha: Vec<A18> = vec![
        Alloc(0),
        Alloc(1),
        Alloc(3),
        Retain(0),
        Drop(0),
        Release(0),
        Release(1),
        Alias(0),
        Unalias(0),
        Copy(0, false),
        Copy(0, true),
        Flip(0),
        Flip(1),
        Single,
    ];
    let mut v = vec![];
    for (depth, alpha) in [(t.pick(4, 5), alpha.clone()), (t.pick(5, 7), vec![Alloc(2), Release(0), Release(1), Retain(0), Drop(0), Flip(0), Single])] {
        let k = alpha.len() as u64;
        let first = [Alloc(1), Alloc(2), Alloc(3), Alloc(70)];
        let run = run.clone();
        v.push(job(format!("histories{}/depth{depth}", alpha.len()), 4 * k.pow(depth), move |i, ctx| {
            let mut ops = vec![first[(i % 4) as usize]];
            let mut i = i / 4;
            for _ in 0..depth {
                ops.push(alpha[(i % k) as usize]);
                i /= k;
            }
            run(&ops, ctx)
        }));
    }
    // many arrays and large ones, released in different orders
    let counts: Vec<usize> = t.pick(vec![4, 9, 17, 33, 65], (4..=70).chain([100, 129]).collect());
    let nc = counts.len();
    let order = run.clone();
    v.push(job("many-arrays", (nc * 4 * 4) as u64, move |i, ctx| {
        let (n, sizes, how) = (counts[i as usize / 16], i / 4 % 4, i % 4);
        let mut ops = vec![];
        for k in 0..n as u64 {
            ops.push(Alloc(match sizes {
                0 => 1,
                1 => k % 4,
                2 => (n as u64 - k) % 7,
                _ => 2,
            }));
            if k % 5 == 1 {
                ops.extend([Flip(k as usize), Retain(k as usize)]);
            }
            if k % 7 == 2 {
                ops.push(Single);
            }
        }
        // (a retained array stays alive after its release)
        let mut left = n;
        while left > 0 {
            ops.push(Release(match how {
                0 => 0,
                1 => left - 1,
                2 => left / 2,
                _ => left * 7 / 11 % left,
            }));
            if left % 3 == 0 {
                ops.push(Alloc(2));
            }
            if left % 2 == 0 {
                ops.push(Drop(0));
            }
            left -= 1;
        }
        order(&ops, ctx)
    }));
    let sizes: Vec<u64> = t.pick(vec![5, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300], (5..=300).chain([511, 512, 513, 600]).collect());
    let ns = sizes.len();
    v.push(job("large-arrays", (ns * ns.min(12)) as u64, move |i, ctx| {
        let (a, b) = (sizes[i as usize % ns], sizes[i as usize / ns]);
        run(
            &[
                Alloc(a), Flip(0), Alloc(b), Retain(0), Flip(1), Release(0), Single, Alloc(a / 2 + 1), Flip(2), Copy(1, true), Release(1), Alloc(b + 3), Flip(3),
                Drop(0), Release(2), Alloc(1), Flip(2),
            ],
            ctx,
        )
    }));
    v
}

// ------------------------------------------------------------------ C19: recorded results and dumps

pub fn c19(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let tags: Vec<Option<&'static [u8]>> =
        vec![None, Some(b""), Some(b"r0"), Some(b"a\tb"), Some(b"\xff\xfe"), Some("\u{2713} tag".as_bytes())];
    // every tag x identifier x value x dialect, after different register histories
    {
        let tags = tags.clone();
        let ids = [0usize, 1, 2, 63, 64, 65, 200];
        let n = (tags.len() * ids.len() * ids.len() * 4) as u64;
        v.push(job("record-after-write", n, move |i, ctx| {
            let mut i = i as usize;
            let mut nx = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (tag, r, w, mode) = (tags[nx(tags.len())], ids[nx(ids.len())], ids[nx(ids.len())], nx(4));
            let ops = [
                B::Write(mode & 1 == 1, w),
                B::Rec(r, tag),
                B::RecLegacy(r),
                B::Write(mode & 2 == 2, r),
                B::Rec(r, tag),
                B::RecLegacy(w),
                B::Rec(w, tag),
                B::Dump,
            ];
            lockstep(&ops.iter().collect::<Vec<_>>(), ctx)
        }));
    }
    // dynamic results
    {
        let tags = tags.clone();
        v.push(job("dynamic", tags.len() as u64 * 8 * 4, move |i, ctx| {
            let (tag, k, h) = (tags[(i % tags.len() as u64) as usize], i / tags.len() as u64 % 8, i / tags.len() as u64 / 8);
            flat(fresh(|| {
                rand::verif_script::set(&[if k & 1 == 1 { u64::MAX } else { 0 }]);
                let mut bm = BM::default();
                let prep = match h {
                    0 => vec![B::Alloc, g("x__body", &[], &[0], 0.0)],
                    1 => vec![B::Alloc, g("h__body", &[], &[0], 0.0)],
                    2 => vec![B::Alloc, B::Alloc, g("ry__body", &[], &[0], 2.2), g("cx__body", &[], &[0, 1], 0.0)],
                    _ => vec![B::Alloc],
                };
                for b in &prep {
                    bm.step(b, ctx)?;
                }
                let r = __quantum__qis__m__body(q(0));
                let one = __quantum__rt__result_equal(r, __quantum__rt__result_get_one());
                bm.m.observe(&[0], one)?;
                let _ = drain();
                let tagc = tag.map(|t| CString::new(t).unwrap());
                let p = tagc.as_ref().map_or(std::ptr::null_mut(), |t| t.as_ptr().cast_mut());
                let want: Vec<u8> = if k & 2 == 2 {
                    legacy_output::__quantum__rt__result_record_output(r);
                    format!("RESULT\t{}\n", i32::from(one)).into_bytes()
                } else {
                    unsafe { __quantum__rt__result_record_output(r, p) };
                    let mut w = format!("OUTPUT\tRESULT\t{}", i32::from(one)).into_bytes();
                    if let Some(t) = tag {
                        w.push(b'\t');
                        w.extend_from_slice(t);
                    }
                    w.push(b'\n');
                    w
                };
                let got = drain();
                ctx.transitions += 2;
                if got != want {
                    return Err(format!("recorded {:?} for a measured {one}", String::from_utf8_lossy(&got)));
                }
                if k & 4 == 4 {
                    bm.step(&B::Dump, ctx)?;
                }
                bm.finish(ctx)
            }))
        }));
    }
    // histories
    let hist = |name: &str, a: Vec<B>, prep: Vec<B>, tail: Vec<B>, depth: u32| -> Job {
        let k = a.len() as u64;
        job(format!("{name}/depth{depth}"), k.pow(depth), move |i, ctx| {
            let mut i = i;
            let mut ops: Vec<&B> = prep.iter().collect();
            for _ in 0..depth {
                ops.push(&a[(i % k) as usize]);
                i /= k;
            }
            ops.extend(&tail);
            lockstep(&ops, ctx)
        })
    };
    let ones = vec![B::Alloc, B::Alloc, B::Alloc, g("x__body", &[], &[1], 0.0), g("h__body", &[], &[2], 0.0)];
    let a = vec![
        B::Mz(0, 0, R::Lo),
        B::Mz(1, 0, R::Lo),
        B::Mz(1, 2, R::Lo),
        B::Mz(2, 1, R::Hi),
        B::Mz(2, 1, R::Lo),
        B::MResetZ(1, 70, R::Lo),
        B::M(1, R::Lo),
        B::Write(true, 1),
        B::Write(false, 2),
        B::Read(70),
        B::Rec(0, None),
        B::Rec(1, Some(b"t")),
        B::Rec(70, None),
        B::RecLegacy(1),
        B::RecLegacy(2),
        B::Dump,
        g("x__body", &[], &[0], 0.0),
        g("h__body", &[], &[0], 0.0),
        B::Init,
    ];
    let tail = vec![B::Rec(1, None), B::Rec(0, Some(b"z")), B::RecLegacy(2), B::Dump];
    // (after Init the later operations reference the qubits statically)
    v.push(hist("histories", a.clone(), ones, tail.clone(), t.pick(4, 5)));
    v.push(hist("histories-static", a, vec![], tail, t.pick(4, 5)));
    // dumps after gate programs
    let gs = gates_of(calls(&[0, 1, 2], &[0.6], 2, 1));
    v.push(bstages("dump", &dynamic(3), vec![beach(gs.clone()), beach(vec![B::Dump]), beach(gs.clone()), beach(vec![B::Dump])]));
    v.push(bstages("dump", &statics(&[5, 0, 2]), vec![beach(gates_of(calls(&[5, 0, 2], &[0.6, PI], 2, 2))), beach(vec![B::Dump])]));
    v
}


// ------------------------------------------------------------------ C08: invalid operands of intrinsics

/// Calls of the runtime that name a released qubit, or one qubit where distinct ones are required, stop the program.
pub fn c08_backend(t: Tier) -> Vec<Job> {
    #[derive(Clone)]
    enum Bad {
        Gate(Call),
        Alone(&'static str, usize),
        Joint(Vec<P>, Vec<usize>, bool),
        Swap(usize, usize),
        ReleaseArray(Vec<usize>),
    }
    fn run(b: &Bad) {
        match b {
            Bad::Gate(c) => c.call(),
            Bad::Alone("m", x) => {
                __quantum__qis__m__body(q(*x));
            }
            Bad::Alone("mz", x) => __quantum__qis__mz__body(q(*x), q(1)),
            Bad::Alone("mresetz", x) => __quantum__qis__mresetz__body(q(*x), q(1)),
            Bad::Alone("reset", x) => __quantum__qis__reset__body(q(*x)),
            Bad::Alone("is zero", x) => {
                let _ = qubit_is_zero(q(*x));
            }
            Bad::Alone(_, x) => __quantum__rt__qubit_release(q(*x)),
            Bad::Joint(ps, qs, measure) => {
                let (p, a) = (parr(ps), qarr(qs));
                unsafe {
                    if *measure {
                        __quantum__qis__measure__body(p, a);
                    } else {
                        let m = __quantum__rt__string_create(c"m".as_ptr().cast_mut());
                        __quantum__qis__assertmeasurementprobability__body(p, a, __quantum__rt__result_get_one(), 0.5, m, 2.0);
                    }
                }
            }
            Bad::Swap(a, b) => __quantum__qis__swap__body(q(*a), q(*b)),
            Bad::ReleaseArray(qs) => unsafe { __quantum__rt__qubit_release_array(qarr(qs)) },
        }
    }
    fn show(b: &Bad) -> String {
        match b {
            Bad::Gate(c) => c.show(),
            Bad::Alone(n, x) => format!("{n}({x})"),
            Bad::Joint(p, x, m) => format!("{}({p:?}, {x:?})", if *m { "measure" } else { "assertmeasurementprobability" }),
            Bad::Swap(a, b) => format!("swap({a}, {b})"),
            Bad::ReleaseArray(x) => format!("qubit_release_array({x:?})"),
        }
    }
    let angles: Vec<f64> = t.pick(vec![0.6, 0.0], vec![0.6, 0.0, PI, -2.0 * PI]);
    let all = calls(&[0, 1, 2], &angles, 2, 2);
    let mut bads: Vec<(Option<usize>, Bad)> = vec![];
    // a rotation about the identity uses its controls only
    let target_unused = |c: &Call| matches!((c.i.f, c.ps.first()), (F::R(_) | F::RCtl(_), Some(P::I)));
    for gone in 0..3usize {
        for c in &all {
            let used = if target_unused(c) { c.ctls.clone() } else { [c.ctls.clone(), c.ts.clone()].concat() };
            if used.contains(&gone) {
                bads.push((Some(gone), Bad::Gate(c.clone())));
            }
        }
        for n in ["m", "mz", "mresetz", "reset", "is zero", "release"] {
            bads.push((Some(gone), Bad::Alone(n, gone)));
        }
        for n in 1..=3 {
            for qs in arrangements(&[0, 1, 2], n) {
                for ps in pauli_strings(n) {
                    if qs.iter().zip(&ps).any(|(x, p)| *x == gone && *p != P::I) {
                        bads.extend([true, false].map(|m| (Some(gone), Bad::Joint(ps.clone(), qs.clone(), m))));
                    }
                }
                if qs.contains(&gone) {
                    bads.push((Some(gone), Bad::ReleaseArray(qs)));
                }
            }
        }
        for o in 0..3 {
            bads.push((Some(gone), Bad::Swap(gone, o)));
            bads.push((Some(gone), Bad::Swap(o, gone)));
        }
    }
    // one identifier in place of another
    for c in &all {
        let (k, n) = (c.ctls.len(), c.ctls.len() + if target_unused(c) { 0 } else { c.ts.len() });
        if matches!(c.i.m, M::Swap) {
            continue;
        }
        for i in 0..n {
            for j in 0..i {
                let mut d = c.clone();
                let from = if j < k { c.ctls[j] } else { c.ts[j - k] };
                if i < k {
                    d.ctls[i] = from;
                } else {
                    d.ts[i - k] = from;
                }
                bads.push((None, Bad::Gate(d)));
            }
        }
    }
    for n in 2..=3usize {
        for qs in arrangements(&[0, 1, 2], n) {
            for ps in pauli_strings(n) {
                for i in 0..n {
                    for j in 0..i {
                        if ps[i] != P::I && ps[j] != P::I {
                            let mut d = qs.clone();
                            d[i] = d[j];
                            bads.extend([true, false].map(|m| (None, Bad::Joint(ps.clone(), d.clone(), m))));
                        }
                    }
                }
            }
            let mut d = qs.clone();
            d[n - 1] = d[0];
            bads.push((None, Bad::ReleaseArray(d)));
        }
    }
    let nb = bads.len() as u64;
    let hist = t.pick(2, 4);
    vec![job("intrinsics", nb * hist, move |i, ctx| {
        let (gone, b) = &bads[(i % nb) as usize];
        let h = i / nb;
        ctx.log(|| format!("history {h}, released {gone:?}: {}", show(b)));
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{h}{gone:?}{}", show(b))));
        let f = in_fork(Duration::from_secs(30), || {
            let _ = fresh(|| {
                set_rng_seed(7);
                let arr = __quantum__rt__qubit_allocate_array(4);
                if h > 0 {
                    for x in 0..4 {
                        __quantum__qis__h__body(q(x));
                    }
                    __quantum__qis__rx__body(0.4, q(1));
                    __quantum__qis__ry__body(0.7, q(2));
                    __quantum__qis__cx__body(q(0), q(3));
                }
                if h > 1 {
                    __quantum__qis__h__body(q(0));
                    __quantum__qis__t__body(q(1));
                    if h > 2 {
                        let _ = capture_quantum_state();
                        __quantum__qis__ry__body(0.7, q(1));
                    }
                }
                if let Some(x) = gone {
                    __quantum__rt__qubit_release(q(*x));
                }
                println!("BEFORE");
                let _ = std::io::stdout().flush();
                run(b);
                println!("RETURNED");
                let _ = arr;
            })
            .map_err(|e| println!("PANIC {e}"));
        });
        // some of these are Rust functions whose panic is caught, the others abort the process
        let out = String::from_utf8_lossy(&f.out).into_owned();
        let stopped = matches!(f.end, crate::engine::End::Signal(libc::SIGABRT)) || out.contains("PANIC");
        if !out.starts_with("BEFORE\n") {
            return Err(format!("the history before the call failed: {out:?} {:?}", f.end));
        }
        if out.contains("RETURNED") || !stopped {
            return Err(format!("{} with qubit {gone:?} released was accepted: {out:?} {:?}", show(b), f.end));
        }
        Ok(())
    })]
}
