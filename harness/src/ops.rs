//! Operations of the simulator and their lock-step execution on the real `QuantumSim` and the model.

use crate::engine::{guarded, Ctx};
use crate::refmodel::{c, gate, phase, rot, Model, G, P, TOL};
use ndarray::Array2;
use num_complex::Complex64 as C;
use quantum_sparse_sim::exp::Pauli as SP;
use quantum_sparse_sim::QuantumSim;
use std::rc::Rc;

/// What the random number generator answers: lowest, highest, middle, or a fraction k/n.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    Lo,
    Hi,
    Frac(u32, u32),
}
impl R {
    pub fn word(self) -> u64 {
        match self {
            R::Lo => 0,
            R::Hi => u64::MAX,
            R::Frac(k, n) => ((u128::from(2 * k + 1) << 64) / u128::from(2 * n)) as u64,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Mat(pub &'static str, pub Vec<Vec<C>>);

#[derive(Clone, Debug)]
pub enum Op {
    G1(G, usize),
    MC(G, Vec<usize>, usize),
    Rot(P, f64, usize),
    MCRot(P, f64, Vec<usize>, usize),
    Phase(f64, Vec<usize>, usize),
    Swap(usize, usize),
    Exp(Vec<P>, f64, Vec<usize>),
    MCExp(Vec<usize>, Vec<P>, f64, Vec<usize>),
    Apply(Rc<Mat>, Vec<usize>, Option<Vec<usize>>),
    Alloc,
    Release(usize, R),
    Measure(usize, R),
    Joint(Vec<usize>, R),
    Force(usize, bool),
    Prob(Vec<usize>),
    IsZero(usize),
    Snap,
    Dump,
    /// A number of X gates enqueued on one qubit (even: identity), to move the deferred-operation queue
    /// towards its limit.
    Pad(usize, usize),
    /// A qubit used only to have its queue flushed is irrelevant to the model.
    Nop,
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Apply(m, t, k) => format!("apply({}, targets {t:?}, controls {k:?})", m.0),
            o => format!("{o:?}"),
        }
    }
    /// Qubits the operation names.
    pub fn qubits(&self) -> Vec<usize> {
        match self {
            Op::G1(_, q) | Op::Rot(_, _, q) | Op::Release(q, _) | Op::Measure(q, _) | Op::Force(q, _) | Op::IsZero(q) | Op::Pad(q, _) => vec![*q],
            Op::MC(_, k, q) | Op::MCRot(_, _, k, q) | Op::Phase(_, k, q) => {
                let mut v = k.clone();
                v.push(*q);
                v
            }
            Op::Swap(a, b) => vec![*a, *b],
            Op::Exp(_, _, t) => t.clone(),
            Op::MCExp(k, _, _, t) => [k.clone(), t.clone()].concat(),
            Op::Apply(_, t, k) => [k.clone().unwrap_or_default(), t.clone()].concat(),
            Op::Joint(t, _) | Op::Prob(t) => t.clone(),
            Op::Alloc | Op::Snap | Op::Dump | Op::Nop => vec![],
        }
    }
}

pub fn sp(ps: &[P]) -> Vec<SP> {
    ps.iter()
        .map(|p| match p {
            P::I => SP::I,
            P::X => SP::X,
            P::Y => SP::Y,
            P::Z => SP::Z,
        })
        .collect()
}

pub fn arr(m: &[Vec<C>]) -> Array2<C> {
    Array2::from_shape_fn((m.len(), m.len()), |(i, j)| m[i][j])
}

/// Executes a gate-like operation on the real simulator.
pub fn gate_real(sim: &mut QuantumSim, op: &Op) {
    match op {
        Op::G1(g, q) => match g {
            G::X => sim.x(*q),
            G::Y => sim.y(*q),
            G::Z => sim.z(*q),
            G::H => sim.h(*q),
            G::S => sim.s(*q),
            G::Sadj => sim.sadj(*q),
            G::T => sim.t(*q),
            G::Tadj => sim.tadj(*q),
        },
        Op::MC(g, k, q) => match g {
            G::X => sim.mcx(k, *q),
            G::Y => sim.mcy(k, *q),
            G::Z => sim.mcz(k, *q),
            G::H => sim.mch(k, *q),
            G::S => sim.mcs(k, *q),
            G::Sadj => sim.mcsadj(k, *q),
            G::T => sim.mct(k, *q),
            G::Tadj => sim.mctadj(k, *q),
        },
        Op::Rot(p, th, q) => match p {
            P::X => sim.rx(*th, *q),
            P::Y => sim.ry(*th, *q),
            P::Z => sim.rz(*th, *q),
            P::I => (),
        },
        Op::MCRot(p, th, k, q) => match p {
            P::X => sim.mcrx(k, *th, *q),
            P::Y => sim.mcry(k, *th, *q),
            P::Z => sim.mcrz(k, *th, *q),
            P::I => (),
        },
        Op::Phase(th, k, q) => sim.mcphase(k, C::exp(c(0.0, *th)), *q),
        Op::Swap(a, b) => sim.swap_qubit_ids(*a, *b),
        Op::Exp(ps, th, t) => sim.exp(&sp(ps), *th, t),
        Op::MCExp(k, ps, th, t) => sim.mcexp(k, &sp(ps), *th, t),
        Op::Apply(m, t, k) => sim.apply(&arr(&m.1), t, k.as_deref()),
        Op::Pad(q, n) => {
            for _ in 0..*n {
                sim.x(*q);
            }
        }
        _ => unreachable!("not a gate: {op:?}"),
    }
}

/// Executes a gate-like operation on the model.
pub fn gate_model(m: &mut Model, op: &Op) {
    match op {
        Op::G1(g, q) => m.one(&gate(*g), &[], *q),
        Op::MC(g, k, q) => m.one(&gate(*g), k, *q),
        Op::Rot(p, th, q) => m.one(&rot(*p, *th), &[], *q),
        Op::MCRot(p, th, k, q) => m.one(&rot(*p, *th), k, *q),
        Op::Phase(th, k, q) => m.one(&phase(*th), k, *q),
        Op::Swap(a, b) => m.swap(*a, *b),
        Op::Exp(ps, th, t) => m.exp(&[], ps, *th, t),
        Op::MCExp(k, ps, th, t) => m.exp(k, ps, *th, t),
        Op::Apply(u, t, k) => m.unitary(&u.1, k.as_deref().unwrap_or(&[]), t),
        Op::Pad(q, n) => {
            if n % 2 == 1 {
                m.one(&gate(G::X), &[], *q);
            }
        }
        _ => unreachable!("not a gate: {op:?}"),
    }
}

pub struct Pair {
    pub sim: QuantumSim,
    pub m: Model,
}

pub fn parse_dump(s: &str) -> Result<Vec<(num_bigint::BigUint, C)>, String> {
    let body = s
        .strip_prefix("STATE: [ ")
        .and_then(|b| b.strip_suffix("]\n"))
        .ok_or_else(|| format!("dump has an unexpected frame: {s:?}"))?;
    let mut out = vec![];
    let mut rest = body;
    while !rest.is_empty() {
        let e = rest.find(", ").ok_or_else(|| format!("dump entry without separator: {rest:?}"))?;
        let ent = &rest[..e];
        rest = &rest[e + 2..];
        let (k, v) = ent
            .strip_prefix('|')
            .and_then(|t| t.split_once("\u{27e9}: "))
            .ok_or_else(|| format!("dump entry malformed: {ent:?}"))?;
        let key: num_bigint::BigUint = k.parse().map_err(|_| format!("dump label malformed: {k:?}"))?;
        let val: C = v.parse().map_err(|_| format!("dump amplitude malformed: {v:?}"))?;
        out.push((key, val));
    }
    Ok(out)
}

impl Pair {
    pub fn new() -> Self {
        rand::verif_script::set(&[0]);
        Pair { sim: QuantumSim::new(None), m: Model::default() }
    }

    /// One lock-step transition; Err when the implementation's observable behaviour differs.
    pub fn step(&mut self, op: &Op, ctx: &mut Ctx) -> Result<(), String> {
        ctx.log(|| op.show());
        ctx.transitions += 1;
        self.step_inner(op, ctx).map_err(|e| format!("at {}: {e}", op.show()))
    }

    fn step_inner(&mut self, op: &Op, ctx: &mut Ctx) -> Result<(), String> {
        match op {
            Op::Nop => {}
            Op::Alloc => {
                let want = self.m.allocate();
                let got = self.sim.allocate();
                if want != got {
                    return Err(format!("allocate returned {got}, lowest free identifier is {want}"));
                }
            }
            Op::Release(q, r) => {
                rand::verif_script::set(&[r.word()]);
                self.sim.release(*q);
                self.m.release(*q);
            }
            Op::Measure(q, r) => {
                rand::verif_script::set(&[r.word()]);
                let o = self.sim.measure(*q);
                ctx.log(|| format!("  -> {o}"));
                self.m.observe(&[*q], o)?;
            }
            Op::Joint(qs, r) => {
                rand::verif_script::set(&[r.word()]);
                let o = self.sim.joint_measure(qs);
                ctx.log(|| format!("  -> {o}"));
                self.m.observe(qs, o)?;
            }
            Op::Force(q, v) => {
                let got = self.sim.force_collapse(*v, *q);
                ctx.log(|| format!("  -> {got}"));
                let ps = self.m.prob(&[*q]);
                let want: Vec<f64> = ps.iter().map(|p| if *v { *p } else { 1.0 - p }).collect();
                self.keep(&want, got, "force_collapse probability")?;
                if got > 1e-9 {
                    self.m.observe(&[*q], *v)?;
                }
            }
            Op::Prob(qs) => {
                let got = self.sim.joint_probability(qs);
                ctx.log(|| format!("  -> {got}"));
                let want = self.m.prob(qs);
                self.keep(&want, got, "joint_probability")?;
            }
            Op::IsZero(q) => {
                let got = self.sim.qubit_is_zero(*q);
                ctx.log(|| format!("  -> {got}"));
                let ps = self.m.prob(&[*q]);
                if !ps.iter().any(|p| if got { *p < 1e-8 } else { *p > 1e-13 }) {
                    return Err(format!("qubit_is_zero({q}) = {got}, probability of |1> is {ps:?}"));
                }
                if self.m.cand.len() > 1 {
                    let keep: Vec<bool> = ps.iter().map(|p| if got { *p < 1e-8 } else { *p > 1e-13 }).collect();
                    let mut k = 0;
                    self.m.cand.retain(|_| {
                        k += 1;
                        keep[k - 1]
                    });
                }
            }
            Op::Snap => {
                let (s, n) = self.sim.get_state();
                self.m.compare(&s, n)?;
            }
            Op::Dump => {
                let d = self.sim.dump();
                let s = parse_dump(&d)?;
                let n = self.m.alloc.len();
                self.m.compare(&s, n).map_err(|e| format!("dump: {e}"))?;
            }
            g => {
                gate_real(&mut self.sim, g);
                gate_model(&mut self.m, g);
            }
        }
        Ok(())
    }

    fn keep(&mut self, want: &[f64], got: f64, what: &str) -> Result<(), String> {
        let ok: Vec<bool> = want.iter().map(|w| (w - got).abs() <= TOL).collect();
        if !ok.iter().any(|b| *b) {
            return Err(format!("{what} is {got}, expected {want:?}"));
        }
        let mut k = 0;
        self.m.cand.retain(|_| {
            k += 1;
            ok[k - 1]
        });
        Ok(())
    }

    /// Runs a list of operations and compares the final state.
    pub fn run(&mut self, ops: &[&Op], ctx: &mut Ctx) -> Result<(), String> {
        for o in ops {
            self.step(o, ctx)?;
        }
        self.finish(ctx)
    }

    pub fn finish(&mut self, ctx: &mut Ctx) -> Result<(), String> {
        let (s, n) = match guarded(|| self.sim.get_state()) {
            Ok(x) => x,
            Err(p) => return Err(format!("final snapshot panicked: {p}")),
        };
        self.m.compare(&s, n)?;
        ctx.state(self.m.hash());
        ctx.traces += 1;
        Ok(())
    }
}
