//! Larger bounds for the simulator's properties: dense states of many qubits and long operation sequences.
//! Short histories over few qubits (p_sim) cannot reach behaviour that depends on the size of the state, the
//! number of qubits or the number of operations so far; these jobs enumerate structured families that do.

use crate::engine::{job, Job, Tier};
use crate::ops::{Mat, Op, Pair, R};
use crate::p_sim::{ctl, gates, generic, matrices, pauli_strings, singles, stages, swapped, zero, Choice, Scn, Stage, GS};
use crate::refmodel::{G, P};
use std::f64::consts::PI;
use std::rc::Rc;

fn each(ops: Vec<Op>) -> Stage {
    Rc::new(ops.into_iter().map(|o| vec![o]).collect())
}

// ------------------------------------------------------------------ long sequences

fn lengths(t: Tier) -> Vec<usize> {
    t.pick(
        vec![5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 48, 49, 50, 51, 52, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513],
        (5..=140).chain([199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]).collect(),
    )
}

fn play(p: &mut Pair, o: &Op, ctx: &mut crate::engine::Ctx) -> Result<(), String> {
    p.step(o, ctx)?;
    if p.m.cand.len() > 32 {
        p.step(&Op::Snap, ctx)?; // tells the hidden outcomes apart
    }
    Ok(())
}

/// Every word of up to two letters, repeated up to each length; and every walk through the alphabet with a
/// fixed stride. The whole run is in lock step, and the states are compared at the end of each.
fn long(name: &str, s: &Scn, letters: Vec<Choice>, lens: Vec<usize>) -> Vec<Job> {
    let n = letters.len();
    let l = Rc::new(letters);
    let mut v = vec![];
    {
        let (s, l, lens) = (s.clone(), l.clone(), lens.clone());
        let words: Vec<(usize, usize)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect();
        v.push(job(format!("{name}-repeated/{}", s.name), (words.len() * lens.len()) as u64, move |i, ctx| {
            let (a, b) = words[i as usize / lens.len()];
            let k = lens[i as usize % lens.len()];
            let mut p = Pair::new();
            for o in &s.prep {
                p.step(o, ctx)?;
            }
            for j in 0..k {
                for o in &l[if j % 2 == 0 { a } else { b }] {
                    play(&mut p, o, ctx)?;
                }
            }
            p.finish(ctx)
        }));
    }
    {
        let s = s.clone();
        let lens: Vec<usize> = lens.into_iter().filter(|k| k % 50 < 2 || k.is_power_of_two()).collect();
        v.push(job(format!("{name}-walk/{}", s.name), (n * n * lens.len()) as u64, move |i, ctx| {
            let mut i = i as usize;
            let mut nx = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (start, stride, k) = (nx(n), nx(n), lens[nx(lens.len())]);
            let mut p = Pair::new();
            for o in &s.prep {
                p.step(o, ctx)?;
            }
            for j in 0..k {
                // the stride grows with every turn, so that the walk does not repeat early
                for o in &l[(start + j * stride + j * (j / n)) % n] {
                    play(&mut p, o, ctx)?;
                }
            }
            p.finish(ctx)
        }));
    }
    v
}

// ------------------------------------------------------------------ small angles

/// Rotations by small angles, repeated: what a single one changes may be below the tolerance, what a thousand change
/// is not. Every letter at every angle, alone, forced out after each one, or with its qubits' H toggled around it.
/// The smallest angle leaves amplitudes above the simulator's documented cut-off of 1e-10.
pub const TINY: [f64; 9] = [1e-1, 1e-2, 1e-3, -1e-4, 1e-5, -1e-6, 1e-7, -1e-8, 4e-9];
pub fn tiny_counts(t: Tier) -> Vec<usize> {
    t.pick(vec![1, 2, 3, 10, 100, 1000], vec![1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 200, 500, 1000, 2000, 5000])
}
fn tiny(s: &Scn, t: Tier, letters: impl Fn(f64) -> Vec<Op>) -> Vec<Job> {
    vec![near("small-angles", s, &[0.0], tiny_counts(t), &letters), near("near-angles", s, &NEAR, vec![1, 2, 3], &letters)]
}
/// Next to these, one of the coefficients of a rotation or an exponential vanishes.
pub const NEAR: [f64; 5] = [PI / 2.0, PI, -PI / 2.0, 2.0 * PI, -3.0 * PI];
fn near(name: &str, s: &Scn, at: &[f64], counts: Vec<usize>, letters: &impl Fn(f64) -> Vec<Op>) -> Job {
    let l: Vec<Op> = at.iter().flat_map(|b| TINY.iter().flat_map(move |a| letters(b + a))).collect();
    let (s, n) = (s.clone(), l.len() * counts.len() * 3);
    job(format!("{name}/{}", s.name), n as u64, move |i, ctx| {
        let i = i as usize;
        let (o, k, how) = (&l[i / 3 % l.len()], counts[i / 3 / l.len()], i % 3);
        let mut p = Pair::new();
        for o in &s.prep {
            p.step(o, ctx)?;
        }
        let q = o.qubits();
        for _ in 0..k {
            p.step(o, ctx)?;
            match how {
                0 => {}
                1 => p.step(&Op::Prob(q.clone()), ctx)?,
                _ => {
                    for _ in 0..2 {
                        p.step(&Op::G1(G::H, q[q.len() - 1]), ctx)?;
                    }
                }
            }
        }
        p.finish(ctx)
    })
}

// ------------------------------------------------------------------ dense states of many qubits

/// A dense entangled state whose amplitudes all differ.
pub fn dense(n: usize, swap: bool) -> Scn {
    let mut s = if swap { swapped(n) } else { generic(n) };
    s.name = format!("dense-{}", s.name);
    s
}
/// One basis state of many qubits: sparse, every qubit in use.
pub fn sparse(n: usize) -> Scn {
    let mut prep = vec![Op::Alloc; n];
    for q in (0..n).step_by(2) {
        prep.push(Op::G1(G::X, q));
    }
    prep.extend([Op::G1(G::H, 0), Op::MC(G::X, vec![0], n - 1), Op::Rot(P::Y, 0.8, n / 2)]);
    prep.push(Op::Snap);
    Scn { name: format!("sparse{n}"), ids: (0..n).collect(), prep }
}
fn sizes(t: Tier) -> Vec<usize> {
    t.pick(vec![7, 8, 9, 12], vec![7, 8, 9, 10, 11, 12, 13])
}
/// Of the operations on very large states, an evenly spread part.
fn thin<T: Clone>(n: usize, most: usize, v: Vec<T>) -> Vec<T> {
    if n < 12 || v.len() <= most {
        return v;
    }
    (0..most).map(|k| v[k * v.len() / most].clone()).collect()
}
/// Rotations of the list.
fn turns(l: &[usize], some: usize) -> Vec<Vec<usize>> {
    let n = l.len();
    (0..n).step_by((n / some).max(1)).map(|k| l.iter().cycle().skip(k).take(n).copied().collect()).collect()
}
fn pend(ids: &[usize]) -> Stage {
    let mut v: Vec<Choice> = vec![vec![]];
    v.push(ids.iter().map(|q| Op::G1(G::H, *q)).collect());
    v.push(
        ids.iter()
            .enumerate()
            .map(|(j, q)| match j % 4 {
                0 => Op::G1(G::H, *q),
                1 => Op::Rot(P::X, 0.6, *q),
                2 => Op::Rot(P::Y, 0.6, *q),
                _ => Op::G1(G::T, *q),
            })
            .collect(),
    );
    Rc::new(v)
}
/// Compares at the end; the prefix of each list serves as operands.
fn per_size(t: Tier, name: &str, f: impl Fn(&Scn) -> Vec<Op>) -> Vec<Job> {
    let mut v = vec![];
    for n in sizes(t) {
        for s in [dense(n, false), dense(n, true)] {
            let ops = f(&s);
            v.push(stages(name, &s, vec![pend(&s.ids), each(thin(n, 40, ops))]));
        }
    }
    for n in t.pick(vec![12, 16, 20], vec![10, 12, 14, 16, 18, 20]) {
        // (the model is dense in the qubits an execution touches)
        let s = sparse(n);
        let ops: Vec<Op> = f(&s).into_iter().step_by(t.pick(7, 2)).collect();
        v.push(stages(name, &Scn { prep: s.prep.clone(), ..s.clone() }, vec![each(ops)]));
    }
    v
}

// ------------------------------------------------------------------ far identifiers

/// Hundreds of qubits: every ordered pair of identifiers around the word boundaries (and a third qubit), with each
/// kind of work pending on them, and each of the operations on those three.
fn far(t: Tier, name: &str, f: impl Fn(&[usize; 3]) -> Vec<Choice>) -> Job {
    let (n, ids): (usize, Vec<usize>) = match t {
        Tier::Quick => (260, vec![0, 1, 63, 64, 127, 128, 129, 256, 259]),
        Tier::Thorough => (520, vec![0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 519]),
    };
    let k = ids.len();
    let mut cases: Vec<([usize; 3], Choice)> = vec![];
    for a in 0..k {
        for b in (0..k).filter(|b| *b != a) {
            let c = (1..).map(|j| (b + j) % k).find(|c| *c != a && *c != b).unwrap();
            let w = [ids[a], ids[b], ids[c]];
            cases.extend(f(&w).into_iter().map(|o| (w, o)));
        }
    }
    let pending = |w: &[usize; 3], k: usize| -> Choice {
        let [a, b, c] = *w;
        match k {
            0 => vec![],
            1 => vec![Op::G1(G::H, a)],
            2 => vec![Op::G1(G::H, b), Op::Rot(P::X, 0.6, a)],
            3 => vec![Op::Rot(P::Y, 0.7, a), Op::G1(G::H, a), Op::G1(G::T, b), Op::G1(G::H, c)],
            _ => vec![Op::G1(G::H, a), Op::MC(G::X, vec![a], c), Op::G1(G::H, c), Op::Rot(P::Y, 0.7, b), Op::Rot(P::X, 0.4, c)],
        }
    };
    job(name, cases.len() as u64 * 5, move |i, ctx| {
        let (w, o) = &cases[i as usize / 5];
        let mut p = Pair::new();
        for _ in 0..n {
            p.step(&Op::Alloc, ctx)?;
        }
        for o in pending(w, i as usize % 5).iter().chain(o) {
            p.step(o, ctx)?;
        }
        p.finish(ctx)
    })
}
fn one(v: Vec<Op>) -> Vec<Choice> {
    v.into_iter().map(|o| vec![o]).collect()
}

// ------------------------------------------------------------------ long operand lists

pub fn list_lengths(t: Tier) -> Vec<usize> {
    t.pick(
        (1..=12).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect(),
        (1..=140).chain([191, 192, 193, 255, 256, 257, 300, 511, 512, 513]).collect(),
    )
}
/// Operations on lists of up to hundreds of qubits: `n` operands, all in |1> except that the one at `at` is in |0>,
/// or in superposition, or that three of them are; two further qubits `n` and `n + 1` are in superposition.
fn lists(t: Tier, name: &str, f: impl Fn(usize) -> Vec<Op> + 'static) -> Job {
    let lens = list_lengths(t);
    let most = f(2).len();
    let (nl, vs) = (lens.len(), 8);
    job(name, (nl * vs * most * 2) as u64, move |i, ctx| {
        let i = i as usize;
        let (n, variant, o, rev) = (lens[i / (vs * most * 2)], i / (most * 2) % vs, i / 2 % most, i % 2 > 0);
        let o = &f(n)[o];
        let mut p = Pair::new();
        for _ in 0..n + 2 {
            p.step(&Op::Alloc, ctx)?;
        }
        let at = [0, n / 2, n - 1];
        for q in 0..n {
            if !(1..=3).contains(&variant) || at[variant - 1] != q {
                p.step(&Op::G1(G::X, q), ctx)?;
            }
        }
        match variant {
            4..=6 => p.step(&Op::Rot(P::Y, 0.7, at[variant - 4]), ctx)?,
            7 => {
                for (k, q) in at.into_iter().enumerate() {
                    p.step(&Op::Rot(P::X, 0.5 + k as f64, q), ctx)?;
                }
            }
            _ => {}
        }
        p.step(&Op::G1(G::H, n), ctx)?;
        p.step(&Op::Rot(P::Y, 0.4, n + 1), ctx)?;
        if rev {
            // bring locations and identifiers out of step, and leave nothing pending
            for q in 0..(n / 2).min(40) {
                p.step(&Op::Swap(q, n - 1 - q), ctx)?;
            }
            p.step(&Op::Snap, ctx)?;
        }
        p.step(o, ctx)?;
        p.finish(ctx)
    })
}
fn up_to(n: usize) -> Vec<usize> {
    (0..n).collect()
}
/// Strings of `n` letters with X or Y at three places only (the model is dense in what they touch).
fn long_strings(n: usize) -> Vec<Vec<P>> {
    let at = |k: usize, p: P| if k == 0 || k == n / 2 || k == n - 1 { p } else { [P::Z, P::I, P::Z][k % 3] };
    let mut v: Vec<Vec<P>> = [P::X, P::Y].into_iter().map(|p| (0..n).map(|k| at(k, p)).collect()).collect();
    v.push(vec![P::Z; n]);
    v.push((0..n).map(|k| if k == n - 1 { P::Y } else { P::I }).collect());
    v.push((0..n).map(|k| if k == 0 { P::X } else { P::Z }).collect());
    v
}

pub fn c01(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-gate", |s| {
        let mut g = vec![];
        for l in turns(&s.ids, 3) {
            g.extend(singles(l[0], &[0.6]));
            for k in [1, 2, s.ids.len() / 2, s.ids.len() - 1] {
                g.extend(ctl(&l[..k], l[k], &[0.6]));
            }
            g.push(Op::Swap(l[0], l[1]));
        }
        g
    });
    let a: Vec<Choice> = gates(&[0, 1], &[0.6]).into_iter().map(|o| vec![o]).collect();
    v.extend(long("long", &generic(2), a, lengths(t)));
    let mut b: Vec<Choice> = vec![];
    for q in 0..3 {
        b.extend([vec![Op::G1(G::H, q)], vec![Op::Rot(P::X, 0.6, q)], vec![Op::Rot(P::Y, -1.1, q)], vec![Op::Rot(P::Z, 0.7, q)], vec![Op::G1(G::T, q)]]);
        b.push(vec![Op::MC(G::X, vec![q, (q + 1) % 3], (q + 2) % 3)]);
        b.push(vec![Op::MC(G::Z, vec![q], (q + 1) % 3)]);
    }
    b.push(vec![Op::Swap(0, 2)]);
    v.extend(long("long3", &generic(3), b, lengths(t)));
    for s in [zero(2), generic(2)] {
        v.extend(tiny(&s, t, |a| {
            let mut g = vec![Op::Phase(a, vec![0], 1)];
            for p in [P::X, P::Y, P::Z] {
                g.extend([Op::Rot(p, a, 0), Op::MCRot(p, a, vec![1], 0)]);
            }
            g
        }));
    }
    v.push(far(t, "far-gate", |&[a, b, c]| {
        let mut g = singles(a, &[0.6]);
        g.extend(ctl(&[b], a, &[0.6]));
        g.extend([Op::MC(G::X, vec![c, b], a), Op::MC(G::Y, vec![b, c], a), Op::MC(G::Z, vec![c, b], a), Op::MCRot(P::Y, 0.6, vec![b, c], a)]);
        one(g)
    }));
    v.push(lists(t, "long-lists", |n| {
        let mut g = ctl(&up_to(n), n, &[0.6]);
        g.extend([Op::MC(G::X, up_to(n - 1), n - 1), Op::MC(G::Y, (1..n).collect(), 0), Op::MCRot(P::Y, 0.6, (0..n).rev().collect(), n + 1)]);
        g
    }));
    v
}

pub fn c02(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-exp", |s| {
        let mut g = vec![];
        let n = s.ids.len();
        for l in turns(&s.ids, 2) {
            for (j, k) in [1usize, 2, n / 2, n - 1, n].into_iter().enumerate() {
                for off in 0..4 {
                    // strings that contain every Pauli, one that is all the same, and one with a single non-identity
                    let all = [P::I, P::X, P::Y, P::Z];
                    let mixed: Vec<P> = (0..k).map(|i| all[(i + off) % 4]).collect();
                    let same = vec![all[off]; k];
                    let one: Vec<P> = (0..k).map(|i| if i == k / 2 { all[off] } else { P::I }).collect();
                    for ps in [mixed, same, one] {
                        g.push(Op::Exp(ps.clone(), 0.6, l[..k].to_vec()));
                        if k < n {
                            let c = [k + 1, n][(j + off) % 2];
                            g.push(Op::MCExp(l[k..c].to_vec(), ps, -0.9, l[..k].to_vec()));
                        }
                    }
                }
            }
        }
        g
    });
    let mut a: Vec<Choice> = vec![];
    for ps in pauli_strings(2) {
        a.push(vec![Op::Exp(ps.clone(), 0.6, vec![0, 1])]);
        a.push(vec![Op::MCExp(vec![2], ps, 1.1, vec![1, 0])]);
    }
    a.push(vec![Op::G1(G::H, 0)]);
    a.push(vec![Op::Rot(P::Y, 0.3, 2)]);
    v.extend(long("long", &generic(3), a, lengths(t).into_iter().filter(|k| t == Tier::Thorough || k % 16 < 2).collect()));
    for s in [zero(3), generic(3)] {
        v.extend(tiny(&s, t, |a| {
            let mut g = vec![];
            for ps in pauli_strings(2) {
                g.extend([Op::Exp(ps.clone(), a, vec![2, 0]), Op::MCExp(vec![1], ps, a, vec![0, 2])]);
            }
            g
        }));
    }
    v.push(far(t, "far-exp", |&[a, b, c]| {
        let mut g = vec![];
        for ps in pauli_strings(2) {
            g.extend([Op::Exp(ps.clone(), 0.6, vec![a, b]), Op::MCExp(vec![c], ps, 0.6, vec![b, a])]);
        }
        g.extend([Op::Exp(vec![P::Y; 3], 0.6, vec![a, b, c]), Op::Exp(vec![P::X, P::Z, P::Y], 0.6, vec![c, a, b])]);
        one(g)
    }));
    v.push(lists(t, "long-lists", |n| {
        let mut g = vec![];
        for ps in long_strings(n) {
            g.push(Op::Exp(ps.clone(), 0.6, up_to(n)));
            g.push(Op::MCExp(vec![n], ps, 0.6, (0..n).rev().collect()));
        }
        for p in [P::X, P::Y, P::Z] {
            g.push(Op::MCExp(up_to(n), vec![p, P::X], 0.6, vec![n, n + 1]));
        }
        g
    }));
    v
}

pub fn c03(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-apply", |s| {
        let mut g = vec![];
        let n = s.ids.len();
        for l in turns(&s.ids, 2) {
            for nt in 1..=5usize.min(n) {
                for m in matrices(nt).into_iter().take(2) {
                    for c in [0, 1, n - nt] {
                        if nt + c <= n.min(9) && s.name.starts_with("dense") || nt + c <= 6 {
                            g.push(Op::Apply(m.clone(), l[..nt].to_vec(), (c > 0).then(|| l[nt..nt + c].to_vec())));
                        }
                    }
                }
            }
        }
        g
    });
    let mut a: Vec<Choice> = vec![];
    for m in matrices(1) {
        a.push(vec![Op::Apply(m.clone(), vec![0], None)]);
        a.push(vec![Op::Apply(m, vec![2], Some(vec![1]))]);
    }
    for m in matrices(2) {
        a.push(vec![Op::Apply(m.clone(), vec![2, 0], None)]);
        a.push(vec![Op::Apply(m, vec![1, 2], Some(vec![0]))]);
    }
    a.extend([vec![Op::G1(G::H, 0)], vec![Op::Rot(P::Y, 0.4, 2)], vec![Op::MC(G::X, vec![0], 1)], vec![Op::Swap(0, 2)]]);
    v.extend(long("long", &generic(3), a, lengths(t).into_iter().filter(|k| t == Tier::Thorough || k % 16 < 2).collect()));
    for s in [zero(3), generic(3)] {
        v.extend(tiny(&s, t, |a| {
            let mut g = vec![];
            for p in [P::X, P::Y, P::Z] {
                let r = crate::refmodel::rot(p, a);
                let m = Rc::new(Mat("small rotation", r.iter().map(|x| x.to_vec()).collect()));
                g.extend([Op::Apply(m.clone(), vec![1], None), Op::Apply(m, vec![0], Some(vec![2]))]);
            }
            g
        }));
    }
    v.push(far(t, "far-apply", |&[a, b, c]| {
        let mut g = vec![];
        for m in matrices(1) {
            g.extend([Op::Apply(m.clone(), vec![a], None), Op::Apply(m, vec![a], Some(vec![b, c]))]);
        }
        for m in matrices(2) {
            g.extend([Op::Apply(m.clone(), vec![a, b], None), Op::Apply(m, vec![b, a], Some(vec![c]))]);
        }
        for m in matrices(3).into_iter().take(2) {
            g.push(Op::Apply(m, vec![c, a, b], None));
        }
        one(g)
    }));
    v
}

pub fn c05(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-measure", |s| {
        let mut g = vec![];
        let n = s.ids.len();
        for r in [R::Lo, R::Hi, R::Frac(1, 2)] {
            for l in turns(&s.ids, n) {
                g.push(Op::Measure(l[0], r));
                for k in [2, 3, n / 2, n] {
                    g.push(Op::Joint(l[..k].to_vec(), r));
                }
            }
        }
        for q in &s.ids {
            g.push(Op::Force(*q, true));
            g.push(Op::Force(*q, false));
        }
        g
    });
    let mut a: Vec<Choice> = vec![];
    for q in 0..2 {
        a.push(vec![Op::Measure(q, R::Lo)]);
        a.push(vec![Op::Measure(q, R::Hi)]);
        a.push(vec![Op::G1(G::H, q)]);
        a.push(vec![Op::Rot(P::Y, 0.6, q)]);
        a.push(vec![Op::Rot(P::X, 1.3, q)]);
        a.push(vec![Op::MC(G::X, vec![q], 1 - q)]);
    }
    a.extend([vec![Op::Joint(vec![0, 1], R::Frac(1, 2))], vec![Op::Joint(vec![2, 0], R::Lo)], vec![Op::MC(G::Y, vec![1], 2)]]);
    v.extend(long("long", &generic(3), a, lengths(t)));
    // rare outcomes: reported as rarely as they should be, and collapsed onto correctly when they occur
    let rare = |p: f64, flip: bool, joint: bool| {
        let th = 2.0 * p.sqrt().asin();
        let mut v = vec![Op::Rot(P::Y, th, 0)];
        if joint {
            v.extend([Op::G1(G::H, 1), Op::MC(G::X, vec![1], 0)]);
        }
        if flip {
            v.push(Op::G1(G::X, 0));
        }
        v
    };
    for (p, n) in t.pick(vec![(1e-2, 1000), (1e-3, 10_000), (1e-4, 100_000), (1e-5, 1_000_000)], vec![(1e-2, 100_000), (1e-3, 100_000), (1e-4, 1_000_000), (1e-5, 5_000_000), (1e-6, 20_000_000)]) {
        for flip in [false, true] {
            for joint in [false, true] {
                v.push(crate::p_sim::born_of("born-rare", &zero(2), vec![Rc::new(vec![rare(p, flip, joint)])], vec![if joint { vec![0, 1] } else { vec![0] }], n));
            }
        }
    }
    // however rare an outcome, one of the extreme draws produces it
    v.push(job("rare-extremes", 9 * 3 * 2 * 2 * 2 * 3, move |i, ctx| {
        let mut i = i as i32;
        let mut nx = |n: i32| {
            let k = i % n;
            i /= n;
            k
        };
        let (e, c, flip, joint, flush, how) = (nx(9), nx(3), nx(2) == 1, nx(2) == 1, nx(2) == 1, nx(3));
        let p = [1.0, 2.0, 5.0][c as usize] * 10f64.powi(-1 - e);
        let ops = rare(p, flip, joint);
        ctx.log(|| format!("{}, probability {p} (work {}pending), measured in way {how} with either extreme draw", ops.iter().map(Op::show).collect::<Vec<_>>().join("; "), if flush { "not " } else { "" }));
        let one = |r: R| -> Result<(bool, f64), String> {
            rand::verif_script::set(&[0]);
            let mut sim = quantum_sparse_sim::QuantumSim::new(None);
            let _ = sim.allocate();
            let _ = sim.allocate();
            crate::p_sim::run_real(&mut sim, &ops);
            if flush {
                let _ = sim.get_state();
            }
            rand::verif_script::set(&[r.word()]);
            let l: &[usize] = if joint || how == 2 { &[0, 1] } else { &[0] };
            let b = if how == 0 && !joint { sim.measure(0) } else { sim.joint_measure(l) };
            let again = sim.joint_probability(l);
            let norm: f64 = sim.get_state().0.iter().map(|(_, a)| a.norm_sqr()).sum();
            if (norm - 1.0).abs() > 1e-9 {
                return Err(format!("the state has norm {norm} after the outcome {b}"));
            }
            Ok((b, again))
        };
        let (lo, hi) = (one(R::Lo)?, one(R::Hi)?);
        ctx.transitions += 2;
        ctx.traces += 2;
        if lo.0 == hi.0 {
            return Err(format!("both the smallest and the largest draw give {}, although the other outcome has probability {p}", lo.0));
        }
        for (b, again) in [lo, hi] {
            if (again - f64::from(b)).abs() > 1e-9 {
                return Err(format!("the outcome {b} has probability {again} when repeated (for 1)"));
            }
        }
        Ok(())
    }));
    let ps = [0.1, 0.03, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6];
    let mut prep: Vec<Choice> = vec![];
    for p in ps {
        for k in 0..4 {
            prep.push(rare(p, k & 1 > 0, k & 2 > 0));
        }
    }
    let mut m = vec![];
    for r in [R::Lo, R::Hi] {
        m.extend([Op::Measure(0, r), Op::Joint(vec![0, 1], r), Op::Joint(vec![1, 0], r)]);
    }
    for b in [false, true] {
        m.push(Op::Force(0, b));
    }
    let g: Vec<Op> = gates(&[0, 1], &[0.6]);
    v.push(stages("rare-outcome", &zero(2), vec![Rc::new(prep), each(m.clone()), each(g), each(m)]));
    v.push(far(t, "far-measure", |&[a, b, c]| {
        let mut g = vec![];
        for r in [R::Lo, R::Hi] {
            for w in [vec![a], vec![a, b], vec![c, b, a]] {
                g.push(if w.len() == 1 { vec![Op::Measure(a, r), Op::Measure(a, R::Frac(1, 2))] } else { vec![Op::Joint(w, r), Op::Measure(b, R::Frac(1, 2))] });
            }
        }
        g.push(vec![Op::Rot(P::Y, 0.3, a), Op::Force(a, true)]);
        g.push(vec![Op::Rot(P::Y, 0.3, b), Op::Force(b, false)]);
        g
    }));
    v.push(lists(t, "long-lists", |n| {
        let mut g = vec![];
        for r in [R::Lo, R::Hi] {
            g.extend([Op::Joint(up_to(n), r), Op::Joint((0..n + 1).rev().collect(), r), Op::Joint((0..n + 2).step_by(2).collect(), r)]);
        }
        g
    }));
    v
}

pub fn c06(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-probability", |s| {
        let mut g = vec![];
        let n = s.ids.len();
        for l in turns(&s.ids, n) {
            for k in 1..=n {
                g.push(Op::Prob(l[..k].to_vec()));
            }
            g.push(Op::IsZero(l[0]));
        }
        g
    });
    let mut a: Vec<Choice> = vec![];
    for q in 0..3 {
        a.push(vec![Op::Prob(vec![q])]);
        a.push(vec![Op::IsZero(q)]);
        a.push(vec![Op::Rot(P::Y, 0.6, q)]);
        a.push(vec![Op::G1(G::H, q)]);
        a.push(vec![Op::MC(G::X, vec![q], (q + 1) % 3)]);
    }
    a.extend([vec![Op::Prob(vec![2, 0])], vec![Op::Prob(vec![0, 1, 2])], vec![Op::Rot(P::X, 0.6, 0), Op::Prob(vec![0])]]);
    v.extend(long("long", &generic(3), a, lengths(t)));
    v.push(far(t, "far-probability", |&[a, b, c]| one(vec![Op::Prob(vec![a]), Op::Prob(vec![a, b]), Op::Prob(vec![c, a, b]), Op::IsZero(a), Op::IsZero(c)])));
    v.push(lists(t, "long-lists", |n| vec![Op::Prob(up_to(n)), Op::Prob((0..n + 1).rev().collect()), Op::Prob((0..n + 2).step_by(2).collect()), Op::IsZero(n - 1)]));
    v
}

pub fn c07(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for n in sizes(t) {
        for s in [dense(n, false), dense(n, true)] {
            let mut c: Vec<Choice> = vec![];
            for q in &s.ids {
                for r in [R::Lo, R::Hi] {
                    c.push(vec![Op::Release(*q, r)]);
                    c.push(vec![Op::Release(*q, r), Op::Alloc, Op::IsZero(*q), Op::G1(G::H, *q)]);
                }
                let p = (*q + 3) % n;
                c.push(vec![Op::Release(*q, R::Hi), Op::Snap, Op::Release(p, R::Lo), Op::Alloc, Op::Alloc, Op::Alloc]);
            }
            v.push(stages("size-release", &s, vec![pend(&s.ids), Rc::new(thin(n, 24, c))]));
        }
    }
    // long lives: qubits come and go many times
    let mut a: Vec<Choice> = vec![];
    for (k, r) in [R::Lo, R::Hi].into_iter().enumerate() {
        for q in 0..3 {
            a.push(vec![Op::Release(q, r), Op::Alloc]);
            a.push(vec![Op::G1(G::X, q), Op::Release(q, r), Op::Alloc, Op::G1(G::H, q)]);
            let o = (q + 1 + k) % 3;
            a.push(vec![Op::Release(q, r), Op::Release(o, r), Op::Alloc, Op::Alloc]);
        }
    }
    for q in 0..3 {
        a.push(vec![Op::G1(G::H, q)]);
        a.push(vec![Op::Rot(P::X, 0.6, q)]);
        a.push(vec![Op::MC(G::X, vec![q], (q + 1) % 3)]);
    }
    a.push(vec![Op::Alloc, Op::MC(G::X, vec![0], 3), Op::Release(3, R::Lo)]);
    a.push(vec![Op::Swap(0, 2)]);
    v.extend(long("long", &generic(3), a, lengths(t)));
    // many qubits at once: up to several hundred, released from either end or every third, then allocated again
    let counts: Vec<usize> = (1..=t.pick(70, 140)).chain([127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513]).collect();
    v.push(job("many-qubits", counts.len() as u64 * 5, move |i, ctx| {
        let (n, how) = (counts[(i / 5) as usize], i % 5);
        let mut p = Pair::new();
        for _ in 0..n {
            p.step(&Op::Alloc, ctx)?;
        }
        p.step(&Op::G1(G::X, n - 1), ctx)?;
        p.step(&Op::G1(G::H, 0), ctx)?;
        if n > 2 {
            p.step(&Op::MC(G::X, vec![0], n / 2), ctx)?;
        }
        let gone: Vec<usize> = match how {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).filter(|q| q % 3 != 1).collect(),
            3 => (0..n / 2).map(|q| q * 2).rev().collect(),
            _ => (n / 3..n).collect(),
        };
        for q in &gone {
            p.step(&Op::Release(*q, R::Lo), ctx)?;
        }
        p.step(&Op::Snap, ctx)?;
        for _ in 0..gone.len() + 2 {
            p.step(&Op::Alloc, ctx)?;
        }
        p.step(&Op::G1(G::H, n), ctx)?;
        p.step(&Op::MC(G::X, vec![n], n / 2), ctx)?;
        p.finish(ctx)
    }));
    // work pending on one qubit while others come and go
    v.push(far(t, "far-release", |&[a, b, c]| {
        vec![
            vec![Op::Alloc],
            vec![Op::Release(a, R::Lo)],
            vec![Op::Release(b, R::Hi), Op::Alloc, Op::IsZero(b), Op::G1(G::H, b)],
            vec![Op::Release(c, R::Lo), Op::Release(a, R::Hi), Op::Alloc, Op::Alloc, Op::Alloc],
            vec![Op::Release(1, R::Lo), Op::Release(65, R::Lo), Op::Alloc, Op::Alloc],
        ]
    }));
    let held: Vec<usize> = t.pick(vec![0, 1, 2, 31, 32, 63, 64, 65, 66, 127, 128, 129, 200], (0..=140).chain([191, 192, 193, 255, 256, 257, 300]).collect());
    let total = t.pick(260, 520);
    v.push(job("pending-while-allocating", held.len() as u64 * 7 * 2, move |i, ctx| {
        let i = i as usize;
        let (q, kind, back) = (held[i / 14], i / 2 % 7, i % 2 > 0);
        let mut p = Pair::new();
        for _ in 0..=q {
            p.step(&Op::Alloc, ctx)?;
        }
        let (h, x, y) = (Op::G1(G::H, q), Op::Rot(P::X, 0.6, q), Op::Rot(P::Y, 0.7, q));
        let w = match kind {
            0 => vec![h],
            1 => vec![x],
            2 => vec![y],
            3 => vec![x, h],
            4 => vec![y, h],
            5 => vec![y, x],
            _ => vec![Op::G1(G::X, q)],
        };
        for o in &w {
            p.step(o, ctx)?;
        }
        for n in q + 1..total {
            p.step(&Op::Alloc, ctx)?;
            if back && n % 5 == 0 {
                p.step(&Op::Release(n, R::Lo), ctx)?;
                p.step(&Op::Alloc, ctx)?;
            }
            if n % 50 == 49 {
                // on top of what is pending
                p.step(&w[w.len() - 1], ctx)?;
            }
        }
        p.finish(ctx)
    }));
    v
}

pub fn c09(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for n in sizes(t) {
        for s in [dense(n, false), dense(n, true)] {
            let mut c: Vec<Choice> = vec![];
            for a in 0..n {
                let b = (a + n / 2) % n;
                c.push(vec![Op::Swap(a, b), Op::Dump, Op::Snap]);
                c.push(vec![Op::Release(a, R::Lo), Op::Snap, Op::Dump]);
                c.push(vec![Op::G1(G::H, a), Op::Snap, Op::Rot(P::Y, 0.4, b), Op::Dump, Op::MC(G::X, vec![a], b)]);
            }
            v.push(stages("size-snapshot", &s, vec![pend(&s.ids), Rc::new(thin(n, 24, c))]));
        }
    }
    let mut a: Vec<Choice> = vec![vec![Op::Snap], vec![Op::Dump], vec![Op::Swap(0, 2)], vec![Op::Swap(1, 2)]];
    for q in 0..3 {
        a.push(vec![Op::G1(G::H, q)]);
        a.push(vec![Op::Rot(P::Y, 0.6, q)]);
        a.push(vec![Op::MC(G::X, vec![q], (q + 1) % 3)]);
        a.push(vec![Op::Release(q, R::Lo), Op::Alloc]);
    }
    v.extend(long("long", &generic(3), a, lengths(t)));
    v.push(far(t, "far-snapshot", |&[a, b, c]| {
        let d = [Op::G1(G::H, a), Op::MC(G::X, vec![a], b), Op::Rot(P::Y, 0.7, c)];
        let mut g = vec![];
        for o in [Op::Snap, Op::Dump] {
            g.push([&d[..], &[o.clone()]].concat());
            g.push([&d[..], &[o.clone(), Op::Swap(a, c), Op::G1(G::H, b), o.clone(), Op::Release(b, R::Lo), o]].concat());
        }
        g
    }));
    v
}

pub fn c10(t: Tier) -> Vec<Job> {
    let mut v = per_size(t, "size-swap", |s| {
        let n = s.ids.len();
        (0..n).flat_map(|a| (1..n).step_by(2).map(move |d| Op::Swap(a, (a + d) % n))).collect()
    });
    let mut a: Vec<Choice> = vec![vec![Op::Swap(0, 1)], vec![Op::Swap(1, 2)], vec![Op::Swap(2, 0)], vec![Op::Swap(1, 1)]];
    for q in 0..3 {
        a.push(vec![Op::G1(G::H, q)]);
        a.push(vec![Op::Rot(P::X, 0.6, q)]);
        a.push(vec![Op::Rot(P::Y, 0.9, q)]);
        a.push(vec![Op::MC(G::X, vec![q], (q + 1) % 3)]);
        a.push(vec![Op::G1(GS[4 + q], q)]);
    }
    v.extend(long("long", &generic(3), a, lengths(t)));
    v.push(far(t, "far-swap", |&[a, b, c]| {
        vec![
            vec![Op::Swap(a, b)],
            vec![Op::Swap(b, a), Op::Swap(a, c)],
            vec![Op::Swap(c, b), Op::MC(G::X, vec![b], a)],
            vec![Op::Swap(a, b), Op::Release(a, R::Hi), Op::Alloc],
            vec![Op::Swap(a, b), Op::Measure(b, R::Lo)],
        ]
    }));
    v
}

/// Observations between the operations of a long program change nothing.
pub fn c04(t: Tier) -> Vec<Job> {
    let s = generic(3);
    let mut a: Vec<Op> = vec![];
    for q in 0..2 {
        a.extend([Op::G1(G::H, q), Op::Rot(P::X, 0.6, q), Op::Rot(P::Y, 0.7, q), Op::G1(G::T, q), Op::MC(G::X, vec![q], 2), Op::MC(G::Y, vec![2], q)]);
        a.push(Op::Measure(q, R::Frac(1, 2)));
    }
    a.extend([Op::Swap(0, 1), Op::Swap(2, 0)]);
    let obs = [Op::Snap, Op::Dump, Op::IsZero(0), Op::Prob(vec![1]), Op::Prob(vec![0, 2]), Op::Prob(vec![2, 1, 0])];
    let (na, no) = (a.len(), obs.len());
    let lens: Vec<usize> = t.pick(vec![9, 17, 33, 65, 100, 129, 257, 513], (8..=140).chain([200, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2049]).collect());
    let every = [1usize, 2, 3, 7];
    let nl = lens.len();
    let mut v = vec![job("long", (na * na * no * nl * 4) as u64, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (x, y, o, k, e) = (nx(na), nx(na), nx(no), lens[nx(nl)], every[nx(4)]);
        let (mut with, mut without) = (s.prep.clone(), s.prep.clone());
        for j in 0..k {
            let g = &a[if j % 2 == 0 { x } else { y }];
            with.push(g.clone());
            without.push(g.clone());
            if j % e == 0 {
                with.push(obs[(o + j) % no].clone());
            }
        }
        ctx.log(|| format!("{k} operations alternating {} and {}, observed after every {e}", a[x].show(), a[y].show()));
        ctx.transitions += (with.len() + without.len()) as u64;
        ctx.traces += 1;
        rand::verif_script::set(&[0]);
        let (mut p, mut q) = (quantum_sparse_sim::QuantumSim::new(None), quantum_sparse_sim::QuantumSim::new(None));
        let ra = crate::p_sim::run_real(&mut p, &without);
        let rb = crate::p_sim::run_real(&mut q, &with);
        if ra != rb {
            return Err(format!("outcomes without observation {ra:?}, with {rb:?}"));
        }
        ctx.state(crate::engine::hash_str(&format!("{x}.{y}.{k}")));
        crate::p_sim::same_snapshots(&p.get_state(), &q.get_state())
    })];
    // dense states of many qubits
    for n in sizes(t) {
        for s in [dense(n, false), dense(n, true)] {
            let mut obs: Vec<Op> = vec![Op::Snap, Op::Dump];
            for l in turns(&s.ids, 3) {
                obs.push(Op::IsZero(l[0]));
                for k in [1, 2, n / 2, n] {
                    obs.push(Op::Prob(l[..k].to_vec()));
                }
            }
            let after = vec![Op::Nop, Op::G1(G::H, 0), Op::Measure(n - 1, R::Lo), Op::Joint(s.ids.clone(), R::Hi), Op::Swap(0, n - 1), Op::MC(G::X, s.ids[1..].to_vec(), 0)];
            v.push(crate::p_sim::differential("size-observed", &s, vec![pend(&s.ids), each(thin(n, 8, obs)), each(thin(n, 3, after))], vec![false, true, false]));
        }
    }
    v
}

/// Refused operations in the middle of a long program leave nothing behind.
pub fn c08(t: Tier) -> Vec<Job> {
    let s = generic(3);
    let bad = [
        Op::G1(G::H, 9),
        Op::G1(G::X, 3),
        Op::Rot(P::X, 0.6, 64),
        Op::MC(G::X, vec![0, 3], 1),
        Op::MC(G::H, vec![1, 1], 0),
        Op::MCRot(P::Y, 0.6, vec![2], 2),
        Op::Exp(vec![P::X, P::Z], 0.6, vec![0, 5]),
        Op::Exp(vec![P::Y, P::Y], 0.6, vec![1, 1]),
        Op::Measure(7, R::Lo),
        Op::Joint(vec![0, 4], R::Hi),
        Op::Prob(vec![0, 1, 0]),
        Op::Release(3, R::Lo),
        Op::Swap(1, 12),
        Op::Force(5, true),
        Op::IsZero(3),
    ];
    let good: Vec<Op> = vec![
        Op::Nop, Op::G1(G::H, 0), Op::Rot(P::Y, 0.7, 1), Op::Rot(P::X, 0.7, 2), Op::MC(G::X, vec![0], 1), Op::MC(G::Z, vec![1, 2], 0), Op::Swap(0, 2),
        Op::Measure(1, R::Hi), Op::Prob(vec![0]), Op::Snap,
    ];
    let lens: Vec<usize> = t.pick(vec![2, 3, 9, 33, 65, 129], (2..=70).chain([100, 127, 128, 129, 255, 256, 257, 513, 1025]).collect());
    let (nb, ng, nl) = (bad.len(), good.len(), lens.len());
    let mut v = vec![job("long", (nb * nb * ng * nl) as u64, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (x, y, gd, k) = (&bad[nx(nb)], &bad[nx(nb)], &good[nx(ng)], lens[nx(nl)]);
        let mut p = Pair::new();
        for o in &s.prep {
            p.step(o, ctx)?;
        }
        for j in 0..k {
            let b = if j % 2 == 0 { x } else { y };
            ctx.log(|| format!("invalid: {}", b.show()));
            ctx.transitions += 1;
            if crate::engine::guarded(|| {
                crate::p_sim::run_real(&mut p.sim, std::slice::from_ref(b));
            })
            .is_ok()
            {
                return Err(format!("{} was accepted", b.show()));
            }
            p.step(gd, ctx)?;
        }
        crate::p_sim::not_remembered(&mut p, x, ctx)
    })];
    // far identifiers: what is refused and what is not
    let ids = [0usize, 1, 63, 64, 127, 128, 255, 256, 259];
    let k = ids.len();
    v.push(job("far", (k * k * k * 8) as u64, move |i, ctx| {
        let i = i as usize;
        let (a, b, c, what) = (ids[i / 8 % k], ids[i / 8 / k % k], ids[i / 8 / k / k], i % 8);
        let n = 260;
        let mut p = Pair::new();
        for _ in 0..n {
            p.step(&Op::Alloc, ctx)?;
        }
        p.step(&Op::G1(G::H, 1), ctx)?;
        p.step(&Op::Rot(P::Y, 0.7, 128), ctx)?;
        let o = match what {
            0 => Op::MC(G::X, vec![a, b], c),
            1 => Op::MC(G::Z, vec![c], a),
            2 => Op::MCRot(P::Y, 0.6, vec![a, b], c),
            3 => Op::Exp(vec![P::X, P::Z, P::Y], 0.6, vec![a, b, c]),
            4 => Op::MCExp(vec![a], vec![P::X, P::Z], 0.6, vec![b, c]),
            5 => Op::Prob(vec![a, b, c]),
            6 => Op::Joint(vec![a, b, c], R::Lo),
            _ => Op::Apply(matrices(2)[0].clone(), vec![a, b], Some(vec![c])),
        };
        let mut q = o.qubits();
        q.sort_unstable();
        let repeated = q.windows(2).any(|w| w[0] == w[1]);
        if repeated {
            ctx.log(|| format!("invalid: {}", o.show()));
            ctx.transitions += 1;
            if crate::engine::guarded(|| {
                crate::p_sim::run_real(&mut p.sim, std::slice::from_ref(&o));
            })
            .is_ok()
            {
                return Err(format!("{} was accepted", o.show()));
            }
            crate::p_sim::not_remembered(&mut p, &o, ctx)
        } else {
            p.step(&o, ctx)?;
            p.finish(ctx)
        }
    }));
    v
}
