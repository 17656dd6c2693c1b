//! Larger bounds for the runtime's properties: long call sequences, many shots, many results, many threads,
//! long operand lists and identifiers far apart (see p_scale for the simulator itself).

use crate::engine::{job, Ctx, Job, Res, Tier};
use crate::ops::R;
use crate::p_backend::*;
use crate::p_sim::pauli_strings;
use crate::refmodel::P;
use std::f64::consts::PI;
use std::rc::Rc;

fn lengths(t: Tier) -> Vec<usize> {
    t.pick(
        vec![5, 7, 8, 9, 16, 17, 31, 32, 33, 49, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513],
        (5..=140).chain([199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]).collect(),
    )
}
fn run(prep: &[B], ops: impl Iterator<Item = B>, ctx: &mut Ctx) -> Res {
    flat(fresh(|| {
        rand::verif_script::set(&[0]);
        let mut bm = BM::default();
        for o in prep {
            bm.step(o, ctx)?;
        }
        for o in ops {
            bm.step(&o, ctx)?;
            if bm.m.cand.len() > 32 {
                bm.step(&B::Snap, ctx)?; // tells the hidden outcomes apart
            }
        }
        bm.finish(ctx)
    }))
}

/// Every word of up to two letters, repeated up to each length; and walks through the alphabet.
fn long(name: &str, s: &BScn, letters: Vec<Vec<B>>, lens: Vec<usize>) -> Vec<Job> {
    let n = letters.len();
    let l = Rc::new(letters);
    let mut v = vec![];
    {
        let (s, l, lens) = (s.clone(), l.clone(), lens.clone());
        let words: Vec<(usize, usize)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect();
        v.push(job(format!("{name}-repeated/{}", s.name), (words.len() * lens.len()) as u64, move |i, ctx| {
            let (a, b) = words[i as usize / lens.len()];
            let k = lens[i as usize % lens.len()];
            run(&s.prep, (0..k).flat_map(|j| l[if j % 2 == 0 { a } else { b }].iter().cloned()), ctx)
        }));
    }
    {
        let s = s.clone();
        let lens: Vec<usize> = lens.into_iter().filter(|k| k % 50 < 2 || k.is_power_of_two()).collect();
        v.push(job(format!("{name}-walk/{}", s.name), (n * n * lens.len()) as u64, move |i, ctx| {
            let mut i = i as usize;
            let mut nx = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (start, stride, k) = (nx(n), nx(n), lens[nx(lens.len())]);
            run(&s.prep, (0..k).flat_map(|j| l[(start + j * stride + j * (j / n)) % n].iter().cloned()), ctx)
        }));
    }
    v
}
fn each(v: Vec<B>) -> Vec<Vec<B>> {
    v.into_iter().map(|b| vec![b]).collect()
}
fn turns(l: &[usize]) -> Vec<Vec<usize>> {
    (0..l.len()).map(|k| l.iter().cycle().skip(k).take(l.len()).copied().collect()).collect()
}

/// Every list intrinsic with lists of up to hundreds of qubits: `n` operands, all in |1> except that the one at `at` is in
/// |0> or in superposition; qubits `n` and `n + 1` are in superposition.
fn lists(t: Tier, name: &str, f: impl Fn(usize) -> Vec<B> + 'static) -> Job {
    let lens = crate::p_scale::list_lengths(t);
    let most = f(2).len();
    let (nl, vs) = (lens.len(), 8);
    job(name, (nl * vs * most) as u64, move |i, ctx| {
        let i = i as usize;
        let (n, variant, o) = (lens[i / (vs * most)], i / most % vs, i % most);
        let at = [0, n / 2, n - 1];
        let mut prep: Vec<B> = (0..n).filter(|q| !(1..=3).contains(&variant) || at[variant - 1] != *q).map(|q| g("x__body", &[], &[q], 0.0)).collect();
        match variant {
            4..=6 => prep.push(g("ry__body", &[], &[at[variant - 4]], 0.7)),
            7 => prep.extend(at.into_iter().enumerate().map(|(k, q)| g("rx__body", &[], &[q], 0.5 + k as f64))),
            _ => {}
        }
        prep.extend([g("h__body", &[], &[n], 0.0), g("ry__body", &[], &[n + 1], 0.4)]);
        run(&prep, f(n).into_iter().skip(o).take(1), ctx)
    })
}
/// Strings of `n` letters with X or Y at three places only.
fn long_strings(n: usize) -> Vec<Vec<P>> {
    let at = |k: usize, p: P| if k == 0 || k == n / 2 || k == n - 1 { p } else { [P::Z, P::I, P::Z][k % 3] };
    let mut v: Vec<Vec<P>> = [P::X, P::Y].into_iter().map(|p| (0..n).map(|k| at(k, p)).collect()).collect();
    v.push(vec![P::Z; n]);
    v.push((0..n).map(|k| if k == n - 1 { P::Y } else { P::I }).collect());
    v.push((0..n).map(|k| if k == 0 { P::X } else { P::Z }).collect());
    v
}

pub fn c12(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let two = each(gates_of(calls(&[0, 1], &[0.6], 1, 1)));
    let few: Vec<usize> = t.pick(vec![17, 33, 65, 129, 257], vec![5, 9, 16, 17, 31, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513, 1025, 4097]);
    v.extend(long("long", &pending(2), two.clone(), few.clone()));
    v.extend(long("long", &nothing(), two, few));
    // long operand lists: every controlled intrinsic under 3 to n-1 controls, exponentials of up to n letters
    for (ids, stat) in [(vec![0, 1, 2, 3, 4, 5, 6], false), (vec![9, 0, 4, 66, 2, 7, 12], true)] {
        let n = ids.len();
        let mut a: Vec<Call> = vec![];
        for l in turns(&ids) {
            for i in intrinsics() {
                let mk = |c: &[usize], ts: &[usize], ps: &[P]| Call { i, ctls: c.to_vec(), ts: ts.to_vec(), ps: ps.to_vec(), th: 0.6 };
                for k in 3..n {
                    let (ts, c) = l.split_at(n - k);
                    match i.f {
                        F::Ctl(_) | F::RotCtl(_) => a.push(mk(c, &ts[..1], &[])),
                        F::RCtl(_) => a.extend([P::I, P::X, P::Y, P::Z].map(|p| mk(c, &ts[..1], &[p]))),
                        F::ExpCtl(_) => {
                            for off in 0..4 {
                                let all = [P::I, P::X, P::Y, P::Z];
                                let ps: Vec<P> = (0..ts.len()).map(|j| all[(j + off) % 4]).collect();
                                a.push(mk(c, ts, &ps));
                                a.push(mk(&c[..1], ts, &vec![all[off]; ts.len()]));
                            }
                        }
                        F::Exp(_) => {
                            for off in 0..4 {
                                let all = [P::I, P::X, P::Y, P::Z];
                                let ps: Vec<P> = (0..k + 1).map(|j| all[(j * (1 + off % 2) + off) % 4]).collect();
                                a.push(mk(&[], &l[..k + 1], &ps));
                                a.push(mk(&[], &l[..k + 1], &vec![all[off]; k + 1]));
                                let one: Vec<P> = (0..k + 1).map(|j| if j == k { all[off] } else { P::I }).collect();
                                a.push(mk(&[], &l[..k + 1], &one));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let s = if stat { statics(&ids) } else { pending(n) };
        v.push(bstages("long-lists", &s, vec![beach(gates_of(a.clone()))]));
        if stat {
            v.push(bstages("long-lists-first-use", &nothing(), vec![beach(gates_of(a))]));
        }
    }
    // identifiers far apart: the first reference may name any qubit
    let far: Vec<usize> = t.pick(vec![1, 7, 31, 32, 63, 64, 65, 127, 128, 200, 255, 256, 300], (1..=300).chain([511, 512, 513]).collect());
    let c = calls(&[0, 1, 2], &[0.6], 2, 2);
    let nc = c.len();
    v.push(job("far-identifiers", (nc * far.len()) as u64, move |i, ctx| {
        let (c, k) = (&c[i as usize % nc], far[i as usize / nc]);
        let mut c = c.clone();
        let to = |x: &usize| [0, k, 2 * k + 1][*x];
        c.ts = c.ts.iter().map(to).collect();
        c.ctls = c.ctls.iter().map(to).collect();
        let pre: Vec<B> = [0, 2 * k + 1].iter().map(|t| g("h__body", &[], &[*t], 0.0)).collect();
        run(&[], pre.into_iter().chain([B::Gate(Rc::new(c)), g("h__body", &[], &[k], 0.0), B::M(k, R::Lo)]), ctx)
    }));
    for s in [nothing(), pending(2)] {
        v.push(tiny(&s, "small-angles", &[0.0], crate::p_scale::tiny_counts(t)));
        v.push(tiny(&s, "near-angles", &crate::p_scale::NEAR, vec![1, 2, 3]));
    }
    v.push(lists(t, "longer-lists", |n| {
        let (ids, rev): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (0..n).rev().collect());
        let mut a: Vec<Call> = vec![];
        for i in intrinsics() {
            let mk = |c: &[usize], ts: &[usize], ps: &[P]| Call { i, ctls: c.to_vec(), ts: ts.to_vec(), ps: ps.to_vec(), th: 0.6 };
            match i.f {
                F::Ctl(_) | F::RotCtl(_) => a.push(mk(&ids, &[n], &[])),
                F::RCtl(_) => a.extend([P::I, P::X, P::Y, P::Z].map(|p| mk(&rev, &[n], &[p]))),
                F::ExpCtl(_) => {
                    a.push(mk(&ids, &[n + 1, n], &[P::Y, P::X]));
                    a.extend(long_strings(n).into_iter().map(|ps| mk(&[n], &rev, &ps)));
                }
                F::Exp(_) => a.extend(long_strings(n).into_iter().map(|ps| mk(&[], &ids, &ps))),
                _ => {}
            }
        }
        gates_of(a)
    }));
    v
}

/// Rotations by small angles, repeated (see p_scale).
fn tiny(s: &BScn, name: &str, at: &[f64], counts: Vec<usize>) -> Job {
    let angles: Vec<f64> = at.iter().flat_map(|b| crate::p_scale::TINY.iter().map(move |a| b + a)).collect();
    let l: Vec<Call> = calls(&[0, 1], &angles, 1, 2).into_iter().filter(|c| matches!(c.i.f, F::Rot(_) | F::Rot2(_) | F::RotCtl(_) | F::R(_) | F::RCtl(_) | F::Exp(_) | F::ExpCtl(_)) && !c.ts.is_empty()).collect();
    let s = s.clone();
    job(format!("{name}/{}", s.name), (l.len() * counts.len() * 2) as u64, move |i, ctx| {
        let (c, how) = (Rc::new(l[i as usize / 2 % l.len()].clone()), i % 2);
        let n = counts[i as usize / 2 / l.len()];
        run(
            &s.prep,
            (0..n).flat_map(|_| {
                let mut v = vec![B::Gate(c.clone())];
                if how == 1 {
                    v.extend([g("h__body", &[], &c.ts[..1], 0.0), g("h__body", &[], &c.ts[..1], 0.0)]);
                }
                v
            }),
            ctx,
        )
    })
}

pub fn c13(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let prep = vec![B::Alloc, B::Alloc, B::Alloc, g("x__body", &[], &[1], 0.0), g("h__body", &[], &[2], 0.0)];
    let s = BScn { name: "basis".into(), prep };
    let mut a = vec![];
    for r in [0, 2, 66] {
        a.extend([B::Write(true, r), B::Write(false, r), B::Read(r), B::Mz(1, r, R::Lo), B::Mz(2, r, R::Hi), B::MResetZ(1, r, R::Lo)]);
    }
    a.extend([B::RtRead(2), B::Rec(0, None), B::RecLegacy(66), g("x__body", &[], &[1], 0.0), B::M(2, R::Lo)]);
    v.extend(long("long", &s, each(a), lengths(t)));
    // identifiers far apart
    let ids: Vec<usize> = t.pick(vec![0, 1, 255, 256, 65_535, 65_536, 65_537, 131_072, 1 << 20], (0..=22).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect());
    let k = ids.len();
    v.push(job("far-results", (k * k * 8) as u64, move |i, ctx| {
        let i = i as usize;
        let (a, b, how) = (ids[i / 8 % k], ids[i / 8 / k], i % 8);
        let put = |v: bool, r: usize| if how & 1 == 0 { B::Write(v, r) } else { B::Mz(usize::from(v), r, R::Lo) };
        let get = |r: usize| if how & 2 == 0 { B::Read(r) } else { B::RtRead(r) };
        let mut ops = vec![B::Alloc, B::Alloc, g("x__body", &[], &[1], 0.0), put(true, a), get(b), put(how & 4 > 0, b), get(a), put(true, b), put(false, a), get(a), get(b)];
        ops.extend([0usize, 1, 2, 3, 255, 256].map(get));
        ops.extend([B::Rec(a, None), B::Rec(b, None), B::RecLegacy(b)]);
        run(&[], ops.into_iter(), ctx)
    }));
    // many results at once, stored and read in different orders
    let counts: Vec<usize> = t.pick(
        vec![5, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2050],
        (1..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10_001]).collect(),
    );
    v.push(job("many-results", counts.len() as u64 * 5 * 4 * 3, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (order, pat, how, n) = (nx(5), nx(4), nx(3), counts[nx(counts.len())]);
        let at = |j: usize| match order {
            0 => j,
            1 => n - 1 - j,
            2 => j * 7919 % n,
            3 => j ^ 1,
            _ => (n / 2 + j) % n,
        };
        let val = |r: usize| match pat {
            0 => true,
            1 => r % 2 == 0,
            2 => r % 3 == 1,
            _ => (r / 64) % 2 == 1,
        };
        let mut ops = vec![B::Alloc, B::Alloc, g("x__body", &[], &[1], 0.0)];
        for j in 0..n {
            let r = at(j);
            ops.push(match how {
                0 => B::Write(val(r), r),
                1 => B::Mz(usize::from(val(r)), r, R::Lo),
                _ if j % 2 == 0 => B::Write(val(r), r),
                _ => B::Mz(usize::from(val(r)), r, R::Hi),
            });
        }
        for j in 0..n + 2 {
            ops.push(if j % 3 == 0 { B::RtRead(j) } else { B::Read(j) });
        }
        for j in (0..n).step_by(17).chain([n - 1, n]) {
            ops.push(B::Rec(j, None));
        }
        ops.push(B::Dump);
        run(&[], ops.into_iter(), ctx)
    }));
    v
}

pub fn c14(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let mut a: Vec<Vec<B>> = vec![];
    for q in 0..2 {
        for r in [R::Lo, R::Hi] {
            a.extend([vec![B::M(q, r)], vec![B::Mz(q, 0, r)], vec![B::MResetZ(q, 1, r)], vec![B::Reset(q, r)]]);
            a.push(vec![B::Measure(vec![P::X], vec![q], r)]);
        }
        a.extend([vec![g("h__body", &[], &[q], 0.0)], vec![g("rx__body", &[], &[q], 0.7)], vec![g("ry__body", &[], &[q], 0.7)]]);
        a.push(vec![g("cx__body", &[], &[q, 1 - q], 0.0)]);
    }
    for r in [R::Lo, R::Hi] {
        a.push(vec![B::Measure(vec![P::Z, P::X], vec![0, 1], r)]);
        a.push(vec![B::Measure(vec![P::Y, P::Y], vec![1, 2], r)]);
    }
    for s in [pending(3), nothing()] {
        v.extend(long("long", &s, a.clone(), lengths(t)));
    }
    // however rare an outcome, one of the extreme draws produces it
    v.push(job("rare-extremes", 9 * 3 * 2 * 8, move |i, ctx| {
        let mut i = i as i32;
        let mut nx = |n: i32| {
            let k = i % n;
            i /= n;
            k
        };
        let (e, c, flip, how) = (nx(9), nx(3), nx(2) == 1, nx(8));
        let p = [1.0, 2.0, 5.0][c as usize] * 10f64.powi(-1 - e);
        ctx.log(|| format!("an outcome of probability {p} (of {}), measured in way {how} with either extreme draw", u8::from(!flip)));
        ctx.transitions += 2;
        ctx.traces += 2;
        let one = |w: u64| {
            use qir_backend::*;
            fresh(|| unsafe {
                rand::verif_script::set(&[0]);
                __quantum__qis__ry__body(2.0 * p.sqrt().asin(), q(0));
                if flip {
                    __quantum__qis__x__body(q(0));
                }
                if how == 5 {
                    __quantum__qis__h__body(q(0));
                }
                if how == 6 {
                    __quantum__qis__h__body(q(1));
                    __quantum__qis__cx__body(q(1), q(0));
                }
                // a second one that tells the outcome of the first
                __quantum__qis__x__body(q(2));
                if how == 7 {
                    __quantum__qis__cx__body(q(0), q(3));
                }
                rand::verif_script::set(&[w]);
                let joint = |ps: &[P], ids: &[usize]| {
                    let (a, b) = (parr(ps), qarr(ids));
                    let r = !__quantum__qis__measure__body(a, b).is_null();
                    drop_arr(a);
                    drop_arr(b);
                    r
                };
                match how {
                    0 => !__quantum__qis__m__body(q(0)).is_null(),
                    1 => {
                        __quantum__qis__mz__body(q(0), q(1));
                        __quantum__rt__read_result(q(1))
                    }
                    2 => {
                        __quantum__qis__mresetz__body(q(0), q(1));
                        __quantum__rt__read_result(q(1))
                    }
                    3 => joint(&[P::Z], &[0]),
                    4 => !joint(&[P::Z, P::I, P::Z], &[0, 1, 2]),
                    5 => joint(&[P::X], &[0]),
                    6 => joint(&[P::Z, P::Z], &[1, 0]),
                    _ => {
                        __quantum__qis__reset__body(q(0));
                        !__quantum__qis__m__body(q(3)).is_null()
                    }
                }
            })
        };
        let (lo, hi) = (one(R::Lo.word())?, one(R::Hi.word())?);
        if lo == hi {
            return Err(format!("both the smallest and the largest draw give {lo}, although the other outcome has probability {p}"));
        }
        Ok(())
    }));
    // long Pauli strings
    let n = t.pick(5, 6);
    let mut m: Vec<B> = vec![];
    for ps in pauli_strings(n) {
        for r in [R::Lo, R::Hi] {
            m.push(B::Measure(ps.clone(), (0..n).collect(), r));
        }
        m.push(B::Measure(ps, (0..n).rev().collect(), R::Frac(1, 2)));
    }
    for s in [dynamic(n), pending(n)] {
        v.push(bstages("long-strings", &s, vec![beach(m.clone())]));
    }
    let ids = [8, 0, 3, 65, 2];
    let m: Vec<B> = pauli_strings(5).into_iter().map(|ps| B::Measure(ps, ids.to_vec(), R::Hi)).collect();
    v.push(bstages("long-strings", &statics(&ids), vec![beach(m.clone())]));
    v.push(bstages("long-strings", &nothing(), vec![beach(m)]));
    // each qubit of many
    let c: Vec<usize> = t.pick(vec![4, 8, 9, 16, 17, 33, 64, 65, 100, 129, 200], (4..=140).chain([200, 255, 256, 257, 300]).collect());
    v.push(job("each-of-many", c.len() as u64 * 5 * 2, move |i, ctx| {
        let (n, how, stat) = (c[i as usize / 10], i % 5, i / 5 % 2 == 1);
        let mut ops = vec![];
        if !stat {
            ops.extend(vec![B::Alloc; n]);
        }
        for q in (0..n).step_by(3) {
            ops.push(g("x__body", &[], &[q], 0.0));
        }
        ops.push(g("h__body", &[], &[n - 1], 0.0));
        ops.push(g("cx__body", &[], &[n - 1, 1], 0.0));
        for q in (0..n).rev() {
            ops.push(match how {
                0 => B::M(q, R::Lo),
                1 => B::Mz(q, q, R::Hi),
                2 => B::MResetZ(q, n - q, R::Lo),
                3 => B::Reset(q, R::Hi),
                _ => B::Measure(vec![P::Z, P::Z], vec![q, (q + 1) % n], R::Lo),
            });
        }
        for q in 0..n {
            ops.push(B::M(q, R::Lo));
        }
        run(&[], ops.into_iter(), ctx)
    }));
    v.push(lists(t, "longer-lists", |n| {
        let mut a = vec![];
        for r in [R::Lo, R::Hi] {
            for ps in long_strings(n) {
                a.push(B::Measure(ps.clone(), (0..n).collect(), r));
                let mut ps = ps;
                ps.push(P::X);
                a.push(B::Measure(ps, (0..n + 1).rev().collect(), r));
            }
        }
        a
    }));
    v
}

pub fn c15(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let n = t.pick(5, 6);
    let ps = Rc::new(pauli_strings(n));
    for s in [dynamic(n), pending(n), bghz(n)] {
        let ps = ps.clone();
        v.push(job(format!("long-strings/{}", s.name), ps.len() as u64 * 4, move |i, ctx| {
            let (ps, one, ctl) = (&ps[i as usize / 4], i & 1 == 1, i & 2 == 2);
            flat(fresh(|| {
                rand::verif_script::set(&[0]);
                let mut bm = BM::default();
                for o in &s.prep {
                    bm.step(o, ctx)?;
                }
                let qs: Vec<usize> = if ctl { (0..n).rev().collect() } else { (0..n).collect() };
                let p1 = bm.pauli_prob(ps, &qs)[0];
                let p = if one { p1 } else { 1.0 - p1 };
                ctx.log(|| format!("assert({ps:?} on {qs:?} = {one}, prob {p}), controlled {ctl}"));
                ctx.transitions += 1;
                assert_call(ps, &qs, one, p, 1e-7, b"should hold", ctl.then_some(&[1usize][..]));
                if !drain().is_empty() {
                    return Err("a passing assertion recorded something".into());
                }
                bm.finish(ctx)
            }))
        }));
    }
    // assertions between the calls of a long program
    let lens: Vec<usize> = lengths(t).into_iter().filter(|k| *k <= 1025).collect();
    let mut a: Vec<B> = vec![];
    for q in 0..2 {
        a.extend(["h__body", "t__body", "x__body"].map(|n| g(n, &[], &[q], 0.0)));
        a.extend(["rx__body", "ry__body"].map(|n| g(n, &[], &[q], 0.7)));
        a.push(g("cx__body", &[], &[q, 1 - q], 0.0));
    }
    let asserts: Vec<(Vec<P>, Vec<usize>)> = vec![(vec![P::Z], vec![0]), (vec![P::X], vec![1]), (vec![P::Y, P::Z], vec![0, 1]), (vec![P::X, P::X], vec![1, 0]), (vec![P::I], vec![0])];
    let (na, nl, ns) = (a.len(), lens.len(), asserts.len());
    v.push(job("long", (na * na * nl * ns) as u64, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (x, y, k, (ps, qs)) = (nx(na), nx(na), lens[nx(nl)], &asserts[nx(ns)]);
        flat(fresh(|| {
            rand::verif_script::set(&[0]);
            let mut bm = BM::default();
            for o in &dynamic(2).prep {
                bm.step(o, ctx)?;
            }
            for j in 0..k {
                bm.step(&a[if j % 2 == 0 { x } else { y }], ctx)?;
                if j % 5 == 4 || k < 12 {
                    let p = bm.pauli_prob(ps, qs)[0];
                    assert_call(ps, qs, true, p, 1e-7, b"m", None);
                }
            }
            bm.finish(ctx)
        }))
    }));
    v.push(lists(t, "longer-lists", |n| {
        let mut a = vec![];
        for ps in long_strings(n) {
            a.push(B::Assert(ps.clone(), (0..n).collect()));
            let mut ps = ps;
            ps.push(P::Y);
            a.push(B::Assert(ps, (0..n + 1).rev().collect()));
        }
        a
    }));
    v
}

/// Many shots on one thread: every shot observes what the first one does in a fresh thread.
pub fn c16(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let d = dirt();
    let counts: Vec<usize> = t.pick(vec![2, 3, 4, 9, 16, 17, 33, 65, 100, 129, 257], (2..=130).chain([255, 256, 257, 300, 512, 513, 1000, 1025]).collect());
    let probe = vec![
        W::Alloc, W::Gate(0, 0), W::AllocArr(2), W::Cx(0, 2), W::Rx(1), W::Snap, W::M(0, 1), W::Mz(1, 1, 1), W::Read(0), W::Read(1), W::Rec(1), W::Rec2(0), W::Dump,
        W::IsZero(2), W::Drain, W::Snap,
    ];
    let late = vec![W::Rec(1), W::Rec2(0), W::Read(1), W::Rec(70), W::Dump, W::Mz(3, 2, 0), W::Gate(1, 1), W::Dump, W::Snap, W::Drain];
    let nd = d.len();
    let n = (nd * nd * counts.len() * 2) as u64;
    let solo: std::cell::RefCell<[Option<Vec<String>>; 2]> = Default::default();
    v.push(job("many-shots", n, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (x, y, which, k) = (nx(nd), nx(nd), nx(2), counts[nx(counts.len())]);
        let pr = [&probe, &late][which];
        let shot = |st: &mut WState| -> Vec<String> {
            let _ = drain();
            rand::verif_script::set(&[0]);
            pr.iter().map(|w| w_run(w, st, false)).collect()
        };
        if solo.borrow()[which].is_none() {
            let s = fresh(|| shot(&mut WState::default()))?;
            solo.borrow_mut()[which] = Some(s);
        }
        let want = solo.borrow()[which].clone().unwrap();
        ctx.log(|| format!("{k} times: {:?}, {:?}, initialize, {pr:?}", d[x], d[y]));
        ctx.transitions += (k * (pr.len() + 3)) as u64;
        ctx.traces += 1;
        flat(fresh(|| {
            let mut st = WState::default();
            for j in 0..k {
                rand::verif_script::set(&[0]);
                let _ = w_run(&d[x], &mut st, false);
                let _ = w_run(&d[y], &mut st, false);
                let _ = w_run(&W::Init, &mut st, false);
                let got = shot(&mut st);
                if got != want {
                    return Err(format!("shot {j} of {k} observes {got:?}, in a fresh thread it is {want:?}"));
                }
            }
            ctx.state(crate::engine::hash_str(&format!("{x} {y} {which} {k}")));
            Ok(())
        }))
    }));
    v
}

pub fn c19(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let prep = vec![B::Alloc, B::Alloc, B::Alloc, g("x__body", &[], &[1], 0.0), g("h__body", &[], &[2], 0.0)];
    let s = BScn { name: "basis".into(), prep };
    let a: Vec<Vec<B>> = vec![
        vec![B::Rec(0, None)],
        vec![B::Rec(1, Some(b"t"))],
        vec![B::Rec(70, Some(b""))],
        vec![B::RecLegacy(1)],
        vec![B::RecLegacy(70)],
        vec![B::Dump],
        vec![B::Mz(0, 0, R::Lo)],
        vec![B::Mz(1, 1, R::Hi)],
        vec![B::Mz(2, 70, R::Hi), g("h__body", &[], &[2], 0.0)],
        vec![B::Write(true, 0)],
        vec![B::Write(false, 1)],
        vec![B::M(2, R::Lo)],
        vec![g("h__body", &[], &[0], 0.0)],
        vec![g("rx__body", &[], &[1], 0.7)],
        vec![g("cx__body", &[], &[2, 1], 0.0)],
        vec![B::Init, B::Alloc, g("x__body", &[], &[1], 0.0)],
    ];
    v.extend(long("long", &s, a.clone(), lengths(t)));
    v.extend(long("long", &nothing(), a, lengths(t)));
    // dumps of large states: many amplitudes, many qubits
    let ns: Vec<usize> = t.pick(vec![4, 5, 6, 7, 8, 9], (4..=11).collect());
    v.push(job("large-dump", ns.len() as u64 * 3, move |i, ctx| {
        let n = ns[i as usize / 3];
        let s = match i % 3 {
            0 => dynamic(n),
            1 => pending(n),
            _ => statics(&(0..n).map(|k| k * 2 % (2 * n - 1)).collect::<Vec<_>>()),
        };
        run(&s.prep, [B::Dump, B::M(n - 1, R::Hi), B::Dump, B::Reset(1, R::Lo), B::Dump].into_iter(), ctx)
    }));
    v.push(job("wide-dump", 140 * 2, move |i, ctx| {
        let (n, stat) = (i as usize / 2 + 1, i % 2 == 1);
        let mut ops = vec![];
        if !stat {
            ops.extend(vec![B::Alloc; n]);
        }
        ops.push(g("h__body", &[], &[n - 1], 0.0));
        for q in (0..n - 1).step_by(n / 5 + 1) {
            ops.push(g("cx__body", &[], &[n - 1, q], 0.0));
        }
        if n > 2 {
            ops.push(g("rx__body", &[], &[n / 2], 1.1));
        }
        ops.extend([B::Dump, B::Snap, g("s__body", &[], &[0], PI), B::Dump]);
        run(&[], ops.into_iter(), ctx)
    }));
    v
}

/// A seeded program of very many shots draws from one uninterrupted stream.
pub fn c17(t: Tier) -> Vec<Job> {
    let progs = Rc::new(thread_programs());
    let np = progs.len();
    let counts: Vec<usize> = t.pick(vec![4, 5, 8, 12, 17, 33], vec![4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 48, 65, 100]);
    let solo = std::cell::OnceCell::<Vec<Vec<String>>>::new();
    let n = (counts.len() * np * np * 5) as u64;
    vec![job("many-threads", n, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (start, stride, how, n) = (nx(np), nx(np), nx(5), counts[nx(counts.len())]);
        let sel: Vec<usize> = (0..n).map(|j| (start + j * stride + j / np) % np).collect();
        let pr: Vec<&[W]> = sel.iter().map(|k| &progs[*k].1[..]).collect();
        let len = pr.iter().map(|p| p.len()).min().unwrap();
        let order: Vec<usize> = match how {
            0 => (0..n * len).map(|j| j % n).collect(),
            1 => (0..n * len).map(|j| n - 1 - j % n).collect(),
            2 => (0..n * len).map(|j| j / len).collect(),
            // every thread starts, then they finish in reverse
            3 => (0..n).chain((0..n).rev().flat_map(|k| vec![k; len - 1])).collect(),
            // turns of two calls
            _ => (0..len.div_ceil(2)).flat_map(|r| (0..n).flat_map(move |k| vec![k; if 2 * r + 2 <= len { 2 } else { 1 }])).collect(),
        };
        let want = solo.get_or_init(|| solo_observations(&progs));
        let got = scheduled(&pr, len, &order)?;
        ctx.transitions += order.len() as u64;
        ctx.traces += n as u64;
        ctx.state(crate::engine::hash_str(&format!("{sel:?}{how}")));
        for (t, k) in sel.iter().enumerate() {
            if got[t][..] != want[*k][..len] {
                return Err(format!(
                    "thread {t} of {n} running {:?} observes {:?} (order {how}); alone it observes {:?}",
                    progs[*k].0, got[t], &want[*k][..len]
                ));
            }
        }
        Ok(())
    })]
}

pub fn c11(t: Tier) -> Vec<Job> {
    use qir_backend::*;
    let shots: Vec<usize> = t.pick(vec![10, 33, 64, 65, 100, 129, 256, 257, 300], (9..=130).chain([255, 256, 257, 300, 512, 513, 1000, 1025]).collect());
    let seeds: Vec<u64> = t.pick(vec![0, 1, 42, u64::MAX], vec![0, 1, 2, 3, 42, 1 << 32, (1 << 32) + 42, u64::MAX - 1, u64::MAX]);
    let n = (shots.len() * seeds.len()) as u64;
    vec![job("backend-many-shots", n, move |i, ctx| {
        let (seed, k) = (seeds[i as usize % seeds.len()], shots[i as usize / seeds.len()]);
        ctx.log(|| format!("seed {seed}, {k} shots of five flips"));
        let flip = |per: usize| -> String {
            (0..per)
                .map(|j| {
                    __quantum__qis__h__body(q(j % 3));
                    let one = !__quantum__qis__m__body(q(j % 3)).is_null();
                    if one {
                        __quantum__qis__x__body(q(j % 3));
                    }
                    if one { '1' } else { '0' }
                })
                .collect()
        };
        let whole = fresh(|| {
            rand::verif_script::clear();
            set_rng_seed(seed);
            __quantum__rt__initialize(std::ptr::null_mut());
            flip(5 * k)
        })?;
        let parts = fresh(|| {
            rand::verif_script::clear();
            set_rng_seed(seed);
            (0..k)
                .map(|_| {
                    __quantum__rt__initialize(std::ptr::null_mut());
                    flip(5)
                })
                .collect::<String>()
        })?;
        ctx.transitions += 20 * k as u64;
        ctx.traces += 2;
        ctx.state(crate::engine::hash_str(&parts));
        if whole != parts {
            return Err(format!("seed {seed}: {k} shots measure {parts}, the uninterrupted stream is {whole}"));
        }
        Ok(())
    })]
}
