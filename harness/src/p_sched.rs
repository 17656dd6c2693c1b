//! C17, inside the calls: two threads, preempted at allocations, deallocations and random draws.
//! (p_backend explores the interleavings of whole calls.)

use crate::engine::{guarded, hash_str, in_fork, job, Job, Tier};
use crate::p_backend::{assert_call, drain, drop_arr, parr, pauli, q, qarr, rt_string, tuple_of, ExpArgs, PRotArgs, RotArgs};
use crate::refmodel::P;
use crate::sched;
use num_bigint::BigUint;
use num_complex::Complex64 as C;
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use quantum_sparse_sim::QuantumSim;
use std::ffi::{CStr, CString};
use std::rc::Rc;

fn show(v: &(Vec<(BigUint, C)>, usize)) -> String {
    let mut o = format!("{}:", v.1);
    for (i, a) in &v.0 {
        o += &format!(" {i}={:.9}{:+.9}i", a.re + 0.0, a.im + 0.0);
    }
    o
}
fn snap() -> String {
    show(&capture_quantum_state())
}
unsafe fn take(s: *const CString) -> String {
    let t = CStr::from_ptr(__quantum__rt__string_get_data(s)).to_string_lossy().into_owned();
    __quantum__rt__string_update_reference_count(s, -1);
    t
}
fn out() -> String {
    String::from_utf8_lossy(&drain()).into_owned()
}

/// A program; the argument (0 or 1) selects its data, so that two threads running the same program work on different values.
type Prog = fn(usize) -> Vec<String>;

fn gates(k: usize) -> Vec<String> {
    let a = qarr(&[k, 1 - k]);
    __quantum__qis__h__body(q(k));
    __quantum__qis__ry__body(0.4 + k as f64, q(1 - k));
    unsafe {
        __quantum__qis__x__ctl(a, q(2));
        let t = tuple_of(RotArgs { theta: 0.3 + k as f64, qubit: q(2) });
        __quantum__qis__ry__ctl(a, t);
        __quantum__rt__tuple_update_reference_count(t, -1);
    }
    drop_arr(a);
    __quantum__qis__swap__body(q(0), q(2));
    vec![snap()]
}
fn joint(k: usize) -> Vec<String> {
    let (p, a) = (parr(if k == 0 { &[P::X, P::Y] } else { &[P::Y, P::Z, P::X] }), qarr(if k == 0 { &[1, 0] } else { &[0, 2, 1] }));
    __quantum__qis__rx__body(0.6, q(1));
    __quantum__qis__ry__body(1.1, q(0));
    let r = unsafe { __quantum__qis__measure__body(p, a) };
    drop_arr(p);
    drop_arr(a);
    vec![format!("{r:?}"), snap()]
}
fn results(k: usize) -> Vec<String> {
    let mut v = vec![];
    __quantum__qis__ry__body(1.0, q(k));
    __quantum__qis__mz__body(q(k), q(2 * k));
    __quantum__rt__write_result(k == 0, q(1 + 66 * k));
    __quantum__qis__mresetz__body(q(k), q(3));
    for r in 0..4 {
        v.push(format!("{}", __quantum__qis__read_result__body(q(r))));
        let c = CString::new(format!("tag{k}.{r}")).unwrap();
        unsafe { __quantum__rt__result_record_output(q(r), c.as_ptr().cast_mut()) };
    }
    v.push(out());
    v
}
fn exps(k: usize) -> Vec<String> {
    let (p, a, c) = (parr(if k == 0 { &[P::X, P::Z] } else { &[P::Y, P::Y] }), qarr(if k == 0 { &[0, 1] } else { &[2, 0] }), qarr(&[if k == 0 { 2 } else { 1 }]));
    __quantum__qis__h__body(q(if k == 0 { 2 } else { 1 }));
    unsafe {
        __quantum__qis__exp__body(p, 0.7 + k as f64, a);
        let t = tuple_of(ExpArgs { paulis: p, theta: 0.2 + k as f64, qubits: a });
        __quantum__qis__exp__ctl(c, t);
        __quantum__qis__exp__ctladj(c, t);
        __quantum__qis__exp__ctl(c, t);
        __quantum__rt__tuple_update_reference_count(t, -1);
    }
    for x in [p, a, c] {
        drop_arr(x);
    }
    vec![snap()]
}
fn rctl(k: usize) -> Vec<String> {
    let c = qarr(&[k]);
    __quantum__qis__h__body(q(k));
    unsafe {
        for p in [P::I, P::Y] {
            let t = tuple_of(PRotArgs { pauli: pauli(p), theta: 0.9 - k as f64, qubit: q(2) });
            __quantum__qis__r__ctl(c, t);
            __quantum__qis__r__ctladj(c, t);
            __quantum__qis__r__ctl(c, t);
            __quantum__rt__tuple_update_reference_count(t, -1);
        }
    }
    drop_arr(c);
    vec![snap()]
}
fn dump(k: usize) -> Vec<String> {
    __quantum__rt__write_result(true, q(k));
    __quantum__qis__h__body(q(k));
    __quantum__qis__cx__body(q(k), q(2));
    __quantum__qis__dumpmachine__body(std::ptr::null_mut());
    let s = unsafe { rt_string(if k == 0 { b"first" } else { b"second" }) };
    unsafe {
        __quantum__rt__message(s);
        __quantum__rt__string_update_reference_count(s, -1);
    }
    vec![out()]
}
fn texts(k: usize) -> Vec<String> {
    unsafe {
        let (a, b) = (rt_string(if k == 0 { b"left" } else { b"LEFT-HAND" }), __quantum__rt__double_to_string(1.5 + k as f64));
        let c = __quantum__rt__string_concatenate(a, b);
        let i = __quantum__rt__bigint_create_i64(1_234_567_890_123 + k as i64);
        let j = __quantum__rt__bigint_power(i, 3);
        let d = __quantum__rt__bigint_divide(j, i);
        let mut v = vec![take(a), take(b), take(c), take(__quantum__rt__bigint_to_string(j)), take(__quantum__rt__bigint_to_string(d))];
        v.push(take(__quantum__rt__pauli_to_string(pauli([P::X, P::Y][k]))));
        v.push(take(__quantum__rt__int_to_string(-5 - k as i64)));
        v.push(take(__quantum__rt__qubit_to_string(q(k))));
        for b in [i, j, d] {
            __quantum__rt__bigint_update_reference_count(b, -1);
        }
        v
    }
}
extern "C" fn seen(_c: *mut u8, args: *mut u8, res: *mut u8) {
    unsafe {
        let a = *args.cast::<*const QirArray>();
        let n = __quantum__rt__array_get_size_1d(a);
        *res.cast::<u64>() = (0..n).fold(n, |s, k| s * 31 + *__quantum__rt__array_get_element_ptr_1d(a, k).cast::<u64>());
    }
}
fn objects(k: usize) -> Vec<String> {
    unsafe {
        let ids: Vec<usize> = (0..6).map(|j| 10 * k + j).collect();
        let a = qarr(&ids);
        let s = quantum__rt__array_slice_1d(a, Range { start: k as i64, step: 2, end: 5 });
        let c = __quantum__rt__array_concatenate(s, a);
        let x = __quantum__rt__array_copy(c, true);
        let n = __quantum__rt__array_get_size_1d(x);
        let v: Vec<u64> = (0..n).map(|j| *__quantum__rt__array_get_element_ptr_1d(x, j).cast::<u64>()).collect();
        // a callable with two levels of controls
        let mut table: [*mut u8; 4] = [seen as *mut u8; 4];
        let f = __quantum__rt__callable_create(table.as_mut_ptr(), std::ptr::null_mut(), std::ptr::null_mut());
        __quantum__rt__callable_make_controlled(f);
        __quantum__rt__callable_make_controlled(f);
        let inner = tuple_of((s, 7 + k));
        let outer = tuple_of((a, inner));
        let mut r = 0u64;
        __quantum__rt__callable_invoke(f, outer.cast(), std::ptr::from_mut(&mut r).cast());
        __quantum__rt__tuple_update_reference_count(inner, -1);
        __quantum__rt__tuple_update_reference_count(outer, -1);
        __quantum__rt__callable_update_reference_count(f, -1);
        for y in [a, s, c, x] {
            drop_arr(y);
        }
        vec![format!("{v:?}"), format!("{r}")]
    }
}
fn lives(k: usize) -> Vec<String> {
    rand::verif_script::clear();
    let mut v = vec![];
    set_rng_seed(11 + k as u64);
    let a = __quantum__rt__qubit_allocate_array(2 + k as u64);
    let b = __quantum__rt__qubit_allocate();
    __quantum__qis__h__body(b);
    v.push(format!("{b:?} {:?}", __quantum__qis__m__body(b)));
    unsafe { __quantum__rt__qubit_release_array(a) };
    v.push(snap());
    __quantum__rt__initialize(std::ptr::null_mut());
    for j in 0..4 {
        __quantum__qis__h__body(q(j));
        v.push(format!("{:?}", __quantum__qis__m__body(q(j))));
    }
    v.push(snap());
    rand::verif_script::set(&[0]);
    v
}
fn asserts(k: usize) -> Vec<String> {
    let mut v = vec![];
    __quantum__qis__ry__body(0.8, q(k));
    let p = (0.4f64).sin().powi(2);
    let call = |ps: &[P], qs: &[usize], pr: f64, m: &[u8]| guarded(|| assert_call(ps, qs, true, pr, 1e-6, m, None));
    v.push(format!("{:?}", call(&[P::Z, P::I], &[k, 1 - k], p, b"right")));
    v.push(format!("{:?}", call(&[P::X, P::Z], &[1 - k, k], 0.5, b"right")));
    v.push(format!("{:?}", call(&[P::Y, P::Z], &[2, 1 - k], 0.5, if k == 0 { b"a message" } else { b"AND ANOTHER" })));
    v.push(snap());
    v
}
fn simulator(k: usize) -> Vec<String> {
    let mut s = QuantumSim::new(None);
    let n: Vec<usize> = (0..3).map(|_| s.allocate()).collect();
    s.h(n[0]);
    s.mcry(&[n[0]], 0.4 + k as f64, n[1]);
    s.mch(&[n[1]], n[2]);
    let m = crate::ops::arr(&[vec![C::new(0.6, 0.0), C::new(-0.8, 0.0)], vec![C::new(0.8, 0.0), C::new(0.6, 0.0)]]);
    let _ = s.apply(&m, &[n[k]], if k == 0 { None } else { Some(&n[2..3]) });
    let mut v = vec![format!("{:.9}", s.joint_probability(&[n[0], n[2]])), s.dump(), format!("{}", s.qubit_is_zero(n[2]))];
    v.push(format!("{}", s.joint_measure(&[n[k], n[2]])));
    s.swap_qubit_ids(n[k], n[2]);
    s.release(n[1 - k]);
    v.push(show(&s.get_state()));
    v
}

fn programs() -> Vec<(&'static str, Prog)> {
    vec![
        ("gates", gates),
        ("joint", joint),
        ("results", results),
        ("exps", exps),
        ("rctl", rctl),
        ("dump", dump),
        ("texts", texts),
        ("objects", objects),
        ("lives", lives),
        ("asserts", asserts),
        ("simulator", simulator),
    ]
}
/// As a thread of its own runs it.
fn whole(p: Prog, k: usize) -> Vec<String> {
    OUTPUT.with(|x| x.borrow_mut().use_std_out(false));
    rand::verif_script::set(&[0]);
    guarded(|| p(k)).unwrap_or_else(|e| vec![format!("panic: {e}")])
}

pub fn c17(t: Tier) -> Vec<Job> {
    let progs = Rc::new(programs());
    let np = progs.len();
    // what each observes alone, in a process of its own, and its number of points of either kind
    struct Alone {
        of: Vec<[(Vec<String>, u64, u64); 2]>,
        at: Vec<usize>,
    }
    let get = |progs: &[(&'static str, Prog)]| -> Alone {
        let each = |f: fn(Prog, usize, &[usize]) -> String, at: &[usize]| -> Vec<crate::engine::Forked> {
            let mut v: Vec<Box<dyn FnOnce()>> = vec![];
            for (_, p) in progs {
                let p = *p;
                for k in 0..2 {
                    let at = at.to_vec();
                    v.push(Box::new(move || print!("{}", f(p, k, &at))));
                }
            }
            crate::engine::in_forks(std::time::Duration::from_secs(120), v)
        };
        // the instructions that touch shared memory
        let step = |p: Prog, k: usize, _: &[usize]| {
            let twice = || {
                whole(p, k);
                whole(p, k);
            };
            serde_json::to_string(&sched::profile(twice)).unwrap()
        };
        let mut at: Vec<usize> = each(step, &[]).iter().flat_map(|f| serde_json::from_slice::<Vec<usize>>(&f.out).unwrap_or_default()).collect();
        at.sort_unstable();
        at.dedup();
        if std::env::var_os("MC_SHARED").is_some() {
            eprintln!("shared memory is accessed at {:x?}", at.iter().map(|a| a - sched::base()).collect::<Vec<_>>());
        }
        let calls = each(
            |p, k, _| {
                let (r, n) = sched::run([&|| whole(p, k), &Vec::new], &[], None);
                serde_json::to_string(&(&r[0], n[0])).unwrap()
            },
            &[],
        );
        let shared = each(|p, k, at| serde_json::to_string(&sched::run([&|| whole(p, k), &Vec::new], &[], Some(at)).1[0]).unwrap(), &at);
        let of = calls
            .chunks(2)
            .zip(shared.chunks(2))
            .map(|(c, s)| {
                [0, 1].map(|k| {
                    let (r, n) = serde_json::from_slice(&c[k].out).unwrap_or_else(|e| (vec![format!("alone: {:?} {e}", c[k].end)], 0));
                    (r, n, serde_json::from_slice(&s[k].out).unwrap_or(0))
                })
            })
            .collect();
        Alone { of, at }
    };
    let alone = Rc::new(get(&progs));
    let mk = |name: &str, plans: Vec<Vec<u64>>, shared: bool| -> Job {
        let (progs, alone) = (progs.clone(), alone.clone());
        let n = plans.len();
        job(name, (np * np * n) as u64, move |i, ctx| {
            let i = i as usize;
            let (a, b, plan) = (i / n / np, i / n % np, &plans[i % n]);
            let w = &alone;
            let points = |p: usize, k: usize| if shared { w.of[p][k].2 } else { w.of[p][k].1 };
            // (a plan that preempts after the end is one that does not preempt)
            if plan[0] > points(a, 0) + 1 || plan.get(1).is_some_and(|x| *x > points(b, 1) + 1) {
                return Ok(());
            }
            ctx.log(|| {
                let what = if shared { "accesses to shared memory" } else { "allocations, deallocations and draws" };
                format!("{} preempted by {} after {plan:?} {what}", progs[a].0, progs[b].0)
            });
            let (pa, pb) = (progs[a].1, progs[b].1);
            let (got, points) = sched::run([&|| whole(pa, 0), &|| whole(pb, 1)], plan, shared.then_some(&w.at));
            ctx.transitions += points[0] + points[1];
            ctx.traces += 2;
            ctx.state(hash_str(&format!("{a}.{b}.{plan:?}{shared}")));
            for (k, (p, g)) in [(a, &got[0]), (b, &got[1])].into_iter().enumerate() {
                if *g != w.of[p][k].0 {
                    return Err(format!("thread {k} running {:?} observes {g:?}; alone it observes {:?}", progs[p].0, w.of[p][k].0));
                }
            }
            Ok(())
        })
    };
    let most: u64 = 256;
    let mut v = vec![mk("one-preemption", (1..=most).map(|k| vec![k]).collect(), false)];
    let (sa, sb) = t.pick((9, 11), (1, 1));
    v.push(mk("two-preemptions", (1..=most).step_by(sa).flat_map(|k| (1..=most).step_by(sb).map(move |m| vec![k, m])).collect(), false));
    v.push(mk("turns", (1..=t.pick(12, 40)).flat_map(|k| (1..=t.pick(12, 40)).map(move |m| [k, m].repeat(4))).collect(), false));
    let most: u64 = t.pick(400, 2000);
    v.push(mk("one-preemption-at-shared-memory", (1..=most).map(|k| vec![k]).collect(), true));
    v.push(mk("two-preemptions-at-shared-memory", (1..=t.pick(40, 120)).flat_map(|k| (1..=t.pick(40, 120)).map(move |m| vec![k, m])).collect(), true));
    v
}
