//! Arguments are only borrowed, and nothing is left behind (C32).

use crate::alloc::{self, tracked};
use crate::engine::{hash_str, job, Ctx, Job, Res, Tier};
use crate::p_backend::{calls, drain, flat, fresh, parr, q, qarr, rt_string, tuple_of, AssertArgs, Call, ExpArgs, PRotArgs, RotArgs, F};
use crate::refmodel::P;
use num_bigint::BigInt;
use qir_backend::legacy_output;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::{c_void, CStr, CString};
use std::rc::Rc;

type Tup = *mut *const Vec<u8>;
type Big = *const BigInt;
type Str = *const CString;
type Arr = *const QirArray;

/// The objects a program created and lends to a call.
#[derive(Default)]
struct Loans {
    arrs: Vec<(Arr, Vec<u8>)>,
    tups: Vec<(Tup, Vec<u64>)>,
    strs: Vec<(Str, Vec<u8>)>,
    bigs: Vec<(Big, String)>,
}
fn bytes(a: Arr, es: usize) -> Vec<u8> {
    unsafe {
        let n = __quantum__rt__array_get_size_1d(a);
        (0..n)
            .flat_map(|k| std::slice::from_raw_parts(__quantum__rt__array_get_element_ptr_1d(a, k).cast::<u8>(), es).to_vec())
            .collect()
    }
}
fn text(s: Str) -> Vec<u8> {
    unsafe { CStr::from_ptr(__quantum__rt__string_get_data(s)).to_bytes().to_vec() }
}
fn digits(b: Big) -> String {
    unsafe {
        let s = __quantum__rt__bigint_to_string(b);
        let t = String::from_utf8(text(s)).unwrap();
        __quantum__rt__string_update_reference_count(s, -1);
        t
    }
}
impl Loans {
    fn qs(&mut self, ids: &[usize]) -> Arr {
        let a = qarr(ids);
        self.arrs.push((a, bytes(a, 8)));
        a
    }
    fn ps(&mut self, ps: &[P]) -> Arr {
        let a = parr(ps);
        self.arrs.push((a, bytes(a, 1)));
        a
    }
    fn tup<T>(&mut self, v: T) -> Tup {
        unsafe {
            let t = tuple_of(v);
            let w = std::slice::from_raw_parts(t.cast::<u64>(), std::mem::size_of::<T>() / 8).to_vec();
            self.tups.push((t, w));
            t
        }
    }
    fn str(&mut self, s: &str) -> Str {
        let t = unsafe { rt_string(s.as_bytes()) };
        self.strs.push((t, s.as_bytes().to_vec()));
        t
    }
    fn big(&mut self, v: i64) -> Big {
        unsafe {
            let a = __quantum__rt__bigint_create_i64(v);
            // several digits
            let b = __quantum__rt__bigint_multiply(a, a);
            let c = __quantum__rt__bigint_multiply(b, a);
            __quantum__rt__bigint_update_reference_count(a, -1);
            __quantum__rt__bigint_update_reference_count(b, -1);
            self.bigs.push((c, digits(c)));
            c
        }
    }
    /// Every object is as it was, nobody else holds it, and the program's own reference is the last one.
    fn settle(self) -> Res {
        unsafe {
            for (a, want) in self.arrs {
                if !alloc::is_live(a.cast(), 1) {
                    return Err("the call freed an array it was only lent".into());
                }
                let n = __quantum__rt__array_get_size_1d(a) as usize;
                let es = if n == 0 { 1 } else { want.len() / n };
                if bytes(a, es) != want {
                    return Err(format!("the call changed an array it was only lent: {:?}, was {want:?}", bytes(a, es)));
                }
                let b = __quantum__rt__array_copy(a, false);
                if b != a {
                    return Err("the call left an alias count on an array it was only lent".into());
                }
                __quantum__rt__array_update_reference_count(a, -2);
                if alloc::is_live(a.cast(), 1) {
                    return Err("the call kept a reference to an array it was only lent".into());
                }
            }
            for (t, want) in self.tups {
                if !alloc::is_live(t.cast(), 1) {
                    return Err("the call freed a tuple it was only lent".into());
                }
                if std::slice::from_raw_parts(t.cast::<u64>(), want.len()) != &want[..] {
                    return Err("the call changed a tuple it was only lent".into());
                }
                let b = __quantum__rt__tuple_copy(t, false);
                if b != t {
                    return Err("the call left an alias count on a tuple it was only lent".into());
                }
                __quantum__rt__tuple_update_reference_count(t, -2);
                if alloc::is_live(t.cast(), 1) {
                    return Err("the call kept a reference to a tuple it was only lent".into());
                }
            }
            for (s, want) in self.strs {
                if !alloc::is_live(s.cast(), 1) {
                    return Err("the call freed a string it was only lent".into());
                }
                if text(s) != want {
                    return Err("the call changed a string it was only lent".into());
                }
                __quantum__rt__string_update_reference_count(s, -1);
                if alloc::is_live(s.cast(), 1) {
                    return Err("the call kept a reference to a string it was only lent".into());
                }
            }
            for (b, want) in self.bigs {
                if !alloc::is_live(b.cast(), 1) {
                    return Err("the call freed a big integer it was only lent".into());
                }
                if digits(b) != want {
                    return Err("the call changed a big integer it was only lent".into());
                }
                __quantum__rt__bigint_update_reference_count(b, -1);
                if alloc::is_live(b.cast(), 1) {
                    return Err("the call kept a reference to a big integer it was only lent".into());
                }
            }
        }
        Ok(())
    }
}

type Act = (String, Rc<dyn Fn(&mut Loans) -> Res>);

/// The result is a new object with exactly one reference, or one of the arguments with one more.
fn own_str(s: Str) -> Res {
    if !alloc::is_live(s.cast(), 1) {
        return Err("the returned string is not alive".into());
    }
    unsafe { __quantum__rt__string_update_reference_count(s, -1) };
    if alloc::is_live(s.cast(), 1) {
        return Err("the returned string has more than one reference".into());
    }
    Ok(())
}
fn own_big(s: Big) -> Res {
    if !alloc::is_live(s.cast(), 1) {
        return Err("the returned big integer is not alive".into());
    }
    unsafe { __quantum__rt__bigint_update_reference_count(s, -1) };
    if alloc::is_live(s.cast(), 1) {
        return Err("the returned big integer has more than one reference".into());
    }
    Ok(())
}
fn own_arr(s: Arr) -> Res {
    if !alloc::is_live(s.cast(), 1) {
        return Err("the returned array is not alive".into());
    }
    unsafe { __quantum__rt__array_update_reference_count(s, -1) };
    if alloc::is_live(s.cast(), 1) {
        return Err("the returned array has more than one reference".into());
    }
    Ok(())
}

fn gate(c: &Call, l: &mut Loans) {
    let (t, th) = (&c.ts, c.th);
    unsafe {
        match c.i.f {
            F::Ctl(f) => f(l.qs(&c.ctls), q(t[0])),
            F::RotCtl(f) => f(l.qs(&c.ctls), l.tup(RotArgs { theta: th, qubit: q(t[0]) })),
            F::RCtl(f) => {
                // the padding after the Pauli is the caller's as well: make it defined
                let a = l.qs(&c.ctls);
                let g = __quantum__rt__tuple_create(std::mem::size_of::<PRotArgs>() as u64);
                *g.cast::<u64>() = 0;
                (*g.cast::<PRotArgs>()).pauli = crate::p_backend::pauli(c.ps[0]);
                (*g.cast::<PRotArgs>()).theta = th;
                (*g.cast::<PRotArgs>()).qubit = q(t[0]);
                let w = std::slice::from_raw_parts(g.cast::<u64>(), 3).to_vec();
                l.tups.push((g, w));
                f(a, g);
            }
            F::Exp(f) => f(l.ps(&c.ps), th, l.qs(t)),
            F::ExpCtl(f) => {
                let k = l.qs(&c.ctls);
                let (paulis, qubits) = (l.ps(&c.ps), l.qs(t));
                f(k, l.tup(ExpArgs { paulis, theta: th, qubits }));
            }
            _ => c.call(),
        }
    }
}

fn acts() -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for c in calls(&[0, 1, 2], &[0.6], 2, 2) {
        if seen.insert((c.i.name, c.ctls.len(), c.ts.len(), c.ps.iter().map(|p| *p as usize).collect::<Vec<_>>())) {
            v.push((
                c.show(),
                Rc::new(move |l| {
                    gate(&c, l);
                    Ok(())
                }),
            ));
        }
    }
    macro_rules! act {
        ($n:expr, $f:expr) => {
            v.push(($n.to_string(), Rc::new($f)))
        };
    }
    act!("m", |_| {
        let r = __quantum__qis__m__body(q(1));
        __quantum__rt__result_update_reference_count(r, 1);
        let s = __quantum__rt__result_to_string(r);
        __quantum__rt__result_update_reference_count(r, -1);
        own_str(s)
    });
    act!("mz", |_| {
        __quantum__qis__mz__body(q(0), q(3));
        let _ = __quantum__qis__read_result__body(q(3));
        let _ = __quantum__rt__read_result(q(5));
        Ok(())
    });
    act!("mresetz", |_| {
        __quantum__qis__mresetz__body(q(2), q(0));
        Ok(())
    });
    act!("reset", |_| {
        __quantum__qis__reset__body(q(0));
        Ok(())
    });
    act!("write_result", |_| {
        __quantum__rt__write_result(true, q(9));
        Ok(())
    });
    for (ps, ids) in [(vec![P::X, P::Z], vec![0, 2]), (vec![P::Y], vec![1]), (vec![P::I, P::Z], vec![0, 1]), (vec![], vec![]), (vec![P::X, P::Y, P::Z], vec![2, 0, 1])] {
        let (ps2, ids2) = (ps.clone(), ids.clone());
        act!(format!("measure {ps:?}"), move |l: &mut Loans| {
            let _ = unsafe { __quantum__qis__measure__body(l.ps(&ps), l.qs(&ids)) };
            Ok(())
        });
        let (ps, ids) = (ps2.clone(), ids2.clone());
        act!(format!("assertmeasurementprobability {ps:?}"), move |l: &mut Loans| {
            unsafe {
                let (p, a, m) = (l.ps(&ps), l.qs(&ids), l.str("assert"));
                __quantum__qis__assertmeasurementprobability__body(p, a, __quantum__rt__result_get_one(), 0.5, m, 0.75);
            }
            Ok(())
        });
        let (ps, ids) = (ps2, ids2);
        act!(format!("assertmeasurementprobability ctl {ps:?}"), move |l: &mut Loans| {
            unsafe {
                let (p, a, m) = (l.ps(&ps), l.qs(&ids), l.str("assert"));
                let k = l.qs(&[7]);
                let t = l.tup(AssertArgs { paulis: p, qubits: a, result: __quantum__rt__result_get_zero(), prob: 0.5, msg: m, tol: 0.75 });
                __quantum__qis__assertmeasurementprobability__ctl(k, t);
            }
            Ok(())
        });
    }
    act!("qubit_allocate/release", |_| {
        let a = __quantum__rt__qubit_allocate();
        __quantum__qis__h__body(a);
        let s = __quantum__rt__qubit_to_string(a);
        __quantum__rt__qubit_release(a);
        own_str(s)
    });
    for n in [0u64, 1, 3] {
        act!(format!("qubit_allocate_array({n})/release"), move |_: &mut Loans| unsafe {
            let a = __quantum__rt__qubit_allocate_array(n);
            for k in 0..n {
                __quantum__qis__h__body(*__quantum__rt__array_get_element_ptr_1d(a, k).cast::<*mut c_void>());
            }
            __quantum__rt__qubit_release_array(a);
            if alloc::is_live(a.cast(), 1) {
                return Err("the released qubit array is still alive".into());
            }
            Ok(())
        });
    }
    act!("dumpmachine", |_| {
        __quantum__qis__dumpmachine__body(std::ptr::null_mut());
        Ok(())
    });
    act!("capture_quantum_state", |_| {
        drop(capture_quantum_state());
        Ok(())
    });
    act!("qubit_is_zero", |_| {
        let _ = qubit_is_zero(q(1));
        Ok(())
    });
    act!("record outputs", |_| unsafe {
        let tag = CString::new("tag").unwrap();
        for t in [std::ptr::null_mut(), tag.as_ptr().cast_mut()] {
            __quantum__rt__array_record_output(2, t);
            __quantum__rt__tuple_record_output(2, t);
            __quantum__rt__int_record_output(-3, t);
            __quantum__rt__double_record_output(0.25, t);
            __quantum__rt__bool_record_output(true, t);
            __quantum__rt__result_record_output(q(1), t);
        }
        Ok(())
    });
    act!("record outputs (legacy)", |_| {
        use qir_stdlib::output_recording::legacy as old;
        old::__quantum__rt__array_start_record_output();
        old::__quantum__rt__array_end_record_output();
        old::__quantum__rt__tuple_start_record_output();
        old::__quantum__rt__tuple_end_record_output();
        old::__quantum__rt__int_record_output(1);
        old::__quantum__rt__double_record_output(1.5);
        old::__quantum__rt__bool_record_output(false);
        legacy_output::__quantum__rt__result_record_output(q(0));
        Ok(())
    });
    act!("message", |l: &mut Loans| unsafe {
        __quantum__rt__message(l.str("hello"));
        qir_stdlib::output_recording::__quantum__rt__message_record_output(l.str("again"));
        Ok(())
    });
    // the neutral elements, for which returning the argument itself would be correct in value
    for (x, y) in [("", ""), ("left", ""), ("", "right")] {
        act!(format!("string_concatenate {x:?} {y:?}"), move |l: &mut Loans| unsafe {
            let (a, b) = (l.str(x), l.str(y));
            own_str(__quantum__rt__string_concatenate(a, b))?;
            own_str(__quantum__rt__string_concatenate(b, a))
        });
    }
    for k in [0i64, 1, -1] {
        act!(format!("bigint operations with {k}"), move |l: &mut Loans| unsafe {
            let (a, b) = (l.big(9_999_999), l.big(k));
            for f in [__quantum__rt__bigint_add, __quantum__rt__bigint_subtract, __quantum__rt__bigint_multiply, __quantum__rt__bigint_bitand, __quantum__rt__bigint_bitor, __quantum__rt__bigint_bitxor] {
                own_big(f(a, b))?;
                own_big(f(b, a))?;
                own_big(f(b, b))?;
            }
            own_big(__quantum__rt__bigint_divide(b, a))?;
            own_big(__quantum__rt__bigint_modulus(b, a))?;
            if k != 0 {
                own_big(__quantum__rt__bigint_divide(a, b))?;
                own_big(__quantum__rt__bigint_modulus(a, b))?;
            }
            own_big(__quantum__rt__bigint_negate(b))?;
            own_big(__quantum__rt__bigint_power(b, 1))?;
            own_big(__quantum__rt__bigint_power(b, 5))?;
            own_big(__quantum__rt__bigint_shiftleft(b, 3))?;
            own_big(__quantum__rt__bigint_shiftright(b, 3))
        });
    }
    // strings
    act!("string_concatenate", |l: &mut Loans| unsafe {
        let (a, b) = (l.str("left"), l.str("right"));
        let _ = (__quantum__rt__string_equal(a, b), __quantum__rt__string_get_length(a));
        own_str(__quantum__rt__string_concatenate(a, b))?;
        own_str(__quantum__rt__string_concatenate(a, a))
    });
    act!("to_string", |l: &mut Loans| unsafe {
        own_str(__quantum__rt__int_to_string(-7))?;
        own_str(__quantum__rt__double_to_string(2.5))?;
        own_str(__quantum__rt__double_to_string(3.0))?;
        own_str(__quantum__rt__bool_to_string(true))?;
        for p in [Pauli::I, Pauli::X, Pauli::Y, Pauli::Z] {
            own_str(__quantum__rt__pauli_to_string(p))?;
        }
        own_str(__quantum__rt__bigint_to_string(l.big(77)))?;
        own_str(quantum__rt__range_to_string(Range { start: 1, step: 2, end: 9 }))
    });
    // arrays
    for (x, y) in [(vec![0usize, 1], vec![2usize]), (vec![], vec![1, 2]), (vec![3], vec![]), (vec![], vec![])] {
        act!(format!("array_concatenate {x:?} {y:?}"), move |l: &mut Loans| unsafe {
            let (a, b) = (l.qs(&x), l.qs(&y));
            own_arr(__quantum__rt__array_concatenate(a, b))?;
            own_arr(__quantum__rt__array_concatenate(b, b))
        });
    }
    act!("array_copy", |l: &mut Loans| unsafe {
        let a = l.qs(&[0, 1, 2]);
        own_arr(__quantum__rt__array_copy(a, true))?;
        __quantum__rt__array_update_alias_count(a, 1);
        let c = __quantum__rt__array_copy(a, false);
        __quantum__rt__array_update_alias_count(a, -1);
        own_arr(c)
    });
    for r in [Range { start: 0, step: 1, end: 2 }, Range { start: 2, step: -1, end: 0 }, Range { start: 1, step: 1, end: 0 }] {
        let (s, p, e) = (r.start, r.step, r.end);
        act!(format!("array_slice_1d {s}..{p}..{e}"), move |l: &mut Loans| unsafe {
            own_arr(quantum__rt__array_slice_1d(l.qs(&[5, 6, 7]), Range { start: s, step: p, end: e }))
        });
    }
    act!("tuple_copy", |l: &mut Loans| unsafe {
        let t = l.tup([1u64, 2, 3]);
        let c = __quantum__rt__tuple_copy(t, true);
        __quantum__rt__tuple_update_reference_count(c, -1);
        if alloc::is_live(c.cast(), 1) {
            return Err("the copied tuple has more than one reference".into());
        }
        Ok(())
    });
    // big integers
    type Bin = unsafe extern "C" fn(Big, Big) -> Big;
    let bins: [(&str, Bin); 8] = [
        ("add", __quantum__rt__bigint_add),
        ("subtract", __quantum__rt__bigint_subtract),
        ("multiply", __quantum__rt__bigint_multiply),
        ("divide", __quantum__rt__bigint_divide),
        ("modulus", __quantum__rt__bigint_modulus),
        ("bitand", __quantum__rt__bigint_bitand),
        ("bitor", __quantum__rt__bigint_bitor),
        ("bitxor", __quantum__rt__bigint_bitxor),
    ];
    for (n, f) in bins {
        act!(format!("bigint_{n}"), move |l: &mut Loans| unsafe {
            let (a, b) = (l.big(9_999_999), l.big(-12_345));
            own_big(f(a, b))?;
            own_big(f(a, a))
        });
    }
    act!("bigint others", |l: &mut Loans| unsafe {
        let (a, b) = (l.big(-9_999_999), l.big(12_345));
        own_big(__quantum__rt__bigint_negate(a))?;
        own_big(__quantum__rt__bigint_bitnot(a))?;
        own_big(__quantum__rt__bigint_power(a, 3))?;
        own_big(__quantum__rt__bigint_power(a, 0))?;
        own_big(__quantum__rt__bigint_power(a, 1))?;
        own_big(__quantum__rt__bigint_shiftleft(a, 70))?;
        own_big(__quantum__rt__bigint_shiftleft(a, 0))?;
        own_big(__quantum__rt__bigint_shiftright(a, 70))?;
        own_big(__quantum__rt__bigint_shiftright(a, 0))?;
        let d = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10];
        own_big(__quantum__rt__bigint_create_array(10, d.as_ptr()))?;
        let _ = (
            __quantum__rt__bigint_equal(a, b),
            __quantum__rt__bigint_greater(a, b),
            __quantum__rt__bigint_greater_eq(a, b),
            __quantum__rt__bigint_get_length(a),
        );
        Ok(())
    });
    act!("random draws", |_| {
        let _ = qir_stdlib::math::__quantum__qis__drawrandomint__body(1, 6);
        let _ = qir_stdlib::math::__quantum__qis__drawrandomdouble__body(0.0, 1.0);
        Ok(())
    });
    v
}

fn run(acts: &[&Act], ctx: &mut Ctx) -> Res {
    for a in acts {
        ctx.log(|| a.0.clone());
    }
    ctx.transitions += 3 * acts.len() as u64;
    ctx.traces += 1;
    ctx.state(hash_str(&acts.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join(";")));
    let r = flat(fresh(|| {
        alloc::begin();
        let body = || -> Res {
            let mut held = vec![];
            for _ in 0..3 {
                rand::verif_script::set(&[0]);
                tracked(|| -> Res {
                    __quantum__rt__initialize(std::ptr::null_mut());
                    // the statically referenced qubits exist before any dynamic one
                    __quantum__qis__h__body(q(2));
                    for a in acts {
                        let mut l = Loans::default();
                        (a.1)(&mut l).and_then(|()| l.settle()).map_err(|e| format!("{}: {e}", a.0))?;
                    }
                    __quantum__rt__initialize(std::ptr::null_mut());
                    drop(drain());
                    Ok(())
                })
                .0?;
                held.push(alloc::live_total());
            }
            if held[2] > held[1] {
                return Err(format!("every run of the program leaves {} block(s) of memory behind", held[2] - held[1]));
            }
            Ok(())
        };
        let r = body();
        let h = alloc::end();
        r?;
        if let Some(p) = h.problems.first() {
            return Err(p.clone());
        }
        Ok(())
    }));
    r
}

pub fn c32(t: Tier) -> Vec<Job> {
    let a = Rc::new(acts());
    let n = a.len() as u64;
    (1..=t.pick(2, 3))
        .map(|d| {
            let a = a.clone();
            job(format!("borrowed-arguments/depth{d}"), n.pow(d), move |i, ctx| {
                let mut i = i;
                let mut w = vec![];
                for _ in 0..d {
                    w.push(&a[(i % n) as usize]);
                    i /= n;
                }
                w.reverse();
                run(&w, ctx)
            })
        })
        .collect()
}
