//! C30: binding of a program's declared functions.

use crate::engine::{guarded, hash_str, in_fork, job, Ctx, Job, Res, Tier};
use crate::prog::{arg_ty, functions, index, k2, ret_ty, Fun, Op, Prog, A, T};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

pub struct Env {
    pub funs: Vec<Fun>,
    pub index: HashMap<&'static str, usize>,
}
pub fn env() -> Rc<Env> {
    let funs = functions();
    let index = index(&funs);
    Rc::new(Env { funs, index })
}

pub const SEED: u64 = 20;
const SCRIPT: [u64; 3] = [0x9999_9999_9999_9999, 0x2222_2222_2222_2222, 0xd000_0000_0000_0001];

/// Runs a module through the runner; records are buffered and returned with the runner's own output.
pub fn drain() -> Vec<u8> {
    runner::OUTPUT.with(|o| o.borrow_mut().drain().as_slice().to_vec())
}

/// Runs a module through the runner.
pub fn run_ir(ir: &str, entry: Option<&str>, shots: u32, seed: Option<u64>) -> (Result<(), String>, String) {
    runner::OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(false);
        o.drain();
    });
    let mut out = Vec::new();
    let r = runner::run_bytes(ir.as_bytes(), entry, shots, seed, &mut out);
    drain();
    (r, String::from_utf8_lossy(&out).into_owned())
}

/// What the same program does when its functions are called directly.
fn run_direct(p: &Prog) -> String {
    runner::OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(false);
        o.drain();
    });
    qir_backend::set_rng_seed(SEED);
    qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
    unsafe { p.run() };
    let o = drain();
    format!("START\nMETADATA\tentry_point\n{}END\t0\n", String::from_utf8_lossy(&o))
}

fn script() {
    rand::verif_script::set(&SCRIPT);
}

// ---------------------------------------------------------------- argument domains

fn domain(f: &Fun, k: char) -> usize {
    let create = f.name.ends_with("string_create") || f.name.ends_with("bigint_create_array");
    match k {
        'Q' => 3,
        'o' | 'c' | 'R' | 'M' | 'b' | 'd' | 'A' | 'q' | 't' | 'C' | 'g' | 'u' | 'w' | 'U' | 'a' | 'j' => 2,
        'x' if create => 3,
        'L' | 'i' | 'H' | 'K' | 'm' | 'n' | 'W' | 'S' | 'B' | 'p' | 'e' => 3,
        'h' => 4,
        'z' => 8,
        'P' => 4,
        's' => 2,
        'D' if f.name.contains("drawrandom") => 3,
        'D' => 6,
        _ => 1,
    }
}
/// All argument choices of a function, as digits per parameter.
pub fn choices(f: &Fun) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for k in f.args.chars() {
        let n = domain(f, k);
        v = v.into_iter().flat_map(|c| (0..n).map(move |d| [c.clone(), vec![d]].concat())).collect();
    }
    v.retain(|c| {
        let q: Vec<usize> = f.args.chars().zip(c).filter(|(k, _)| *k == 'Q').map(|(_, d)| *d).collect();
        let distinct = q.iter().enumerate().all(|(i, a)| !q[..i].contains(a));
        let draws = !f.name.contains("drawrandom") || [-5.0, 0.0, 3.0][c[0]] <= [-5.0, 0.0, 3.0][c[1]];
        distinct && draws
    });
    v
}

fn i64_array(p: &mut Prog, v: &[i64]) -> A {
    let a = p.call("array_create_1d", vec![A::W(8), A::L(v.len() as i64)]);
    for (i, x) in v.iter().enumerate() {
        let e = p.call("array_get_element_ptr_1d", vec![a, A::L(i as i64)]);
        p.store(e, 0, A::L(*x));
    }
    a
}
fn qubit_array(p: &mut Prog, v: &[u64]) -> A {
    i64_array(p, &v.iter().map(|x| *x as i64).collect::<Vec<_>>())
}
fn pauli_array(p: &mut Prog, v: &[u8]) -> A {
    let a = p.call("array_create_1d", vec![A::W(1), A::L(v.len() as i64)]);
    for (i, x) in v.iter().enumerate() {
        let e = p.call("array_get_element_ptr_1d", vec![a, A::L(i as i64)]);
        p.store(e, 0, A::P(*x));
    }
    a
}
fn tuple(p: &mut Prog, v: &[A]) -> A {
    let t = p.call("tuple_create", vec![A::L(8 * v.len() as i64)]);
    for (i, x) in v.iter().enumerate() {
        p.store(t, 8 * i as i64, *x);
    }
    t
}
const PAULIS: [&[u8]; 3] = [&[1, 3], &[2, 0], &[3, 3]];
const ANGLE: [f64; 2] = [0.3, -1.7];
const DOUBLES: [f64; 6] = [0.3, -1.7, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
const STR: [&str; 3] = ["ab", "", "x\u{1}y"];

fn build(p: &mut Prog, f: &Fun, k: char, d: usize) -> A {
    match k {
        'Q' => A::Id(d as u64),
        'o' => A::Id(d as u64),
        'c' => qubit_array(p, [&[2u64] as &[u64], &[]][d]),
        'R' => A::Id([1, 0][d]),
        'M' => p.call(["result_get_one", "result_get_zero"][d], vec![]),
        'L' => A::L([-5, 0, 3][d]),
        'i' => A::L([1, 0, 2][d]),
        'H' => A::L([5, 0, 1][d]),
        'K' => A::W([3, 0, 1][d]),
        'U' => A::L([16, 24][d]),
        'n' => A::L([3, 0, 1][d]),
        's' => A::W([8, 1][d]),
        'm' => A::W([3, 1, 2][d]),
        'W' => A::W([1, 0, 2][d]),
        'w' => A::W([1, 0][d]),
        'b' => A::B([true, false][d]),
        'D' if f.name.contains("drawrandom") => A::D([-5.0, 0.0, 3.0][d]),
        'D' => A::D(DOUBLES[d]),
        'd' => A::D(ANGLE[d]),
        'P' => A::P([1, 0, 2, 3][d]),
        '0' => A::D(0.5),
        '1' => A::D(1.0),
        'S' => p.call("string_create", vec![A::G(STR[d])]),
        'B' => p.call("bigint_create_i64", vec![A::L([-7, 5, 1 << 40][d])]),
        'A' => i64_array(p, [&[1i64, 2, 3] as &[i64], &[]][d]),
        'V' => i64_array(p, &[10, 20, 30]),
        'p' => pauli_array(p, PAULIS[d]),
        'q' => qubit_array(p, [&[0u64, 1], &[2, 0]][d]),
        'T' => tuple(p, &[A::L(77), A::L(88)]),
        'h' => tuple(p, &[A::D(ANGLE[d % 2]), A::Id(d as u64 / 2)]),
        'z' => {
            let t = tuple(p, &[A::L(0), A::D(ANGLE[d % 2]), A::Id(1)]);
            p.store(t, 0, A::P([1, 0, 2, 3][d / 2]));
            t
        }
        'e' => {
            let (a, q) = (pauli_array(p, PAULIS[d]), qubit_array(p, &[1, 0]));
            tuple(p, &[a, A::D(0.3), q])
        }
        'a' => {
            let (a, q) = (pauli_array(p, PAULIS[d]), qubit_array(p, &[1, 0]));
            let m = p.call("result_get_zero", vec![]);
            let s = p.call("string_create", vec![A::G("no")]);
            tuple(p, &[a, q, m, A::D(0.5), s, A::D(1.0)])
        }
        'C' => {
            let cap = if d == 0 { tuple(p, &[A::L(41)]) } else { A::Null };
            p.call("callable_create", vec![A::F("table"), A::F("memory"), cap])
        }
        'k' => A::F("table"),
        'j' => [A::F("memory"), A::Null][d],
        'g' | 'u' => {
            if d == 0 {
                tuple(p, &[A::L(42)])
            } else {
                A::Null
            }
        }
        't' if f.name.ends_with("string_create") => A::G(STR[d]),
        't' => [A::G("tag"), A::Null][d],
        'x' => A::G(["\u{1}\u{7f}\u{2}", "\u{3}\u{4}\u{5}", "\u{7f}\u{7f}\u{7f}"][d]),
        'X' => p.call("qubit_allocate_array", vec![A::L(2)]),
        'Y' => p.call("qubit_allocate", vec![]),
        'N' | '_' => A::Null,
        _ => panic!("{k}"),
    }
}

/// Makes a value visible.
fn show(p: &mut Prog, k: char, a: A, f: &Fun, n: usize) {
    match k {
        'v' => {}
        'L' => p.say_int(a),
        'W' => {
            let z = p.push(Op::Zext(a));
            p.say_int(z);
        }
        'b' => p.say_bool(a),
        'D' => {
            let s = p.call("double_to_string", vec![a]);
            p.say(s);
        }
        'S' => p.say(a),
        'B' => {
            let s = p.call("bigint_to_string", vec![a]);
            p.say(s);
        }
        'M' => {
            let one = p.call("result_get_one", vec![]);
            let b = p.call("result_equal", vec![a, one]);
            p.say_bool(b);
        }
        'Q' => {
            let s = p.call("qubit_to_string", vec![a]);
            p.say(s);
        }
        'R' => {
            let b = p.call("read_result", vec![a]);
            p.say_bool(b);
        }
        'A' | 'V' | 'X' => {
            let size = p.call("array_get_size_1d", vec![a]);
            p.say_int(size);
            for i in 0..n {
                let e = p.call("array_get_element_ptr_1d", vec![a, A::L(i as i64)]);
                if k == 'X' {
                    let q = p.load(e, 0, T::P);
                    let s = p.call("qubit_to_string", vec![q]);
                    p.say(s);
                } else {
                    let v = p.load(e, 0, T::C);
                    let v = p.push(Op::Zext(v));
                    p.say_int(v);
                }
            }
        }
        'E' => {
            let v = p.load(a, 0, T::L);
            p.say_int(v);
            p.store(a, 0, A::L(99));
        }
        'x' => {
            let v = p.load(a, 0, T::C);
            let v = p.push(Op::Zext(v));
            p.say_int(v);
        }
        'Z' => {
            for o in [0, 8] {
                let v = p.load(a, o, T::L);
                p.say_int(v);
                p.store(a, o, A::L(5 + o));
                let v = p.load(a, o, T::L);
                p.say_int(v);
            }
        }
        'T' => {
            for o in [0, 8] {
                let v = p.load(a, o, T::L);
                p.say_int(v);
            }
        }
        'C' => {
            let args = if f.name.ends_with("make_controlled") {
                let q = qubit_array(p, &[2]);
                tuple(p, &[q, A::L(1)])
            } else {
                A::Null
            };
            p.call("callable_invoke", vec![a, args, A::Null]);
            p.call("capture_update_reference_count", vec![a, A::W(3)]);
            p.call("capture_update_alias_count", vec![a, A::W(4)]);
        }
        _ => {}
    }
}
fn copy_probe(p: &mut Prog, k: char, a: A) {
    let n = match k {
        'A' | 'V' => "array_copy",
        'T' => "tuple_copy",
        'C' => "callable_copy",
        _ => return,
    };
    let c = p.call(n, vec![a, A::B(false)]);
    let e = p.push(Op::PtrEq(a, c));
    p.say_bool(e);
}

pub fn prepare(p: &mut Prog) {
    p.call("h__body", vec![A::Id(0)]);
    p.call("t__body", vec![A::Id(0)]);
    p.call("cnot__body", vec![A::Id(0), A::Id(1)]);
    p.call("rx__body", vec![A::D(0.7), A::Id(2)]);
    p.call("ry__body", vec![A::D(0.4), A::Id(1)]);
    p.call("cz__body", vec![A::Id(1), A::Id(2)]);
    p.call("rx__body", vec![A::D(1.1), A::Id(1)]);
    p.call("write_result", vec![A::B(true), A::Id(0)]);
}
/// Calls a function and makes everything visible that it may have done.
pub fn probe(p: &mut Prog, fi: usize, c: &[usize], env: &Env) {
    let f = &env.funs[fi];
    let args: Vec<A> = f.args.chars().zip(c).map(|(k, d)| build(p, f, k, *d)).collect();
    let r = p.callf(fi, args.clone());
    let rk = f.ret;
    if f.name.ends_with("_copy") {
        let e = p.push(Op::PtrEq(r, args[0]));
        p.say_bool(e);
    }
    let size = |k: char, d: usize| match k {
        'V' => 3,
        'X' => 2,
        'n' => [3, 0, 1][d],
        'A' => [3, 0][d],
        _ => 0,
    };
    let total = f.args.chars().zip(c).map(|(k, d)| size(k, *d)).sum();
    show(p, rk, r, f, total);
    if rk == 'A' || rk == 'T' || rk == 'C' {
        copy_probe(p, rk, r);
    }
    for ((k, a), d) in f.args.chars().zip(&args).zip(c) {
        let released = k == 'X' || k == 'Y';
        if released {
            let q = p.call("qubit_allocate", vec![]);
            show(p, 'Q', q, f, 0);
        } else if matches!(k, 'A' | 'V' | 'T' | 'C' | 'S' | 'B' | 'R') {
            copy_probe(p, k, *a);
            show(p, k, *a, f, size(k, *d));
        }
    }
    p.call("dumpmachine__body", vec![A::Null]);
}

fn compare(p: &Prog, ctx: &mut Ctx) -> Res {
    let ir = p.ir();
    ctx.log(|| ir.clone());
    script();
    let want = guarded(|| run_direct(p)).map_err(|e| format!("direct call panicked: {e}"))?;
    script();
    let (r, got) = run_ir(&ir, None, 1, Some(SEED));
    rand::verif_script::clear();
    ctx.transitions += p.ops.len() as u64;
    ctx.traces += 1;
    ctx.state(hash_str(&want));
    r.map_err(|e| format!("the runner refused the program: {e}"))?;
    if got != want {
        return Err(format!("the program printed {got:?}, direct calls print {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- declaration-only modules

/// A module that declares the functions with the given numbers of parameters and uses them where control never arrives.
fn declared(list: &[(&str, usize)]) -> String {
    let mut s = String::new();
    let mut body = String::new();
    for (n, k) in list {
        let t = vec!["ptr"; *k].join(", ");
        let a = vec!["ptr null"; *k].join(", ");
        s.push_str(&format!("declare void @{n}({t})\n"));
        body.push_str(&format!("  call void @{n}({a})\n"));
    }
    format!("{s}define void @main(){} {{\nentry:\n  br i1 false, label %never, label %end\nnever:\n{body}  br label %end\nend:\n  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n", " #0")
}
const PLAIN: &str = "START\nMETADATA\tentry_point\nEND\t0\n";

fn names(env: &Env) -> Vec<(&'static str, Vec<usize>)> {
    let mut v: Vec<(&'static str, Vec<usize>)> = vec![];
    for f in &env.funs {
        match v.iter_mut().find(|x| x.0 == f.name) {
            Some(x) => x.1.push(f.args.len()),
            None => v.push((f.name, vec![f.args.len()])),
        }
    }
    v.push(("__quantum__rt__fail", vec![1]));
    v.push(("quantum__rt__array_slice_1d", vec![3]));
    v.push(("quantum__rt__range_to_string", vec![1]));
    v
}

/// Words of an error message that look like function names.
fn named(e: &str) -> Vec<String> {
    let mut v: Vec<String> = e
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .filter(|w| w.contains("quantum__") || w.starts_with("unknown"))
        .map(str::to_string)
        .collect();
    v.sort();
    v.dedup();
    v
}

fn expect_err(list: &[(&str, usize)], culprits: &[&str], ctx: &mut Ctx) -> Res {
    let ir = declared(list);
    ctx.log(|| ir.clone());
    let (r, out) = run_ir(&ir, None, 1, None);
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&ir));
    let Err(e) = r else { return Err(format!("accepted a program that declares {list:?}")) };
    if !out.is_empty() {
        return Err(format!("output {out:?} before the error {e:?}"));
    }
    for c in culprits {
        if !named(&e).iter().any(|n| n == c) {
            return Err(format!("the error {e:?} does not name {c}"));
        }
    }
    Ok(())
}

const DIALECT: [(&str, Option<usize>, Option<usize>); 10] = [
    // name, parameters without labels, parameters with labels
    ("__quantum__rt__array_start_record_output", Some(0), None),
    ("__quantum__rt__array_end_record_output", Some(0), None),
    ("__quantum__rt__tuple_start_record_output", Some(0), None),
    ("__quantum__rt__tuple_end_record_output", Some(0), None),
    ("__quantum__rt__array_record_output", None, Some(2)),
    ("__quantum__rt__tuple_record_output", None, Some(2)),
    ("__quantum__rt__bool_record_output", Some(1), Some(2)),
    ("__quantum__rt__double_record_output", Some(1), Some(2)),
    ("__quantum__rt__int_record_output", Some(1), Some(2)),
    ("__quantum__rt__result_record_output", Some(1), Some(2)),
];

pub fn c30(tier: Tier) -> Vec<Job> {
    let e = env();
    let mut v = vec![];
    // every function with every combination of arguments
    let all: Vec<(usize, Vec<usize>)> = (0..e.funs.len()).flat_map(|f| choices(&e.funs[f]).into_iter().map(move |c| (f, c))).collect();
    {
        let (e, all) = (e.clone(), all.clone());
        v.push(job("call", all.len() as u64, move |i, ctx| {
            let (f, c) = &all[i as usize];
            let mut p = Prog::new(&e.funs, &e.index);
            ctx.log(|| format!("{} with argument choices {c:?}", e.funs[*f].name));
            prepare(&mut p);
            probe(&mut p, *f, c, &e);
            compare(&p, ctx)
        }));
    }
    // every ordered pair of functions in one program
    {
        let e = e.clone();
        let first: Vec<Vec<usize>> = e.funs.iter().map(|f| choices(f)[0].clone()).collect();
        let n = e.funs.len() as u64;
        // the quick tier takes each unordered pair once
        let pairs: Vec<(u64, u64)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| a <= b || tier == Tier::Thorough).collect();
        v.push(job("pair", pairs.len() as u64, move |i, ctx| {
            let (a, b) = (pairs[i as usize].0 as usize, pairs[i as usize].1 as usize);
            let (fa, fb) = (&e.funs[a], &e.funs[b]);
            ctx.log(|| format!("{}({}) and {}({})", fa.name, fa.args, fb.name, fb.args));
            if fa.name == fb.name && a != b {
                return Ok(()); // one name has one signature per program
            }
            let mut p = Prog::new(&e.funs, &e.index);
            prepare(&mut p);
            probe(&mut p, a, &first[a], &e);
            probe(&mut p, b, &first[b], &e);
            let twice = |f: &Fun| f.name == "__quantum__qis__m__body" && f.args == "QR";
            debug_assert!(!twice(fa) || true);
            if fa.legacy.is_some() && fb.legacy.is_some() && fa.legacy != fb.legacy {
                let (r, out) = run_ir(&p.ir(), None, 1, Some(SEED));
                ctx.traces += 1;
                ctx.transitions += 1;
                return match r {
                    Ok(()) => Err("a program that mixes output with and without labels was run".into()),
                    Err(_) if !out.is_empty() => Err(format!("output {out:?} before the error")),
                    Err(_) => Ok(()),
                };
            }
            compare(&p, ctx)
        }));
    }
    // every combination of the output functions' two dialects
    v.push(job("dialect", 16 * 4 * 81, |i, ctx| {
        let mut list = vec![];
        let mut i = i;
        let (mut old, mut new) = (false, false);
        for (n, a, b) in DIALECT {
            let k = 1 + u64::from(a.is_some()) + u64::from(b.is_some());
            let c = i % k;
            i /= k;
            let opts: Vec<(usize, bool)> = a.map(|a| (a, true)).into_iter().chain(b.map(|b| (b, false))).collect();
            if c > 0 {
                let (args, legacy) = opts[c as usize - 1];
                list.push((n, args));
                old |= legacy;
                new |= !legacy;
            }
        }
        if old && new {
            return expect_err(&list, &[], ctx);
        }
        accept(&list, ctx)
    }));
    // every number of parameters
    {
        let ns = names(&e);
        v.push(job("parameters", ns.len() as u64 * 8, move |i, ctx| {
            let (n, ok) = &ns[(i / 8) as usize];
            let k = (i % 8) as usize;
            if ok.contains(&k) {
                accept(&[(n, k)], ctx)
            } else {
                expect_err(&[(n, k)], &[n], ctx)
            }
        }));
    }
    // names near to known ones are unknown
    {
        let ns = names(&e);
        let known: Vec<&'static str> = ns.iter().map(|n| n.0).collect();
        let mut near: Vec<String> = ["malloc", "printf", "main2", "unknown", "llvm", "llvm_", "llvmx", "llvm_memcpy", "llv", "LLVM", "xllvm", "__quantum__", "__quantum__qis__", "__quantum__rt__", "x__body", "x"].map(String::from).to_vec();
        for n in &known {
            near.push(format!("{n}_"));
            near.push(format!("_{n}"));
            near.push(n[..n.len() - 1].to_string());
            near.push(n.to_uppercase());
            for s in ["body", "adj", "ctl", "ctladj"] {
                if let Some((a, _)) = n.rsplit_once("__").filter(|(_, b)| ["body", "adj", "ctl", "ctladj"].contains(b)) {
                    near.push(format!("{a}__{s}"));
                }
            }
        }
        near.sort();
        near.dedup();
        near.retain(|n| !known.contains(&n.as_str()));
        // every name that differs from a known one in one place
        let mut edits: Vec<String> = vec![];
        for n in &known {
            for k in 0..n.len() {
                let (a, b) = (&n[..k], &n[k..]);
                edits.push(format!("{a}{}", &b[1..]));
                edits.push(format!("{a}{}{b}", &b[..1]));
                let c = b.as_bytes()[0] as char;
                edits.push(format!("{a}{}{}", if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }, &b[1..]));
                if tier == Tier::Thorough {
                    edits.push(format!("{a}_{b}"));
                    edits.push(format!("{a}x{}", &b[1..]));
                    if k + 1 < n.len() {
                        edits.push(format!("{a}{}{}{}", &b[1..2], &b[..1], &b[2..]));
                    }
                }
            }
        }
        edits.sort();
        edits.dedup();
        edits.retain(|n| !known.contains(&n.as_str()) && !near.contains(n));
        v.push(job("one-edit", edits.len() as u64, move |i, ctx| {
            let n = edits[i as usize].as_str();
            let ir = declared(&[(n, 1)]);
            ctx.log(|| ir.clone());
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&ir));
            let (r, out) = run_ir(&ir, None, 1, None);
            let Err(e) = r else { return Err(format!("accepted the unknown function {n}")) };
            if !out.is_empty() {
                return Err(format!("output {out:?} before the error"));
            }
            if !words(&e).iter().any(|w| *w == n) {
                return Err(format!("the error {e:?} does not name {n}"));
            }
            Ok(())
        }));
        v.push(job("unknown", near.len() as u64 * 3, move |i, ctx| {
            let n = near[(i / 3) as usize].as_str();
            let list: &[(&str, usize)] = match i % 3 {
                0 => &[(n, 1)],
                1 => &[("__quantum__qis__x__body", 1), (n, 0)],
                _ => &[(n, 2), ("__quantum__rt__int_record_output", 2), ("unknown_too", 0)],
            };
            let mut ir = declared(list);
            ir.push(' ');
            let (r, out) = run_ir(&ir, None, 1, None);
            ctx.log(|| ir.clone());
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&ir));
            let Err(e) = r else { return Err(format!("accepted the unknown function {n}")) };
            if !out.is_empty() {
                return Err(format!("output {out:?} before the error"));
            }
            if !words(&e).iter().any(|w| *w == n) || (i % 3 == 2 && !e.contains("unknown_too")) {
                return Err(format!("the error {e:?} does not name {n}"));
            }
            if e.contains("x__body") && !n.contains("x__body") || e.contains("int_record_output") && !n.contains("int_record_output") {
                return Err(format!("the error {e:?} names a known function"));
            }
            Ok(())
        }));
    }
    // functions the program itself defines, or declares without using, need no binding
    {
        let ns = names(&e);
        v.push(job("defined", (ns.len() as u64 + 2) * 3, move |i, ctx| {
            let n = ns.get((i / 3) as usize).map_or(["unknown_a", "__quantum__qis__unknown__body"][(i / 3) as usize % 2], |n| n.0);
            let ir = match i % 3 {
                0 => format!("declare void @{n}(ptr, ptr, ptr, ptr)\ndefine void @main() #0 {{\n  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n"),
                1 => format!("define void @{n}() {{\n  ret void\n}}\ndefine void @main() #0 {{\n  call void @{n}()\n  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n"),
                _ => format!("declare void @{n}(ptr, ptr, ptr, ptr)\ndefine internal void @dead() {{\n  call void @{n}(ptr null, ptr null, ptr null, ptr null)\n  ret void\n}}\ndefine void @main() #0 {{\n  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n"),
            };
            ctx.log(|| ir.clone());
            accept_ir(&ir, ctx)
        }));
    }
    // LLVM's own intrinsics need no binding
    v.push(job("intrinsic", INTRINSICS.len() as u64 * 2, |i, ctx| {
        let (decl, body, want) = INTRINSICS[(i / 2) as usize];
        let extra = i % 2 == 1;
        let mut ir = format!("declare void @__quantum__rt__int_record_output(i64, ptr)\n{decl}\n");
        if extra {
            ir += "declare void @unknown_thing(i64)\n";
        }
        ir += &format!("define void @main() #0 {{\n{body}\n  call void @__quantum__rt__int_record_output(i64 %r, ptr null)\n{}  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n", if extra { "  call void @unknown_thing(i64 %r)\n" } else { "" });
        ctx.log(|| ir.clone());
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&ir));
        let (r, out) = run_ir(&ir, None, 1, None);
        if extra {
            return match r {
                Err(e) if out.is_empty() && e.contains("unknown_thing") && !e.contains("llvm") => Ok(()),
                _ => Err(format!("a program with an intrinsic and an unknown function gave {r:?} {out:?}")),
            };
        }
        r.map_err(|e| format!("refused: {e}"))?;
        let want = format!("START\nMETADATA\tentry_point\nOUTPUT\tINT\t{want}\nEND\t0\n");
        if out != want {
            return Err(format!("printed {out:?} instead of {want:?}"));
        }
        Ok(())
    }));
    // ranges are passed by value
    {
        let r: Vec<(i64, i64, i64)> = vec![(0, 1, 2), (2, -1, 0), (1, 1, 1), (0, 2, 2), (2, 1, 0), (1, -1, 2)];
        v.push(job("range", r.len() as u64 * 2, move |i, ctx| range_case(r[(i / 2) as usize], i % 2, ctx)));
    }
    // the failing call stops the program whatever it is called from
    v.push(job("fail", 4, |i, ctx| {
        let msg = ["stop", "", "a b", "line\u{1}"][i as usize];
        let esc: String = msg.bytes().map(|b| format!("\\{b:02X}")).collect();
        let ir = format!(
            "@m = internal constant [{} x i8] c\"{esc}\\00\"\ndeclare ptr @__quantum__rt__string_create(ptr)\ndeclare void @__quantum__rt__message(ptr)\ndeclare void @__quantum__rt__fail(ptr)\ndefine void @main() #0 {{\n  %s = call ptr @__quantum__rt__string_create(ptr @m)\n  call void @__quantum__rt__message(ptr %s)\n  call void @__quantum__rt__fail(ptr %s)\n  call void @__quantum__rt__message(ptr %s)\n  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n",
            msg.len() + 1
        );
        ctx.log(|| ir.clone());
        let f = in_fork(Duration::from_secs(30), || {
            runner::OUTPUT.with(|o| o.borrow_mut().use_std_out(true));
            let r = runner::run_bytes(ir.as_bytes(), None, 2, None, &mut std::io::stdout());
            println!("RETURNED {r:?}");
        });
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(i);
        let esc = msg.escape_default();
        let want = format!("START\nMETADATA\tentry_point\nINFO\t{esc}\nINFO\t{esc}\n");
        let got = String::from_utf8_lossy(&f.out);
        if !matches!(f.end, crate::engine::End::Signal(_) | crate::engine::End::Exit(99 | 101)) {
            return Err(format!("the failing program ended with {:?} and printed {got:?}", f.end));
        }
        if got != want {
            return Err(format!("the failing program printed {got:?} instead of {want:?}"));
        }
        Ok(())
    }));
    v
}
/// Declaration, body that computes %r, value of %r.
const INTRINSICS: [(&str, &str, i64); 10] = [
    ("declare i64 @llvm.ctpop.i64(i64)", "  %r = call i64 @llvm.ctpop.i64(i64 255)", 8),
    ("declare i64 @llvm.smax.i64(i64, i64)", "  %r = call i64 @llvm.smax.i64(i64 -3, i64 4)", 4),
    ("declare i64 @llvm.abs.i64(i64, i1)", "  %r = call i64 @llvm.abs.i64(i64 -9, i1 false)", 9),
    ("declare double @llvm.sqrt.f64(double)", "  %d = call double @llvm.sqrt.f64(double 49.0)\n  %r = fptosi double %d to i64", 7),
    ("declare double @llvm.fabs.f64(double)", "  %d = call double @llvm.fabs.f64(double -5.0)\n  %r = fptosi double %d to i64", 5),
    ("declare void @llvm.assume(i1)", "  call void @llvm.assume(i1 true)\n  %r = add i64 1, 2", 3),
    ("declare { i64, i1 } @llvm.sadd.with.overflow.i64(i64, i64)", "  %p = call { i64, i1 } @llvm.sadd.with.overflow.i64(i64 20, i64 3)\n  %r = extractvalue { i64, i1 } %p, 0", 23),
    ("declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)", "  %m = alloca i64\n  call void @llvm.memset.p0.i64(ptr %m, i8 1, i64 8, i1 false)\n  %r = load i64, ptr %m", 72340172838076673),
    ("declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)", "  %m = alloca i64\n  %k = alloca i64\n  store i64 66, ptr %k\n  call void @llvm.memcpy.p0.p0.i64(ptr %m, ptr %k, i64 8, i1 false)\n  %r = load i64, ptr %m", 66),
    ("declare void @llvm.lifetime.start.p0(i64, ptr)\ndeclare void @llvm.lifetime.end.p0(i64, ptr)\ndeclare void @llvm.donothing()", "  %m = alloca i64\n  call void @llvm.lifetime.start.p0(i64 8, ptr %m)\n  store i64 5, ptr %m\n  %r = load i64, ptr %m\n  call void @llvm.lifetime.end.p0(i64 8, ptr %m)\n  call void @llvm.donothing()", 5),
];
fn words(e: &str) -> Vec<&str> {
    e.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect()
}
fn accept(list: &[(&str, usize)], ctx: &mut Ctx) -> Res {
    let ir = declared(list);
    ctx.log(|| ir.clone());
    accept_ir(&ir, ctx)
}
fn accept_ir(ir: &str, ctx: &mut Ctx) -> Res {
    let (r, out) = run_ir(ir, None, 1, None);
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(ir));
    r.map_err(|e| format!("refused: {e}"))?;
    if out != PLAIN {
        return Err(format!("printed {out:?} instead of {PLAIN:?}"));
    }
    Ok(())
}

fn range_case((a, s, b): (i64, i64, i64), form: u64, ctx: &mut Ctx) -> Res {
    // Ranges are structures passed by value, as the platform's C calling convention has it.
    let slice = form % 2 == 1;
    let ty = "ptr byval(%Range)";
    let alloca = "  %q = alloca %Range, align 8\n  %p = alloca %Range, align 8\n  %t = alloca %Range, align 8\n  store %Range { i64 7, i64 1, i64 7 }, ptr %q\n  store %Range { i64 8, i64 1, i64 8 }, ptr %t\n";
    let bridge = if slice {
        format!("define internal ptr @bridge(ptr %a, i64 %x, i64 %y, i64 %z) {{\n{alloca}  %p1 = getelementptr i64, ptr %p, i64 1\n  %p2 = getelementptr i64, ptr %p, i64 2\n  store i64 %x, ptr %p\n  store i64 %y, ptr %p1\n  store i64 %z, ptr %p2\n  %r = call ptr @quantum__rt__array_slice_1d(ptr %a, {ty} %p, i1 true)\n  ret ptr %r\n}}\n")
    } else {
        format!("define internal ptr @bridge(ptr %a, i64 %x, i64 %y, i64 %z) {{\n{alloca}  %p1 = getelementptr i64, ptr %p, i64 1\n  %p2 = getelementptr i64, ptr %p, i64 2\n  store i64 %x, ptr %p\n  store i64 %y, ptr %p1\n  store i64 %z, ptr %p2\n  %r = call ptr @quantum__rt__range_to_string({ty} %p)\n  ret ptr %r\n}}\n")
    };
    let mut m = String::from("%Range = type { i64, i64, i64 }\ndeclare ptr @__quantum__rt__array_create_1d(i32, i64)\ndeclare ptr @__quantum__rt__array_get_element_ptr_1d(ptr, i64)\ndeclare i64 @__quantum__rt__array_get_size_1d(ptr)\ndeclare ptr @__quantum__rt__int_to_string(i64)\ndeclare void @__quantum__rt__message(ptr)\n");
    m += &if slice { format!("declare ptr @quantum__rt__array_slice_1d(ptr, {ty}, i1)\n") } else { format!("declare ptr @quantum__rt__range_to_string({ty})\n") };
    m += &bridge;
    let elems: Vec<i64> = [10, 20, 30].to_vec();
    let sel: Vec<i64> = if s > 0 {
        (a..=b).step_by(s as usize).map(|i| elems[i as usize]).collect()
    } else {
        (b..=a).rev().step_by((-s) as usize).map(|i| elems[i as usize]).collect()
    };
    m += "define void @main() #0 {\n  %a = call ptr @__quantum__rt__array_create_1d(i32 8, i64 3)\n";
    for i in 0..3 {
        m += &format!("  %e{i} = call ptr @__quantum__rt__array_get_element_ptr_1d(ptr %a, i64 {i})\n  store i64 {}, ptr %e{i}\n", elems[i]);
    }
    m += &format!("  %r = call ptr @bridge(ptr %a, i64 {a}, i64 {s}, i64 {b})\n");
    let mut want = vec![];
    if slice {
        m += "  %n = call i64 @__quantum__rt__array_get_size_1d(ptr %r)\n  %ns = call ptr @__quantum__rt__int_to_string(i64 %n)\n  call void @__quantum__rt__message(ptr %ns)\n";
        want.push(sel.len().to_string());
        for (i, x) in sel.iter().enumerate() {
            m += &format!("  %f{i} = call ptr @__quantum__rt__array_get_element_ptr_1d(ptr %r, i64 {i})\n  %v{i} = load i64, ptr %f{i}\n  %s{i} = call ptr @__quantum__rt__int_to_string(i64 %v{i})\n  call void @__quantum__rt__message(ptr %s{i})\n");
            want.push(x.to_string());
        }
    } else {
        m += "  call void @__quantum__rt__message(ptr %r)\n";
        want.push(if s == 1 { format!("{a}..{b}") } else { format!("{a}..{s}..{b}") });
    }
    m += "  ret void\n}\nattributes #0 = { \"entry_point\" }\n";
    ctx.log(|| m.clone());
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&m));
    let f = in_fork(Duration::from_secs(30), || {
        let (r, out) = run_ir(&m, None, 1, None);
        print!("{r:?} {out}");
    });
    let want = format!("Ok(()) START\nMETADATA\tentry_point\n{}END\t0\n", want.iter().map(|w| format!("INFO\t{w}\n")).collect::<String>());
    let got = String::from_utf8_lossy(&f.out);
    if got != want {
        return Err(format!("range {a}..{s}..{b} passed as {ty}: {:?} {got:?} instead of {want:?}", f.end));
    }
    Ok(())
}
#[allow(unused)]
fn unused() {
    let _ = (k2('a'), arg_ty('a'), ret_ty('v'));
}
