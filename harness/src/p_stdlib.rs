//! Properties of the classical runtime (qir-stdlib), driven through its C ABI functions with memory tracked.

use crate::alloc::{self, tracked};
use crate::engine::{hash_str, in_fork, job, Ctx, End, Fnv, Job, Res, Tier};
use crate::p_backend::{drain, drop_arr, fresh, g, parr, q, qarr, B, BM};
use crate::refmodel::P;
use num_bigint::BigInt;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::{c_char, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Duration;

type Tup = *mut *const Vec<u8>;
type Q = *mut c_void;

// ------------------------------------------------------------------ objects

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Array,
    Tuple,
    Callable,
    Str,
    Big,
}
const KINDS: [Kind; 5] = [Kind::Array, Kind::Tuple, Kind::Callable, Kind::Str, Kind::Big];

thread_local! {
    static CALLED: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(vec![]) };
}
extern "C" fn spec0(cap: *mut u8, _a: *mut u8, _r: *mut u8) {
    alloc::untracked(|| CALLED.with(|c| c.borrow_mut().push((0, cap as usize))));
}
extern "C" fn spec1(cap: *mut u8, _a: *mut u8, _r: *mut u8) {
    alloc::untracked(|| CALLED.with(|c| c.borrow_mut().push((1, cap as usize))));
}
extern "C" fn spec2(cap: *mut u8, _a: *mut u8, _r: *mut u8) {
    alloc::untracked(|| CALLED.with(|c| c.borrow_mut().push((2, cap as usize))));
}
extern "C" fn spec3(cap: *mut u8, _a: *mut u8, _r: *mut u8) {
    alloc::untracked(|| CALLED.with(|c| c.borrow_mut().push((3, cap as usize))));
}
struct Fns([extern "C" fn(*mut u8, *mut u8, *mut u8); 4]);
static SPECS: Fns = Fns([spec0, spec1, spec2, spec3]);
const CAP: usize = 0x5150;

fn specs() -> *mut *mut u8 {
    (&raw const SPECS.0).cast_mut().cast()
}

/// A runtime object: `content` is what reading it must give. For arrays and tuples the bytes; for
/// callables [adjoint parity, number of controls].
#[derive(Clone)]
struct Obj {
    kind: Kind,
    ptr: usize,
    window: u32,
    refs: i64,
    alias: i64,
    content: Vec<u8>,
    /// element size of an array
    es: usize,
}

impl Obj {
    fn create(kind: Kind, tag: u8) -> Obj {
        let (n, es) = match kind {
            Kind::Array => (3, 8),
            Kind::Tuple => (20, 1),
            _ => (8, 1),
        };
        Obj::sized(kind, tag, n, es)
    }
    /// An object of `n` elements of `es` bytes (array), `n` bytes (tuple, string, big integer).
    fn sized(kind: Kind, tag: u8, n: usize, es: usize) -> Obj {
        unsafe {
            let (ptr, window, content) = match kind {
                Kind::Array => {
                    let (a, w) = tracked(|| __quantum__rt__array_create_1d(es as u32, n as u64));
                    let c: Vec<u8> = (0..n * es).map(|k| (k as u8).wrapping_mul(7) ^ (k >> 8) as u8 ^ tag).collect();
                    if n > 0 {
                        let d = __quantum__rt__array_get_element_ptr_1d(a, 0).cast::<u8>();
                        std::ptr::copy_nonoverlapping(c.as_ptr(), d, n * es);
                    }
                    (a as usize, w, c)
                }
                Kind::Tuple => {
                    let (t, w) = tracked(|| __quantum__rt__tuple_create(n as u64));
                    let c: Vec<u8> = (0..n).map(|k| (k as u8).wrapping_mul(11) ^ (k >> 8) as u8 ^ tag).collect();
                    std::ptr::copy_nonoverlapping(c.as_ptr(), t.cast(), n);
                    (t as usize, w, c)
                }
                Kind::Callable => {
                    // `es`: 1 with a captured value, 2 with a capture table too, 0 with neither, 3 with the table only
                    let cap = if es == 1 || es == 2 { CAP as *mut u8 } else { std::ptr::null_mut() };
                    let table: *mut *mut u8 = if es >= 2 { (&raw const MEM[3].0).cast_mut().cast() } else { std::ptr::null_mut() };
                    let (c, w) = tracked(|| __quantum__rt__callable_create(specs(), table, cap));
                    (c as usize, w, vec![0, 0])
                }
                Kind::Str => {
                    let b: Vec<u8> = (0..n).map(|k| b'a' + ((k * 7) as u8).wrapping_add(tag) % 26).collect();
                    let c = CString::new(b.clone()).unwrap();
                    let (s, w) = tracked(|| __quantum__rt__string_create(c.as_ptr().cast_mut()));
                    (s as usize, w, b)
                }
                Kind::Big => {
                    let bytes: Vec<u8> = (0..n).map(|k| (k as u8).wrapping_mul(29) ^ tag).collect();
                    let (b, w) = tracked(|| __quantum__rt__bigint_create_array(n as u32, bytes.as_ptr()));
                    (b as usize, w, BigInt::from_signed_bytes_le(&bytes).to_string().into_bytes())
                }
            };
            Obj { es, kind, ptr, window, refs: 1, alias: 0, content }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        unsafe {
            match self.kind {
                Kind::Array => {
                    let a = self.ptr as *const QirArray;
                    let n = __quantum__rt__array_get_size_1d(a);
                    if n as usize * self.es != self.content.len() {
                        return vec![0xEE; n.min(100) as usize + 1];
                    }
                    if n == 0 {
                        return vec![];
                    }
                    let d = __quantum__rt__array_get_element_ptr_1d(a, 0).cast::<u8>();
                    if !alloc::is_live(d, self.content.len()) {
                        return vec![0xEE];
                    }
                    std::slice::from_raw_parts(d, self.content.len()).to_vec()
                }
                Kind::Tuple => {
                    if !self.content.is_empty() && !alloc::is_live(self.ptr as *const u8, self.content.len()) {
                        return vec![0xEE; 3];
                    }
                    std::slice::from_raw_parts(self.ptr as *const u8, self.content.len()).to_vec()
                }
                Kind::Str => {
                    let s = self.ptr as *const CString;
                    let n = __quantum__rt__string_get_length(s);
                    if n as usize > self.content.len() {
                        return vec![0xEE];
                    }
                    std::slice::from_raw_parts(__quantum__rt__string_get_data(s).cast::<u8>(), n as usize).to_vec()
                }
                Kind::Big => {
                    // through text: reading the bytes allocates a buffer that is never freed, by design
                    let s = __quantum__rt__bigint_to_string(self.ptr as *const BigInt);
                    let t = CStr::from_ptr(__quantum__rt__string_get_data(s)).to_string_lossy().into_owned();
                    __quantum__rt__string_update_reference_count(s, -1);
                    t.into_bytes()
                }
                Kind::Callable => {
                    // observed through what an invocation runs (controlled ones get an argument tuple)
                    let c = self.ptr as *const Callable;
                    let depth = self.content[1] as usize;
                    CALLED.with(|c| c.borrow_mut().clear());
                    let mut arrs = vec![];
                    let mut tups: Vec<Tup> = vec![];
                    let mut inner: *mut u8 = std::ptr::null_mut();
                    for _ in 0..depth {
                        let a = qarr(&[1]);
                        let t = __quantum__rt__tuple_create(16);
                        *t.cast::<*const QirArray>() = a;
                        *t.cast::<*mut u8>().add(1) = inner;
                        inner = t.cast();
                        arrs.push(a);
                        tups.push(t);
                    }
                    __quantum__rt__callable_invoke(c, inner, std::ptr::null_mut());
                    for t in tups {
                        __quantum__rt__tuple_update_reference_count(t, -1);
                    }
                    for a in arrs {
                        drop_arr(a);
                    }
                    let l = CALLED.with(|c| c.borrow().clone());
                    match &l[..] {
                        [(k, cap)] if *cap == if self.es == 1 || self.es == 2 { CAP } else { 0 } => {
                            // parity exactly; the number of controls only as none/some
                            let ctl = k >> 1 & 1;
                            if (ctl == 1) == (depth > 0) {
                                vec![(k & 1) as u8, depth as u8]
                            } else {
                                vec![(k & 1) as u8, 0xE0 | ctl as u8]
                            }
                        }
                        _ => vec![0xEE],
                    }
                }
            }
        }
    }
    fn reference(&mut self, n: i32) {
        unsafe {
            tracked(|| match self.kind {
                Kind::Array => __quantum__rt__array_update_reference_count(self.ptr as *const QirArray, n),
                Kind::Tuple => __quantum__rt__tuple_update_reference_count(self.ptr as Tup, n),
                Kind::Callable => __quantum__rt__callable_update_reference_count(self.ptr as *const Callable, n),
                Kind::Str => __quantum__rt__string_update_reference_count(self.ptr as *const CString, n),
                Kind::Big => __quantum__rt__bigint_update_reference_count(self.ptr as *const BigInt, n),
            });
        }
        self.refs += i64::from(n);
    }
    fn aliased(&mut self, n: i32) {
        unsafe {
            tracked(|| match self.kind {
                Kind::Array => __quantum__rt__array_update_alias_count(self.ptr as *const QirArray, n),
                Kind::Tuple => __quantum__rt__tuple_update_alias_count(self.ptr as Tup, n),
                Kind::Callable => __quantum__rt__callable_update_alias_count(self.ptr as *const Callable, n),
                _ => (),
            });
        }
        self.alias += i64::from(n);
    }
    fn has_alias(&self) -> bool {
        matches!(self.kind, Kind::Array | Kind::Tuple | Kind::Callable)
    }
    /// Copies; None if the result is the same object.
    fn copy(&mut self, force: bool) -> Option<Obj> {
        let (p, w) = unsafe {
            tracked(|| match self.kind {
                Kind::Array => __quantum__rt__array_copy(self.ptr as *const QirArray, force) as usize,
                Kind::Tuple => __quantum__rt__tuple_copy(self.ptr as Tup, force) as usize,
                Kind::Callable => __quantum__rt__callable_copy(self.ptr as *const Callable, force) as usize,
                _ => unreachable!(),
            })
        };
        if p == self.ptr {
            self.refs += 1;
            None
        } else {
            Some(Obj { ptr: p, window: w, refs: 1, alias: 0, ..self.clone() })
        }
    }
    fn write(&mut self, k: u8) {
        unsafe {
            match self.kind {
                Kind::Array => {
                    if self.content.is_empty() {
                        return;
                    }
                    let j = if k == 0 { 0 } else { self.content.len() / self.es - 1 };
                    let d = __quantum__rt__array_get_element_ptr_1d(self.ptr as *const QirArray, j as u64).cast::<u8>();
                    for b in 0..self.es {
                        *d.add(b) = d.add(b).read() ^ (k + 1);
                        self.content[j * self.es + b] ^= k + 1;
                    }
                }
                Kind::Tuple => {
                    if self.content.is_empty() {
                        return;
                    }
                    let d = self.ptr as *mut u8;
                    let j = if k == 0 { 0 } else { self.content.len() - 1 };
                    *d.add(j) = d.add(j).read() ^ (k + 1);
                    self.content[j] ^= k + 1;
                }
                Kind::Callable => {
                    if k == 0 {
                        tracked(|| __quantum__rt__callable_make_adjoint(self.ptr as *const Callable));
                        self.content[0] ^= 1;
                    } else {
                        tracked(|| __quantum__rt__callable_make_controlled(self.ptr as *const Callable));
                        self.content[1] += 1;
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    fn hash(&self, h: &mut Fnv) {
        h.u64(self.kind as u64);
        h.u64(self.refs as u64);
        h.u64(self.alias as u64);
        h.bytes(&self.content);
    }
    fn check(&self, k: usize) -> Res {
        if self.refs > 0 {
            if alloc::live_in(self.window) == 0 || alloc::is_freed(self.ptr as *const u8) {
                return Err(format!("{:?} {k} was freed while {} reference(s) exist", self.kind, self.refs));
            }
            let got = self.bytes();
            if got != self.content {
                return Err(format!(
                    "{:?} {k} ({} references, {} aliases) reads {got:?}, expected {:?}",
                    self.kind, self.refs, self.alias, self.content
                ));
            }
        } else if alloc::live_in(self.window) > 0 {
            return Err(format!(
                "{:?} {k}: no references remain but {} block(s) of it are still allocated",
                self.kind,
                alloc::live_in(self.window)
            ));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C20: reference counting

#[derive(Clone, Copy, Debug)]
enum RcOp {
    New,
    Ref(i32),
    Alias(i32),
    Copy(bool),
    Write(u8),
    /// The following operations address the next living object.
    Next,
}

fn rc_run(kind: Kind, ops: &[RcOp], ctx: &mut Ctx) -> Res {
    rc_run_sized(kind, None, ops, ctx)
}
fn rc_run_sized(kind: Kind, size: Option<(usize, usize)>, ops: &[RcOp], ctx: &mut Ctx) -> Res {
    alloc::begin();
    let r = rc_inner(kind, size, ops, ctx);
    let h = alloc::end();
    r?;
    h.check(0)
}
fn rc_inner(kind: Kind, size: Option<(usize, usize)>, ops: &[RcOp], ctx: &mut Ctx) -> Res {
    ctx.log(|| format!("create {kind:?} {}", size.map_or(String::new(), |(n, es)| format!("of {n} elements of {es} bytes"))));
    let create = |tag: u8| match size {
        None => Obj::create(kind, tag),
        Some((n, es)) => Obj::sized(kind, tag, n, es),
    };
    let mut objs = vec![create(1)];
    let mut cur = 0usize;
    for op in ops {
        ctx.log(|| format!("{op:?} on object {cur}"));
        ctx.transitions += 1;
        let alive = objs[cur].refs > 0;
        match *op {
            RcOp::New => {
                let t = (objs.len() % 200) as u8 + 1;
                objs.push(create(t));
            }
            RcOp::Next => {
                let n = objs.len();
                if let Some(k) = (1..=n).map(|d| (cur + d) % n).find(|k| objs[*k].refs > 0) {
                    cur = k;
                }
            }
            RcOp::Ref(n) if alive => {
                let left = objs[cur].refs + i64::from(n);
                // only valid updates; aliases are given up before the last reference
                if left > 0 || (left == 0 && objs[cur].alias == 0) {
                    objs[cur].reference(n);
                }
            }
            RcOp::Alias(n) if alive && objs[cur].has_alias() => {
                if objs[cur].alias + i64::from(n) >= 0 {
                    objs[cur].aliased(n);
                }
            }
            RcOp::Copy(f) if alive && objs[cur].has_alias() => {
                let want_new = f || objs[cur].alias > 0;
                match (objs[cur].copy(f), want_new) {
                    (Some(o), true) => objs.push(o),
                    (None, false) => {}
                    (Some(_), false) => return Err(format!("copy(force {f}) of an unaliased object is a new object")),
                    (None, true) => return Err(format!("copy(force {f}) returned the aliased object itself")),
                }
            }
            RcOp::Write(k) if alive && objs[cur].has_alias() => objs[cur].write(k),
            _ => {}
        }
        for (k, o) in objs.iter().enumerate() {
            o.check(k)?;
        }
    }
    let mut h = Fnv::new();
    for o in &objs {
        o.hash(&mut h);
    }
    ctx.state(h.0);
    ctx.traces += 1;
    // give everything back
    for k in 0..objs.len() {
        if objs[k].refs > 0 {
            if objs[k].alias > 0 {
                let a = -(objs[k].alias as i32);
                objs[k].aliased(a);
            }
            let n = -(objs[k].refs as i32);
            objs[k].reference(n);
        }
        for (k, o) in objs.iter().enumerate() {
            o.check(k)?;
        }
    }
    Ok(())
}

fn rc_job(name: &str, alpha: Vec<RcOp>, kinds: Vec<Kind>, depth: u32) -> Job {
    let (k, nk) = (alpha.len() as u64, kinds.len() as u64);
    job(format!("{name}/depth{depth}"), nk * k.pow(depth), move |i, ctx| {
        let kind = kinds[(i % nk) as usize];
        let mut i = i / nk;
        let mut ops = vec![];
        for _ in 0..depth {
            ops.push(alpha[(i % k) as usize]);
            i /= k;
        }
        rc_run(kind, &ops, ctx)
    })
}

pub fn c20(t: Tier) -> Vec<Job> {
    use RcOp::*;
    let counted: Vec<Kind> = vec![Kind::Array, Kind::Tuple, Kind::Callable];
    let mut v = vec![
        rc_job("references", vec![Ref(1), Ref(2), Ref(5), Ref(-1), Ref(-2), Ref(-3), Ref(0), Alias(1), Alias(-1), New, Next], KINDS.to_vec(), t.pick(4, 5)),
        rc_job(
            "aliases",
            vec![Alias(1), Alias(3), Alias(-1), Alias(-2), Alias(-4), Ref(1), Ref(3), Ref(-1), Ref(-2), Copy(false), Next],
            counted.clone(),
            t.pick(4, 6),
        ),
        rc_job("copies", vec![Copy(false), Copy(true), Alias(1), Alias(-1), Ref(1), Ref(-1), Ref(-2), Write(1), Next], counted, t.pick(5, 6)),
        rc_job("long", vec![Ref(1), Ref(-1), Ref(-2), Alias(1), Alias(-1)], KINDS.to_vec(), t.pick(7, 9)),
    ];
    // sizes of updates
    let sizes: Vec<i32> = vec![1, 2, 3, 7, 8, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 20) + 3];
    let n = sizes.len() as u64;
    v.push(job("update-sizes", 5 * n * n * 2, move |i, ctx| {
        let kind = KINDS[(i % 5) as usize];
        let (a, b, al) = (sizes[(i / 5 % n) as usize], sizes[(i / 5 / n % n) as usize], i / 5 / n / n == 1);
        if al && !matches!(kind, Kind::Array | Kind::Tuple | Kind::Callable) {
            return Ok(());
        }
        let ops = if al {
            vec![Alias(a), Alias(-a), Alias(b), Copy(false), Alias(-b + 1), Copy(false), Alias(-1), Copy(false), Ref(-1), Ref(-1)]
        } else {
            vec![Ref(a), Ref(b), Ref(-a), Ref(-b), Ref(a), Ref(-a - 1)]
        };
        rc_run(kind, &ops, ctx)
    }));
    // objects of other sizes
    let sizes: Vec<usize> = (0..=t.pick(20, 140)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]).collect();
    {
        let alpha = [Ref(1), Ref(-1), Alias(1), Alias(-1), Copy(false), Copy(true), Write(1), New, Next];
        let es = [1usize, 2, 8, 16, 24, 100];
        let (ns, k) = (sizes.len() as u64, alpha.len() as u64);
        let sizes = sizes.clone();
        v.push(job("object-sizes/depth3", ns * (es.len() as u64 + 3) * k * k * k, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (n, what) = (sizes[nx(ns)], nx(es.len() as u64 + 3));
            let ops: Vec<RcOp> = (0..3).map(|_| alpha[nx(k)]).collect();
            let (kind, e) = match what {
                0 => (Kind::Tuple, 1),
                1 => (Kind::Str, 1),
                2 => (Kind::Big, 1),
                w => (Kind::Array, es[w - 3]),
            };
            rc_run_sized(kind, Some((n, e)), &ops, ctx)
        }));
    }
    // words of up to three letters, repeated
    {
        let alpha = [Ref(1), Ref(-1), Ref(3), Alias(1), Alias(-1), Alias(2), Copy(false), Copy(true), Write(0), New, Next];
        let lens: Vec<usize> = t.pick(vec![9, 17, 33, 64, 65, 66, 129, 257, 258, 300], (8..=140).chain([255, 256, 257, 258, 300, 511, 512, 513, 514]).collect());
        let (k, nl) = (alpha.len() as u64, lens.len() as u64);
        v.push(job("long-repeated", 5 * k * k * k * nl, move |i, ctx| {
            let mut i = i;
            let mut nx = |n: u64| {
                let k = i % n;
                i /= n;
                k as usize
            };
            let (kind, n) = (KINDS[nx(5)], lens[nx(nl)]);
            let w: Vec<RcOp> = (0..3).map(|_| alpha[nx(k)]).collect();
            // many objects are looked at after every step: keep those runs shorter
            let many = w.iter().any(|o| matches!(o, New | Copy(_)));
            if many && n > 66 {
                return Ok(());
            }
            // (invocations take an argument level per control)
            let ops: Vec<RcOp> = (0..n).map(|j| w[j % 3]).collect();
            rc_run(kind, &ops, ctx)
        }));
    }
    // alias count below zero is refused
    v.push(job("alias-below-zero", 3 * 4 * 4, move |i, ctx| {
        let kind = [Kind::Array, Kind::Tuple, Kind::Callable][(i % 3) as usize];
        let (have, over) = ((i / 3 % 4) as i32, (i / 12) as i32 + 1);
        ctx.log(|| format!("{kind:?} with alias count {have}, update by {}", -(have + over)));
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(i);
        let f = in_fork(Duration::from_secs(20), || {
            let mut o = Obj::create(kind, 1);
            if have > 0 {
                o.aliased(have);
            }
            o.aliased(-(have + over));
            println!("RETURNED");
        });
        stopped(&f.end)?;
        if !f.out.is_empty() {
            return Err(format!("alias count {have} updated by {} was accepted", -(have + over)));
        }
        Ok(())
    }));
    v
}

/// A call that has to stop the program did.
fn stopped(e: &End) -> Res {
    match e {
        End::Signal(libc::SIGABRT) => Ok(()),
        End::Exit(c) if *c != 0 => Ok(()),
        _ => Err(format!("the program was not stopped properly: it ended with {e:?}")),
    }
}

// ------------------------------------------------------------------ C21: copies

#[derive(Clone, Copy, Debug)]
enum CpOp {
    Copy(usize, bool),
    Alias(usize, i32),
    Write(usize, u8),
    Release(usize),
}

pub fn c21(t: Tier) -> Vec<Job> {
    let mut alpha = vec![];
    for h in 0..2 {
        alpha.extend([
            CpOp::Copy(h, false),
            CpOp::Copy(h, true),
            CpOp::Alias(h, 1),
            CpOp::Alias(h, -1),
            CpOp::Write(h, 0),
            CpOp::Write(h, 1),
            CpOp::Release(h),
        ]);
    }
    let run_sized = |kind: Kind, size: Option<(usize, usize)>, ops: &[CpOp], ctx: &mut Ctx| -> Res {
        alloc::begin();
        let inner = |ctx: &mut Ctx| -> Res {
            // handles -> object index; an object is shared by as many handles as it has references
            let mut objs = vec![match size {
                None => Obj::create(kind, 3),
                Some((n, es)) => Obj::sized(kind, 3, n, es),
            }];
            let mut hs: Vec<usize> = vec![0];
            for op in ops {
                ctx.log(|| format!("{op:?} (handles -> objects {hs:?})"));
                ctx.transitions += 1;
                match *op {
                    CpOp::Copy(h, f) if h < hs.len() => {
                        let o = hs[h];
                        let want_new = f || objs[o].alias > 0;
                        match (objs[o].copy(f), want_new) {
                            (Some(c), true) => {
                                objs.push(c);
                                hs.push(objs.len() - 1);
                            }
                            (None, false) => hs.push(o),
                            (Some(_), false) => return Err("an unforced copy of an unaliased object is a new object".into()),
                            (None, true) => return Err("a forced or aliased copy is the same object".into()),
                        }
                    }
                    CpOp::Alias(h, n) if h < hs.len() => {
                        let o = hs[h];
                        if objs[o].alias + i64::from(n) >= 0 {
                            objs[o].aliased(n);
                        }
                    }
                    CpOp::Write(h, k) if h < hs.len() => {
                        let o = hs[h];
                        objs[o].write(k);
                    }
                    CpOp::Release(h) if h < hs.len() => {
                        let o = hs[h];
                        if objs[o].refs > 1 || objs[o].alias == 0 {
                            objs[o].reference(-1);
                            hs.remove(h);
                        }
                    }
                    _ => {}
                }
                // every handle reads the contents of its object
                for (k, o) in objs.iter().enumerate() {
                    o.check(k)?;
                }
            }
            let mut f = Fnv::new();
            for o in &objs {
                o.hash(&mut f);
            }
            for h in &hs {
                f.u64(*h as u64);
            }
            ctx.state(f.0);
            ctx.traces += 1;
            for o in &mut objs {
                if o.refs > 0 {
                    if o.alias > 0 {
                        let a = -(o.alias as i32);
                        o.aliased(a);
                    }
                    let n = -(o.refs as i32);
                    o.reference(n);
                }
            }
            Ok(())
        };
        let r = inner(ctx);
        let h = alloc::end();
        r?;
        h.check(0)
    };
    let run = move |kind: Kind, ops: &[CpOp], ctx: &mut Ctx| run_sized(kind, None, ops, ctx);
    let depth = t.pick(4, 5);
    let k = alpha.len() as u64;
    let first = [CpOp::Copy(0, false), CpOp::Copy(0, true), CpOp::Alias(0, 1), CpOp::Write(0, 1)];
    let mut v = vec![];
    {
        let alpha = alpha.clone();
        v.push(job(format!("histories/depth{}", depth + 1), 6 * 4 * k.pow(depth), move |i, ctx| {
            let (kind, size) = [
                (Kind::Array, None),
                (Kind::Tuple, None),
                (Kind::Callable, None),
                (Kind::Callable, Some((0, 0))),
                (Kind::Array, Some((0, 8))),
                (Kind::Tuple, Some((0, 1))),
            ][(i % 6) as usize];
            let mut ops = vec![first[(i / 6 % 4) as usize]];
            let mut i = i / 24;
            for _ in 0..depth {
                ops.push(alpha[(i % k) as usize]);
                i /= k;
            }
            run_sized(kind, size, &ops, ctx)
        }));
    }
    // objects of other sizes
    {
        let sizes: Vec<usize> = (0..=t.pick(20, 140)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]).collect();
        let es = [0usize, 1, 2, 3, 8, 16, 24, 100]; // 0: a tuple
        let words: Vec<Vec<CpOp>> = {
            use CpOp::*;
            let mut w = vec![];
            for make in [vec![Copy(0, true)], vec![Alias(0, 1), Copy(0, false)], vec![Copy(0, false), Alias(1, 1), Copy(1, false)]] {
                for h in 0..2 {
                    for k in 0..2 {
                        for then in [vec![Write(1 - h, 1 - k)], vec![Release(0)], vec![Release(1)], vec![Copy(h, true), Write(2, k)], vec![Copy(1 - h, false), Write(h, 1 - k)]] {
                            w.push([make.clone(), vec![Write(h, k)], then].concat());
                        }
                    }
                }
            }
            w
        };
        let (ns, ne, nw) = (sizes.len(), es.len(), words.len());
        {
            let words = words.clone();
            v.push(job("callable-forms", 4 * nw as u64, move |i, ctx| {
                run_sized(Kind::Callable, Some((0, i as usize % 4)), &words[i as usize / 4], ctx)
            }));
        }
        v.push(job("object-sizes", (ns * ne * nw) as u64, move |i, ctx| {
            let i = i as usize;
            let (n, e, w) = (sizes[i % ns], es[i / ns % ne], &words[i / ns / ne]);
            if e == 0 {
                run_sized(Kind::Tuple, Some((n, 1)), w, ctx)
            } else {
                run_sized(Kind::Array, Some((n, e)), w, ctx)
            }
        }));
    }
    // many aliases or references at once
    {
        let many: Vec<i32> = (0..=17).flat_map(|k| [(1i32 << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > 0).collect();
        let nm = many.len();
        v.push(job("many-aliases", 3 * 3 * nm as u64, move |i, ctx| {
            let i = i as usize;
            let (kind, refs, n) = ([Kind::Array, Kind::Tuple, Kind::Callable][i % 3], i / 3 % 3, many[i / 9]);
            ctx.log(|| format!("{kind:?}: {n} aliases ({} references), then copies while they are given back", [1, 2, n][refs]));
            ctx.traces += 1;
            alloc::begin();
            let mut body = || -> Res {
                let mut o = Obj::create(kind, 9);
                match refs {
                    1 => o.reference(1),
                    2 => o.reference(n),
                    _ => {}
                }
                o.aliased(n);
                for back in [0, n - 1, 1] {
                    o.aliased(-back);
                    for force in [false, true] {
                        ctx.transitions += 1;
                        let want = force || o.alias > 0;
                        match o.copy(force) {
                            Some(mut c) if want => {
                                c.write(1);
                                c.check(1)?;
                                o.check(0)?;
                                c.reference(-1);
                            }
                            None if !want => {
                                o.check(0)?;
                                o.reference(-1);
                            }
                            c => {
                                return Err(format!(
                                    "a copy (force: {force}) of an object with {} aliases is {}",
                                    o.alias,
                                    if c.is_some() { "a new object" } else { "the same object" }
                                ))
                            }
                        }
                    }
                }
                let k = -(o.refs as i32);
                o.reference(k);
                Ok(())
            };
            let r = body();
            let h = alloc::end();
            r?;
            h.check(0)
        }));
    }
    // tuples beyond 32 bits (untouched memory costs nothing)
    let large: Vec<u64> = vec![(1 << 31) + 7, (1 << 32) - 8, 1 << 32, (1 << 32) + 100];
    v.push(job("large-tuples", large.len() as u64, move |i, ctx| {
        let n = large[i as usize];
        ctx.log(|| format!("a tuple of {n} bytes"));
        if !can_allocate(n + 64) {
            return Ok(());
        }
        ctx.transitions += 1;
        ctx.traces += 1;
        unsafe {
            let t = __quantum__rt__tuple_create(n).cast::<u8>();
            let mut at: Vec<u64> = [0, 1, 16, 24, 31, 32].iter().flat_map(|k| [(1u64 << k) - 1, 1 << k]).chain([n - 1, n - 100]).filter(|p| *p < n).collect();
            at.sort_unstable();
            at.dedup();
            for (k, x) in at.iter().enumerate() {
                *t.add(*x as usize) = k as u8 + 1;
            }
            let bad = at.iter().enumerate().find(|(k, x)| *t.add(**x as usize) != *k as u8 + 1).map(|(_, x)| *x);
            __quantum__rt__tuple_update_reference_count(t.cast(), -1);
            match bad {
                Some(x) => Err(format!("byte {x} of a tuple of {n} bytes does not keep its value")),
                None => Ok(()),
            }
        }
    }));
    // longer, one write kind, third handle
    let alpha: Vec<CpOp> = vec![
        CpOp::Copy(0, false),
        CpOp::Copy(1, true),
        CpOp::Copy(1, false),
        CpOp::Alias(0, 1),
        CpOp::Alias(0, -1),
        CpOp::Write(0, 0),
        CpOp::Write(1, 1),
        CpOp::Write(2, 0),
        CpOp::Release(1),
    ];
    let (k, depth) = (alpha.len() as u64, t.pick(5, 7));
    v.push(job(format!("three-handles/depth{depth}"), 3 * k.pow(depth), move |i, ctx| {
        let kind = [Kind::Array, Kind::Tuple, Kind::Callable][(i % 3) as usize];
        let mut i = i / 3;
        let mut ops = vec![];
        for _ in 0..depth {
            ops.push(alpha[(i % k) as usize]);
            i /= k;
        }
        run(kind, &ops, ctx)
    }));
    v
}

// ------------------------------------------------------------------ C22: arrays

struct Arr {
    p: *const QirArray,
    es: usize,
    c: Vec<Vec<u8>>,
}
impl Arr {
    fn new(es: usize, n: usize, seed: u8) -> Result<Arr, String> {
        let (p, _) = tracked(|| __quantum__rt__array_create_1d(es as u32, n as u64));
        let mut a = Arr { p, es, c: vec![vec![0; es]; n] };
        a.check("new array")?;
        for j in 0..n {
            let e: Vec<u8> = (0..es).map(|b| seed ^ (j as u8).wrapping_mul(37) ^ (b as u8).wrapping_mul(101) ^ 0x3c).collect();
            unsafe {
                let d = __quantum__rt__array_get_element_ptr_1d(p, j as u64).cast::<u8>();
                if !alloc::is_live(d, es) {
                    return Err(format!("element {j} of {n} (size {es}) does not lie in the array's memory"));
                }
                std::ptr::copy_nonoverlapping(e.as_ptr(), d, es);
            }
            a.c[j] = e;
        }
        a.check("array after writing all elements")?;
        Ok(a)
    }
    fn check(&self, what: &str) -> Res {
        check_array(self.p, self.es, &self.c, what)
    }
    fn free(self) {
        tracked(|| drop_arr(self.p));
    }
}
/// A large array and its expected bytes.
fn flat(es: usize, n: usize, seed: u8) -> Result<(*const QirArray, Vec<u8>), String> {
    let (p, _) = tracked(|| __quantum__rt__array_create_1d(es as u32, n as u64));
    let mut m = vec![0u8; es * n];
    flat_is(p, es, &m, "new array")?;
    for (k, b) in m.iter_mut().enumerate() {
        *b = seed ^ (k as u8).wrapping_mul(37) ^ (k >> 8) as u8 ^ ((k >> 16) as u8).wrapping_mul(101);
    }
    for j in 0..n {
        unsafe {
            let d = __quantum__rt__array_get_element_ptr_1d(p, j as u64).cast::<u8>();
            if (j == 0 || j == n - 1) && !alloc::is_live(d, es) {
                return Err(format!("element {j} of {n} (size {es}) does not lie in the array's memory"));
            }
            std::ptr::copy_nonoverlapping(m[j * es..].as_ptr(), d, es);
        }
    }
    flat_is(p, es, &m, "array after writing all elements")?;
    Ok((p, m))
}
fn flat_is(p: *const QirArray, es: usize, m: &[u8], what: &str) -> Res {
    let n = m.len() / es;
    unsafe {
        let got = __quantum__rt__array_get_size_1d(p);
        if got != n as u64 {
            return Err(format!("{what}: size {got}, expected {n}"));
        }
        for j in 0..n {
            let d = __quantum__rt__array_get_element_ptr_1d(p, j as u64).cast::<u8>();
            if (j == 0 || j == n - 1) && !alloc::is_live(d, es) {
                return Err(format!("{what}: element {j} is not in live memory"));
            }
            if std::slice::from_raw_parts(d, es) != &m[j * es..(j + 1) * es] {
                return Err(format!("{what}: element {j} differs from what it should be"));
            }
        }
    }
    Ok(())
}
fn check_array(p: *const QirArray, es: usize, c: &[Vec<u8>], what: &str) -> Res {
    unsafe {
        let n = __quantum__rt__array_get_size_1d(p);
        if n != c.len() as u64 {
            return Err(format!("{what}: length {n}, expected {}", c.len()));
        }
        for (j, e) in c.iter().enumerate() {
            let d = __quantum__rt__array_get_element_ptr_1d(p, j as u64).cast::<u8>();
            if !alloc::is_live(d, es) {
                return Err(format!("{what}: element {j} is not in live memory"));
            }
            let got = std::slice::from_raw_parts(d, es);
            if got != &e[..] {
                return Err(format!("{what}: element {j} is {got:?}, expected {e:?}"));
            }
        }
    }
    Ok(())
}
/// Would an untouched, zeroed block of that size be available?
fn can_allocate(size: u64) -> bool {
    use std::alloc::{alloc_zeroed, dealloc, Layout};
    let l = Layout::from_size_align(size as usize, 16).unwrap();
    unsafe {
        let p = alloc_zeroed(l);
        if !p.is_null() {
            dealloc(p, l);
        }
        !p.is_null()
    }
}
/// Elements denoted by start..step..end, None if one of them is not an index below `n`.
fn denoted(s: i64, st: i64, e: i64, n: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    let mut i = i128::from(s);
    while if st > 0 { i <= i128::from(e) } else { i >= i128::from(e) } {
        if i < 0 || i >= n as i128 {
            return None;
        }
        v.push(i as usize);
        i += i128::from(st);
    }
    Some(v)
}
fn heap(f: impl FnOnce() -> Res) -> Res {
    alloc::begin();
    let r = f();
    let h = alloc::end();
    r?;
    h.check(0)
}

pub fn c22(t: Tier) -> Vec<Job> {
    let sizes: Vec<usize> = vec![1, 2, 3, 4, 8, 16, 24];
    let maxn: usize = t.pick(7, 10);
    let mut v = vec![];
    {
        let sizes = sizes.clone();
        let lens: Vec<usize> = (0..=maxn).chain([63, 64, 65, 255, 256, 257, 1000, 65536]).collect();
        v.push(job("create-and-index", (sizes.len() * lens.len()) as u64, move |i, ctx| {
            let (es, n) = (sizes[i as usize % sizes.len()], lens[i as usize / sizes.len()]);
            ctx.log(|| format!("array of {n} elements of {es} bytes"));
            ctx.transitions += n as u64;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{n}.{es}")));
            heap(|| {
                // elements are distinct cells: what is written into one is not seen in another
                let a = Arr::new(es, n, 5)?;
                a.free();
                Ok(())
            })
        }));
    }
    {
        let sizes = sizes.clone();
        let m = maxn + 1;
        v.push(job("concatenate", (sizes.len() * m * m * 2) as u64, move |i, ctx| {
            let mut i = i as usize;
            let mut nx = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (es, x, y, order) = (sizes[nx(sizes.len())], nx(m), nx(m), nx(2));
            ctx.log(|| format!("concatenate {x} and {y} elements of {es} bytes"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{x}.{y}.{es}")));
            heap(|| {
                let a = Arr::new(es, x, 1)?;
                let b = Arr::new(es, y, 2)?;
                let (p, _) = tracked(|| unsafe { __quantum__rt__array_concatenate(a.p, b.p) });
                let want: Vec<Vec<u8>> = a.c.iter().chain(&b.c).cloned().collect();
                check_array(p, es, &want, "concatenation")?;
                a.check("first operand after concatenation")?;
                b.check("second operand after concatenation")?;
                if p == a.p || p == b.p {
                    return Err("concatenation returned one of its operands".into());
                }
                // the result is private: writing to it does not reach the operands, and survives them
                if x + y > 0 {
                    unsafe { *__quantum__rt__array_get_element_ptr_1d(p, 0).cast::<u8>() ^= 0x55 };
                    a.check("first operand after a write to the result")?;
                    b.check("second operand after a write to the result")?;
                    unsafe { *__quantum__rt__array_get_element_ptr_1d(p, 0).cast::<u8>() ^= 0x55 };
                }
                if order == 0 {
                    a.free();
                    b.free();
                    check_array(p, es, &want, "concatenation after releasing the operands")?;
                    tracked(|| drop_arr(p));
                } else {
                    tracked(|| drop_arr(p));
                    a.check("first operand after releasing the result")?;
                    b.check("second operand after releasing the result")?;
                    a.free();
                    b.free();
                }
                Ok(())
            })
        }));
        let sizes2 = [1usize, 3, 8, 24];
        v.push(job("concatenate-self", 4 * m as u64, move |i, ctx| {
            let (es, n) = (sizes2[i as usize % 4], i as usize / 4);
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let a = Arr::new(es, n, 1)?;
                let (p, _) = tracked(|| unsafe { __quantum__rt__array_concatenate(a.p, a.p) });
                let want: Vec<Vec<u8>> = a.c.iter().chain(&a.c).cloned().collect();
                check_array(p, es, &want, "concatenation with itself")?;
                a.check("operand")?;
                a.free();
                check_array(p, es, &want, "concatenation with itself")?;
                tracked(|| drop_arr(p));
                Ok(())
            })
        }));
    }
    // slices
    let steps: Vec<i64> = (1..=maxn as i64 + 2)
        .flat_map(|s| [s, -s])
        .chain([1 << 31, -(1 << 31), 1 << 60, -(1 << 60), (1 << 60) + 1, (1 << 61) + 1, -(1 << 61) - 1, 1 << 61, 1 << 62, i64::MAX, -i64::MAX, i64::MIN])
        .collect();
    let bounds: Vec<i64> = (-2..=maxn as i64 + 2)
        .chain([100, -100, 1 << 31, -(1 << 31), 1 << 60, -(1 << 60), 1 << 61, (1 << 61) + 1, 1 << 62, -(1 << 62), i64::MAX, i64::MIN])
        .collect();
    let es4 = [1usize, 3, 8, 16];
    let n = (es4.len() * (maxn + 1) * steps.len() * bounds.len()) as u64 * bounds.len() as u64;
    v.push(job("slice", n, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (es, len, st, s, e) = (
            es4[nx(es4.len())],
            nx(maxn + 1),
            steps[nx(steps.len())],
            bounds[nx(bounds.len())],
            bounds[nx(bounds.len())],
        );
        // only ranges all of whose elements exist
        let Some(idx) = denoted(s, st, e, len) else { return Ok(()) };
        ctx.log(|| format!("slice of {len} elements of {es} bytes by {s}..{st}..{e}, denotes {idx:?}"));
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{idx:?}{len}")));
        heap(|| {
            let a = Arr::new(es, len, 9)?;
            let (p, _) =
                tracked(|| unsafe { quantum__rt__array_slice_1d(a.p, Range { start: s, step: st, end: e }) });
            let want: Vec<Vec<u8>> = idx.iter().map(|k| a.c[*k].clone()).collect();
            let what = format!("slice {s}..{st}..{e} of {len} elements");
            check_array(p, es, &want, &what)?;
            a.check("array after slicing")?;
            if !want.is_empty() {
                unsafe { *__quantum__rt__array_get_element_ptr_1d(p, 0).cast::<u8>() ^= 0x55 };
                a.check("array after a write to the slice")?;
                unsafe { *__quantum__rt__array_get_element_ptr_1d(p, 0).cast::<u8>() ^= 0x55 };
            }
            a.free();
            check_array(p, es, &want, &what)?;
            tracked(|| drop_arr(p));
            Ok(())
        })
    }));
    // long arrays: concatenated, and sliced by every step up to their length and around it
    {
        let big: Vec<usize> = vec![1, 17, 33, 64, 100, 128, 255, 256, 257, 1000, 4097];
        let nb = big.len();
        let es: Vec<usize> = vec![1, 2, 5, 7, 8, 12, 16, 32, 40, 100, 257, 4096];
        v.push(job("long-concatenate", (nb * nb * es.len()) as u64, move |i, ctx| {
            let i = i as usize;
            let (x, y, es) = (big[i % nb], big[i / nb % nb], es[i / nb / nb]);
            if (x + y) * es > 1 << 20 {
                return Ok(());
            }
            ctx.log(|| format!("concatenate {x} and {y} elements of {es} bytes"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{x}.{y}.{es}")));
            heap(|| {
                let a = Arr::new(es, x, 1)?;
                let b = Arr::new(es, y, 2)?;
                let (p, _) = tracked(|| unsafe { __quantum__rt__array_concatenate(a.p, b.p) });
                let want: Vec<Vec<u8>> = a.c.iter().chain(&b.c).cloned().collect();
                check_array(p, es, &want, "concatenation")?;
                a.check("first operand after concatenation")?;
                b.check("second operand after concatenation")?;
                a.free();
                b.free();
                check_array(p, es, &want, "concatenation after releasing the operands")?;
                tracked(|| drop_arr(p));
                Ok(())
            })
        }));
        let lens: Vec<usize> = t.pick(vec![16, 64, 100], vec![16, 31, 64, 100, 130, 257]);
        let mut cases: Vec<(usize, usize, i64, i64, i64)> = vec![];
        for n in lens {
            let l = n as i64 - 1;
            for st in (1..=l + 2).flat_map(|s| [s, -s]) {
                for (s, e) in [(0, l), (l, 0), (1, l), (l, 1), (0, l - 1), (l - 1, 0), (l / 2, l), (l / 2, 0), (l / 2, l / 2), (0, l + 1), (l, -1), (2, l - 3), (l - 3, 2)] {
                    for es in [1usize, 8, 24] {
                        cases.push((n, es, s, st, e));
                    }
                }
            }
        }
        v.push(job("long-slice", cases.len() as u64, move |i, ctx| {
            let (n, es, s, st, e) = cases[i as usize];
            let Some(idx) = denoted(s, st, e, n) else { return Ok(()) };
            ctx.log(|| format!("slice of {n} elements of {es} bytes by {s}..{st}..{e}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{idx:?}{n}")));
            heap(|| {
                let a = Arr::new(es, n, 9)?;
                let (p, _) = tracked(|| unsafe { quantum__rt__array_slice_1d(a.p, Range { start: s, step: st, end: e }) });
                let want: Vec<Vec<u8>> = idx.iter().map(|k| a.c[*k].clone()).collect();
                let what = format!("slice {s}..{st}..{e} of {n} elements");
                check_array(p, es, &want, &what)?;
                a.check("array after slicing")?;
                a.free();
                check_array(p, es, &want, &what)?;
                tracked(|| drop_arr(p));
                Ok(())
            })
        }));
    }
    // beyond 16 bits: elements of more than 65535 bytes, and more than 65535 elements
    {
        let mut big: Vec<(usize, usize)> = vec![];
        for es in [65535usize, 65536, 65537, 65539, 131_072 + 3] {
            big.extend([1usize, 2, 3].map(|n| (es, n)));
        }
        for n in t.pick(vec![65535usize, 65537, 70001], vec![65535, 65536, 65537, 70001, 131_075]) {
            big.extend([1usize, 8, 3].map(|es| (es, n)));
        }
        let nb = big.len();
        v.push(job("beyond-16-bits", (nb * 8) as u64, move |i, ctx| {
            let i = i as usize;
            let ((es, n), how) = (big[i % nb], i / nb);
            let l = n as i64 - 1;
            ctx.log(|| format!("array of {n} elements of {es} bytes, {}", ["concatenated with itself", "concatenated", "sliced up", "sliced down", "the last", "every other", "every 300th", "a middle"][how]));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{n}.{es}.{how}")));
            heap(|| {
                let (a, am) = flat(es, n, 5)?;
                let (b, bm) = flat(es, 2, 6)?;
                let (p, want) = if how < 2 {
                    let (b, bm) = if how == 0 { (a, &am) } else { (b, &bm) };
                    (tracked(|| unsafe { __quantum__rt__array_concatenate(a, b) }).0, [&am[..], &bm[..]].concat())
                } else {
                    let (s, st, e) = [(0, 1, l), (l, -1, 0), (l, 1, l), (0, 2, l), (l, -300, 0), (n as i64 / 2, 1, l - l / 8)][how - 2];
                    let want: Vec<u8> = denoted(s, st, e, n).unwrap().iter().flat_map(|k| &am[k * es..(k + 1) * es]).copied().collect();
                    (tracked(|| unsafe { quantum__rt__array_slice_1d(a, Range { start: s, step: st, end: e }) }).0, want)
                };
                flat_is(p, es, &want, "result")?;
                flat_is(a, es, &am, "array after its use")?;
                tracked(|| drop_arr(a));
                tracked(|| drop_arr(b));
                flat_is(p, es, &want, "result after releasing the operands")?;
                tracked(|| drop_arr(p));
                Ok(())
            })
        }));
    }
    // beyond 32 bits: zeroed memory of that size costs nothing until it is written
    {
        let shapes: Vec<(u32, u64)> = vec![
            (1, (1 << 32) + 3),
            (1, (1 << 31) + 5),
            (3, (1 << 31) + 1),
            (8, (1 << 29) + 2),
            (16, (1 << 28) + 1),
            (1 << 16, (1 << 16) + 1),
            (1 << 20, (1 << 12) + 1),
            (u32::MAX, 2),
            (1 << 31, 3),
        ];
        v.push(job("beyond-32-bits", shapes.len() as u64, move |i, ctx| {
            let (es, n) = shapes[i as usize];
            ctx.log(|| format!("an array of {n} elements of {es} bytes"));
            if !can_allocate(u64::from(es) * n) {
                return Ok(());
            }
            let mut at: Vec<u64> = [0u64, 1, 8, 16, 24, 30, 31, 32].iter().flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).chain([n - 2, n - 1, n / 2]).filter(|p| *p < n).collect();
            at.sort_unstable();
            at.dedup();
            let p = __quantum__rt__array_create_1d(es, n);
            let r = (|| unsafe {
                ctx.transitions += 2 * at.len() as u64;
                ctx.traces += 1;
                ctx.state(i);
                let size = __quantum__rt__array_get_size_1d(p);
                if size != n {
                    return Err(format!("an array created with {n} elements of {es} bytes has {size}"));
                }
                let first = __quantum__rt__array_get_element_ptr_1d(p, 0).cast::<u8>();
                for (k, x) in at.iter().enumerate() {
                    let e = __quantum__rt__array_get_element_ptr_1d(p, *x).cast::<u8>();
                    if e as u64 != first as u64 + x * u64::from(es) {
                        return Err(format!("element {x} of {n} (size {es}) is at offset {:#x} from the first", (e as u64).wrapping_sub(first as u64)));
                    }
                    for b in [e, e.add(es as usize - 1)] {
                        if *b != 0 && es > 1 {
                            return Err(format!("element {x} of a new array of {n} is not zero"));
                        }
                        *b = k as u8 + 1;
                    }
                }
                if es <= 1 << 20 {
                    let l = n as i64 - 1;
                    for (s, st, e) in [(l - 1, 1, l), (l, -1, l - 1), (0, l, l), (l, -l, 0), (l / 2, l - l / 2, l), (l, 1, l), (l, 1, l - 1)] {
                        let want = denoted(s, st, e, n as usize).unwrap();
                        let c = quantum__rt__array_slice_1d(p, Range { start: s, step: st, end: e });
                        let got = __quantum__rt__array_get_size_1d(c);
                        let mut ok = got == want.len() as u64;
                        for (k, x) in want.iter().enumerate() {
                            ok = ok && *__quantum__rt__array_get_element_ptr_1d(c, k as u64).cast::<u8>() == *first.add(x * es as usize);
                        }
                        drop_arr(c);
                        if !ok {
                            return Err(format!("the slice {s}..{st}..{e} of an array of {n} elements has {got} elements or other contents than {want:?}"));
                        }
                        ctx.transitions += 1;
                    }
                }
                Ok(())
            })();
            drop_arr(p);
            r
        }));
    }
    // slices of slices and concatenations
    let m = t.pick(4usize, 6);
    v.push(job("compose", ((m + 1) * (m + 1) * (m + 1) * 6 * 6) as u64, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let rs = |k: usize, n: usize| -> (i64, i64, i64) {
            let l = n as i64 - 1;
            [(0, 1, l), (l, -1, 0), (0, 2, l), (l, -2, 0), (1, 1, l), (l - 1, -3, 0)][k]
        };
        let (x, y, z, r1, r2) = (nx(m + 1), nx(m + 1), nx(m + 1), nx(6), nx(6));
        ctx.log(|| format!("lengths {x} {y} {z}, ranges {r1} {r2}"));
        ctx.transitions += 4;
        ctx.traces += 1;
        heap(|| {
            let a = Arr::new(8, x, 1)?;
            let b = Arr::new(8, y, 2)?;
            let c = Arr::new(8, z, 3)?;
            let ab: Vec<Vec<u8>> = a.c.iter().chain(&b.c).cloned().collect();
            let (p, _) = tracked(|| unsafe { __quantum__rt__array_concatenate(a.p, b.p) });
            let (s, st, e) = rs(r1, ab.len());
            let Some(i1) = denoted(s, st, e, ab.len()) else {
                for q in [a.p, b.p, c.p, p] {
                    tracked(|| drop_arr(q));
                }
                return Ok(());
            };
            let (p2, _) = tracked(|| unsafe { quantum__rt__array_slice_1d(p, Range { start: s, step: st, end: e }) });
            let w2: Vec<Vec<u8>> = i1.iter().map(|k| ab[*k].clone()).chain(c.c.iter().cloned()).collect();
            let (p3, _) = tracked(|| unsafe { __quantum__rt__array_concatenate(p2, c.p) });
            check_array(p3, 8, &w2, "slice ++ array")?;
            let (s, st, e) = rs(r2, w2.len());
            if let Some(i2) = denoted(s, st, e, w2.len()) {
                let (p4, _) = tracked(|| unsafe { quantum__rt__array_slice_1d(p3, Range { start: s, step: st, end: e }) });
                let w4: Vec<Vec<u8>> = i2.iter().map(|k| w2[*k].clone()).collect();
                check_array(p4, 8, &w4, "slice of (slice ++ array)")?;
                tracked(|| drop_arr(p4));
            }
            for q in [a.p, b.p, c.p, p, p2, p3] {
                tracked(|| drop_arr(q));
            }
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C23: big integers

/// Sign and magnitude, base 2^16, little-endian, no leading zeros: an independent reference.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Z {
    neg: bool,
    d: Vec<u16>,
}
impl Z {
    fn norm(mut self) -> Z {
        while self.d.last() == Some(&0) {
            self.d.pop();
        }
        if self.d.is_empty() {
            self.neg = false;
        }
        self
    }
    fn of(v: i128) -> Z {
        let mut m = v.unsigned_abs();
        let mut d = vec![];
        while m > 0 {
            d.push(m as u16);
            m >>= 16;
        }
        Z { neg: v < 0, d }.norm()
    }
    fn pow2(k: usize) -> Z {
        let mut d = vec![0u16; k / 16 + 1];
        d[k / 16] = 1 << (k % 16);
        Z { neg: false, d }
    }
    fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
    fn neg(&self) -> Z {
        Z { neg: !self.neg, d: self.d.clone() }.norm()
    }
    fn cmp_mag(a: &[u16], b: &[u16]) -> std::cmp::Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    fn cmp(&self, o: &Z) -> std::cmp::Ordering {
        match (self.neg, o.neg) {
            (false, true) => std::cmp::Ordering::Greater,
            (true, false) => std::cmp::Ordering::Less,
            (false, false) => Z::cmp_mag(&self.d, &o.d),
            (true, true) => Z::cmp_mag(&o.d, &self.d),
        }
    }
    fn add_mag(a: &[u16], b: &[u16]) -> Vec<u16> {
        let mut r = vec![];
        let mut c = 0u32;
        for i in 0..a.len().max(b.len()) {
            let s = u32::from(*a.get(i).unwrap_or(&0)) + u32::from(*b.get(i).unwrap_or(&0)) + c;
            r.push(s as u16);
            c = s >> 16;
        }
        r.push(c as u16);
        r
    }
    fn sub_mag(a: &[u16], b: &[u16]) -> Vec<u16> {
        let mut r = vec![];
        let mut c = 0i32;
        for i in 0..a.len() {
            let s = i32::from(a[i]) - i32::from(*b.get(i).unwrap_or(&0)) - c;
            r.push(s as u16);
            c = i32::from(s < 0);
        }
        r
    }
    fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            return Z { neg: self.neg, d: Z::add_mag(&self.d, &o.d) }.norm();
        }
        match Z::cmp_mag(&self.d, &o.d) {
            std::cmp::Ordering::Less => Z { neg: o.neg, d: Z::sub_mag(&o.d, &self.d) }.norm(),
            _ => Z { neg: self.neg, d: Z::sub_mag(&self.d, &o.d) }.norm(),
        }
    }
    fn sub(&self, o: &Z) -> Z {
        self.add(&o.neg())
    }
    fn mul(&self, o: &Z) -> Z {
        let mut r = vec![0u64; self.d.len() + o.d.len() + 1];
        for (i, a) in self.d.iter().enumerate() {
            for (j, b) in o.d.iter().enumerate() {
                r[i + j] += u64::from(*a) * u64::from(*b);
            }
        }
        let mut d = vec![];
        let mut c = 0u64;
        for x in r {
            let s = x + c;
            d.push(s as u16);
            c = s >> 16;
        }
        while c > 0 {
            d.push(c as u16);
            c >>= 16;
        }
        Z { neg: self.neg != o.neg, d }.norm()
    }
    /// Truncated division (towards zero), remainder with the dividend's sign.
    fn divmod(&self, o: &Z) -> (Z, Z) {
        let mut qd = vec![0u16; self.d.len()];
        let mut rem: Vec<u16> = vec![];
        for i in (0..self.d.len() * 16).rev() {
            // rem = 2*rem + bit
            let mut c = u16::from(self.d[i / 16] >> (i % 16) & 1 == 1);
            for x in &mut rem {
                let n = *x >> 15;
                *x = *x << 1 | c;
                c = n;
            }
            if c > 0 {
                rem.push(c);
            }
            while rem.last() == Some(&0) {
                rem.pop();
            }
            if Z::cmp_mag(&rem, &o.d) != std::cmp::Ordering::Less {
                rem = Z { neg: false, d: Z::sub_mag(&rem, &o.d) }.norm().d;
                qd[i / 16] |= 1 << (i % 16);
            }
        }
        (Z { neg: self.neg != o.neg, d: qd }.norm(), Z { neg: self.neg, d: rem }.norm())
    }
    fn pow(&self, e: u32) -> Z {
        let mut r = Z::of(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// Two's complement bytes, little-endian, of the given width.
    fn bytes(&self, w: usize) -> Vec<u8> {
        let m: Vec<u8> = self.d.iter().flat_map(|x| x.to_le_bytes()).collect();
        let mut b = vec![0u8; w];
        for (i, x) in m.iter().enumerate() {
            if i < w {
                b[i] = *x;
            }
        }
        if self.neg {
            let mut c = 1u16;
            for x in &mut b {
                let s = u16::from(!*x) + c;
                *x = s as u8;
                c = s >> 8;
            }
        }
        b
    }
    fn from_bytes(b: &[u8]) -> Z {
        let neg = b.last().is_some_and(|x| x & 0x80 != 0);
        let mut m = b.to_vec();
        if neg {
            let mut c = 1u16;
            for x in &mut m {
                let s = u16::from(!*x) + c;
                *x = s as u8;
                c = s >> 8;
            }
            m.push(if c > 0 { 1 } else { 0 });
        }
        if m.len() % 2 == 1 {
            m.push(0);
        }
        let d = m.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        Z { neg, d }.norm()
    }
    fn bitop(&self, o: &Z, f: impl Fn(u8, u8) -> u8) -> Z {
        let w = (self.d.len().max(o.d.len()) + 1) * 2;
        let v: Vec<u8> = self.bytes(w).iter().zip(o.bytes(w)).map(|(a, b)| f(*a, b)).collect();
        Z::from_bytes(&v)
    }
    fn shr(&self, k: usize) -> Z {
        // floor(self / 2^k)
        let (q, r) = self.divmod(&Z::pow2(k));
        if self.neg && !r.is_zero() {
            q.sub(&Z::of(1))
        } else {
            q
        }
    }
    fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut d = self.d.clone();
        let mut s = vec![];
        while !d.is_empty() {
            let mut r = 0u32;
            for x in d.iter_mut().rev() {
                let v = r << 16 | u32::from(*x);
                *x = (v / 10) as u16;
                r = v % 10;
            }
            s.push(b'0' + r as u8);
            while d.last() == Some(&0) {
                d.pop();
            }
        }
        if self.neg {
            s.push(b'-');
        }
        s.reverse();
        String::from_utf8(s).unwrap()
    }
}

fn big_new(z: &Z) -> *const BigInt {
    // alternately through the 64-bit and the byte constructor
    if z.d.len() <= 3 {
        let mut v = 0i64;
        for (k, x) in z.d.iter().enumerate() {
            v |= i64::from(*x) << (16 * k);
        }
        tracked(|| __quantum__rt__bigint_create_i64(if z.neg { -v } else { v })).0
    } else {
        let b = z.bytes(z.d.len() * 2 + 1);
        tracked(|| unsafe { __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) }).0
    }
}
fn big_free(p: *const BigInt) {
    tracked(|| unsafe { __quantum__rt__bigint_update_reference_count(p, -1) });
}
fn text(s: *const CString) -> Vec<u8> {
    unsafe {
        let n = __quantum__rt__string_get_length(s) as usize;
        let d = __quantum__rt__string_get_data(s).cast::<u8>();
        std::slice::from_raw_parts(d, n).to_vec()
    }
}
fn text_free(s: *const CString) -> Vec<u8> {
    let v = text(s);
    tracked(|| unsafe { __quantum__rt__string_update_reference_count(s, -1) });
    v
}
/// Checks that the object denotes `z`, through its text and its bytes.
fn big_is(p: *const BigInt, z: &Z, what: &dyn Fn() -> String) -> Res {
    let t = text_free(tracked(|| unsafe { __quantum__rt__bigint_to_string(p) }).0);
    let d = z.dec();
    if t != d.as_bytes() {
        return Err(format!("{} prints {:?}, expected {d}", what(), String::from_utf8_lossy(&t)));
    }
    unsafe {
        // (the data buffer is handed to the caller for good: not tracked)
        let n = __quantum__rt__bigint_get_length(p) as usize;
        let b = std::slice::from_raw_parts(__quantum__rt__bigint_get_data(p), n);
        let back = Z::from_bytes(b);
        if &back != z {
            return Err(format!("{} has bytes {b:?}, expected those of {d}", what()));
        }
        drop(Vec::from_raw_parts(b.as_ptr().cast_mut(), n, n));
    }
    Ok(())
}

fn grid(t: Tier) -> Vec<Z> {
    let ks: Vec<usize> = t.pick(
        vec![4, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 130, 192, 256, 1023, 1024],
        (3..140).step_by(1).chain([191, 192, 193, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4095, 4096]).collect(),
    );
    let mut v: Vec<Z> = [0i128, 1, 2, 3, 5, 7, 10, 100, 999_999_937].iter().map(|x| Z::of(*x)).collect();
    for k in ks {
        for o in [-1i128, 0, 1] {
            v.push(Z::pow2(k).norm().add(&Z::of(o)));
        }
    }
    v.push(Z::of(0x0123_4567_89ab_cdef_0fed_cba9_8765_4321));
    let n: Vec<Z> = v.iter().filter(|z| !z.is_zero()).map(Z::neg).collect();
    v.extend(n);
    v
}

pub fn c23(t: Tier) -> Vec<Job> {
    type Bin = unsafe extern "C" fn(*const BigInt, *const BigInt) -> *const BigInt;
    let gr = Rc::new(grid(t));
    let n = gr.len() as u64;
    let mut v = vec![];
    let bins: Vec<(&'static str, Bin)> = vec![
        ("add", __quantum__rt__bigint_add),
        ("subtract", __quantum__rt__bigint_subtract),
        ("multiply", __quantum__rt__bigint_multiply),
        ("divide", __quantum__rt__bigint_divide),
        ("modulus", __quantum__rt__bigint_modulus),
        ("bitand", __quantum__rt__bigint_bitand),
        ("bitor", __quantum__rt__bigint_bitor),
        ("bitxor", __quantum__rt__bigint_bitxor),
    ];
    for (name, f) in bins {
        let gr = gr.clone();
        v.push(job(name, n * n, move |i, ctx| {
            let (a, b) = (&gr[(i / n) as usize], &gr[(i % n) as usize]);
            if matches!(name, "divide" | "modulus") && b.is_zero() {
                return Ok(());
            }
            let want = match name {
                "add" => a.add(b),
                "subtract" => a.sub(b),
                "multiply" => a.mul(b),
                "divide" => a.divmod(b).0,
                "modulus" => a.divmod(b).1,
                "bitand" => a.bitop(b, |x, y| x & y),
                "bitor" => a.bitop(b, |x, y| x | y),
                _ => a.bitop(b, |x, y| x ^ y),
            };
            ctx.log(|| format!("{name}({}, {}) = {}", a.dec(), b.dec(), want.dec()));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&want.dec()));
            heap(|| {
                let (x, y) = (big_new(a), big_new(b));
                let (r, _) = tracked(|| unsafe { f(x, y) });
                big_is(r, &want, &|| format!("{name}({}, {})", a.dec(), b.dec()))?;
                big_is(x, a, &|| format!("first operand after {name}"))?;
                big_is(y, b, &|| format!("second operand after {name}"))?;
                big_free(x);
                big_free(y);
                big_is(r, &want, &|| format!("result of {name} after releasing the operands"))?;
                big_free(r);
                Ok(())
            })
        }));
    }
    {
        let gr = gr.clone();
        v.push(job("compare", n * n, move |i, ctx| {
            let (a, b) = (&gr[(i / n) as usize], &gr[(i % n) as usize]);
            ctx.log(|| format!("compare {} {}", a.dec(), b.dec()));
            ctx.transitions += 3;
            ctx.traces += 1;
            heap(|| {
                let (x, y) = (big_new(a), big_new(b));
                let o = a.cmp(b);
                unsafe {
                    let got = (
                        __quantum__rt__bigint_equal(x, y),
                        __quantum__rt__bigint_greater(x, y),
                        __quantum__rt__bigint_greater_eq(x, y),
                    );
                    if got != (o.is_eq(), o.is_gt(), o.is_ge()) {
                        return Err(format!("comparing {} with {}: (equal, greater, greater-or-equal) = {got:?}", a.dec(), b.dec()));
                    }
                }
                big_free(x);
                big_free(y);
                Ok(())
            })
        }));
    }
    {
        let gr = gr.clone();
        v.push(job("unary", n * 2, move |i, ctx| {
            let a = &gr[(i / 2) as usize];
            let not = i % 2 == 1;
            let want = if not { a.neg().sub(&Z::of(1)) } else { a.neg() };
            ctx.log(|| format!("{} {} = {}", if not { "bitnot" } else { "negate" }, a.dec(), want.dec()));
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let x = big_new(a);
                let (r, _) = tracked(|| unsafe {
                    if not {
                        __quantum__rt__bigint_bitnot(x)
                    } else {
                        __quantum__rt__bigint_negate(x)
                    }
                });
                big_is(r, &want, &|| format!("{} of {}", if not { "bitnot" } else { "negate" }, a.dec()))?;
                big_is(x, a, &|| "operand".into())?;
                big_free(x);
                big_free(r);
                Ok(())
            })
        }));
    }
    {
        let gr = gr.clone();
        let amounts: Vec<u64> = vec![0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 1000, 4096, 65_536, u64::from(u32::MAX), 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, u64::MAX];
        let m = amounts.len() as u64;
        v.push(job("shift", n * m * 2, move |i, ctx| {
            let (a, k, left) = (&gr[(i / 2 / m) as usize], amounts[(i / 2 % m) as usize], i % 2 == 0);
            if left && k > 70_000 && !a.is_zero() {
                return Ok(()); // does not fit in memory
            }
            if left && k > 5_000 && a.d.len() > 20 {
                return Ok(());
            }
            let want = if a.is_zero() {
                Z::of(0)
            } else if left {
                a.mul(&Z::pow2(k as usize))
            } else if k > 70_000 {
                Z::of(if a.neg { -1 } else { 0 }) // no operand has as many bits
            } else {
                a.shr(k as usize)
            };
            ctx.log(|| format!("{} {} by {k} = {}", a.dec(), if left { "<<" } else { ">>" }, want.dec()));
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let x = big_new(a);
                let (r, _) = tracked(|| unsafe {
                    if left {
                        __quantum__rt__bigint_shiftleft(x, k)
                    } else {
                        __quantum__rt__bigint_shiftright(x, k)
                    }
                });
                big_is(r, &want, &|| format!("{} shifted {} by {k}", a.dec(), if left { "left" } else { "right" }))?;
                big_is(x, a, &|| "operand".into())?;
                big_free(x);
                big_free(r);
                Ok(())
            })
        }));
    }
    {
        let gr = gr.clone();
        let es: Vec<u32> = t.pick(vec![0, 1, 2, 3, 4, 5, 7, 8, 13], (0..20).collect()).into_iter().chain([31, 64, 100, 255, 256, 257, 1 << 16, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
        let m = es.len() as u64;
        v.push(job("power", n * m, move |i, ctx| {
            let (a, e) = (&gr[(i / m) as usize], es[(i % m) as usize]);
            let unit = a.d == [1] || a.is_zero();
            if !unit && (e > 300 || e > 20 && a.d.len() > 1 || a.d.len() as u32 * e > 300) {
                return Ok(());
            }
            let want = if !unit || e == 0 {
                a.pow(e)
            } else if a.neg && e % 2 == 0 {
                a.neg()
            } else {
                a.clone()
            };
            ctx.log(|| format!("{} ^ {e} = {}", a.dec(), want.dec()));
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let x = big_new(a);
                let (r, _) = tracked(|| unsafe { __quantum__rt__bigint_power(x, e) });
                big_is(r, &want, &|| format!("{} to the power {e}", a.dec()))?;
                big_is(x, a, &|| "operand".into())?;
                big_free(x);
                big_free(r);
                Ok(())
            })
        }));
    }
    // creation: 64-bit values, and every byte string over boundary bytes up to a length
    let i64s: Vec<i64> = {
        let mut v = vec![0, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1];
        for k in 0..63 {
            for o in [-1i64, 0, 1] {
                v.push((1i64 << k) + o);
                v.push(-(1i64 << k) + o);
            }
        }
        v
    };
    v.push(job("create-i64", i64s.len() as u64, move |i, ctx| {
        let x = i64s[i as usize];
        ctx.log(|| format!("create {x}"));
        ctx.transitions += 1;
        ctx.traces += 1;
        heap(|| {
            let (p, _) = tracked(|| __quantum__rt__bigint_create_i64(x));
            big_is(p, &Z::of(i128::from(x)), &|| format!("integer created from {x}"))?;
            big_free(p);
            Ok(())
        })
    }));
    // longer byte strings: every length, with boundary bytes at both ends
    {
        let ends = [0u8, 1, 0x7f, 0x80, 0x81, 0xff];
        let lens: Vec<usize> = (1..=t.pick(70, 300)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1024]).collect();
        v.push(job("create-long-bytes", lens.len() as u64 * 6 * 6 * 4, move |i, ctx| {
            let mut i = i as usize;
            let mut nx = |n: usize| {
                let k = i % n;
                i /= n;
                k
            };
            let (lo, hi, fill, n) = (ends[nx(6)], ends[nx(6)], nx(4), lens[nx(lens.len())]);
            let mut b: Vec<u8> = (0..n).map(|k| [0u8, 0xff, (k * 37 + 11) as u8, 0x80][fill]).collect();
            b[0] = lo;
            b[n - 1] = hi;
            let z = Z::from_bytes(&b);
            ctx.log(|| format!("create from {b:?} = {}", z.dec()));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&z.dec()));
            heap(|| {
                let (p, _) = tracked(|| unsafe { __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) });
                big_is(p, &z, &|| format!("integer created from bytes {b:?}"))?;
                big_free(p);
                Ok(())
            })
        }));
    }
    let bytes = [0u8, 1, 0x7f, 0x80, 0x81, 0xff];
    let maxl = t.pick(6u32, 8);
    v.push(job("create-bytes", (0..=maxl).map(|l| 6u64.pow(l)).sum(), move |i, ctx| {
        let mut i = i;
        let mut l = 0;
        while i >= 6u64.pow(l) {
            i -= 6u64.pow(l);
            l += 1;
        }
        let b: Vec<u8> = (0..l)
            .map(|_| {
                let k = bytes[(i % 6) as usize];
                i /= 6;
                k
            })
            .collect();
        let z = Z::from_bytes(&b);
        ctx.log(|| format!("create from {b:?} = {}", z.dec()));
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&z.dec()));
        heap(|| {
            let (p, _) = tracked(|| unsafe { __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr()) });
            big_is(p, &z, &|| format!("integer created from bytes {b:?}"))?;
            big_free(p);
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C24: strings and text

fn rt_str(b: &[u8]) -> *const CString {
    let c = CString::new(b).unwrap();
    tracked(|| unsafe { __quantum__rt__string_create(c.as_ptr().cast_mut()) }).0
}

/// Boundary doubles: every exponent in a set, boundary mantissas, both signs, and specials.
pub fn doubles(t: Tier) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, 0.1, 0.2, 0.3, 1.0 / 3.0, 2.5, 0.5, 1.5, 123.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 4.35, 0.000_001, 1e-7, 123_456.789, 9_007_199_254_740_993.0, std::f64::consts::PI];
    let mut exps: Vec<u64> = vec![0, 1, 2, 1021, 1022, 1023, 1024, 1025, 1074, 1075, 1076, 1086, 1087, 2045, 2046];
    match t {
        Tier::Quick => exps.extend((900..1150).step_by(7)),
        Tier::Thorough => exps.extend(3..2045),
    }
    for e in exps {
        for m in [0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) + 1, 0x5_5555_5555_5555, 1 << 20, 0xF_FFFF << 32] {
            v.push(f64::from_bits(e << 52 | (m & ((1 << 52) - 1))));
        }
    }
    let mut w = v.clone();
    w.extend(v.iter().map(|x| -x));
    w.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
    w
}

pub fn c24(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let alpha: Vec<u8> = vec![1, b'\t', b'\n', b' ', b'0', b'A', b'a', 0x7f, 0x80, 0xc3, 0xa9, 0xff];
    let na = alpha.len() as u64;
    let maxl = t.pick(3u32, 4);
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    for l in 1..=maxl {
        for k in 0..na.pow(l) {
            let mut k = k;
            all.push(
                (0..l)
                    .map(|_| {
                        let c = alpha[(k % na) as usize];
                        k /= na;
                        c
                    })
                    .collect(),
            );
        }
    }
    let mut lens: Vec<Vec<u8>> = vec![];
    for n in (5usize..=130).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000]) {
        lens.push((0..n).map(|k| (k % 255 + 1) as u8).collect());
    }
    all.extend(lens);
    let all = Rc::new(all);
    {
        let all = all.clone();
        v.push(job("create", all.len() as u64, move |i, ctx| {
            let b = &all[i as usize];
            ctx.log(|| format!("string {b:?}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(i);
            heap(|| {
                let mut src = b.clone();
                src.push(0);
                let s = tracked(|| unsafe { __quantum__rt__string_create(src.as_ptr().cast_mut().cast::<c_char>()) }).0;
                // the source buffer is the caller's: changing it must not matter
                for x in &mut src {
                    *x = b'#';
                }
                unsafe {
                    let n = __quantum__rt__string_get_length(s) as usize;
                    if n != b.len() {
                        return Err(format!("length of {b:?} is {n}"));
                    }
                    let d = __quantum__rt__string_get_data(s).cast::<u8>();
                    if !alloc::is_live(d, n + 1) || *d.add(n) != 0 {
                        return Err(format!("data of {b:?} is not a terminated string in live memory"));
                    }
                    if text(s) != *b {
                        return Err(format!("string created from {b:?} reads {:?}", text(s)));
                    }
                }
                text_free(s);
                Ok(())
            })
        }));
    }
    {
        // pairs: all strings up to length 2 with all, plus the long ones
        let short: Vec<Vec<u8>> = all.iter().filter(|b| b.len() <= 2 || [15, 16, 31, 32, 63, 64, 127, 128].contains(&b.len()) || b.len() > 130).cloned().collect();
        let n = short.len() as u64;
        v.push(job("pairs", n * n, move |i, ctx| {
            let (a, b) = (&short[(i / n) as usize], &short[(i % n) as usize]);
            ctx.log(|| format!("{a:?} and {b:?}"));
            ctx.transitions += 2;
            ctx.traces += 1;
            heap(|| {
                let (x, y) = (rt_str(a), rt_str(b));
                unsafe {
                    let eq = (__quantum__rt__string_equal(x, y), __quantum__rt__string_equal(y, x));
                    if eq != (a == b, a == b) {
                        return Err(format!("string_equal({a:?}, {b:?}) = {eq:?}"));
                    }
                    if !__quantum__rt__string_equal(x, x) {
                        return Err(format!("{a:?} is not equal to itself"));
                    }
                    let c = tracked(|| __quantum__rt__string_concatenate(x, y)).0;
                    let want = [&a[..], &b[..]].concat();
                    if text(c) != want {
                        return Err(format!("concatenation of {a:?} and {b:?} is {:?}", text(c)));
                    }
                    if text(x) != *a || text(y) != *b {
                        return Err(format!("concatenation changed an operand ({a:?}, {b:?})"));
                    }
                    text_free(x);
                    text_free(y);
                    if text_free(c) != want {
                        return Err("concatenation does not survive its operands".into());
                    }
                }
                Ok(())
            })
        }));
    }
    {
        // strings that differ in one byte, or by one byte more
        let mut lens: Vec<(usize, Vec<usize>)> = (1usize..=t.pick(160, 600)).map(|n| (n, (0..n).collect())).collect();
        for n in [255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131_072] {
            let mut at: Vec<usize> = (0..17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([0, n / 2, n - 1]).filter(|p| *p < n).collect();
            at.sort_unstable();
            at.dedup();
            lens.push((n, at));
        }
        v.push(job("one-difference", lens.len() as u64, move |i, ctx| {
            let (n, at) = &lens[i as usize];
            ctx.log(|| format!("strings of {n} bytes and the same with one byte changed, removed or added"));
            ctx.traces += 1;
            ctx.state(i);
            heap(|| {
                let base: Vec<u8> = (0..*n).map(|k| (k % 255 + 1) as u8).collect();
                let x = rt_str(&base);
                let mut others: Vec<(Vec<u8>, String)> = vec![];
                for p in at {
                    for c in [0x20u8, 0x80, 1] {
                        let mut b = base.clone();
                        if b[*p] ^ c != 0 {
                            b[*p] ^= c;
                            others.push((b, format!("byte {p} xor {c:#x}")));
                        }
                    }
                }
                others.push((base[..n - 1].to_vec(), "without the last byte".into()));
                others.push((base[1..].to_vec(), "without the first byte".into()));
                others.push(([&base[..], b" "].concat(), "with a byte more".into()));
                for (b, what) in others {
                    ctx.transitions += 1;
                    let y = rt_str(&b);
                    let eq = unsafe { (__quantum__rt__string_equal(x, y), __quantum__rt__string_equal(y, x)) };
                    text_free(y);
                    if eq != (false, false) {
                        return Err(format!("a string of {n} bytes is equal to the same {what}"));
                    }
                }
                let y = rt_str(&base);
                let eq = unsafe { (__quantum__rt__string_equal(x, y), __quantum__rt__string_equal(y, x)) };
                text_free(y);
                text_free(x);
                if eq != (true, true) {
                    return Err(format!("two equal strings of {n} bytes are not equal"));
                }
                Ok(())
            })
        }));
    }
    {
        let mut ints: Vec<i64> = (-1100..1100).collect();
        for k in 0..63 {
            for o in [-1i64, 0, 1] {
                ints.push((1i64 << k).wrapping_add(o));
                ints.push((-(1i64 << k)).wrapping_add(o));
            }
        }
        let mut p = 1i64;
        for _ in 0..19 {
            ints.extend([p, p - 1, p + 1, -p, -p + 1]);
            p = p.wrapping_mul(10);
        }
        ints.extend([i64::MAX, i64::MIN, i64::MIN + 1]);
        v.push(job("integers", ints.len() as u64, move |i, ctx| {
            let x = ints[i as usize];
            ctx.log(|| format!("int_to_string({x})"));
            ctx.transitions += 3;
            ctx.traces += 1;
            heap(|| {
                let want = Z::of(i128::from(x)).dec();
                let s = text_free(tracked(|| __quantum__rt__int_to_string(x)).0);
                if s != want.as_bytes() {
                    return Err(format!("int_to_string({x}) = {:?}", String::from_utf8_lossy(&s)));
                }
                // an id is an address: one with the top bit set is large, not negative
                let id = x as u64;
                let s = text_free(tracked(|| __quantum__rt__qubit_to_string(id as Q)).0);
                if s != Z::of(i128::from(id)).dec().as_bytes() {
                    return Err(format!("qubit_to_string({id}) = {:?}", String::from_utf8_lossy(&s)));
                }
                Ok(())
            })
        }));
    }
    {
        let ds = doubles(t);
        v.push(job("doubles", ds.len() as u64, move |i, ctx| {
            let x = ds[i as usize];
            ctx.log(|| format!("double_to_string({x:e}, bits {:x})", x.to_bits()));
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let s = String::from_utf8(text_free(tracked(|| __quantum__rt__double_to_string(x)).0)).map_err(|e| e.to_string())?;
                let y: f64 = s.parse().map_err(|_| format!("double_to_string({x:e}) = {s:?} is not a number"))?;
                if !(x.is_nan() && y.is_nan()) && x.to_bits() != y.to_bits() {
                    return Err(format!("double_to_string({x:e}) = {s:?} denotes {y:e}"));
                }
                if s.parse::<i128>().is_ok() || (x.is_finite() && !s.contains(['.', 'e', 'E'])) {
                    return Err(format!("double_to_string({x:e}) = {s:?} looks like an integer"));
                }
                Ok(())
            })
        }));
    }
    {
        let bs: Vec<i64> = (-4..=4).chain([10, -10, 100, i64::MAX, i64::MIN]).collect();
        let n = bs.len() as u64;
        v.push(job("ranges", n * n * n, move |i, ctx| {
            let (a, s, b) = (bs[(i % n) as usize], bs[(i / n % n) as usize], bs[(i / n / n) as usize]);
            ctx.log(|| format!("range {a}..{s}..{b}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            heap(|| {
                let t = text_free(tracked(|| quantum__rt__range_to_string(Range { start: a, step: s, end: b })).0);
                let t = String::from_utf8_lossy(&t).into_owned();
                let p: Vec<Result<i64, _>> = t.split("..").map(str::parse::<i64>).collect();
                let got = match &p[..] {
                    [Ok(x), Ok(y)] => Some((*x, 1, *y)),
                    [Ok(x), Ok(k), Ok(y)] => Some((*x, *k, *y)),
                    _ => None,
                };
                if got != Some((a, s, b)) {
                    return Err(format!("range {a}..{s}..{b} prints {t:?}"));
                }
                Ok(())
            })
        }));
    }
    v.push(job("words", 8, move |i, ctx| {
        ctx.transitions += 1;
        ctx.traces += 1;
        heap(|| {
            let (s, want) = match i {
                0 => (tracked(|| __quantum__rt__bool_to_string(true)).0, "true"),
                1 => (tracked(|| __quantum__rt__bool_to_string(false)).0, "false"),
                2 => (tracked(|| __quantum__rt__pauli_to_string(Pauli::I)).0, "PauliI"),
                3 => (tracked(|| __quantum__rt__pauli_to_string(Pauli::X)).0, "PauliX"),
                4 => (tracked(|| __quantum__rt__pauli_to_string(Pauli::Y)).0, "PauliY"),
                5 => (tracked(|| __quantum__rt__pauli_to_string(Pauli::Z)).0, "PauliZ"),
                6 => (tracked(|| __quantum__rt__result_to_string(__quantum__rt__result_get_zero())).0, "Zero"),
                _ => (tracked(|| __quantum__rt__result_to_string(__quantum__rt__result_get_one())).0, "One"),
            };
            let s = text_free(s);
            if s != want.as_bytes() {
                return Err(format!("{want} prints as {:?}", String::from_utf8_lossy(&s)));
            }
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C25: callables

struct Seen {
    which: usize,
    cap: usize,
    res: usize,
    ctls: Option<Vec<usize>>,
    rest: Vec<u64>,
    args_null: bool,
}
thread_local! {
    static SEEN: std::cell::RefCell<Vec<Seen>> = const { std::cell::RefCell::new(vec![]) };
    /// (controlled?, number of 8-byte fields after the controls or in the plain tuple, retain the controls)
    static SHAPE: std::cell::Cell<(usize, bool)> = const { std::cell::Cell::new((0, false)) };
    static KEPT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn seen(which: usize, cap: *mut u8, args: *mut u8, res: *mut u8) {
    alloc::untracked(|| unsafe {
        let (fields, retain) = SHAPE.with(std::cell::Cell::get);
        let mut s = Seen { which, cap: cap as usize, res: res as usize, ctls: None, rest: vec![], args_null: args.is_null() };
        if !args.is_null() {
            let mut off = 0;
            if which >= 2 {
                let a = *args.cast::<*const QirArray>();
                let n = __quantum__rt__array_get_size_1d(a);
                s.ctls = Some(
                    (0..n.min(5000)).map(|k| *__quantum__rt__array_get_element_ptr_1d(a, k).cast::<Q>() as usize).collect(),
                );
                if retain {
                    __quantum__rt__array_update_reference_count(a, 1);
                    KEPT.with(|k| k.set(a as usize));
                }
                off = 1;
            }
            for k in 0..fields {
                s.rest.push(*args.cast::<u64>().add(off + k));
            }
            // the callee owns its argument tuple: scribbling over it must not reach the caller's
            for k in 0..fields {
                *args.cast::<u64>().add(off + k) = 0x0bad;
            }
        }
        if !res.is_null() {
            *res.cast::<u64>() = 0x600d + which as u64;
        }
        SEEN.with(|x| x.borrow_mut().push(s));
    });
}
/// What a running specialisation itself invokes.
#[derive(Clone)]
struct Inner {
    c: *const Callable,
    cap: usize,
    is_adj: bool,
    lists: Vec<Vec<usize>>,
    /// before or after it looked at its own arguments
    after: bool,
    /// what the callable it invokes invokes in turn
    then: Option<Box<Inner>>,
}
thread_local! {
    static INNER: std::cell::RefCell<(Option<Inner>, Res, u32)> = const { std::cell::RefCell::new((None, Ok(()), 0)) };
}
fn nested(after: bool) {
    alloc::untracked(|| {
        let Some(i) = INNER.with(|x| {
            let mut x = x.borrow_mut();
            if x.0.as_ref().is_some_and(|i| i.after == after) { x.0.take() } else { None }
        }) else {
            return;
        };
        let (shape, kept, seen) = (SHAPE.with(std::cell::Cell::get), KEPT.with(std::cell::Cell::get), SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())));
        INNER.with(|x| x.borrow_mut().0 = i.then.map(|t| *t));
        let r = invoke(i.c, i.cap, i.is_adj, &i.lists, 1, false, true, false);
        SHAPE.with(|s| s.set(shape));
        KEPT.with(|s| s.set(kept));
        SEEN.with(|s| *s.borrow_mut() = seen);
        INNER.with(|x| {
            let mut x = x.borrow_mut();
            x.2 += 1;
            if let Err(e) = r {
                x.1 = Err(format!("invoked from within an invocation: {e}"));
            }
        });
    });
}
extern "C" fn body(c: *mut u8, a: *mut u8, r: *mut u8) {
    nested(false);
    seen(0, c, a, r);
    nested(true);
}
extern "C" fn adj(c: *mut u8, a: *mut u8, r: *mut u8) {
    nested(false);
    seen(1, c, a, r);
    nested(true);
}
extern "C" fn ctl(c: *mut u8, a: *mut u8, r: *mut u8) {
    nested(false);
    seen(2, c, a, r);
    nested(true);
}
extern "C" fn ctladj(c: *mut u8, a: *mut u8, r: *mut u8) {
    nested(false);
    seen(3, c, a, r);
    nested(true);
}
static TABLE: Fns = Fns([body, adj, ctl, ctladj]);

thread_local! {
    static COUNTED: std::cell::RefCell<Vec<(usize, usize, i32)>> = const { std::cell::RefCell::new(vec![]) };
}
extern "C" fn cap_ref(c: *mut u8, n: i32) {
    COUNTED.with(|x| x.borrow_mut().push((0, c as usize, n)));
}
extern "C" fn cap_alias(c: *mut u8, n: i32) {
    COUNTED.with(|x| x.borrow_mut().push((1, c as usize, n)));
}
#[repr(C)]
struct MemTable([Option<extern "C" fn(*mut u8, i32)>; 2]);
static MEM: [MemTable; 4] = [
    MemTable([None, None]),
    MemTable([Some(cap_ref), None]),
    MemTable([None, Some(cap_alias)]),
    MemTable([Some(cap_ref), Some(cap_alias)]),
];

/// Invokes the callable once with the given nesting of control lists and checks what ran.
fn invoke(
    c: *const Callable,
    cap: usize,
    is_adj: bool,
    lists: &[Vec<usize>], // outermost first
    fields: usize,
    null_args: bool,
    with_res: bool,
    retain: bool,
) -> Res {
    unsafe {
        let before = alloc::live_total();
        let mut res = [0u64; 1];
        let res_p: *mut u8 = if with_res { res.as_mut_ptr().cast() } else { std::ptr::null_mut() };
        let depth = lists.len();
        let vals: Vec<u64> = (0..fields).map(|k| 0x1111_2222_0000 + k as u64).collect();
        // innermost first
        let mut tups: Vec<(Tup, Vec<u64>)> = vec![];
        let mut arrs: Vec<(*const QirArray, Vec<usize>)> = vec![];
        if depth == 0 {
            if !null_args {
                let t = tracked(|| __quantum__rt__tuple_create(8 * fields as u64)).0;
                for (k, v) in vals.iter().enumerate() {
                    *t.cast::<u64>().add(k) = *v;
                }
                tups.push((t, vals.clone()));
            }
        } else {
            for (level, l) in lists.iter().rev().enumerate() {
                let a = tracked(|| qarr(l)).0;
                arrs.push((a, l.clone()));
                let mut cells = vec![a as u64];
                if level == 0 {
                    cells.extend(&vals);
                } else {
                    cells.push(tups[level - 1].0 as u64);
                }
                let t = tracked(|| __quantum__rt__tuple_create(8 * cells.len() as u64)).0;
                for (k, v) in cells.iter().enumerate() {
                    *t.cast::<u64>().add(k) = *v;
                }
                tups.push((t, cells));
            }
        }
        let args = tups.last().map_or(std::ptr::null_mut(), |t| t.0.cast::<u8>());
        SHAPE.with(|s| s.set((fields, retain)));
        KEPT.with(|k| k.set(0));
        SEEN.with(|s| s.borrow_mut().clear());
        let mid = alloc::live_total();
        tracked(|| __quantum__rt__callable_invoke(c, args, res_p));
        let l = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        if l.len() != 1 {
            return Err(format!("{} specialisations ran", l.len()));
        }
        let s = &l[0];
        let want = usize::from(is_adj) + if depth > 0 { 2 } else { 0 };
        let names = ["body", "adjoint", "controlled", "controlled adjoint"];
        if s.which != want {
            return Err(format!("the {} specialisation ran instead of the {}", names[s.which], names[want]));
        }
        if s.cap != cap {
            return Err(format!("captured tuple is {:x}, expected {cap:x}", s.cap));
        }
        if s.res != res_p as usize {
            return Err("the result tuple is not the caller's".into());
        }
        if s.args_null != (depth == 0 && null_args) {
            return Err(format!("arguments null: {}", s.args_null));
        }
        if depth > 0 {
            let merged: Vec<usize> = lists.concat();
            if s.ctls.as_ref() != Some(&merged) {
                return Err(format!("controls {:?}, expected {merged:?} (lists {lists:?}, outermost first)", s.ctls));
            }
        }
        if !s.args_null && s.rest != vals {
            return Err(format!("arguments {:x?}, expected {vals:x?}", s.rest));
        }
        if with_res && res[0] != 0x600d + want as u64 {
            return Err("the result was not stored in the caller's tuple".into());
        }
        if retain {
            let k = KEPT.with(std::cell::Cell::get);
            if k != 0 {
                let a = k as *const QirArray;
                let merged: Vec<usize> = lists.concat();
                let c: Vec<Vec<u8>> = merged.iter().map(|x| x.to_le_bytes().to_vec()).collect();
                check_array(a, 8, &c, "control list retained by the callee")?;
                tracked(|| drop_arr(a));
            }
        }
        let after = alloc::live_total();
        if after != mid {
            return Err(format!("the invocation left {} block(s) behind", after as i64 - mid as i64));
        }
        // the caller's tuples and lists are untouched
        for (t, cells) in &tups {
            for (k, v) in cells.iter().enumerate() {
                if *t.cast::<u64>().add(k) != *v {
                    return Err("the invocation changed a tuple of the caller".into());
                }
            }
        }
        for (a, l) in &arrs {
            let c: Vec<Vec<u8>> = l.iter().map(|x| x.to_le_bytes().to_vec()).collect();
            check_array(*a, 8, &c, "control list of the caller")?;
        }
        for (t, _) in &tups {
            tracked(|| __quantum__rt__tuple_update_reference_count(*t, -1));
        }
        for (a, _) in &arrs {
            tracked(|| drop_arr(*a));
        }
        if alloc::live_total() != before {
            return Err("releasing the arguments after the invocation did not free them exactly".into());
        }
    }
    Ok(())
}

pub fn c25(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    let table = || -> *mut *mut u8 { (&raw const TABLE.0).cast_mut().cast() };
    // functor words: letters A (adjoint), C (controlled), K (continue on a forced copy), k (unforced copy)
    let maxw: u32 = t.pick(5, 7);
    let n: u64 = (0..=maxw).map(|l| 4u64.pow(l)).sum();
    v.push(job(format!("functor-words/length{maxw}"), n * 3, move |i, ctx| {
        let mut w = i / 3;
        let variant = i % 3;
        let mut l = 0;
        while w >= 4u64.pow(l) {
            w -= 4u64.pow(l);
            l += 1;
        }
        let word: Vec<u8> = (0..l)
            .map(|_| {
                let k = b"ACKk"[(w % 4) as usize];
                w /= 4;
                k
            })
            .collect();
        ctx.log(|| format!("functors {:?}, control lists of variant {variant}", String::from_utf8_lossy(&word)));
        heap(|| {
            let cap = 0x00c0_ffee;
            let (c0, _) = tracked(|| __quantum__rt__callable_create(table(), std::ptr::null_mut(), cap as *mut u8));
            // (pointer, adjoint, depth, refs)
            let mut cs = vec![(c0, false, 0usize, 1i32)];
            let mut cur = 0;
            for x in &word {
                ctx.transitions += 1;
                match x {
                    b'A' => {
                        tracked(|| unsafe { __quantum__rt__callable_make_adjoint(cs[cur].0) });
                        cs[cur].1 ^= true;
                    }
                    b'C' => {
                        tracked(|| unsafe { __quantum__rt__callable_make_controlled(cs[cur].0) });
                        cs[cur].2 += 1;
                    }
                    b'K' => {
                        let (p, _) = tracked(|| unsafe { __quantum__rt__callable_copy(cs[cur].0, true) });
                        cs.push((p, cs[cur].1, cs[cur].2, 1));
                        cur = cs.len() - 1;
                    }
                    _ => {
                        let (p, _) = tracked(|| unsafe { __quantum__rt__callable_copy(cs[cur].0, false) });
                        if p != cs[cur].0 {
                            return Err("an unforced copy of an unaliased callable is a new object".into());
                        }
                        cs[cur].3 += 1;
                    }
                }
            }
            for (k, (p, a, d, _)) in cs.iter().enumerate() {
                // distinct list lengths and elements per level
                let lists: Vec<Vec<usize>> = (0..*d)
                    .map(|l| match variant {
                        0 => vec![l + 1],
                        1 => (0..=l).map(|j| 10 * (l + 1) + j).collect(),
                        _ => (0..(d - l) % 3).map(|j| 100 + 10 * l + j).collect(),
                    })
                    .collect();
                ctx.traces += 1;
                invoke(*p, cap, *a, &lists, 1 + k % 2, false, true, variant == 2).map_err(|e| {
                    format!("callable {k} after {:?} (adjoint {a}, {d} controls): {e}", String::from_utf8_lossy(&word))
                })?;
                ctx.state(hash_str(&format!("{a}{d}{variant}")));
            }
            for (p, _, _, r) in &cs {
                tracked(|| unsafe { __quantum__rt__callable_update_reference_count(*p, -*r) });
            }
            Ok(())
        })
    }));
    // control list lengths at every level
    let maxd: u32 = t.pick(4, 5);
    let ll = 4u64; // lengths 0..=3
    let n: u64 = (0..=maxd).map(|d| ll.pow(d)).sum();
    v.push(job(format!("control-lists/depth{maxd}"), n * 2 * 4 * 2 * 2, move |i, ctx| {
        let mut i = i;
        let mut nx = |n: u64| {
            let k = i % n;
            i /= n;
            k
        };
        let (a, fields, with_res, retain) = (nx(2) == 1, nx(4) as usize, nx(2) == 1, nx(2) == 1);
        let mut d = 0;
        while i >= ll.pow(d) {
            i -= ll.pow(d);
            d += 1;
        }
        let lists: Vec<Vec<usize>> = (0..d as usize)
            .map(|l| {
                let n = i % ll;
                i /= ll;
                (0..n as usize).map(|j| 100 * (l + 1) + j).collect()
            })
            .collect();
        ctx.log(|| format!("lists {lists:?} (outermost first), adjoint {a}, {fields} fields, result {with_res}, retained {retain}"));
        ctx.transitions += u64::from(d) + 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{lists:?}{a}")));
        heap(|| {
            let (c, _) = tracked(|| __quantum__rt__callable_create(table(), std::ptr::null_mut(), std::ptr::null_mut()));
            if a {
                tracked(|| unsafe { __quantum__rt__callable_make_adjoint(c) });
            }
            for _ in 0..d {
                tracked(|| unsafe { __quantum__rt__callable_make_controlled(c) });
            }
            // twice: an invocation must not change the callable
            for _ in 0..2 {
                invoke(c, 0, a, &lists, fields, false, with_res, retain)?;
            }
            if d == 0 {
                invoke(c, 0, a, &lists, 0, true, with_res, retain)?;
            }
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c, -1) });
            Ok(())
        })
    }));
    // invocations between functor applications, on several references to one callable
    let wl = t.pick(6u32, 8);
    v.push(job(format!("invoke-between/length{wl}"), 5u64.pow(wl) * 2, move |i, ctx| {
        let variant = i % 2;
        let mut w = i / 2;
        let word: Vec<u8> = (0..wl)
            .map(|_| {
                let k = b"ACIKF"[(w % 5) as usize];
                w /= 5;
                k
            })
            .collect();
        let show = String::from_utf8_lossy(&word).into_owned();
        ctx.log(|| format!("operations {show}"));
        heap(|| {
            let (mut c, _) = tracked(|| __quantum__rt__callable_create(table(), std::ptr::null_mut(), 0x55 as *mut u8));
            let (mut a, mut d) = (false, 0usize);
            let mut old: Vec<(*const Callable, bool, usize)> = vec![];
            let lists = |d: usize| -> Vec<Vec<usize>> { (0..d).map(|l| (0..1 + (l + variant as usize) % 2).map(|j| 10 * (l + 1) + j).collect()).collect() };
            for (k, x) in word.iter().chain(b"I").enumerate() {
                ctx.transitions += 1;
                match x {
                    b'A' => {
                        tracked(|| unsafe { __quantum__rt__callable_make_adjoint(c) });
                        a = !a;
                    }
                    b'C' => {
                        tracked(|| unsafe { __quantum__rt__callable_make_controlled(c) });
                        d += 1;
                    }
                    b'I' => {
                        invoke(c, 0x55, a, &lists(d), 2, false, k % 2 == 0, false).map_err(|e| format!("step {k} of {show}: {e}"))?;
                    }
                    // an aliased callable is copied on an unforced copy: the old one stays as it is
                    x => {
                        let force = *x == b'F';
                        if !force {
                            tracked(|| unsafe { __quantum__rt__callable_update_alias_count(c, 1) });
                        }
                        let (p, _) = tracked(|| unsafe { __quantum__rt__callable_copy(c, force) });
                        if !force {
                            tracked(|| unsafe { __quantum__rt__callable_update_alias_count(c, -1) });
                        }
                        if p == c {
                            return Err(format!("step {k} of {show}: the copy is the same object"));
                        }
                        old.push((c, a, d));
                        c = p;
                    }
                }
            }
            for (p, a, d) in old {
                invoke(p, 0x55, a, &lists(d), 1, false, true, false).map_err(|e| format!("the original of a copy after {show}: {e}"))?;
                tracked(|| unsafe { __quantum__rt__callable_update_reference_count(p, -1) });
            }
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{a}{d}")));
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c, -1) });
            Ok(())
        })
    }));
    // specialisations that invoke callables themselves: another one, the same one, and one more from there
    v.push(job("nested-invocations", 2 * 4 * 2 * 4 * 2 * 3 * 2 * 3, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (a1, d1, a2, d2, after, third, same, variant) = (nx(2) == 1, nx(4), nx(2) == 1, nx(4), nx(2) == 1, nx(3), nx(2) == 1, nx(3));
        ctx.log(|| format!("adjoint {a1}, {d1} controls invokes {} (adjoint {a2}, {d2} controls) {}; further {third}", if same { "itself" } else { "another" }, if after { "at its end" } else { "at its start" }));
        ctx.transitions += 2;
        ctx.traces += 1;
        let lists = |d: usize, o: usize| -> Vec<Vec<usize>> { (0..d).map(|l| (0..(l + variant) % 3).map(|j| o + 10 * (l + 1) + j).collect()).collect() };
        heap(|| {
            let mk = |a: bool, d: usize, cap: usize| {
                tracked(|| unsafe {
                    let c = __quantum__rt__callable_create(table(), std::ptr::null_mut(), cap as *mut u8);
                    if a {
                        __quantum__rt__callable_make_adjoint(c);
                    }
                    for _ in 0..d {
                        __quantum__rt__callable_make_controlled(c);
                    }
                    c
                })
                .0
            };
            let (c1, c2) = (mk(a1, d1, 0x11), mk(a2, d2, 0x22));
            let inner = |x: bool, after: bool, then| {
                if x {
                    Inner { c: c1, cap: 0x11, is_adj: a1, lists: lists(d1, 500), after, then }
                } else {
                    Inner { c: c2, cap: 0x22, is_adj: a2, lists: lists(d2, 900), after, then }
                }
            };
            let then = match third {
                0 => None,
                k => Some(Box::new(inner(k == 1, !after, None))),
            };
            let n = 1 + u32::from(then.is_some());
            INNER.with(|x| *x.borrow_mut() = (Some(inner(same, after, then)), Ok(()), 0));
            let r = invoke(c1, 0x11, a1, &lists(d1, 0), 2, false, true, false);
            let (_, inner_r, ran) = INNER.with(|x| std::mem::replace(&mut *x.borrow_mut(), (None, Ok(()), 0)));
            inner_r?;
            r.map_err(|e| format!("around a nested invocation: {e}"))?;
            if ran != n {
                return Err(format!("{ran} nested invocations ran instead of {n}"));
            }
            invoke(c1, 0x11, a1, &lists(d1, 0), 2, false, true, false)?;
            invoke(c2, 0x22, a2, &lists(d2, 0), 2, false, true, false)?;
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c1, -1) });
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c2, -1) });
            ctx.state(hash_str(&format!("{a1}{d1}{a2}{d2}{n}")));
            Ok(())
        })
    }));
    // many levels and long lists
    let deep: Vec<(usize, usize)> = (6..=40).map(|d| (d, 1)).chain([(63, 2), (64, 1), (65, 0), (127, 1), (128, 1), (129, 1), (255, 1), (256, 1), (257, 1), (300, 2)]).chain((4..=70).map(|n| (2, n))).chain([(1, 127), (1, 128), (2, 255), (3, 256), (1, 1000), (2, 2000)]).collect();
    v.push(job("deep-controls", deep.len() as u64 * 2, move |i, ctx| {
        let (d, n) = deep[(i / 2) as usize];
        let a = i % 2 == 1;
        ctx.log(|| format!("{d} levels of {n} controls, adjoint {a}"));
        ctx.transitions += d as u64;
        ctx.traces += 1;
        let lists: Vec<Vec<usize>> = (0..d).map(|l| (0..n).map(|j| 1_000_000 * (l + 1) + j).collect()).collect();
        heap(|| {
            let c = tracked(|| unsafe {
                let c = __quantum__rt__callable_create(table(), std::ptr::null_mut(), 0x33 as *mut u8);
                for k in 0..d {
                    __quantum__rt__callable_make_controlled(c);
                    if a && k == d / 2 {
                        __quantum__rt__callable_make_adjoint(c);
                    }
                }
                c
            })
            .0;
            invoke(c, 0x33, a, &lists, 2, false, true, false)?;
            // and an even number of adjoints is none
            if a {
                tracked(|| unsafe {
                    for _ in 0..2 * d + 1 {
                        __quantum__rt__callable_make_adjoint(c);
                    }
                });
                invoke(c, 0x33, false, &lists, 1, false, true, false)?;
            }
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c, -1) });
            ctx.state(i);
            Ok(())
        })
    }));
    // capture count updates
    let ups = [1i32, -1, 2, -3, 0, i32::MAX, i32::MIN];
    v.push(job("captures", 5 * 7 * 2 * 3 * 2, move |i, ctx| {
        let mut i = i as usize;
        let mut nx = |n: usize| {
            let k = i % n;
            i /= n;
            k
        };
        let (mem, up, alias, how) = (nx(5), ups[nx(7)], nx(2) == 1, nx(3));
        let cap = [0x77usize, 0][nx(2)];
        ctx.log(|| format!("capture table {mem}, captured {cap:#x}, update {up}, alias {alias}, callable state {how}"));
        ctx.transitions += 1;
        ctx.traces += 1;
        heap(|| {
            let m: *mut *mut u8 = if mem == 4 { std::ptr::null_mut() } else { (&raw const MEM[mem].0).cast_mut().cast() };
            let (mut c, _) = tracked(|| __quantum__rt__callable_create(table(), m, cap as *mut u8));
            unsafe {
                match how {
                    1 => {
                        let (d, _) = tracked(|| __quantum__rt__callable_copy(c, true));
                        tracked(|| __quantum__rt__callable_update_reference_count(c, -1));
                        c = d;
                    }
                    2 => {
                        __quantum__rt__callable_make_adjoint(c);
                        __quantum__rt__callable_make_controlled(c);
                    }
                    _ => {}
                }
                COUNTED.with(|x| x.borrow_mut().clear());
                if alias {
                    __quantum__rt__capture_update_alias_count(c, up);
                } else {
                    __quantum__rt__capture_update_reference_count(c, up);
                }
            }
            let got = COUNTED.with(|x| std::mem::take(&mut *x.borrow_mut()));
            let has = mem < 4 && mem >> usize::from(alias) & 1 == 1;
            let want: Vec<(usize, usize, i32)> = if has { vec![(usize::from(alias), cap, up)] } else { vec![] };
            // an update by zero may or may not be passed on
            if got != want && !(up == 0 && got.is_empty()) {
                return Err(format!("capture functions called: {got:?}, expected {want:?}"));
            }
            tracked(|| unsafe { __quantum__rt__callable_update_reference_count(c, -1) });
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C26: output recording

#[derive(Clone, Copy, Debug)]
enum O {
    Arr(i64, Option<&'static [u8]>),
    Tup(i64, Option<&'static [u8]>),
    Int(i64, Option<&'static [u8]>),
    Dbl(f64, &'static str, Option<&'static [u8]>),
    Bool(bool, Option<&'static [u8]>),
    Res(usize, Option<&'static [u8]>),
    Msg(&'static str, &'static str),
    MsgRec(&'static str, &'static str),
    LInt(i64),
    LDbl(f64, &'static str),
    LBool(bool),
    LArrS,
    LArrE,
    LTupS,
    LTupE,
    LArr(i64),
    LTup(i64),
    LRes(usize),
    Raw(&'static str),
    Newline,
    StdOut,
    Buffer,
    Drain,
    Read(usize),
}

fn otag(t: Option<&'static [u8]>) -> (Option<CString>, *mut c_char) {
    let c = t.map(|t| CString::new(t).unwrap());
    let p = c.as_ref().map_or(std::ptr::null_mut(), |c| c.as_ptr().cast_mut());
    (c, p)
}

impl O {
    /// Performs the call; returns what it reads (for drains and reads).
    fn real(&self) -> Option<Vec<u8>> {
        unsafe {
            match *self {
                O::Arr(v, t) => {
                    let (_c, p) = otag(t);
                    output_recording::__quantum__rt__array_record_output(v, p);
                }
                O::Tup(v, t) => {
                    let (_c, p) = otag(t);
                    output_recording::__quantum__rt__tuple_record_output(v, p);
                }
                O::Int(v, t) => {
                    let (_c, p) = otag(t);
                    output_recording::__quantum__rt__int_record_output(v, p);
                }
                O::Dbl(v, _, t) => {
                    let (_c, p) = otag(t);
                    output_recording::__quantum__rt__double_record_output(v, p);
                }
                O::Bool(v, t) => {
                    let (_c, p) = otag(t);
                    output_recording::__quantum__rt__bool_record_output(v, p);
                }
                O::Res(v, t) => {
                    let (_c, p) = otag(t);
                    __quantum__rt__result_record_output(q(v), p);
                }
                O::Msg(m, _) | O::MsgRec(m, _) => {
                    let c = CString::new(m).unwrap();
                    let s = __quantum__rt__string_create(c.as_ptr().cast_mut());
                    if let O::Msg(..) = self {
                        __quantum__rt__message(s);
                    } else {
                        __quantum__rt__message_record_output(s);
                    }
                    __quantum__rt__string_update_reference_count(s, -1);
                }
                O::LInt(v) => legacy::__quantum__rt__int_record_output(v),
                O::LDbl(v, _) => legacy::__quantum__rt__double_record_output(v),
                O::LBool(v) => legacy::__quantum__rt__bool_record_output(v),
                O::LArrS => legacy::__quantum__rt__array_start_record_output(),
                O::LArrE => legacy::__quantum__rt__array_end_record_output(),
                O::LTupS => legacy::__quantum__rt__tuple_start_record_output(),
                O::LTupE => legacy::__quantum__rt__tuple_end_record_output(),
                O::LArr(v) => legacy::__quantum__rt__array_record_output(v),
                O::LTup(v) => legacy::__quantum__rt__tuple_record_output(v),
                O::LRes(v) => legacy_output::__quantum__rt__result_record_output(q(v)),
                O::Raw(s) => record_output_str(s).expect("record"),
                O::Newline => OUTPUT.with(|o| o.borrow_mut().write_newline()),
                O::StdOut => OUTPUT.with(|o| o.borrow_mut().use_std_out(true)),
                O::Buffer => OUTPUT.with(|o| o.borrow_mut().use_std_out(false)),
                O::Drain => return Some(drain()),
                O::Read(n) => {
                    use std::io::Read;
                    let mut b = vec![0u8; n];
                    let k = OUTPUT.with(|o| o.borrow_mut().read(&mut b)).expect("read");
                    b.truncate(k);
                    return Some(b);
                }
            }
        }
        None
    }
    /// The record the call appends.
    fn record(&self) -> Vec<u8> {
        let out = |ty: &str, v: &str, t: Option<&[u8]>| -> Vec<u8> {
            let mut b = format!("OUTPUT\t{ty}\t{v}").into_bytes();
            if let Some(t) = t {
                b.push(b'\t');
                b.extend_from_slice(t);
            }
            b.push(b'\n');
            b
        };
        let bit = |r: usize| if r == 1 { "1" } else { "0" };
        match *self {
            O::Arr(v, t) => out("ARRAY", &v.to_string(), t),
            O::Tup(v, t) => out("TUPLE", &v.to_string(), t),
            O::Int(v, t) => out("INT", &v.to_string(), t),
            O::Dbl(_, s, t) => out("DOUBLE", s, t),
            O::Bool(v, t) => out("BOOL", if v { "true" } else { "false" }, t),
            O::Res(r, t) => out("RESULT", bit(r), t),
            O::Msg(_, e) | O::MsgRec(_, e) => format!("INFO\t{e}\n").into_bytes(),
            O::LInt(v) => format!("RESULT\t{v}\n").into_bytes(),
            O::LDbl(_, s) => format!("RESULT\t{s}\n").into_bytes(),
            O::LBool(v) => format!("RESULT\t{v}\n").into_bytes(),
            O::LArrS => b"RESULT\tARRAY_START\n".to_vec(),
            O::LArrE => b"RESULT\tARRAY_END\n".to_vec(),
            O::LTupS => b"RESULT\tTUPLE_START\n".to_vec(),
            O::LTupE => b"RESULT\tTUPLE_END\n".to_vec(),
            O::LArr(v) => out("ARRAY", &v.to_string(), None),
            O::LTup(v) => out("TUPLE", &v.to_string(), None),
            O::LRes(r) => format!("RESULT\t{}\n", bit(r)).into_bytes(),
            O::Raw(s) => format!("{s}\n").into_bytes(),
            O::Newline => b"\n".to_vec(),
            _ => vec![],
        }
    }
}

/// How a message is documented to be recorded: the default escapes.
fn escaped(m: &str) -> String {
    let mut s = String::new();
    for c in m.chars() {
        match c {
            '\t' => s += "\\t",
            '\r' => s += "\\r",
            '\n' => s += "\\n",
            '\'' => s += "\\'",
            '"' => s += "\\\"",
            '\\' => s += "\\\\",
            ' '..='~' => s.push(c),
            c => s += &format!("\\u{{{:x}}}", c as u32),
        }
    }
    s
}
fn words_over<T: Copy>(alpha: &[T], len: u32) -> Vec<Vec<T>> {
    let n = alpha.len();
    let mut v = vec![vec![]];
    for l in 1..=len {
        for i in 0..n.pow(l) {
            let mut i = i;
            v.push(
                (0..l)
                    .map(|_| {
                        let c = alpha[i % n];
                        i /= n;
                        c
                    })
                    .collect(),
            );
        }
    }
    v
}

fn records(values: bool) -> Vec<O> {
    let tags: &[Option<&'static [u8]>] =
        if values { &[None, Some(b""), Some(b"0_t"), Some(b"a\tb\\n\xff"), Some("\u{e9}\u{1F600}".as_bytes())] } else { &[None, Some(b"tag")] };
    let ints: &[i64] = if values { &[0, 1, -1, 10, 42, i64::MAX, i64::MIN] } else { &[3] };
    let dbls: &[(f64, &'static str)] = if values {
        &[
            (0.0, "0.0"),
            (-0.0, "-0.0"),
            (1.0, "1.0"),
            (0.42, "0.42"),
            (-2.5, "-2.5"),
            (1e21, "1000000000000000000000.0"),
            (1e-7, "0.0000001"),
            (f64::INFINITY, "inf"),
            (f64::NEG_INFINITY, "-inf"),
            (f64::NAN, "NaN"),
            (9_007_199_254_740_992.0, "9007199254740992.0"),
            (0.1 + 0.2, "0.30000000000000004"),
        ]
    } else {
        &[(0.5, "0.5")]
    };
    let msgs: &[(&'static str, &'static str)] = if values {
        &[
            ("", ""),
            ("plain text", "plain text"),
            ("two\nlines\ttab\r", "two\\nlines\\ttab\\r"),
            ("quote \" ' back \\", "quote \\\" \\' back \\\\"),
            ("\u{e9}", "\\u{e9}"),
        ]
    } else {
        &[("hi\n", "hi\\n")]
    };
    let mut v = vec![];
    for t in tags {
        for i in ints {
            v.extend([O::Arr(*i, *t), O::Tup(*i, *t), O::Int(*i, *t)]);
        }
        for (d, s) in dbls {
            v.push(O::Dbl(*d, s, *t));
        }
        v.extend([O::Bool(true, *t), O::Bool(false, *t), O::Res(0, *t), O::Res(1, *t)]);
    }
    for (m, e) in msgs {
        v.extend([O::Msg(m, e), O::MsgRec(m, e)]);
    }
    for i in ints {
        v.extend([O::LInt(*i), O::LArr(*i), O::LTup(*i)]);
    }
    for (d, s) in dbls {
        v.push(O::LDbl(*d, s));
    }
    v.extend([O::LBool(true), O::LBool(false), O::LArrS, O::LArrE, O::LTupS, O::LTupE, O::LRes(0), O::LRes(1), O::Raw("START"), O::Newline]);
    v
}

/// Runs the sequence on the calling thread's recorder, which must be empty and buffering; returns what went
/// to standard output according to the model. Err on the first difference in what is read back.
fn o_run(ops: &[O], ctx: &mut Ctx) -> Result<Vec<u8>, String> {
    let mut buf: Vec<u8> = vec![];
    let mut out: Vec<u8> = vec![];
    let mut to_out = false;
    let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    for o in ops {
        ctx.transitions += 1;
        ctx.log(|| format!("{o:?}"));
        let got = o.real();
        match o {
            O::StdOut => to_out = true,
            O::Buffer => to_out = false,
            O::Drain => {
                let got = got.unwrap();
                if got != buf {
                    return Err(format!("drain returned {:?}, recorded and not yet read is {:?}", show(&got), show(&buf)));
                }
                buf.clear();
            }
            O::Read(n) => {
                let got = got.unwrap();
                let k = got.len();
                if k > *n || k > buf.len() || got != buf[..k] {
                    return Err(format!("read({n}) returned {:?}, recorded and not yet read is {:?}", show(&got), show(&buf)));
                }
                if k == 0 && *n > 0 && !buf.is_empty() {
                    return Err(format!("read({n}) returned nothing although {} bytes are recorded", buf.len()));
                }
                buf.drain(..k);
            }
            r => {
                let rec = r.record();
                if to_out {
                    out.extend(rec);
                } else {
                    buf.extend(rec);
                }
            }
        }
    }
    // what is left comes out of a final drain
    let got = drain();
    if got != buf {
        return Err(format!("final drain returned {:?}, recorded and not yet read is {:?}", show(&got), show(&buf)));
    }
    let mut h = Fnv::new();
    h.bytes(&buf);
    h.u64(7);
    h.bytes(&out);
    ctx.state(h.0);
    ctx.traces += 1;
    Ok(out)
}

pub fn c26(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    // every record with every value, both destinations, alone and between two others
    {
        let all = records(true);
        let n = all.len() as u64;
        let tags = words_over(&[1u8, b'\t', b'\n', b'\r', b' ', b'0', b'a', b'Z', b'%', b'{', b'"', b'\\', 0x7f, 0x80, 0xc3, 0xff], t.pick(2, 3));
        v.push(job("each-tag", tags.len() as u64 * 7, move |i, ctx| {
            let tag: Option<&'static [u8]> = Some(Box::leak(tags[i as usize / 7].clone().into_boxed_slice()));
            let o = [O::Arr(2, tag), O::Tup(0, tag), O::Int(-7, tag), O::Dbl(0.5, "0.5", tag), O::Bool(true, tag), O::Res(1, tag), O::Res(0, tag)][i as usize % 7];
            super_fresh(|| o_run(&[O::Buffer, o, O::LInt(5), O::Drain, o, O::Drain], ctx).map(|_| ()))
        }));
        let msgs = words_over(
            &['\u{1}', '\t', '\n', '\r', ' ', 'a', '~', '\\', '"', '\'', '{', '\u{7f}', '\u{80}', '\u{a0}', '\u{e9}', '\u{301}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{1f600}', '\u{10ffff}'],
            t.pick(2, 3),
        );
        v.push(job("each-message", msgs.len() as u64 * 2, move |i, ctx| {
            let m: &'static str = Box::leak(msgs[i as usize / 2].iter().collect::<String>().into_boxed_str());
            let e: &'static str = Box::leak(escaped(m).into_boxed_str());
            let o = if i % 2 == 0 { O::Msg(m, e) } else { O::MsgRec(m, e) };
            super_fresh(|| o_run(&[O::Buffer, o, O::LInt(5), O::Drain], ctx).map(|_| ()))
        }));
        v.push(job("each-record-buffered", n, move |i, ctx| {
            let o = all[i as usize];
            super_fresh(|| {
                o_run(&[o, O::Drain, O::Int(1, None), o, O::Int(2, Some(b"x")), O::Drain], ctx)?;
                Ok(())
            })
        }));
        let all = records(true);
        v.push(job("each-record-stdout", n.div_ceil(16), move |i, ctx| {
            let part: Vec<O> = all.iter().skip(i as usize * 16).take(16).copied().collect();
            let seqs: Vec<Vec<O>> = part.iter().map(|o| vec![O::StdOut, *o, O::Buffer, *o, O::StdOut, *o, *o]).collect();
            o_fork(&seqs, ctx)
        }));
    }
    // histories, buffered
    let small: Vec<O> = vec![
        O::Arr(2, None),
        O::Int(-5, Some(b"tag")),
        O::Dbl(2.0, "2.0", None),
        O::Bool(true, Some(b"\xffx")),
        O::Msg("m\n", "m\\n"),
        O::LInt(7),
        O::LTupS,
        O::Newline,
        O::Drain,
        O::Read(0),
        O::Read(1),
        O::Read(7),
        O::Read(1000),
    ];
    {
        let a = small.clone();
        let (k, d) = (a.len() as u64, t.pick(5, 6));
        v.push(job(format!("buffered-histories/depth{d}"), k.pow(d), move |i, ctx| {
            let mut i = i;
            let ops: Vec<O> = (0..d)
                .map(|_| {
                    let o = a[(i % k) as usize];
                    i /= k;
                    o
                })
                .collect();
            // one recorder per worker thread: each case leaves it empty and buffering
            OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            let _ = drain();
            o_run(&ops, ctx).map(|_| ())
        }));
    }
    // histories with destination switches (standard output captured in a child)
    {
        let a: Vec<O> = vec![
            O::StdOut,
            O::Buffer,
            O::Int(1, Some(b"t")),
            O::Dbl(0.5, "0.5", None),
            O::Msg("q\"", "q\\\""),
            O::LBool(false),
            O::Res(1, None),
            O::Drain,
            O::Read(3),
            O::Newline,
        ];
        let (k, d, inner) = (a.len() as u64, t.pick(4u32, 5), 2u32);
        v.push(job(format!("switching-histories/depth{d}"), k.pow(d - inner) * 2, move |i, ctx| {
            let start = if i % 2 == 0 { O::StdOut } else { O::Buffer };
            let mut i = i / 2;
            let mut pre = vec![start];
            for _ in 0..d - inner {
                pre.push(a[(i % k) as usize]);
                i /= k;
            }
            let seqs: Vec<Vec<O>> = (0..k.pow(inner))
                .map(|mut j| {
                    let mut s = pre.clone();
                    for _ in 0..inner {
                        s.push(a[(j % k) as usize]);
                        j /= k;
                    }
                    s
                })
                .collect();
            o_fork(&seqs, ctx)
        }));
    }
    // records, tags and messages of every length, with much or little already recorded
    {
        let mut lens: Vec<usize> = (0..=t.pick(300, 1100)).collect();
        for p in 9..=t.pick(16u32, 20) {
            let b = 1usize << p;
            lens.extend([b - 60, b - 25, b - 20, b - 12, b - 6, b - 3, b - 2, b - 1, b, b + 1, b + 5, b + 9, b + 1000]);
        }
        lens.extend([1000, 5000, 10_000, 50_000, 100_000]);
        lens.sort_unstable();
        lens.dedup();
        let n = lens.len() as u64;
        v.push(job("long-records", n * 6, move |i, ctx| {
            let (tag, msg, esc) = long_text(lens[(i / 6) as usize]);
            let seq = long_seq((i % 6) as usize, tag, msg, esc);
            OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            let _ = drain();
            o_run(&seq, ctx).map(|_| ())
        }));
        let big: Vec<usize> = [100usize, 1000, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, 200_000].to_vec();
        v.push(job("long-records-stdout", big.len() as u64, move |i, ctx| {
            let (tag, msg, esc) = long_text(big[i as usize]);
            let seqs: Vec<Vec<O>> = (0..6)
                .map(|f| {
                    let mut s = vec![O::StdOut];
                    s.extend(long_seq(f, tag, msg, esc).into_iter().filter(|o| !matches!(o, O::Drain | O::Read(_))));
                    s.extend([O::Buffer, O::Raw(msg), O::StdOut, O::LInt(3)]);
                    s
                })
                .collect();
            o_fork(&seqs, ctx)
        }));
    }
    // many records before the first is read
    {
        let counts: Vec<usize> = (1..=t.pick(60usize, 200)).chain([500, 1000, 4000, 20_000]).collect();
        v.push(job("many-records", counts.len() as u64 * 3, move |i, ctx| {
            let kinds = [O::Int(-5, Some(b"tag")), O::Msg("m\n", "m\\n"), O::Dbl(0.1, "0.1", None), O::Bool(true, None), O::LInt(7), O::Newline, O::Res(1, Some(b"r"))];
            let n = counts[(i / 3) as usize];
            let mut s = vec![];
            for k in 0..n {
                s.push(kinds[k % kinds.len()]);
                match i % 3 {
                    1 if k % 3 == 2 => s.push(O::Read(5)),
                    2 if k % 50 == 49 => s.push(O::Drain),
                    _ => {}
                }
            }
            OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            let _ = drain();
            o_run(&s, ctx).map(|_| ())
        }));
    }
    // default destination is standard output
    v.push(job("default-destination", 1, move |_, ctx| {
        ctx.transitions += 1;
        ctx.traces += 1;
        let f = in_fork(Duration::from_secs(20), || {
            std::thread::spawn(|| unsafe { output_recording::__quantum__rt__int_record_output(5, std::ptr::null_mut()) })
                .join()
                .unwrap();
        });
        if f.out != b"OUTPUT\tINT\t5\n" {
            return Err(format!("a fresh recorder printed {:?}", String::from_utf8_lossy(&f.out)));
        }
        Ok(())
    }));
    v
}
/// A tag, a message and its escaped form, of a length.
fn long_text(n: usize) -> (&'static [u8], &'static str, &'static str) {
    // kept per length: the worker threads ask for the same few
    thread_local!(static KEPT: std::cell::RefCell<std::collections::HashMap<usize, (&'static [u8], &'static str, &'static str)>> = Default::default());
    KEPT.with(|k| {
        *k.borrow_mut().entry(n).or_insert_with(|| {
            let tag: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
            let msg: String = (0..n).map(|i| if i % 50 == 7 { '\n' } else { (b'A' + (i % 23) as u8) as char }).collect();
            let esc = msg.replace('\n', "\\n");
            (&*tag.leak(), &*msg.leak(), &*esc.leak())
        })
    })
}
fn long_seq(form: usize, tag: &'static [u8], msg: &'static str, esc: &'static str) -> Vec<O> {
    match form {
        0 => vec![O::Int(3, Some(tag)), O::Int(4, None), O::Drain, O::Dbl(0.5, "0.5", Some(tag)), O::Drain],
        1 => vec![O::Msg(msg, esc), O::Bool(true, Some(tag)), O::Read(10), O::Read(usize::from(!tag.is_empty()) * tag.len()), O::Read(1_000_000), O::Int(9, None), O::Drain],
        2 => vec![O::MsgRec(msg, esc), O::Msg(msg, esc), O::Int(1, None), O::Drain],
        3 => vec![O::Raw(msg), O::Raw(msg), O::Read(1), O::Newline, O::Raw(msg), O::Drain, O::Int(1, None)],
        4 => vec![O::Int(-1, None), O::Res(1, Some(tag)), O::Arr(2, Some(tag)), O::Read(7), O::Tup(3, Some(tag)), O::LInt(5), O::Drain, O::Newline],
        _ => vec![O::Msg(msg, esc), O::Drain, O::Msg(msg, esc), O::Read(4096), O::Read(4096), O::LInt(1), O::Drain],
    }
}
fn super_fresh(f: impl FnOnce() -> Res) -> Res {
    crate::p_backend::flat(fresh(f))
}
/// Runs each sequence on a fresh thread of one forked child and compares the captured standard output.
fn o_fork(seqs: &[Vec<O>], ctx: &mut Ctx) -> Res {
    use std::io::Write;
    const MARK: &[u8] = b"\x01\x02MARK\n";
    let mut want: Vec<u8> = vec![];
    for s in seqs {
        let mut to_out = false;
        for o in s {
            ctx.transitions += 1;
            match o {
                O::StdOut => to_out = true,
                O::Buffer => to_out = false,
                r if to_out => want.extend(r.record()),
                _ => {}
            }
        }
        want.extend_from_slice(MARK);
        ctx.traces += 1;
    }
    ctx.state(hash_str(&format!("{seqs:?}")));
    ctx.log(|| format!("{seqs:?}"));
    let f = in_fork(Duration::from_secs(60), || {
        for s in seqs {
            let r = fresh(|| {
                let mut c = Ctx::default();
                o_run(s, &mut c)
            });
            match r {
                Ok(Ok(_)) => {}
                Ok(Err(e)) | Err(e) => {
                    println!("\u{1}FAILED {s:?}: {e}");
                }
            }
            let mut o = std::io::stdout();
            o.write_all(MARK).unwrap();
            o.flush().unwrap();
        }
    });
    if f.end != End::Exit(0) {
        return Err(format!("the recording process ended with {:?} after {:?}", f.end, String::from_utf8_lossy(&f.out)));
    }
    if f.out != want {
        let txt = String::from_utf8_lossy(&f.out).into_owned();
        if let Some(p) = txt.find("\u{1}FAILED") {
            return Err(txt[p + 1..].lines().next().unwrap_or("").to_string());
        }
        // name the sequence
        let split = |b: &[u8]| -> Vec<String> {
            String::from_utf8_lossy(b).split(&String::from_utf8_lossy(MARK).into_owned()).map(str::to_string).collect()
        };
        let (a, b) = (split(&f.out), split(&want));
        for (k, (x, y)) in a.iter().zip(&b).enumerate() {
            if x != y {
                return Err(format!("standard output of {:?} is {x:?}, expected {y:?}", seqs.get(k)));
            }
        }
        return Err(format!("standard output is {:?}", f.out));
    }
    Ok(())
}

// ------------------------------------------------------------------ C27: math

mod libm {
    extern "C" {
        pub fn sin(x: f64) -> f64;
        pub fn cos(x: f64) -> f64;
        pub fn tan(x: f64) -> f64;
        pub fn sinh(x: f64) -> f64;
        pub fn cosh(x: f64) -> f64;
        pub fn tanh(x: f64) -> f64;
        pub fn asin(x: f64) -> f64;
        pub fn acos(x: f64) -> f64;
        pub fn atan(x: f64) -> f64;
        pub fn sqrt(x: f64) -> f64;
        pub fn log(x: f64) -> f64;
        pub fn atan2(y: f64, x: f64) -> f64;
    }
}
fn same_f(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// x - n*y with n the integer nearest to x/y (ties to even), exactly.
fn exact_remainder(x: f64, y: f64) -> f64 {
    if x.is_nan() || y.is_nan() || x.is_infinite() || y == 0.0 {
        return f64::NAN;
    }
    if y.is_infinite() {
        return x;
    }
    fn split(v: f64) -> (BigInt, i32) {
        let b = v.to_bits();
        let e = (b >> 52 & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        (BigInt::from(m), e)
    }
    let ((mx, ex), (my, ey)) = (split(x.abs()), split(y.abs()));
    let e = ex.min(ey);
    let (a, b) = (mx << (ex - e) as usize, my << (ey - e) as usize);
    let n: BigInt = &a / &b;
    let r: BigInt = &a - &n * &b;
    let twice: BigInt = &r * 2;
    let odd = (&n % 2) == BigInt::from(1);
    let r = if twice > b || (twice == b && odd) { r - &b } else { r };
    // r * 2^e, exactly representable
    let neg = r.sign() == num_bigint::Sign::Minus;
    let mag = r.magnitude();
    if mag.bits() == 0 {
        return if x.is_sign_negative() { -0.0 } else { 0.0 };
    }
    let mut m = mag.clone();
    let mut e = e;
    while m.bits() > 53 {
        m >>= 1usize; // exact: the remainder has at most 53 significant bits
        e += 1;
    }
    let m: u64 = m.try_into().unwrap();
    let mut v = m as f64;
    while e > 0 {
        v *= 2.0;
        e -= 1;
    }
    while e < 0 {
        v /= 2.0;
        e += 1;
    }
    let v = if neg { -v } else { v };
    if x.is_sign_negative() {
        -v
    } else {
        v
    }
}

pub fn c27(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    type F1 = extern "C" fn(f64) -> f64;
    type L1 = unsafe extern "C" fn(f64) -> f64;
    let fns: Vec<(&'static str, F1, L1)> = vec![
        ("sin", __quantum__qis__sin__body, libm::sin),
        ("cos", __quantum__qis__cos__body, libm::cos),
        ("tan", __quantum__qis__tan__body, libm::tan),
        ("sinh", __quantum__qis__sinh__body, libm::sinh),
        ("cosh", __quantum__qis__cosh__body, libm::cosh),
        ("tanh", __quantum__qis__tanh__body, libm::tanh),
        ("arcsin", __quantum__qis__arcsin__body, libm::asin),
        ("arccos", __quantum__qis__arccos__body, libm::acos),
        ("arctan", __quantum__qis__arctan__body, libm::atan),
        ("sqrt", __quantum__qis__sqrt__body, libm::sqrt),
        ("log", __quantum__qis__log__body, libm::log),
    ];
    let ds = Rc::new(doubles(t));
    let n = ds.len() as u64;
    for (name, f, l) in fns {
        let ds = ds.clone();
        v.push(job(name, n, move |i, ctx| {
            let x = ds[i as usize];
            let (a, b) = (f(x), unsafe { l(x) });
            ctx.log(|| format!("{name}({x:e}) = {a:e}, libm {b:e}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(a.to_bits());
            // one unit in the last place of slack: the host library is not always correctly rounded
            let near = a.is_finite() && b.is_finite() && a.is_sign_negative() == b.is_sign_negative() && a.to_bits().abs_diff(b.to_bits()) <= 1;
            if !same_f(a, b) && !near {
                return Err(format!("{name}({x:e}) = {a:e}, expected {b:e}"));
            }
            Ok(())
        }));
    }
    {
        let ds = ds.clone();
        v.push(job("classification", n, move |i, ctx| {
            let x = ds[i as usize];
            ctx.log(|| format!("classify {x:e}"));
            ctx.transitions += 3;
            ctx.traces += 1;
            let b = x.to_bits();
            let want = (b & !(1 << 63) > 0x7ff << 52, b == 0x7ff << 52, b == 0xfff << 52);
            let got = (__quantum__qis__isnan__body(x), __quantum__qis__isinf__body(x), __quantum__qis__isnegativeinfinity__body(x));
            if got != want {
                return Err(format!("{x:e}: (nan, +inf, -inf) = {got:?}"));
            }
            if !__quantum__qis__nan__body().is_nan() || __quantum__qis__infinity__body().to_bits() != 0x7ff << 52 {
                return Err("the nan or infinity constant is wrong".into());
            }
            Ok(())
        }));
    }
    // pairs
    let mut sel: Vec<f64> = vec![];
    for (k, d) in doubles(Tier::Quick).into_iter().enumerate() {
        if !d.is_finite() || d.abs() < 1e-290 || d.abs() > 1e290 || (0.05..200.0).contains(&d.abs()) || k % t.pick(3, 1) == 0 {
            sel.push(d);
        }
    }
    for k in 1..=24 {
        sel.push(f64::from(k) * 0.25);
        sel.push(-f64::from(k) * 0.25);
    }
    sel.sort_by(f64::total_cmp);
    sel.dedup_by(|a, b| a.to_bits() == b.to_bits());
    let sel = Rc::new(sel);
    let m = sel.len() as u64;
    {
        let sel = sel.clone();
        v.push(job("ieeeremainder", m * m, move |i, ctx| {
            let (x, y) = (sel[(i / m) as usize], sel[(i % m) as usize]);
            let (a, b) = (__quantum__qis__ieeeremainder__body(x, y), exact_remainder(x, y));
            ctx.log(|| format!("ieeeremainder({x:e}, {y:e}) = {a:e}, exact {b:e}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(a.to_bits());
            if !same_f(a, b) {
                return Err(format!("ieeeremainder({x:e}, {y:e}) = {a:e}, exactly {b:e}"));
            }
            Ok(())
        }));
    }
    {
        let sel = sel.clone();
        v.push(job("arctan2", m * m, move |i, ctx| {
            let (y, x) = (sel[(i / m) as usize], sel[(i % m) as usize]);
            let (a, b) = (__quantum__qis__arctan2__body(y, x), unsafe { libm::atan2(y, x) });
            ctx.log(|| format!("arctan2({y:e}, {x:e}) = {a:e}, libm {b:e}"));
            ctx.transitions += 1;
            ctx.traces += 1;
            let near = a.is_sign_negative() == b.is_sign_negative() && a.to_bits().abs_diff(b.to_bits()) <= 1 && !a.is_nan();
            if !same_f(a, b) && !near {
                return Err(format!("arctan2({y:e}, {x:e}) = {a:e}, expected {b:e}"));
            }
            Ok(())
        }));
    }
    // random integers: every draw in bounds; every value reached, evenly
    let ranges: Vec<(i64, i64)> = {
        let mut v = vec![];
        for lo in [-9i64, -1, 0, 1, 5, i64::MIN, i64::MIN + 1, i64::MAX - 20, 1 << 40] {
            for w in 0..20 {
                v.push((lo, lo + w));
            }
        }
        for hi in [i64::MAX, i64::MAX - 1, i64::MIN + 20, -1, 0, i32::MAX.into(), u32::MAX.into(), 1 << 53] {
            for w in 0..20 {
                v.push((hi - w, hi));
            }
        }
        for w in [31i64, 32, 63, 64, 99, 100, 127, 128, 254, 255, 256, 511, 999, 1000, 1023, 1024] {
            v.extend([(0, w), (1, w), (-w, 0), (i64::MAX - w, i64::MAX), (i64::MIN, i64::MIN + w)]);
        }
        v
    };
    let nr = ranges.len() as u64;
    v.push(job("random-integers", nr, move |i, ctx| {
        let (lo, hi) = ranges[i as usize];
        let w = (hi - lo + 1) as u64;
        let draws = w * 64;
        let mut count = vec![0u64; w as usize];
        ctx.log(|| format!("drawrandomint({lo}, {hi}) over {draws} equally spaced generator answers and the extremes"));
        for k in 0..draws + 2 {
            let word = match k {
                k if k < draws => ((u128::from(2 * k + 1) << 64) / u128::from(2 * draws)) as u64,
                k if k == draws => 0,
                _ => u64::MAX,
            };
            rand::verif_script::set(&[word, word ^ 0x5555_5555_5555_5555, 0x1234_5678_9abc_def0]);
            let r = __quantum__qis__drawrandomint__body(lo, hi);
            ctx.transitions += 1;
            if r < lo || r > hi {
                return Err(format!("drawrandomint({lo}, {hi}) = {r}"));
            }
            if k < draws {
                count[(r - lo) as usize] += 1;
            }
        }
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{lo},{hi}")));
        if let Some(k) = count.iter().position(|c| *c == 0) {
            return Err(format!("drawrandomint({lo}, {hi}) never returns {}", lo + k as i64));
        }
        if let Some(k) = count.iter().position(|c| c.abs_diff(64) > 32) {
            return Err(format!("drawrandomint({lo}, {hi}) returns {} for {} of {draws} equally spaced answers", lo + k as i64, count[k]));
        }
        Ok(())
    }));
    let wide: Vec<(i64, i64)> =
        vec![(i64::MIN, i64::MAX), (i64::MIN, 0), (0, i64::MAX), (-1, i64::MAX), (i64::MIN, -1), (i64::MIN + 1, i64::MAX), (0, 1 << 62), (-(1 << 62), 1 << 62), (0, u32::MAX.into()), (-7, 1 << 33)];
    v.push(job("random-integers-wide", wide.len() as u64 * 258, move |i, ctx| {
        let (lo, hi) = wide[(i / 258) as usize];
        let k = i % 258;
        let word = match k {
            256 => 0,
            257 => u64::MAX,
            k => ((u128::from(2 * k + 1) << 64) / 512) as u64,
        };
        rand::verif_script::set(&[word, 0x1234_5678_9abc_def0]);
        let r = __quantum__qis__drawrandomint__body(lo, hi);
        ctx.log(|| format!("drawrandomint({lo}, {hi}) = {r} for generator answer {word:x}"));
        ctx.transitions += 1;
        ctx.traces += 1;
        if r < lo || r > hi {
            return Err(format!("drawrandomint({lo}, {hi}) = {r}"));
        }
        // every sixteenth of the range is reached
        if k == 0 {
            let mut hit = [false; 16];
            for j in 0..256u64 {
                let word = ((u128::from(2 * j + 1) << 64) / 512) as u64;
                rand::verif_script::set(&[word, 0x1234_5678_9abc_def0]);
                let r = __quantum__qis__drawrandomint__body(lo, hi);
                let span = i128::from(hi) - i128::from(lo) + 1;
                hit[((i128::from(r) - i128::from(lo)) * 16 / span) as usize] = true;
            }
            if let Some(p) = hit.iter().position(|h| !h) {
                return Err(format!("drawrandomint({lo}, {hi}) never reaches sixteenth {p} of its range"));
            }
        }
        Ok(())
    }));
    let dr: Vec<(f64, f64)> = vec![
        (0.0, 1.0),
        (-1.0, 1.0),
        (0.5, 0.5),
        (0.0, 0.0),
        (-3.5, -3.25),
        (1e300, 1.5e300),
        (-1e300, 1e-300),
        (0.0, f64::MIN_POSITIVE),
        (0.0, 5e-324),
        (1.0, 1.000_000_000_000_000_2),
        (-0.0, 0.0),
        (1e16, 1e16 + 2.0),
        (-f64::MAX, f64::MAX),
        (-1e308, 1.7e308),
        (-f64::MAX, 0.0),
        (f64::MAX, f64::MAX),
        (-f64::MAX, 1e292),
        (5e-324, f64::MAX),
        (-f64::MAX, 1.5e-323),
        (-4.5e307, 4.5e307),
        (-4.4e307, 4.5e307),
        (-5e307, f64::MAX),
    ];
    v.push(job("random-doubles", dr.len() as u64, move |i, ctx| {
        let (lo, hi) = dr[i as usize];
        let n = 1024u64;
        let mut hit = [false; 8];
        ctx.log(|| format!("drawrandomdouble({lo:e}, {hi:e}) over {n} equally spaced answers and the extremes"));
        for k in 0..n + 2 {
            let word = match k {
                k if k < n => ((u128::from(2 * k + 1) << 64) / u128::from(2 * n)) as u64,
                k if k == n => 0,
                _ => u64::MAX,
            };
            rand::verif_script::set(&[word]);
            let r = __quantum__qis__drawrandomdouble__body(lo, hi);
            ctx.transitions += 1;
            if !(r >= lo && r <= hi) {
                return Err(format!("drawrandomdouble({lo:e}, {hi:e}) = {r:e}"));
            }
            if hi > lo {
                let part = if (hi - lo).is_finite() { (r - lo) / (hi - lo) } else { (r / 4.0 - lo / 4.0) / (hi / 4.0 - lo / 4.0) };
                hit[(part * 8.0).min(7.0) as usize] = true;
            }
        }
        ctx.traces += 1;
        // ranges with more than eight doubles are covered evenly
        let step = hi / 16.0 - lo / 16.0;
        if hi > lo && lo + step > lo && hi - step < hi && step > 0.0 {
            if let Some(p) = hit.iter().position(|h| !h) {
                return Err(format!("drawrandomdouble({lo:e}, {hi:e}) never reaches eighth {p} of its range"));
            }
        }
        Ok(())
    }));
    // successive draws are fresh
    v.push(job("random-fresh", 1, move |_, ctx| {
        rand::verif_script::clear();
        let a: Vec<i64> = (0..64).map(|_| __quantum__qis__drawrandomint__body(i64::MIN, i64::MAX)).collect();
        let b: Vec<u64> = (0..64).map(|_| __quantum__qis__drawrandomdouble__body(0.0, 1.0).to_bits()).collect();
        ctx.transitions += 128;
        ctx.traces += 1;
        let mut x = a.clone();
        x.sort_unstable();
        x.dedup();
        let mut y = b.clone();
        y.sort_unstable();
        y.dedup();
        if x.len() < 60 || y.len() < 60 {
            return Err("repeated draws over a wide range repeat their values".into());
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C28: failures stop the program

#[derive(Clone, Copy, Debug)]
enum Bad {
    Fail(&'static str, &'static str),
    ConcatSizes(u32, u32),
    RandInt(i64, i64),
    RandDouble(f64, f64),
    ReleaseUnknown(usize),
    ReleaseTwice,
    GateReleased,
    ReleaseArrayTwice,
    DumpTo,
    MeasureSizes(usize, usize),
    AssertSizes(usize, usize),
    Duplicate(u8),
    SliceStep0,
    SliceOut(i64, i64, i64),
    DivZero(bool),
    HugeArray(u32, u64),
    HugeTuple,
    HugeMemory,
    NegAlias,
    ExpSizes,
    ExpDuplicate,
}

impl Bad {
    fn all() -> Vec<Bad> {
        let mut v = vec![
            Bad::Fail("", ""),
            Bad::Fail("division by zero", "division by zero"),
            Bad::Fail("two\nlines\tand \"quotes\"", "two\\nlines\\tand \\\"quotes\\\""),
            Bad::Fail("\u{3c0}", "\\u{3c0}"),
            Bad::ConcatSizes(1, 8),
            Bad::ConcatSizes(8, 1),
            Bad::ConcatSizes(8, 16),
            Bad::RandInt(1, 0),
            Bad::RandInt(i64::MAX, i64::MIN),
            Bad::RandInt(-1, -2),
            Bad::RandDouble(1.0, 0.0),
            Bad::RandDouble(-0.5, -1.0),
            Bad::RandDouble(f64::INFINITY, 0.0),
            Bad::ReleaseUnknown(0),
            Bad::ReleaseUnknown(7),
            Bad::ReleaseTwice,
            Bad::GateReleased,
            Bad::ReleaseArrayTwice,
            Bad::DumpTo,
            Bad::SliceStep0,
            Bad::SliceOut(0, 1, 3),
            Bad::SliceOut(-1, 1, 1),
            Bad::SliceOut(3, -1, 0),
            Bad::SliceOut(2, -1, -1),
            Bad::SliceOut(0, 3, 9),
            Bad::SliceOut(1 << 61, 1, 1 << 61),
            Bad::SliceOut((1 << 61) + 1, 1, (1 << 61) + 1),
            Bad::SliceOut(1 << 60, 1, 1 << 60),
            Bad::SliceOut(i64::MAX, 1, i64::MAX),
            Bad::DivZero(false),
            Bad::DivZero(true),
            Bad::HugeArray(8, 1 << 61),
            Bad::HugeArray(8, (1 << 61) + 1),
            Bad::HugeArray(16, 1 << 60),
            Bad::HugeArray(1, u64::MAX),
            Bad::HugeArray(u32::MAX, u64::MAX),
            Bad::HugeTuple,
            Bad::HugeMemory,
            Bad::NegAlias,
            Bad::ExpSizes,
            Bad::ExpDuplicate,
        ];
        for (a, b) in [(1, 2), (2, 1), (0, 1), (3, 0)] {
            v.push(Bad::MeasureSizes(a, b));
            v.push(Bad::AssertSizes(a, b));
        }
        for k in 0..12 {
            v.push(Bad::Duplicate(k));
        }
        v
    }
    /// The message it records, if it has one.
    fn message(&self) -> Option<String> {
        match self {
            Bad::Fail(_, e) => Some((*e).to_string()),
            Bad::ConcatSizes(a, b) => Some(format!("Cannot concatenate arrays with differing element sizes: {a} vs {b}")),
            Bad::RandInt(..) | Bad::RandDouble(..) => Some("Invalid Argument: minimum > maximum".into()),
            Bad::MeasureSizes(..) | Bad::AssertSizes(..) => Some("Pauli array and Qubit array must be the same size.".into()),
            _ => None,
        }
    }
    fn run(&self) {
        unsafe {
            match *self {
                Bad::Fail(m, _) => {
                    let c = CString::new(m).unwrap();
                    __quantum__rt__fail(__quantum__rt__string_create(c.as_ptr().cast_mut()));
                }
                Bad::ConcatSizes(a, b) => {
                    let (x, y) = (__quantum__rt__array_create_1d(a, 2), __quantum__rt__array_create_1d(b, 2));
                    __quantum__rt__array_concatenate(x, y);
                }
                Bad::RandInt(a, b) => {
                    __quantum__qis__drawrandomint__body(a, b);
                }
                Bad::RandDouble(a, b) => {
                    __quantum__qis__drawrandomdouble__body(a, b);
                }
                Bad::ReleaseUnknown(k) => __quantum__rt__qubit_release(q(k)),
                Bad::ReleaseTwice => {
                    let a = __quantum__rt__qubit_allocate();
                    let _b = __quantum__rt__qubit_allocate();
                    __quantum__rt__qubit_release(a);
                    __quantum__rt__qubit_release(a);
                }
                Bad::GateReleased => {
                    let a = __quantum__rt__qubit_allocate();
                    let _b = __quantum__rt__qubit_allocate();
                    __quantum__rt__qubit_release(a);
                    __quantum__qis__h__body(a);
                }
                Bad::ReleaseArrayTwice => {
                    let a = __quantum__rt__qubit_allocate_array(2);
                    __quantum__rt__array_update_reference_count(a, 2);
                    __quantum__rt__qubit_release_array(a);
                    __quantum__rt__qubit_release_array(a);
                }
                Bad::DumpTo => {
                    __quantum__qis__x__body(q(0));
                    __quantum__qis__dumpmachine__body(8 as Q);
                }
                Bad::MeasureSizes(a, b) => {
                    let ids: Vec<usize> = (0..b).collect();
                    __quantum__qis__measure__body(parr(&vec![P::Z; a]), qarr(&ids));
                }
                Bad::AssertSizes(a, b) => {
                    let ids: Vec<usize> = (0..b).collect();
                    let m = CString::new("other").unwrap();
                    __quantum__qis__assertmeasurementprobability__body(
                        parr(&vec![P::Z; a]),
                        qarr(&ids),
                        std::ptr::null_mut(),
                        0.5,
                        __quantum__rt__string_create(m.as_ptr().cast_mut()),
                        1.0,
                    );
                }
                Bad::Duplicate(k) => {
                    let (a, b) = (q(1), q(0));
                    match k {
                        0 => __quantum__qis__cnot__body(a, a),
                        1 => __quantum__qis__cx__body(a, a),
                        2 => __quantum__qis__cy__body(a, a),
                        3 => __quantum__qis__cz__body(a, a),
                        4 => __quantum__qis__ccx__body(a, a, b),
                        5 => __quantum__qis__ccx__body(a, b, a),
                        6 => __quantum__qis__ccx__body(b, a, a),
                        7 => __quantum__qis__x__ctl(qarr(&[1, 2]), a),
                        8 => __quantum__qis__h__ctl(qarr(&[2, 2]), a),
                        9 => __quantum__qis__rzz__body(0.5, a, a),
                        10 => {
                            __quantum__qis__measure__body(parr(&[P::Z, P::Z]), qarr(&[1, 1]));
                        }
                        _ => __quantum__qis__t__ctladj(qarr(&[1]), a),
                    }
                }
                Bad::SliceStep0 => {
                    quantum__rt__array_slice_1d(__quantum__rt__array_create_1d(8, 3), Range { start: 0, step: 0, end: 2 });
                }
                Bad::SliceOut(s, k, e) => {
                    quantum__rt__array_slice_1d(__quantum__rt__array_create_1d(8, 3), Range { start: s, step: k, end: e });
                }
                Bad::DivZero(m) => {
                    let (a, z) = (__quantum__rt__bigint_create_i64(5), __quantum__rt__bigint_create_i64(0));
                    if m {
                        __quantum__rt__bigint_modulus(a, z);
                    } else {
                        __quantum__rt__bigint_divide(a, z);
                    }
                }
                Bad::HugeArray(s, n) => {
                    __quantum__rt__array_create_1d(s, n);
                }
                Bad::HugeTuple => {
                    __quantum__rt__tuple_create(u64::MAX);
                }
                Bad::HugeMemory => {
                    __quantum__rt__memory_allocate(u64::MAX);
                }
                Bad::NegAlias => {
                    __quantum__rt__array_update_alias_count(__quantum__rt__array_create_1d(8, 3), -1);
                }
                Bad::ExpSizes => {
                    exp::__quantum__qis__exp__body(parr(&[P::X, P::Z]), 0.3, qarr(&[0]));
                }
                Bad::ExpDuplicate => {
                    exp::__quantum__qis__exp__body(parr(&[P::X, P::Z]), 0.3, qarr(&[1, 1]));
                }
            }
        }
    }
}

pub fn c28(t: Tier) -> Vec<Job> {
    let bad = Bad::all();
    // earlier output: all sequences of up to 2 (3) records, plus some quantum activity
    let recs: Vec<O> = vec![O::Int(3, Some(b"t")), O::Msg("note", "note"), O::LBool(true), O::Arr(1, None), O::Bool(false, None)];
    let nr = recs.len() as u64;
    let maxp = t.pick(2u32, 3);
    let np: u64 = (0..=maxp).map(|l| nr.pow(l)).sum();
    let nb = bad.len() as u64;
    let mut v = vec![];
    v.push(job("failing-calls", nb * np * 3, move |i, ctx| {
        let b = bad[(i % nb) as usize];
        let quantum = i / nb % 3;
        let mut p = i / nb / 3;
        let mut l = 0;
        while p >= nr.pow(l) {
            p -= nr.pow(l);
            l += 1;
        }
        let pre: Vec<O> = (0..l)
            .map(|_| {
                let o = recs[(p % nr) as usize];
                p /= nr;
                o
            })
            .collect();
        // identifiers the failing call takes to be unallocated must be so: start from a clean simulator then
        let quantum = if matches!(b, Bad::ReleaseUnknown(_)) { 0 } else { quantum };
        ctx.log(|| format!("after {pre:?} (quantum activity {quantum}): {b:?} must stop the program"));
        ctx.transitions += u64::from(l) + 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{b:?}{pre:?}{quantum}")));
        let f = in_fork(Duration::from_secs(30), || {
            let _ = fresh(|| {
                rand::verif_script::set(&[0]);
                OUTPUT.with(|o| o.borrow_mut().use_std_out(true));
                match quantum {
                    1 => {
                        let mut c = Ctx::default();
                        let mut bm = BM::default();
                        for s in [B::Alloc, B::Alloc, B::Alloc, g("h__body", &[], &[0], 0.0), g("rx__body", &[], &[1], 0.7)] {
                            let _ = bm.step(&s, &mut c);
                        }
                    }
                    2 => {
                        __quantum__qis__h__body(q(2));
                        __quantum__qis__cx__body(q(2), q(0));
                        __quantum__rt__write_result(true, q(1));
                    }
                    _ => {}
                }
                for o in &pre {
                    o.real();
                }
                // nothing may be buffered past this point
                b.run();
                println!("RETURNED");
            });
        });
        // the first record of a LRes/Res differs with static results: not used here
        let mut want: Vec<u8> = pre.iter().flat_map(O::record).collect();
        if let Some(m) = b.message() {
            want.extend(format!("INFO\t{m}\n").into_bytes());
        }
        if f.out.ends_with(b"RETURNED\n") {
            return Err(format!("{b:?} returned to the program"));
        }
        stopped(&f.end).map_err(|e| format!("{b:?}: {e}"))?;
        if f.out != want {
            return Err(format!(
                "{b:?}: output {:?}, expected {:?}",
                String::from_utf8_lossy(&f.out),
                String::from_utf8_lossy(&want)
            ));
        }
        Ok(())
    }));
    v
}
