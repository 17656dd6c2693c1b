//! Straight-line programs over the runtime's functions, with two semantics: LLVM IR text (executed by
//! the runner) and direct calls of the Rust functions of the same names.

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    V,
    P,
    L,
    W,
    B,
    D,
    Q, // i2
    C, // i8
}
impl T {
    pub fn ir(self) -> &'static str {
        match self {
            T::V => "void",
            T::P => "ptr",
            T::L => "i64",
            T::W => "i32",
            T::B => "i1",
            T::D => "double",
            T::Q => "i2",
            T::C => "i8",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    R(usize),
    L(i64),
    W(i32),
    B(bool),
    D(f64),
    P(u8),
    Null,
    /// a static qubit or result: an integer as a pointer
    Id(u64),
    /// a global byte string
    G(&'static str),
    /// a global table of functions
    F(&'static str),
}

#[derive(Clone, Debug)]
pub enum Op {
    Call { f: usize, args: Vec<A> },
    Load { p: A, off: i64, t: T },
    Store { p: A, off: i64, v: A },
    PtrEq(A, A),
    Zext(A),
}

/// A runtime function: name, parameter kinds, return kind, address.
pub struct Fun {
    pub name: &'static str,
    pub args: &'static str,
    pub ret: char,
    pub addr: usize,
    /// belongs to the dialect without labels (Some(true)) or the one with labels (Some(false))
    pub legacy: Option<bool>,
}

pub fn arg_ty(k: char) -> T {
    match k {
        'L' | 'H' | 'i' | 'U' | 'n' => T::L,
        'W' | 'w' | 'K' | 's' | 'm' => T::W,
        'b' => T::B,
        'D' | 'd' => T::D,
        'P' => T::Q,
        _ => T::P,
    }
}
pub fn ret_ty(k: char) -> T {
    match k {
        'v' => T::V,
        'L' => T::L,
        'W' => T::W,
        'b' => T::B,
        'D' => T::D,
        _ => T::P,
    }
}

macro_rules! funs {
    ($($(#[$l:ident])? $m:ident :: $n:ident $a:literal $r:literal;)*) => {
        vec![$(Fun { name: stringify!($n), args: $a, ret: $r, addr: funs!(@p $m $n), legacy: funs!(@l $($l)?) }),*]
    };
    (@p q $n:ident) => { qir_backend::$n as *const () as usize };
    (@p e $n:ident) => { qir_backend::exp::$n as *const () as usize };
    (@p r $n:ident) => { qir_backend::result_bool::$n as *const () as usize };
    (@p l $n:ident) => { qir_stdlib::output_recording::legacy::$n as *const () as usize };
    (@p y $n:ident) => { qir_backend::legacy_output::$n as *const () as usize };
    (@p z $n:ident) => { qir_backend::__quantum__qis__mz__body as *const () as usize };
    (@l) => { None };
    (@l old) => { Some(true) };
    (@l new) => { Some(false) };
}

/// Every function the README documents, with the meaning of its parameters:
/// Q qubit, o target next to controls, R result id, M result value, L i64, i index, H shift, U size, n count,
/// W/w count updates, K exponent, s element size, b bool, D double, d angle, P pauli, S string, B bigint,
/// A/V arrays of i64, p paulis, q qubits, c controls, T tuple, h/z/e/a argument tuples, C callable, t tag,
/// x bytes, N null, k/j function tables, g capture tuple, u argument tuple, X qubit array to release,
/// Y allocated qubit.
pub fn functions() -> Vec<Fun> {
    funs![
        q::__quantum__qis__arccos__body "D" 'D';
        q::__quantum__qis__arcsin__body "D" 'D';
        q::__quantum__qis__arctan__body "D" 'D';
        q::__quantum__qis__arctan2__body "DD" 'D';
        q::__quantum__qis__assertmeasurementprobability__body "pqM0S1" 'v';
        q::__quantum__qis__assertmeasurementprobability__ctl "ca" 'v';
        q::__quantum__qis__barrier__body "" 'v';
        q::__quantum__qis__ccx__body "QQQ" 'v';
        q::__quantum__qis__cnot__body "QQ" 'v';
        q::__quantum__qis__cos__body "D" 'D';
        q::__quantum__qis__cosh__body "D" 'D';
        q::__quantum__qis__cx__body "QQ" 'v';
        q::__quantum__qis__cy__body "QQ" 'v';
        q::__quantum__qis__cz__body "QQ" 'v';
        q::__quantum__qis__drawrandomdouble__body "DD" 'D';
        q::__quantum__qis__drawrandomint__body "LL" 'L';
        q::__quantum__qis__dumpmachine__body "N" 'v';
        e::__quantum__qis__exp__adj "pdq" 'v';
        e::__quantum__qis__exp__body "pdq" 'v';
        e::__quantum__qis__exp__ctl "ce" 'v';
        e::__quantum__qis__exp__ctladj "ce" 'v';
        q::__quantum__qis__h__body "Q" 'v';
        q::__quantum__qis__h__ctl "co" 'v';
        q::__quantum__qis__ieeeremainder__body "DD" 'D';
        q::__quantum__qis__infinity__body "" 'D';
        q::__quantum__qis__isinf__body "D" 'b';
        q::__quantum__qis__isnan__body "D" 'b';
        q::__quantum__qis__isnegativeinfinity__body "D" 'b';
        q::__quantum__qis__log__body "D" 'D';
        q::__quantum__qis__m__body "Q" 'M';
        z::__quantum__qis__m__body "QR" 'v';
        q::__quantum__qis__measure__body "pq" 'M';
        q::__quantum__qis__mresetz__body "QR" 'v';
        q::__quantum__qis__mz__body "QR" 'v';
        q::__quantum__qis__nan__body "" 'D';
        q::__quantum__qis__r__adj "PdQ" 'v';
        q::__quantum__qis__r__body "PdQ" 'v';
        q::__quantum__qis__r__ctl "cz" 'v';
        q::__quantum__qis__r__ctladj "cz" 'v';
        q::__quantum__qis__read_result__body "R" 'b';
        q::__quantum__qis__reset__body "Q" 'v';
        q::__quantum__qis__rx__body "dQ" 'v';
        q::__quantum__qis__rx__ctl "ch" 'v';
        q::__quantum__qis__rxx__body "dQQ" 'v';
        q::__quantum__qis__ry__body "dQ" 'v';
        q::__quantum__qis__ry__ctl "ch" 'v';
        q::__quantum__qis__ryy__body "dQQ" 'v';
        q::__quantum__qis__rz__body "dQ" 'v';
        q::__quantum__qis__rz__ctl "ch" 'v';
        q::__quantum__qis__rzz__body "dQQ" 'v';
        q::__quantum__qis__s__adj "Q" 'v';
        q::__quantum__qis__s__body "Q" 'v';
        q::__quantum__qis__s__ctl "co" 'v';
        q::__quantum__qis__s__ctladj "co" 'v';
        q::__quantum__qis__sin__body "D" 'D';
        q::__quantum__qis__sinh__body "D" 'D';
        q::__quantum__qis__sqrt__body "D" 'D';
        q::__quantum__qis__swap__body "QQ" 'v';
        q::__quantum__qis__sx__body "Q" 'v';
        q::__quantum__qis__t__adj "Q" 'v';
        q::__quantum__qis__t__body "Q" 'v';
        q::__quantum__qis__t__ctl "co" 'v';
        q::__quantum__qis__t__ctladj "co" 'v';
        q::__quantum__qis__tan__body "D" 'D';
        q::__quantum__qis__tanh__body "D" 'D';
        q::__quantum__qis__x__body "Q" 'v';
        q::__quantum__qis__x__ctl "co" 'v';
        q::__quantum__qis__y__body "Q" 'v';
        q::__quantum__qis__y__ctl "co" 'v';
        q::__quantum__qis__z__body "Q" 'v';
        q::__quantum__qis__z__ctl "co" 'v';
        q::__quantum__rt__array_concatenate "AA" 'A';
        q::__quantum__rt__array_copy "Ab" 'A';
        q::__quantum__rt__array_create_1d "sn" 'A';
        q::__quantum__rt__array_get_element_ptr_1d "Vi" 'E';
        q::__quantum__rt__array_get_size_1d "A" 'L';
        q::__quantum__rt__array_update_alias_count "AW" 'v';
        q::__quantum__rt__array_update_reference_count "AW" 'v';
        q::__quantum__rt__bigint_add "BB" 'B';
        q::__quantum__rt__bigint_bitand "BB" 'B';
        q::__quantum__rt__bigint_bitnot "B" 'B';
        q::__quantum__rt__bigint_bitor "BB" 'B';
        q::__quantum__rt__bigint_bitxor "BB" 'B';
        q::__quantum__rt__bigint_create_array "mx" 'B';
        q::__quantum__rt__bigint_create_i64 "L" 'B';
        q::__quantum__rt__bigint_divide "BB" 'B';
        q::__quantum__rt__bigint_equal "BB" 'b';
        q::__quantum__rt__bigint_get_data "B" 'x';
        q::__quantum__rt__bigint_get_length "B" 'W';
        q::__quantum__rt__bigint_greater "BB" 'b';
        q::__quantum__rt__bigint_greater_eq "BB" 'b';
        q::__quantum__rt__bigint_modulus "BB" 'B';
        q::__quantum__rt__bigint_multiply "BB" 'B';
        q::__quantum__rt__bigint_negate "B" 'B';
        q::__quantum__rt__bigint_power "BK" 'B';
        q::__quantum__rt__bigint_shiftleft "BH" 'B';
        q::__quantum__rt__bigint_shiftright "BH" 'B';
        q::__quantum__rt__bigint_subtract "BB" 'B';
        q::__quantum__rt__bigint_to_string "B" 'S';
        q::__quantum__rt__bigint_update_reference_count "Bw" 'v';
        q::__quantum__rt__bool_to_string "b" 'S';
        q::__quantum__rt__callable_copy "Cb" 'C';
        q::__quantum__rt__callable_create "kjg" 'C';
        q::__quantum__rt__callable_invoke "Cu_" 'v';
        q::__quantum__rt__callable_make_adjoint "C" 'v';
        q::__quantum__rt__callable_make_controlled "C" 'v';
        q::__quantum__rt__callable_update_alias_count "CW" 'v';
        q::__quantum__rt__callable_update_reference_count "CW" 'v';
        q::__quantum__rt__capture_update_alias_count "CW" 'v';
        q::__quantum__rt__capture_update_reference_count "CW" 'v';
        q::__quantum__rt__double_to_string "D" 'S';
        q::__quantum__rt__initialize "N" 'v';
        q::__quantum__rt__int_to_string "L" 'S';
        q::__quantum__rt__memory_allocate "U" 'Z';
        q::__quantum__rt__message "S" 'v';
        q::__quantum__rt__message_record_output "S" 'v';
        q::__quantum__rt__pauli_to_string "P" 'S';
        q::__quantum__rt__qubit_allocate "" 'Q';
        q::__quantum__rt__qubit_allocate_array "n" 'X';
        q::__quantum__rt__qubit_release "Y" 'v';
        q::__quantum__rt__qubit_release_array "X" 'v';
        q::__quantum__rt__qubit_to_string "Q" 'S';
        q::__quantum__rt__read_result "R" 'b';
        r::__quantum__rt__result_equal "MM" 'b';
        r::__quantum__rt__result_get_one "" 'M';
        r::__quantum__rt__result_get_zero "" 'M';
        r::__quantum__rt__result_to_string "M" 'S';
        r::__quantum__rt__result_update_reference_count "Mw" 'v';
        q::__quantum__rt__string_concatenate "SS" 'S';
        q::__quantum__rt__string_create "t" 'S';
        q::__quantum__rt__string_equal "SS" 'b';
        q::__quantum__rt__string_get_data "S" 'x';
        q::__quantum__rt__string_get_length "S" 'W';
        q::__quantum__rt__string_update_reference_count "Sw" 'v';
        q::__quantum__rt__tuple_copy "Tb" 'T';
        q::__quantum__rt__tuple_create "U" 'T';
        q::__quantum__rt__tuple_update_alias_count "TW" 'v';
        q::__quantum__rt__tuple_update_reference_count "TW" 'v';
        q::__quantum__rt__write_result "bR" 'v';
        // labelled output
        #[new] q::__quantum__rt__array_record_output "Lt" 'v';
        #[new] q::__quantum__rt__tuple_record_output "Lt" 'v';
        #[new] q::__quantum__rt__bool_record_output "bt" 'v';
        #[new] q::__quantum__rt__double_record_output "Dt" 'v';
        #[new] q::__quantum__rt__int_record_output "Lt" 'v';
        #[new] q::__quantum__rt__result_record_output "Rt" 'v';
        // output without labels
        #[old] l::__quantum__rt__array_start_record_output "" 'v';
        #[old] l::__quantum__rt__array_end_record_output "" 'v';
        #[old] l::__quantum__rt__tuple_start_record_output "" 'v';
        #[old] l::__quantum__rt__tuple_end_record_output "" 'v';
        #[old] l::__quantum__rt__bool_record_output "b" 'v';
        #[old] l::__quantum__rt__double_record_output "D" 'v';
        #[old] l::__quantum__rt__int_record_output "L" 'v';
        #[old] y::__quantum__rt__result_record_output "R" 'v';
    ]
}

// ---------------------------------------------------------------- callbacks of callables

/// The table of a callable: each entry reports its number and the first word of the tuples it was given.
const CALLBACKS: [&str; 6] = ["cb0", "cb1", "cb2", "cb3", "mem0", "mem1"];

fn say(s: &str) {
    unsafe {
        let c = std::ffi::CString::new(s).unwrap();
        let p = qir_backend::__quantum__rt__string_create(c.as_ptr() as *mut _);
        qir_backend::__quantum__rt__message(p);
        qir_backend::__quantum__rt__string_update_reference_count(p, -1);
    }
}
unsafe fn say_int(v: i64) {
    let p = qir_backend::__quantum__rt__int_to_string(v);
    qir_backend::__quantum__rt__message(p);
    qir_backend::__quantum__rt__string_update_reference_count(p, -1);
}
unsafe fn cb(n: usize, cap: *mut i64, args: *mut i64) {
    say(CALLBACKS[n]);
    if !cap.is_null() {
        say_int(*cap);
    }
    if n < 2 && !args.is_null() {
        say_int(*args);
    }
}
macro_rules! cbs {
    ($($n:ident $i:expr;)*) => { $(unsafe extern "C" fn $n(c: *mut i64, a: *mut i64, _r: *mut i64) { cb($i, c, a) })* };
}
cbs! { cb0 0; cb1 1; cb2 2; cb3 3; }
unsafe extern "C" fn mem0(_c: *mut i64, n: i32) {
    say("mem0");
    say_int(i64::from(n as u32));
}
unsafe extern "C" fn mem1(_c: *mut i64, n: i32) {
    say("mem1");
    say_int(i64::from(n as u32));
}
fn table(n: &str) -> Vec<usize> {
    match n {
        "table" => vec![cb0 as *const () as usize, cb1 as *const () as usize, cb2 as *const () as usize, cb3 as *const () as usize],
        "memory" => vec![mem0 as *const () as usize, mem1 as *const () as usize],
        _ => panic!(),
    }
}
const CALLBACK_IR: &str = r#"
@table = internal constant [4 x ptr] [ptr @cb0, ptr @cb1, ptr @cb2, ptr @cb3]
@memory = internal constant [2 x ptr] [ptr @mem0, ptr @mem1]
define internal void @saystr(ptr %s) {
  %p = call ptr @__quantum__rt__string_create(ptr %s)
  call void @__quantum__rt__message(ptr %p)
  call void @__quantum__rt__string_update_reference_count(ptr %p, i32 -1)
  ret void
}
define internal void @sayint(i64 %v) {
  %p = call ptr @__quantum__rt__int_to_string(i64 %v)
  call void @__quantum__rt__message(ptr %p)
  call void @__quantum__rt__string_update_reference_count(ptr %p, i32 -1)
  ret void
}
define internal void @sayat(ptr %a) {
  %n = icmp eq ptr %a, null
  br i1 %n, label %no, label %yes
yes:
  %v = load i64, ptr %a
  call void @sayint(i64 %v)
  br label %no
no:
  ret void
}
define internal void @saymem(ptr %s, i32 %n) {
  call void @saystr(ptr %s)
  %l = zext i32 %n to i64
  call void @sayint(i64 %l)
  ret void
}
define internal void @mem0(ptr %c, i32 %n) {
  call void @saymem(ptr @mem0.n, i32 %n)
  ret void
}
define internal void @mem1(ptr %c, i32 %n) {
  call void @saymem(ptr @mem1.n, i32 %n)
  ret void
}
"#;
fn callback_ir() -> String {
    let mut s = CALLBACK_IR.to_string();
    for n in CALLBACKS {
        let _ = writeln!(s, "@{n}.n = internal constant [{} x i8] c\"{n}\\00\"", n.len() + 1);
    }
    for n in 0..4 {
        let arg = if n < 2 { "  call void @sayat(ptr %a)\n" } else { "" };
        let _ = writeln!(s, "define internal void @cb{n}(ptr %c, ptr %a, ptr %r) {{\n  call void @saystr(ptr @cb{n}.n)\n  call void @sayat(ptr %c)\n{arg}  ret void\n}}");
    }
    s
}

// ---------------------------------------------------------------- programs

pub struct Prog<'a> {
    pub funs: &'a [Fun],
    pub index: &'a HashMap<&'static str, usize>,
    pub ops: Vec<Op>,
}

pub fn index(funs: &[Fun]) -> HashMap<&'static str, usize> {
    // helpers never use functions that exist twice
    let mut m = HashMap::new();
    for (i, f) in funs.iter().enumerate() {
        m.entry(f.name).or_insert(i);
    }
    m
}

impl<'a> Prog<'a> {
    pub fn new(funs: &'a [Fun], index: &'a HashMap<&'static str, usize>) -> Self {
        Prog { funs, index, ops: vec![] }
    }
    pub fn push(&mut self, op: Op) -> A {
        self.ops.push(op);
        A::R(self.ops.len() - 1)
    }
    pub fn callf(&mut self, f: usize, args: Vec<A>) -> A {
        self.push(Op::Call { f, args })
    }
    pub fn call(&mut self, n: &str, args: Vec<A>) -> A {
        let short = ["__quantum__rt__", "__quantum__qis__"].iter().find_map(|p| self.index.get(format!("{p}{n}").as_str()));
        let f = *short.unwrap_or_else(|| panic!("{n}"));
        self.callf(f, args)
    }
    pub fn load(&mut self, p: A, off: i64, t: T) -> A {
        self.push(Op::Load { p, off, t })
    }
    pub fn store(&mut self, p: A, off: i64, v: A) {
        self.push(Op::Store { p, off, v });
    }
    pub fn say(&mut self, s: A) {
        self.call("message", vec![s]);
    }
    pub fn say_int(&mut self, v: A) {
        let s = self.call("int_to_string", vec![v]);
        self.say(s);
    }
    pub fn say_bool(&mut self, v: A) {
        let s = self.call("bool_to_string", vec![v]);
        self.say(s);
    }
    fn ty(&self, a: A) -> T {
        match a {
            A::R(i) => match &self.ops[i] {
                Op::Call { f, .. } => ret_ty(self.funs[*f].ret),
                Op::Load { t, .. } => *t,
                Op::Store { .. } => T::V,
                Op::PtrEq(..) => T::B,
                Op::Zext(_) => T::L,
            },
            A::L(_) => T::L,
            A::W(_) => T::W,
            A::B(_) => T::B,
            A::D(_) => T::D,
            A::P(_) => T::C,
            A::Null | A::Id(_) | A::G(_) | A::F(_) => T::P,
        }
    }
    fn val(&self, a: A, want: T) -> String {
        match a {
            A::R(i) => format!("%r{i}"),
            A::L(v) => v.to_string(),
            A::W(v) => v.to_string(),
            A::B(v) => v.to_string(),
            A::D(v) => format!("0x{:016X}", v.to_bits()),
            A::P(v) => match (want, v) {
                (T::Q, 2) => "-2".into(),
                (T::Q, 3) => "-1".into(),
                _ => v.to_string(),
            },
            A::Null | A::Id(0) => "null".into(),
            A::Id(v) => format!("inttoptr (i64 {v} to ptr)"),
            A::G(s) => format!("@{}", gname(s)),
            A::F(s) => format!("@{s}"),
        }
    }
    pub fn ir(&self) -> String {
        let mut body = String::new();
        let mut globals = BTreeMap::new();
        let mut decls = BTreeMap::new();
        let mut tables = false;
        for op in &self.ops {
            let mut note = |a: &A| match a {
                A::G(s) => {
                    globals.insert(gname(s), *s);
                }
                A::F(_) => tables = true,
                _ => {}
            };
            match op {
                Op::Call { args, .. } => args.iter().for_each(note),
                Op::Load { p, .. } => note(p),
                Op::Store { p, v, .. } => {
                    note(p);
                    note(v)
                }
                Op::PtrEq(a, b) => {
                    note(a);
                    note(b)
                }
                Op::Zext(_) => {}
            }
        }
        for (i, op) in self.ops.iter().enumerate() {
            match op {
                Op::Call { f, args } => {
                    let f = &self.funs[*f];
                    let kinds = f.args.chars().map(|k| arg_ty(k2(k)));
                    let types: Vec<T> = kinds.collect();
                    decls.insert(f.name, format!("declare {} @{}({})", ret_ty(f.ret).ir(), f.name, types.iter().map(|t| t.ir()).collect::<Vec<_>>().join(", ")));
                    let a: Vec<String> = args.iter().zip(&types).map(|(a, t)| format!("{} {}", t.ir(), self.val(*a, *t))).collect();
                    let r = ret_ty(f.ret);
                    let lhs = if r == T::V { String::new() } else { format!("%r{i} = ") };
                    let _ = writeln!(body, "  {lhs}call {} @{}({})", r.ir(), f.name, a.join(", "));
                }
                Op::Load { p, off, t } => {
                    let _ = writeln!(body, "  %g{i} = getelementptr i8, ptr {}, i64 {off}", self.val(*p, T::P));
                    let _ = writeln!(body, "  %r{i} = load {}, ptr %g{i}, align 1", t.ir());
                }
                Op::Store { p, off, v } => {
                    let t = self.ty(*v);
                    let _ = writeln!(body, "  %g{i} = getelementptr i8, ptr {}, i64 {off}", self.val(*p, T::P));
                    let _ = writeln!(body, "  store {} {}, ptr %g{i}, align 1", t.ir(), self.val(*v, t));
                }
                Op::PtrEq(a, b) => {
                    let _ = writeln!(body, "  %r{i} = icmp eq ptr {}, {}", self.val(*a, T::P), self.val(*b, T::P));
                }
                Op::Zext(a) => {
                    let _ = writeln!(body, "  %r{i} = zext {} {} to i64", self.ty(*a).ir(), self.val(*a, T::L));
                }
            }
        }
        let mut s = String::new();
        for (n, v) in globals {
            let esc: String = v.bytes().map(|b| format!("\\{b:02X}")).collect();
            let _ = writeln!(s, "@{n} = internal constant [{} x i8] c\"{esc}\\00\"", v.len() + 1);
        }
        if tables {
            s.push_str(&callback_ir());
            for n in ["string_create", "message", "string_update_reference_count", "int_to_string"] {
                let f = &self.funs[self.index[format!("__quantum__rt__{n}").as_str()]];
                let types: Vec<&str> = f.args.chars().map(|k| arg_ty(k).ir()).collect();
                decls.insert(f.name, format!("declare {} @{}({})", ret_ty(f.ret).ir(), f.name, types.join(", ")));
            }
        }
        for d in decls.values() {
            s.push_str(d);
            s.push('\n');
        }
        let _ = write!(s, "define void @main() #0 {{\n{body}  ret void\n}}\nattributes #0 = {{ \"entry_point\" }}\n");
        s
    }
    /// Executes the program by calling the functions directly.
    pub unsafe fn run(&self) {
        let mut regs: Vec<u64> = Vec::with_capacity(self.ops.len());
        let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
        for op in &self.ops {
            let mut val = |a: &A, regs: &Vec<u64>| -> u64 {
                match a {
                    A::R(i) => regs[*i],
                    A::L(v) => *v as u64,
                    A::W(v) => u64::from(*v as u32),
                    A::B(v) => u64::from(*v),
                    A::D(v) => v.to_bits(),
                    A::P(v) => u64::from(*v),
                    A::Null => 0,
                    A::Id(v) => *v,
                    A::G(s) => {
                        let c = Box::new(std::ffi::CString::new(*s).unwrap());
                        let p = c.as_ptr() as u64;
                        keep.push(c);
                        p
                    }
                    A::F(n) => {
                        let t = Box::new(table(n));
                        let p = t.as_ptr() as u64;
                        keep.push(t);
                        p
                    }
                }
            };
            let r = match op {
                Op::Call { f, args } => {
                    let f = &self.funs[*f];
                    let (mut ints, mut dbl) = ([0u64; 6], [0f64; 4]);
                    let (mut ni, mut nd) = (0, 0);
                    for (a, k) in args.iter().zip(f.args.chars()) {
                        let v = val(a, &regs);
                        if arg_ty(k2(k)) == T::D {
                            dbl[nd] = f64::from_bits(v);
                            nd += 1;
                        } else {
                            ints[ni] = v;
                            ni += 1;
                        }
                    }
                    // integers and doubles travel in separate registers in this calling convention
                    type FI = extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64) -> u64;
                    type FD = extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64) -> f64;
                    let [a, b, c, d, e, g] = ints;
                    let [x, y, z, w] = dbl;
                    match ret_ty(f.ret) {
                        T::D => std::mem::transmute::<usize, FD>(f.addr)(a, b, c, d, e, g, x, y, z, w).to_bits(),
                        t => {
                            let v = std::mem::transmute::<usize, FI>(f.addr)(a, b, c, d, e, g, x, y, z, w);
                            match t {
                                T::B => v & 1,
                                T::W => v & 0xffff_ffff,
                                _ => v,
                            }
                        }
                    }
                }
                Op::Load { p, off, t } => {
                    let p = val(p, &regs).wrapping_add(*off as u64);
                    match t {
                        T::C => u64::from(*(p as *const u8)),
                        T::W => u64::from((p as *const u32).read_unaligned()),
                        _ => (p as *const u64).read_unaligned(),
                    }
                }
                Op::Store { p, off, v } => {
                    let q = val(p, &regs).wrapping_add(*off as u64);
                    let x = val(v, &regs);
                    match self.ty(*v) {
                        T::C => *(q as *mut u8) = x as u8,
                        T::W => (q as *mut u32).write_unaligned(x as u32),
                        _ => (q as *mut u64).write_unaligned(x),
                    }
                    0
                }
                Op::PtrEq(a, b) => u64::from(val(a, &regs) == val(b, &regs)),
                Op::Zext(a) => val(a, &regs),
            };
            regs.push(r);
        }
    }
}

/// Digits in a signature are fixed doubles.
pub fn k2(k: char) -> char {
    if k.is_ascii_digit() {
        'D'
    } else {
        k
    }
}
fn gname(s: &str) -> String {
    let mut n = "str".to_string();
    for b in s.bytes() {
        let _ = write!(n, "_{b:02x}");
    }
    n
}
