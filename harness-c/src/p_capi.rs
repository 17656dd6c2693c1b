//! C33: the classical runtime as a program in another language sees it. The cases are in driver.cpp, which is compiled
//! against the header and linked with the static library once per selection of cargo features.

use crate::engine::{hash_str, job, Ctx, Job, Res, Tier};
use std::collections::BTreeSet;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::rc::Rc;

const CONFIGS: [&str; 3] = ["full", "msg", "min"];

struct Lib {
    name: &'static str,
    handle: *mut c_void,
}
type JobFn = unsafe extern "C" fn(c_int, c_int, *mut u64) -> *const c_char;
type RunFn = unsafe extern "C" fn(c_int, u64, *mut c_char, *mut c_char, usize, *mut u64, *mut u64) -> c_int;
type TableFn = unsafe extern "C" fn(usize, *mut c_char, usize) -> *const c_void;

fn dir() -> String {
    std::env::var("MC_CAPI").unwrap_or_else(|_| {
        let v = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
        format!("{v}/target/capi")
    })
}
impl Lib {
    fn open(name: &'static str) -> Lib {
        let p = CString::new(format!("{}/libprogram-{name}.so", dir())).unwrap();
        // Lazily: a missing function stops the case that calls it, not everything.
        let handle = unsafe { libc::dlopen(p.as_ptr(), libc::RTLD_LAZY | libc::RTLD_LOCAL) };
        if handle.is_null() {
            let e = unsafe { CStr::from_ptr(libc::dlerror()) };
            eprintln!("cannot load {p:?}: {e:?}");
            std::process::exit(2);
        }
        Lib { name, handle }
    }
    fn sym(&self, n: &str) -> *mut c_void {
        let n = CString::new(n).unwrap();
        unsafe { libc::dlsym(self.handle, n.as_ptr()) }
    }
    fn jobs(&self, j: c_int, thorough: bool) -> Option<(String, u64)> {
        let f: JobFn = unsafe { std::mem::transmute(self.sym("capi_job")) };
        let mut n = 0;
        let p = unsafe { f(j, c_int::from(thorough), &mut n) };
        (!p.is_null()).then(|| (unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned(), n))
    }
    fn run(&self, j: c_int, i: u64, ctx: &mut Ctx) -> Res {
        let f: RunFn = unsafe { std::mem::transmute(self.sym("capi_run")) };
        let mut e = vec![0u8; 8192];
        let mut l = vec![0u8; 8192];
        let (mut t, mut h) = (0, 0);
        let r = unsafe { f(j, i, e.as_mut_ptr().cast(), l.as_mut_ptr().cast(), e.len(), &mut t, &mut h) };
        let s = |b: &[u8]| CStr::from_bytes_until_nul(b).unwrap().to_string_lossy().into_owned();
        ctx.log(|| format!("[{}] {}", self.name, s(&l)));
        ctx.transitions += t;
        ctx.traces += 1;
        ctx.state(h);
        if r == 0 {
            Ok(())
        } else {
            Err(s(&e))
        }
    }
}

/// The functions a header declares.
fn declared(text: &str) -> BTreeSet<String> {
    let code: String = text.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
    words(&code)
}
fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| w.contains("quantum__")).map(str::to_string).collect()
}
fn exports(text: &str) -> BTreeSet<String> {
    words(&text.lines().map(|l| l.split(';').next().unwrap_or("")).collect::<Vec<_>>().join("\n"))
}

fn symbols(lib: &Rc<Lib>) -> Vec<Job> {
    let read = |f: &str| std::fs::read_to_string(format!("/repo/stdlib/include/{f}")).unwrap_or_default();
    let (h, d) = (declared(&read("qir_stdlib.h")), exports(&read("qir_stdlib.def")));
    let all: Rc<Vec<String>> = Rc::new(h.union(&d).cloned().collect());
    let (a, l) = (all.clone(), lib.clone());
    let mut v = vec![job(format!("{}: declared functions", lib.name), all.len() as u64, move |i, ctx| {
        let n = &a[i as usize];
        ctx.log(|| format!("[{}] {n}: declared in the header, listed in the module definition, exported by the library", l.name));
        ctx.transitions += 3;
        ctx.traces += 1;
        ctx.state(hash_str(n));
        if !h.contains(n) {
            return Err(format!("{n} is in the module definition, but not declared in the header"));
        }
        if !d.contains(n) {
            return Err(format!("{n} is declared in the header, but not in the module definition"));
        }
        if l.sym(n).is_null() {
            return Err(format!("{n} is declared in the header, but not exported by the library"));
        }
        Ok(())
    })];
    if lib.name == "full" {
        let table: TableFn = unsafe { std::mem::transmute(lib.sym("capi_function")) };
        let entry = move |i: usize| {
            let mut b = vec![0u8; 256];
            let a = unsafe { table(i, b.as_mut_ptr().cast(), b.len()) };
            (!a.is_null()).then(|| (CStr::from_bytes_until_nul(&b).unwrap().to_string_lossy().into_owned(), a))
        };
        let n = (0..).take_while(|i| entry(*i).is_some()).count();
        let l = lib.clone();
        v.push(job("full: functions of the runtime by name", n as u64, move |i, ctx| {
            let (n, a) = entry(i as usize).unwrap();
            ctx.log(|| format!("the library's {n} is the function the runner binds to that name"));
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&n));
            let s = l.sym(&n);
            if s.is_null() {
                return Err(format!("{n} is not exported by the library"));
            }
            if s as *const c_void != a {
                return Err(format!("the library exports another function as {n}"));
            }
            Ok(())
        }));
    }
    v
}

pub fn c33(t: Tier) -> Vec<Job> {
    let mut v = vec![];
    for c in CONFIGS {
        if let Ok(why) = std::fs::read_to_string(format!("{}/unusable-{c}", dir())) {
            v.push(job(format!("{c}: a program"), 1, move |_, ctx| {
                ctx.log(|| format!("[{c}] compile a C++ program against the header and link it with the library"));
                Err(why.trim().to_string())
            }));
            continue;
        }
        let lib = Rc::new(Lib::open(c));
        v.extend(symbols(&lib));
        for j in 0.. {
            let Some((name, n)) = lib.jobs(j, t == Tier::Thorough) else { break };
            if n > 0 {
                let lib = lib.clone();
                v.push(job(format!("{c}: {name}"), n, move |i, ctx| lib.run(j, i, ctx)));
            }
        }
    }
    v
}
