//! C29: choosing and running entry points, shots, input forms, the command line.

use crate::engine::{guarded, hash_str, in_fork, job, Ctx, End, Forked, Job, Res, Tier};
use crate::p_bind::{drain, env, run_ir, Env};
use crate::prog::{Op, Prog, A, T};
use std::ffi::CString;
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(60);

/// One shot of a run's output.
#[derive(Debug, PartialEq, Eq, Clone, Default)]
pub struct Shot {
    /// sorted
    pub meta: Vec<String>,
    pub records: Vec<String>,
    pub ended: bool,
}
/// Takes a run's output apart.
pub fn shots(out: &str) -> Result<Vec<Shot>, String> {
    let mut v: Vec<Shot> = vec![];
    let mut open = false;
    for l in out.split_inclusive('\n') {
        let Some(l) = l.strip_suffix('\n') else { return Err(format!("the last line of {out:?} does not end")) };
        match l {
            "START" if !open => {
                v.push(Shot::default());
                open = true;
            }
            "END\t0" if open => {
                v.last_mut().unwrap().ended = true;
                open = false;
            }
            _ if !open => return Err(format!("line {l:?} outside of a shot in {out:?}")),
            _ => {
                let s = v.last_mut().unwrap();
                match l.strip_prefix("METADATA\t") {
                    Some(_) if !s.records.is_empty() => return Err(format!("metadata after records in {out:?}")),
                    Some(m) => s.meta.push(m.into()),
                    None => s.records.push(l.into()),
                }
            }
        }
    }
    for s in &mut v {
        s.meta.sort();
    }
    Ok(v)
}

pub fn reset_output(std_out: bool) {
    runner::OUTPUT.with(|o| {
        let mut o = o.borrow_mut();
        o.use_std_out(std_out);
        o.drain();
    });
}

// ---------------------------------------------------------------- entry points

const NAMES: [&str; 3] = ["main", "Main", "main2"];

#[derive(Clone, Copy, Debug)]
struct Def {
    /// 0: no entry point, 1: "entry_point", 2: "EntryPoint", 3: both
    attr: u64,
    param: bool,
    int: bool,
}
fn defs(mut i: u64, n: usize) -> Vec<Def> {
    (0..n)
        .map(|_| {
            let d = i % 16;
            i /= 16;
            Def { attr: d % 4, param: d / 4 % 2 == 1, int: d / 8 == 1 }
        })
        .collect()
}
fn entry_ir(d: &[Def]) -> String {
    let mut s = String::from("declare void @__quantum__rt__int_record_output(i64, ptr)\n");
    for (i, d) in d.iter().enumerate() {
        let attr = ["", "\"entry_point\"", "\"EntryPoint\"", "\"entry_point\" \"EntryPoint\""][d.attr as usize];
        let (ty, ret) = if d.int { ("i64", "ret i64 0") } else { ("void", "ret void") };
        let p = if d.param { "i64 %p" } else { "" };
        let _ = writeln!(
            s,
            "define {ty} @{}({p}) {attr} {{\n  call void @__quantum__rt__int_record_output(i64 {i}, ptr null)\n  {ret}\n}}",
            NAMES[i]
        );
    }
    s
}
fn entry_case(d: &[Def], ctx: &mut Ctx) -> Res {
    let ir = entry_ir(d);
    ctx.log(|| ir.clone());
    let others = ["nope", "mai", "MAIN", "", "@main", "main ", "entry_point", "__quantum__rt__int_record_output"];
    let sel: Vec<Option<&str>> = [None].into_iter().chain(NAMES.iter().chain(&others).map(|n| Some(*n))).collect();
    for sel in sel {
        let cand: Vec<usize> = (0..d.len()).filter(|i| d[*i].attr != 0 && sel.is_none_or(|s| s == NAMES[*i])).collect();
        let (r, out) = run_ir(&ir, sel, 2, None);
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{ir}{sel:?}")));
        let bad = |m: &str| Err(format!("entry point {sel:?}: {m}: {r:?}, output {out:?}"));
        let parsed = shots(&out)?;
        match cand[..] {
            [i] if !d[i].param => {
                if r.is_err() {
                    return bad("refused");
                }
                let meta: &[&str] = [&[] as &[&str], &["entry_point"], &["EntryPoint"], &["EntryPoint", "entry_point"]][d[i].attr as usize];
                let want = Shot { meta: meta.iter().map(|s| s.to_string()).collect(), records: vec![format!("OUTPUT\tINT\t{i}")], ended: true };
                if parsed != [want.clone(), want] {
                    return bad("not two shots of the selected function");
                }
            }
            [_] => {
                if r.is_ok() || parsed.iter().any(|s| s.ended || !s.records.is_empty()) {
                    return bad("an entry point with a parameter was run");
                }
            }
            _ => {
                if r.is_ok() || !out.is_empty() {
                    return bad("a missing or ambiguous entry point was not refused");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- metadata

const ATTRS: [(&str, &str); 8] = [
    ("output_labeling_schema", ""),
    ("output_labeling_schema", "schema_id"),
    ("qir_profiles", "custom"),
    ("required_num_qubits", "12"),
    ("required_num_results", ""),
    ("user defined", "value with blanks"),
    ("x", "q\u{e9}\"\\"),
    ("aa", "0"),
];
const FLAGS: [&str; 8] = ["", "nounwind", "noinline optnone", "alwaysinline", "cold", "uwtable", "memory(none)", "nofree norecurse"];

fn meta_case(i: u64, ctx: &mut Ctx) -> Res {
    let (set, i) = (i % 256, i / 256);
    if set & 3 == 3 {
        return Ok(()); // one name has one value
    }
    let (kind, i) = (i % 2, i / 2);
    let (flag, group) = (i % 8, i / 8 == 1);
    let mut list = vec![(["entry_point", "EntryPoint"][kind as usize], "")];
    list.extend(ATTRS.iter().enumerate().filter(|(k, _)| set >> k & 1 == 1).map(|(_, a)| *a));
    let esc = |s: &str| s.bytes().map(|b| if b == b'"' || b == b'\\' || b > 126 { format!("\\{b:02X}") } else { (b as char).to_string() }).collect::<String>();
    let text: Vec<String> = list.iter().map(|(k, v)| if v.is_empty() { format!("\"{}\"", esc(k)) } else { format!("\"{}\"=\"{}\"", esc(k), esc(v)) }).collect();
    let (strs, flags) = (text.join(" "), FLAGS[flag as usize]);
    let (on, grp) = if group { ("#1 #0".to_string(), format!("attributes #0 = {{ {strs} }}\nattributes #1 = {{ {flags} }}\n")) } else { (format!("{flags} {strs}"), String::new()) };
    let grp = if flags.is_empty() && group { grp.replace("attributes #1 = {  }\n", "attributes #1 = { nounwind }\n") } else { grp };
    // a function that is called, and an argument of its own attributes, contribute nothing
    let ir = format!("define internal void @f(i64 \"arg\"=\"1\" %x) \"other\"=\"1\" {{\n  ret void\n}}\ndefine void @main() {on} {{\n  call void @f(i64 1)\n  ret void\n}}\n{grp}");
    ctx.log(|| ir.clone());
    let (r, out) = run_ir(&ir, None, 2, None);
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&ir));
    r.map_err(|e| format!("refused: {e}"))?;
    let mut meta: Vec<String> = list.iter().map(|(k, v)| if v.is_empty() { (*k).to_string() } else { format!("{k}\t{v}") }).collect();
    meta.sort();
    let want = Shot { meta, records: vec![], ended: true };
    let got = shots(&out)?;
    if got != [want.clone(), want.clone()] {
        return Err(format!("metadata {got:?} instead of twice {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- shots

const ALPHABET: [&str; 12] = ["x0", "h0", "h1", "cx01", "m0", "m1", "reset0", "write0", "alloc", "array", "mresetz1", "rec0"];

fn letter(p: &mut Prog, l: &str) {
    let say_q = |p: &mut Prog, q: A| {
        let s = p.call("qubit_to_string", vec![q]);
        p.say(s);
    };
    let rec = |p: &mut Prog, r: u64| {
        // the labelled form: the unlabelled one has the same name
        p.call("result_record_output", vec![A::Id(r), A::Null]);
    };
    match l {
        "x0" => p.call("x__body", vec![A::Id(0)]),
        "h0" => p.call("h__body", vec![A::Id(0)]),
        "h1" => p.call("h__body", vec![A::Id(1)]),
        "cx01" => p.call("cx__body", vec![A::Id(0), A::Id(1)]),
        "m0" => {
            p.call("mz__body", vec![A::Id(0), A::Id(0)]);
            rec(p, 0);
            A::Null
        }
        "m1" => {
            p.call("mz__body", vec![A::Id(1), A::Id(1)]);
            rec(p, 1);
            A::Null
        }
        "mresetz1" => {
            p.call("mresetz__body", vec![A::Id(1), A::Id(2)]);
            rec(p, 2);
            A::Null
        }
        "reset0" => p.call("reset__body", vec![A::Id(0)]),
        "write0" => p.call("write_result", vec![A::B(true), A::Id(0)]),
        "rec0" => {
            let b = p.call("read_result", vec![A::Id(0)]);
            p.say_bool(b);
            A::Null
        }
        "alloc" => {
            let q = p.call("qubit_allocate", vec![]);
            p.call("h__body", vec![q]);
            say_q(p, q);
            A::Null
        }
        "array" => {
            let a = p.call("qubit_allocate_array", vec![A::L(2)]);
            let e = p.call("array_get_element_ptr_1d", vec![a, A::L(1)]);
            let q = p.load(e, 0, T::P);
            p.call("x__body", vec![q]);
            say_q(p, q);
            let n = p.call("array_get_size_1d", vec![a]);
            p.say_int(n);
            A::Null
        }
        _ => panic!("{l}"),
    };
}
pub fn words_of(mut i: u64, n: u64) -> Vec<&'static str> {
    // words of length 0..=n
    let k = ALPHABET.len() as u64;
    let mut len = 0;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    assert!(u64::from(len) <= n);
    (0..len)
        .map(|_| {
            let l = ALPHABET[(i % k) as usize];
            i /= k;
            l
        })
        .collect()
}
pub fn count_words(n: u32) -> u64 {
    (0..=n).map(|l| (ALPHABET.len() as u64).pow(l)).sum()
}
/// The records of each shot, from direct calls.
fn direct_shots(p: &Prog, shots: u32, seed: u64) -> Vec<Shot> {
    reset_output(false);
    qir_backend::set_rng_seed(seed);
    (0..shots)
        .map(|_| {
            qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
            unsafe { p.run() };
            let o = String::from_utf8_lossy(&drain()).into_owned();
            Shot { meta: vec!["entry_point".into()], records: o.lines().map(str::to_string).collect(), ended: true }
        })
        .collect()
}
pub fn word_ir(e: &Rc<Env>, word: &[&str]) -> String {
    let mut p = Prog::new(&e.funs, &e.index);
    word.iter().for_each(|l| letter(&mut p, l));
    p.ir()
}
fn shots_case(e: &Rc<Env>, word: &[&'static str], ctx: &mut Ctx) -> Res {
    let mut p = Prog::new(&e.funs, &e.index);
    word.iter().for_each(|l| letter(&mut p, l));
    let ir = p.ir();
    ctx.log(|| format!("{word:?}"));
    let random = word.iter().any(|l| l.starts_with('h')) || word.contains(&"alloc");
    for (n, seed) in [(0, 5), (1, 0), (2, 1), (3, u64::MAX), (5, 1 << 33)] {
        let want = guarded(|| direct_shots(&p, n, seed)).map_err(|e| format!("direct call panicked: {e}"))?;
        let (r, out) = run_ir(&ir, None, n, Some(seed));
        ctx.transitions += u64::from(n) * p.ops.len() as u64;
        ctx.traces += 1;
        ctx.state(hash_str(&out));
        r.map_err(|e| format!("refused: {e}"))?;
        let got = shots(&out)?;
        if got != want {
            return Err(format!("{n} shots with seed {seed} gave {got:?}, direct calls {want:?}"));
        }
        if !random && got.windows(2).any(|w| w[0] != w[1]) {
            return Err(format!("shots of a program without randomness differ: {got:?}"));
        }
        if n == 3 {
            // unseeded runs follow on, and have the same shape
            let (r, out2) = run_ir(&ir, None, n, None);
            r.map_err(|e| format!("refused without a seed: {e}"))?;
            let got2 = shots(&out2)?;
            ctx.traces += 1;
            if got2.len() != got.len() || (!random && got2 != got) {
                return Err(format!("without a seed: {got2:?} instead of {got:?}"));
            }
            // the same seed again gives the same shots
            let (r, out3) = run_ir(&ir, None, n, Some(seed));
            if r.is_err() || out3 != out {
                return Err(format!("the same seed gave {out:?}, then {out3:?}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- input forms

fn pad(ir: &str, to: usize) -> String {
    let mut s = ir.to_string();
    while s.len() + 2 <= to {
        let n = (to - s.len() - 2).min(70);
        s = format!(";{}\n{s}", "c".repeat(n));
    }
    while s.len() < to {
        s.push('\n');
    }
    s
}
fn samples(e: &Rc<Env>) -> Vec<String> {
    let base = word_ir(e, &["x0", "m0", "h1", "m1", "alloc", "h0", "m0"]);
    let mut v = vec![
        base.clone(),
        format!("; comment\n\n; ModuleID = 'q'\nsource_filename = \"q\"\n{base}"),
        base.trim_end().to_string(),
        format!("{base}\n\n; end"),
        format!("{}\n", base.replace('\n', "\r\n")),
        format!("; caf\u{e9} \u{1f600}\n{base}"),
    ];
    let big = base.len().div_ceil(4096) * 4096;
    for d in [-1i64, 0, 1] {
        v.push(pad(&base, (big as i64 + d) as usize));
        v.push(pad(base.trim_end(), (big as i64 + 4096 + d) as usize).trim_end().to_string());
    }
    v
}
pub fn bitcode(ir: &str) -> Vec<u8> {
    let c = inkwell::context::Context::create();
    let b = inkwell::memory_buffer::MemoryBuffer::create_from_memory_range_copy(ir.as_bytes(), "m");
    let m = c.create_module_from_ir(b).expect("the sample parses");
    let b = m.write_bitcode_to_memory();
    b.as_slice().to_vec()
}
fn wrapped(bc: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for w in [0x0B17_C0DEu32, 0, 20, bc.len() as u32, 0x0100_0007] {
        v.extend_from_slice(&w.to_le_bytes());
    }
    v.extend_from_slice(bc);
    while v.len() % 16 != 0 {
        v.push(0);
    }
    v
}

/// A scratch directory that is removed with the value.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mcr-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, n: &str, b: &[u8]) -> String {
        let p = self.0.join(n);
        std::fs::write(&p, b).expect("scratch file");
        p.to_str().unwrap().into()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Puts bytes on standard input (in a forked child).
pub fn stdin_from(path: &str) {
    unsafe {
        let c = CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDONLY);
        assert!(fd >= 0);
        libc::dup2(fd, 0);
        libc::close(fd);
    }
}
struct Slow<'a>(&'a [u8], usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(self.1);
        if n > 1 && self.1 == 7 {
            self.1 = 8;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// A writer that takes a few bytes at a time.
struct Drip(Vec<u8>, usize);
impl std::io::Write for Drip {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A writer that takes so many bytes and then fails.
struct Full(Vec<u8>, usize, Option<std::io::ErrorKind>);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 && !b.is_empty() {
            return self.2.map_or(Ok(0), |k| Err(k.into()));
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The writer fails after any number of bytes: what it took is the beginning of the output, the run is not reported as
/// complete, and the next run is whole.
fn full_case(ir: &str, form: u64, ctx: &mut Ctx) -> Res {
    const SHOTS: u32 = 2;
    let (r, want) = run_ir(ir, None, SHOTS, Some(4));
    r.map_err(|e| format!("refused: {e}"))?;
    let kinds = [None, Some(std::io::ErrorKind::Other), Some(std::io::ErrorKind::BrokenPipe), Some(std::io::ErrorKind::WouldBlock)];
    let dir = Scratch::new();
    let path = dir.file("a.ll", ir.as_bytes());
    for at in 0..=want.len() {
        let mut w = Full(vec![], at, kinds[at % kinds.len()]);
        ctx.log(|| format!("the writer fails after {at} bytes with {:?}, form {form}", w.2));
        reset_output(false);
        let r = guarded(|| match form {
            0 => runner::run_bytes(ir.as_bytes(), None, SHOTS, Some(4), &mut w),
            1 => runner::run_file(&path, None, SHOTS, Some(4), &mut w),
            _ => runner::run_input(&mut ir.as_bytes(), None, SHOTS, Some(4), &mut w),
        });
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{form} {at} {ir}")));
        if w.0 != want.as_bytes()[..at] {
            return Err(format!("a writer that takes {at} bytes got {:?}, the output is {want:?}", String::from_utf8_lossy(&w.0)));
        }
        if matches!(r, Ok(Ok(()))) != (at == want.len()) {
            return Err(format!("a writer took {at} of {} bytes and the run ended with {r:?}", want.len()));
        }
        // (no reset in between: what is left over would show)
        let mut again = vec![];
        let r = guarded(|| runner::run_bytes(ir.as_bytes(), None, SHOTS, Some(4), &mut again));
        if r != Ok(Ok(())) || again != want.as_bytes() {
            return Err(format!("after a writer that failed at byte {at} the next run gives {r:?}, {:?} instead of {want:?}", String::from_utf8_lossy(&again)));
        }
    }
    Ok(())
}
const FORMS: u64 = 14;
/// Runs a module through one of the ways in.
fn run_form(ir: &str, form: u64, entry: Option<&str>, n: u32, seed: u64) -> Result<(Result<(), String>, String), String> {
    let bc = bitcode(ir);
    let text = ir.as_bytes();
    let dir = Scratch::new();
    let mut out = vec![];
    reset_output(false);
    let (ns, ss) = (n.to_string(), seed.to_string());
    let forked = |args: &[&str], stdin: Option<&str>| {
        let mut a = vec!["qir-runner"];
        a.extend_from_slice(args);
        a.extend_from_slice(&["-s", &ns, "-r", &ss]);
        if let Some(e) = entry {
            a.extend_from_slice(&["-e", e]);
        }
        cli(&a, stdin)
    };
    let some = Some(seed);
    let r = match form {
        0 => runner::run_bytes(text, entry, n, some, &mut out),
        1 => runner::run_bytes(&bc, entry, n, some, &mut out),
        2 => runner::run_bytes(&wrapped(&bc), entry, n, some, &mut out),
        3 => runner::run_input(&mut Slow(text, 7), entry, n, some, &mut out),
        4 => runner::run_input(&mut &bc[..], entry, n, some, &mut out),
        5 => runner::run_file(dir.file("a.ll", text), entry, n, some, &mut out),
        6 => runner::run_file(dir.file("a.b.bc", &bc), entry, n, some, &mut out),
        7 => {
            qir_backend::set_rng_seed(seed);
            runner::run_bitcode(&bc, entry, n, &mut out)
        }
        8 => {
            let mut d = Drip(vec![], 1);
            let r = runner::run_bytes(&bc, entry, n, some, &mut d);
            out = d.0;
            r
        }
        9 => {
            let mut d = Drip(vec![], 5);
            let r = runner::run_file(dir.file("a.bc", &wrapped(&bc)), entry, n, some, &mut d);
            out = d.0;
            r
        }
        10..=13 => {
            let f = match form {
                10 => forked(&["-f", &dir.file("x.ll", text)], None),
                11 => forked(&["-f", &dir.file("x.bc", &bc)], None),
                12 => forked(&[], Some(&dir.file("in", text))),
                _ => forked(&["--file", "-"], Some(&dir.file("in", &bc))),
            };
            out = f.out;
            match f.end {
                End::Exit(0) => Ok(()),
                End::Exit(3) => Err("the command line reports an error".into()),
                e => return Err(format!("form {form}: the command line ended with {e:?}")),
            }
        }
        _ => panic!(),
    };
    drain();
    Ok((r, String::from_utf8_lossy(&out).into_owned()))
}
fn forms_case(ir: &str, form: u64, ctx: &mut Ctx) -> Res {
    let (seed, n) = (11, 3);
    let (r, want) = run_ir(&ir.trim_end().replace('\r', ""), None, n, Some(seed));
    r.map_err(|e| format!("the sample was refused: {e}"))?;
    if shots(&want)?.len() != 3 {
        return Err(format!("not three shots: {want:?}"));
    }
    ctx.log(|| format!("{} bytes of text, form {form}", ir.len()));
    let (r, got) = run_form(ir, form, None, n, seed)?;
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(ir) ^ form);
    r.map_err(|e| format!("form {form}: refused: {e}"))?;
    if got != want {
        return Err(format!("form {form} printed {got:?} instead of {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- seeds, sizes, many shots

const SEEDS: [u64; 16] = [
    0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, 1 << 63, u64::MAX - 1, u64::MAX,
];
/// The values that 40 measurements after H give with this seed, per shot.
fn coins(seed: u64, n: u32) -> Vec<Shot> {
    qir_backend::set_rng_seed(seed);
    (0..n)
        .map(|_| {
            qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
            let mut v = 0i64;
            for _ in 0..40 {
                let q = std::ptr::null_mut();
                qir_backend::__quantum__qis__h__body(q);
                qir_backend::__quantum__qis__mz__body(q, q);
                v = v << 1 | i64::from(qir_backend::__quantum__qis__read_result__body(q));
            }
            Shot { meta: vec!["entry_point".into()], records: vec![format!("OUTPUT\tINT\t{v}")], ended: true }
        })
        .collect()
}
/// Every seed through every form, whatever the generator's state was before.
fn seed_case(i: u64, ctx: &mut Ctx) -> Res {
    let (form, i) = (i % FORMS, i / FORMS);
    let (seed, i) = (SEEDS[i as usize % SEEDS.len()], i / SEEDS.len() as u64);
    let (entry, before) = ([None, Some("a")][i as usize % 2], [77, 0][i as usize / 2]);
    ctx.log(|| format!("form {form}, seed {seed}, entry point {entry:?}, seeded with {before} before"));
    let want = coins(seed, 2);
    qir_backend::set_rng_seed(before);
    let (r, out) = run_form(TWO, form, entry, 2, seed)?;
    ctx.transitions += 2;
    ctx.traces += 1;
    ctx.state(hash_str(&out));
    r.map_err(|e| format!("refused: {e}"))?;
    let got = shots(&out)?;
    if got != want {
        return Err(format!("form {form} with seed {seed} gave {got:?}, direct calls {want:?}"));
    }
    Ok(())
}
/// Modules of every size: the program stands at the end of the text; its bitcode carries a constant as long.
fn size_case(e: &Rc<Env>, size: usize, form: u64, ctx: &mut Ctx) -> Res {
    let base = word_ir(e, &["x0", "m0", "alloc"]);
    let ir = if matches!(form, 0 | 3 | 5 | 10 | 12) {
        pad(&base, size)
    } else {
        let ir = base.replace("define void @main() #0 {\n", "define void @main() #0 {\n  %pad = load volatile i8, ptr @pad\n");
        if ir == base {
            return Err("the sample has changed".into());
        }
        format!("@pad = internal constant [{size} x i8] c\"{}\"\n{ir}", "p".repeat(size))
    };
    ctx.log(|| format!("{} bytes of text, form {form}", ir.len()));
    let (r, want) = run_ir(&base, None, 2, Some(4));
    r.map_err(|e| format!("the sample was refused: {e}"))?;
    let (r, got) = run_form(&ir, form, None, 2, 4)?;
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(size as u64 * 64 + form);
    r.map_err(|e| format!("size {size}, form {form}: refused: {e}"))?;
    if got != want {
        return Err(format!("size {size}, form {form} printed {got:?} instead of {want:?}"));
    }
    Ok(())
}
const MANY: [u32; 23] =
    [4, 8, 9, 10, 16, 17, 32, 64, 100, 101, 128, 255, 256, 257, 500, 512, 1000, 1001, 1024, 4096, 4097, 10_000, 65_537];
fn many_case(e: &Rc<Env>, i: u64, ctx: &mut Ctx) -> Res {
    let words: [&[&str]; 5] = [&["m0", "x0", "rec0", "write0"], &["rec0", "write0", "alloc"], &["array", "alloc", "m1", "cx01"], &["h0", "m0", "h1", "m1"], &[]];
    let (word, n) = (words[i as usize % 5], MANY[i as usize / 5 % MANY.len()]);
    let line = i as usize / 5 / MANY.len() == 1;
    let mut p = Prog::new(&e.funs, &e.index);
    word.iter().for_each(|l| letter(&mut p, l));
    let ir = p.ir();
    ctx.log(|| format!("{n} shots of {word:?}, command line {line}"));
    let want = guarded(|| direct_shots(&p, n, 21)).map_err(|e| format!("direct call panicked: {e}"))?;
    let (r, out) = run_form(&ir, if line { 10 } else { 0 }, None, n, 21)?;
    ctx.transitions += u64::from(n) * p.ops.len() as u64;
    ctx.traces += 1;
    ctx.state(i);
    r.map_err(|e| format!("refused: {e}"))?;
    let got = shots(&out)?;
    if let Some(k) = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k)) {
        return Err(format!("{n} shots of {word:?}: shot {k} is {:?}, direct calls give {:?}", got.get(k), want.get(k)));
    }
    Ok(())
}

// ---------------------------------------------------------------- names that nearly match

/// Every word that differs from the given one by one edit.
pub fn edits(w: &str) -> Vec<String> {
    let c: Vec<char> = w.chars().collect();
    let mut v = vec![];
    for i in 0..c.len() {
        let s = |f: &dyn Fn(&mut Vec<char>)| {
            let mut d = c.clone();
            f(&mut d);
            d.into_iter().collect::<String>()
        };
        v.push(s(&|d| drop(d.remove(i))));
        v.push(s(&|d| d.insert(i, d[i])));
        if i + 1 < c.len() {
            v.push(s(&|d| d.swap(i, i + 1)));
        }
        let up = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        v.push(s(&|d| d[i] = up));
        for x in ['_', '-', ' ', '0'] {
            v.push(s(&|d| d[i] = x));
        }
    }
    for i in 0..=c.len() {
        for x in ['_', '.', ' ', '1', '@', '"', '\u{e9}', '*'] {
            let mut d = c.clone();
            d.insert(i, x);
            v.push(d.into_iter().collect());
        }
    }
    v.extend([w.to_uppercase(), w.to_lowercase(), w.chars().rev().collect(), format!("{w}{w}"), String::new()]);
    v.sort();
    v.dedup();
    v.retain(|x| x != w);
    v
}
fn quoted(s: &str) -> String {
    let e: String = s.bytes().map(|b| if b == b'"' || b == b'\\' || !(32..127).contains(&b) { format!("\\{b:02X}") } else { (b as char).to_string() }).collect();
    format!("\"{e}\"")
}
const BASES: [&str; 8] = ["main", "_main", "main__body", "Ns__Main__Interop", "x", "e.1", "my entry", "\u{e9}t\u{e9}"];
fn name_case(a: &str, b: &str, ctx: &mut Ctx) -> Res {
    let f = |n: &str, k: u64| {
        format!("define void @{}() \"entry_point\" {{\n  call void @__quantum__rt__int_record_output(i64 {k}, ptr null)\n  ret void\n}}\n", quoted(n))
    };
    const D: &str = "declare void @__quantum__rt__int_record_output(i64, ptr)\n";
    let one = format!("{D}{}", f(a, 1));
    ctx.log(|| format!("entry points {a:?} and {b:?}\n{one}"));
    let mut run = |ir: &str, sel: Option<&str>, want: Option<u64>| -> Res {
        let (r, out) = run_ir(ir, sel, 1, None);
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(hash_str(&format!("{ir}{sel:?}")));
        let text = want.map_or(String::new(), |k| format!("START\nMETADATA\tentry_point\nOUTPUT\tINT\t{k}\nEND\t0\n"));
        if r.is_ok() != want.is_some() || out != text {
            return Err(format!("selecting {sel:?}: {r:?} with output {out:?}, expected {text:?} of\n{ir}"));
        }
        Ok(())
    };
    run(&one, Some(a), Some(1))?;
    run(&one, Some(b), None)?;
    if !b.is_empty() {
        for two in [format!("{one}{}", f(b, 2)), format!("{D}{}{}", f(b, 2), f(a, 1))] {
            run(&two, Some(a), Some(1))?;
            run(&two, Some(b), Some(2))?;
            run(&two, None, None)?;
        }
    }
    Ok(())
}
/// Only the two documented attributes make an entry point.
fn attribute_case(b: &str, ctx: &mut Ctx) -> Res {
    let ok = b == "entry_point" || b == "EntryPoint";
    if b.is_empty() {
        return Ok(());
    }
    for (i, attr) in [quoted(b), format!("{}=\"v\"", quoted(b))].iter().enumerate() {
        let ir = format!("define void @main() {attr} {{\n  ret void\n}}\n");
        ctx.log(|| ir.clone());
        for sel in [None, Some("main")] {
            let (r, out) = run_ir(&ir, sel, 1, None);
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.state(hash_str(&ir));
            let want = if ok { format!("START\nMETADATA\t{b}{}\nEND\t0\n", ["", "\tv"][i]) } else { String::new() };
            if r.is_ok() != ok || out != want {
                return Err(format!("attribute {attr}: {r:?}, output {out:?}"));
            }
        }
    }
    Ok(())
}
/// The attributes' values are printed as they are.
fn value_case(i: u64, ctx: &mut Ctx) -> Res {
    let words = [" ", "  ", " a", "a ", " a b ", "a\tb", "\t", "0", "-", "false", "START", "END\t0", "METADATA", "\u{a0}", "\u{2003}x", "\u{e9}", "'", "\"", "\\", "\\n", "%s", "{}", "{0}", "a=b", ",", ";"];
    let (w, i) = (words[i as usize % words.len()], i as usize / words.len());
    let (long, key) = (i % 4, i / 4);
    let w = w.repeat([1, 2, 100, 5000][long]);
    let (k, v) = match key {
        0 => ("note".to_string(), w),
        1 => (w, String::new()),
        _ => (w.clone(), w),
    };
    let ir = format!("define void @main() \"entry_point\" {}={} {{\n  ret void\n}}\n", quoted(&k), quoted(&v));
    ctx.log(|| ir.clone());
    let (r, out) = run_ir(&ir, None, 1, None);
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&ir));
    r.map_err(|e| format!("refused: {e}"))?;
    let line = if v.is_empty() { format!("METADATA\t{k}\n") } else { format!("METADATA\t{k}\t{v}\n") };
    let e = "METADATA\tentry_point\n";
    if ![format!("START\n{line}{e}END\t0\n"), format!("START\n{e}{line}END\t0\n")].contains(&out) {
        return Err(format!("the attribute {k:?}={v:?} gave {out:?}"));
    }
    Ok(())
}
/// Paths as the command line takes them, from within the directory.
fn path_case(i: u64, ctx: &mut Ctx) -> Res {
    // the file, what names it, whether it runs
    let cases: [(&str, &[&str], bool); 16] = [
        ("p.ll", &["-f", "p.ll"], true),
        ("p.ll", &["-f", "./p.ll"], true),
        ("p.ll", &["-fp.ll"], true),
        ("-p.ll", &["--file=-p.ll"], true),
        ("--p.ll", &["--file=--p.ll"], true),
        ("-f.ll", &["--file=-f.ll"], true),
        ("-.ll", &["--file=./-.ll"], true),
        ("-.ll", &["--file=-.ll"], true),
        ("a b.ll", &["-f", "a b.ll"], true),
        ("\u{e9}.ll", &["--file", "\u{e9}.ll"], true),
        ("p.bc.ll", &["-f", "p.bc.ll"], true),
        ("=.ll", &["-f==.ll"], true),
        ("p.ll", &["-f", "q.ll"], false),
        ("p.ll", &["-f", ""], false),
        ("p.ll", &["-f", "p"], false),
        ("p.txt", &["-f", "p.txt"], false),
    ];
    let (file, args, ok) = cases[i as usize];
    let dir = Scratch::new();
    let path = dir.file(file, TWO.as_bytes());
    let other = dir.file("stdin", format!("{TWO}{OTHER}").as_bytes());
    let f = in_fork(LIMIT, || {
        std::env::set_current_dir(std::path::Path::new(&path).parent().unwrap()).unwrap();
        stdin_from(&other);
        reset_output(true);
        let a: Vec<&str> = ["qir-runner", "-r", "5"].iter().chain(args).copied().collect();
        let r = runner::main(Some(a));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        if r.is_err() {
            unsafe { libc::_exit(3) }
        }
    });
    let out = String::from_utf8_lossy(&f.out).into_owned();
    ctx.log(|| format!("{args:?}"));
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(i);
    let want = if ok { coins(5, 1) } else { vec![] };
    if f.end != End::Exit(if ok { 0 } else { 3 }) || shots(&out)? != want {
        return Err(format!("{args:?} with a file {file:?}: ended with {:?}, printed {out:?}", f.end));
    }
    Ok(())
}

/// Runs the command line in a child; its exit code is 0 or, for an error, 3.
fn cli(args: &[&str], stdin: Option<&str>) -> Forked {
    in_fork(LIMIT, || {
        stdin_from(stdin.unwrap_or("/dev/null"));
        reset_output(true);
        let r = runner::main(Some(args.to_vec()));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        if let Err(e) = r {
            unsafe { libc::_exit(if e.is_empty() { 4 } else { 3 }) }
        }
    })
}

// ---------------------------------------------------------------- refused inputs

fn refused(bytes: &[u8], ctx: &mut Ctx) -> Res {
    let mut out = vec![];
    reset_output(false);
    let r = guarded(|| runner::run_bytes(bytes, None, 2, Some(1), &mut out)).map_err(|e| format!("panicked: {e}"))?;
    let rec = drain();
    ctx.transitions += 1;
    ctx.traces += 1;
    match r {
        Ok(()) => Err(format!("{} bytes were run: {:?}", bytes.len(), String::from_utf8_lossy(&out))),
        Err(e) if e.trim().is_empty() => Err("the error says nothing".into()),
        Err(_) if !out.is_empty() || !rec.is_empty() => Err(format!("output {:?} from a refused input", String::from_utf8_lossy(&out))),
        Err(_) => Ok(()),
    }
}
const BROKEN: [&str; 10] = [
    // parses, but does not verify
    "define void @main() \"entry_point\" {\na:\n  br label %b\nb:\n  %x = add i64 %y, 1\n  %y = add i64 1, 1\n  ret void\n}\n",
    "define void @main() \"entry_point\" {\na:\n  br i1 true, label %b, label %c\nb:\n  %y = add i64 1, 1\n  br label %c\nc:\n  %x = add i64 %y, 1\n  ret void\n}\n",
    "define void @main() \"entry_point\" {\na:\n  br label %b\nb:\n  %x = phi i64 [ 1, %a ], [ 2, %b ]\n  ret void\nc:\n  br label %b\n}\n",
    "define void @main() \"entry_point\" {\n  ret void\n}\ndefine void @f() {\na:\n  br label %a\n}\n",
    "define void @main() \"entry_point\" {\n  ret void\n}\ndeclare internal void @g()\n",
    // does not parse
    "define void @main() \"entry_point\" {\n  ret i64\n}\n",
    "define void @main() \"entry_point\" {\n  call void @undeclared()\n  ret void\n}\n",
    "not a program at all",
    "{\"json\": true}",
    "define void @main() \"entry_point\" {\n  ret void\n}\ndefine void @main() \"entry_point\" {\n  ret void\n}\n",
];

// ---------------------------------------------------------------- the failing shot

fn fail_ir(at: u64, form: u64) -> String {
    let stop = if form == 0 {
        "  call void @__quantum__rt__fail(ptr %s)\n"
    } else {
        // a qubit twice in one gate
        "  call void @__quantum__qis__cx__body(ptr null, ptr null)\n"
    };
    format!(
        "@n = internal global i64 0\n@m = internal constant [2 x i8] c\"f\\00\"\n\
declare void @__quantum__rt__fail(ptr)\ndeclare void @__quantum__qis__cx__body(ptr, ptr)\ndeclare ptr @__quantum__rt__string_create(ptr)\ndeclare void @__quantum__rt__int_record_output(i64, ptr)\n\
define void @main() \"entry_point\" {{\n  %n = load i64, ptr @n\n  %k = add i64 %n, 1\n  store i64 %k, ptr @n\n\
  call void @__quantum__rt__int_record_output(i64 %k, ptr null)\n  %c = icmp eq i64 %k, {at}\n  br i1 %c, label %stop, label %go\n\
stop:\n  %s = call ptr @__quantum__rt__string_create(ptr @m)\n{stop}  call void @__quantum__rt__int_record_output(i64 99, ptr null)\n  br label %go\n\
go:\n  call void @__quantum__rt__int_record_output(i64 7, ptr null)\n  ret void\n}}\n"
    )
}
fn fail_case(at: u64, n: u64, form: u64, ctx: &mut Ctx) -> Res {
    let ir = fail_ir(at, form);
    let dir = Scratch::new();
    let path = dir.file("f.ll", ir.as_bytes());
    let k = n.to_string();
    let f = cli(&["qir-runner", "-f", &path, "-s", &k], None);
    ctx.log(|| ir.clone());
    ctx.transitions += n;
    ctx.traces += 1;
    ctx.state(at * 1000 + n * 10 + form);
    let out = String::from_utf8_lossy(&f.out);
    let mut want = String::new();
    for s in 1..=n {
        let _ = write!(want, "START\nMETADATA\tentry_point\nOUTPUT\tINT\t{s}\n");
        if s == at {
            if form == 0 {
                want += "INFO\tf\n";
            }
            break;
        }
        want += "OUTPUT\tINT\t7\nEND\t0\n";
    }
    let fails = at <= n;
    if fails == (f.end == End::Exit(0)) || f.end == End::Timeout {
        return Err(format!("{n} shots, the one numbered {at} fails: the runner ended with {:?} after {out:?}", f.end));
    }
    if out != want {
        return Err(format!("{n} shots, the one numbered {at} fails: printed {out:?} instead of {want:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- the command line

pub const TWO: &str = "declare void @__quantum__rt__int_record_output(i64, ptr)\ndeclare void @__quantum__qis__h__body(ptr)\ndeclare void @__quantum__qis__mz__body(ptr, ptr)\ndeclare i1 @__quantum__qis__read_result__body(ptr)\n\
define void @a() \"entry_point\" {\n  br label %l\nl:\n  %i = phi i64 [ 0, %0 ], [ %j, %l ]\n  %v = phi i64 [ 0, %0 ], [ %w, %l ]\n  call void @__quantum__qis__h__body(ptr null)\n  call void @__quantum__qis__mz__body(ptr null, ptr null)\n\
  %b = call i1 @__quantum__qis__read_result__body(ptr null)\n  %x = zext i1 %b to i64\n  %s = shl i64 %v, 1\n  %w = or i64 %s, %x\n  %j = add i64 %i, 1\n  %c = icmp eq i64 %j, 40\n  br i1 %c, label %e, label %l\n\
e:\n  call void @__quantum__rt__int_record_output(i64 %w, ptr null)\n  ret void\n}\n";
pub const OTHER: &str = "define void @b() \"entry_point\" {\n  call void @__quantum__rt__int_record_output(i64 5, ptr null)\n  ret void\n}\n";

fn cli_case(mut i: u64, ctx: &mut Ctx) -> Res {
    let mut digit = |n: u64| {
        let d = i % n;
        i /= n;
        d as usize
    };
    let (file, entry, shot, seed, order, both) = (digit(6), digit(4), digit(7), digit(4), digit(2), digit(2) == 1);
    let ir = if both { format!("{TWO}{OTHER}") } else { TWO.to_string() };
    let dir = Scratch::new();
    let path = dir.file("p.ll", ir.as_bytes());
    let missing = dir.0.join("missing.ll").to_str().unwrap().to_string();
    let file_eq = format!("--file={path}");
    let files: Vec<&str> = match file {
        0 => vec!["-f", &path],
        1 => vec!["--file", &path],
        2 => vec![&file_eq],
        3 => vec![],
        4 => vec!["-f", "-"],
        _ => vec!["-f", &missing],
    };
    let (entries, chosen): (Vec<&str>, Option<&str>) = match entry {
        0 => (vec![], None),
        1 => (vec!["-e", "a"], Some("a")),
        2 => (vec!["--entrypoint", "b"], Some("b")),
        _ => (vec!["--entrypoint=none"], Some("none")),
    };
    let (shot_args, n): (Vec<&str>, Option<u32>) = match shot {
        0 => (vec![], Some(1)),
        1 => (vec!["-s", "0"], Some(0)),
        2 => (vec!["--shots", "3"], Some(3)),
        3 => (vec!["-s2"], Some(2)),
        4 => (vec!["-s", "x"], None),
        5 => (vec!["--shots=4294967296"], None),
        _ => (vec!["-s", "-1"], None),
    };
    let (seed_args, seed): (Vec<&str>, Option<Option<u64>>) = match seed {
        0 => (vec![], Some(None)),
        1 => (vec!["-r", "9"], Some(Some(9))),
        2 => (vec!["--rngseed", "18446744073709551615"], Some(Some(u64::MAX))),
        _ => (vec!["-r", "1.5"], None),
    };
    let mut parts = vec![files, entries, shot_args, seed_args];
    if order == 1 {
        parts.reverse();
    }
    let mut args = vec!["qir-runner"];
    parts.iter().for_each(|p| args.extend_from_slice(p));
    ctx.log(|| format!("{args:?}\n{ir}"));
    let stdin = (file == 3 || file == 4).then_some(path.as_str());
    let f = cli(&args, stdin);
    let out = String::from_utf8_lossy(&f.out).into_owned();
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&format!("{args:?}")));
    let bad = |m: &str| Err(format!("{args:?}: {m}: ended with {:?}, printed {out:?}", f.end));
    let which = match (chosen, both) {
        (None, false) | (Some("a"), _) => Some("a"),
        (Some("b"), true) => Some("b"),
        _ => None,
    };
    let (Some(n), Some(seed), Some(which), true) = (n, seed, which, file != 5) else {
        return if f.end == End::Exit(3) && out.is_empty() { Ok(()) } else { bad("expected an error") };
    };
    if f.end != End::Exit(0) {
        return bad("refused");
    }
    let got = match shots(&out) {
        Ok(g) => g,
        Err(e) => return bad(&e),
    };
    if got.len() != n as usize || got.iter().any(|s| !s.ended || s.records.len() != 1 || s.meta != ["entry_point"]) {
        return bad("not the requested shots");
    }
    if which == "b" && got.iter().any(|s| s.records[0] != "OUTPUT\tINT\t5") {
        return bad("not the selected function");
    }
    if let (Some(seed), "a") = (seed, which) {
        qir_backend::set_rng_seed(seed);
        for s in &got {
            qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
            let mut v = 0i64;
            for _ in 0..40 {
                let q = std::ptr::null_mut();
                qir_backend::__quantum__qis__h__body(q);
                qir_backend::__quantum__qis__mz__body(q, q);
                v = v << 1 | i64::from(qir_backend::__quantum__qis__read_result__body(q));
            }
            if s.records[0] != format!("OUTPUT\tINT\t{v}") {
                return bad(&format!("not the value {v} that the seed gives"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- histories of runs

/// Runs that follow each other in one process are independent.
fn histories(e: &Rc<Env>, depth: u32) -> Job {
    let progs: Rc<Vec<(&'static str, String, Option<&'static str>, u32, u64)>> = Rc::new(vec![
        ("clean", word_ir(e, &["m0", "m1", "rec0"]), None, 1, 3),
        ("dirty", word_ir(e, &["x0", "cx01", "alloc", "array", "m0", "write0"]), None, 2, 4),
        ("random", word_ir(e, &["h0", "h1", "m0", "m1", "h0", "m0"]), None, 3, 5),
        ("qubits", word_ir(e, &["alloc", "array", "alloc"]), None, 2, 6),
        ("no parse", "nonsense".into(), None, 1, 7),
        ("no link", "declare void @f()\ndefine void @main() \"entry_point\" {\n  call void @f()\n  ret void\n}\n".into(), None, 1, 8),
        ("parameter", "define void @main(i64 %x) \"entry_point\" {\n  ret void\n}\n".into(), None, 1, 9),
        ("no shots", word_ir(e, &["x0", "m0"]), None, 0, 10),
        ("not found", word_ir(e, &["x0", "m0"]), Some("nope"), 1, 11),
    ]);
    let k = progs.len() as u64;
    job("history", k.pow(depth), move |i, ctx| {
        let one = |p: usize| -> (bool, String) {
            let (_, ir, entry, n, seed) = &progs[p];
            let (r, out) = run_ir(ir, *entry, *n, Some(*seed));
            (r.is_ok(), out)
        };
        let seq: Vec<usize> = (0..depth).map(|d| (i / k.pow(d) % k) as usize).collect();
        ctx.log(|| format!("{:?}", seq.iter().map(|p| progs[*p].0).collect::<Vec<_>>()));
        let alone = |p: usize| -> (bool, String) {
            let f = in_fork(LIMIT, || {
                let (ok, out) = one(p);
                print!("{}{out}", u8::from(ok));
            });
            let s = String::from_utf8_lossy(&f.out).into_owned();
            (s.starts_with('1'), s[1.min(s.len())..].to_string())
        };
        let f = in_fork(LIMIT, || {
            for p in &seq {
                let (ok, out) = one(*p);
                print!("{}{out}\u{0}", u8::from(ok));
            }
        });
        let got = String::from_utf8_lossy(&f.out).into_owned();
        let mut want = String::new();
        for p in &seq {
            let (ok, out) = alone(*p);
            let _ = write!(want, "{}{out}\u{0}", u8::from(ok));
            let expect_ok = *p < 4 || *p == 7;
            if ok != expect_ok {
                return Err(format!("program {:?} alone: accepted {ok}", progs[*p].0));
            }
        }
        ctx.transitions += u64::from(depth);
        ctx.traces += 1;
        ctx.state(hash_str(&got));
        if got != want || f.end != End::Exit(0) {
            return Err(format!("runs that follow each other print {got:?} ({:?}), alone they print {want:?}", f.end));
        }
        Ok(())
    })
}

/// One path whose contents change between runs: every run is of what the file holds then.
fn rewritten(e: &Rc<Env>, depth: u32) -> Job {
    let words: [&[&str]; 4] = [&["x0", "m0", "rec0"], &["h0", "m0", "rec0"], &["x0", "alloc", "array", "m0", "rec0"], &["h0", "h1", "m0", "m1", "rec0"]];
    let irs: Vec<String> = words.iter().map(|w| word_ir(e, w)).collect();
    let mut texts: Vec<Option<(Vec<u8>, Option<String>)>> = irs.iter().map(|t| Some((t.as_bytes().to_vec(), Some(t.clone())))).collect();
    let mut codes: Vec<Option<(Vec<u8>, Option<String>)>> = irs.iter().map(|t| Some((bitcode(t), Some(t.clone())))).collect();
    for v in [&mut texts, &mut codes] {
        v.push(Some((b"nonsense".to_vec(), None)));
        v.push(Some((vec![], None)));
        v.push(None);
    }
    let k = texts.len() as u64;
    let all = [("p.ll", texts), ("p.bc", codes)];
    job("rewritten file", 2 * k.pow(depth), move |i, ctx| {
        let (name, forms) = &all[(i % 2) as usize];
        let seq: Vec<usize> = (0..depth).map(|d| (i / 2 / k.pow(d) % k) as usize).collect();
        ctx.log(|| format!("{name}: {seq:?}"));
        let dir = Scratch::new();
        let path = dir.0.join(name);
        for (n, c) in seq.iter().enumerate() {
            let want = match &forms[*c] {
                None => {
                    let _ = std::fs::remove_file(&path);
                    None
                }
                Some((bytes, ir)) => {
                    std::fs::write(&path, bytes).expect("scratch file");
                    // the time of change says nothing
                    let f = std::fs::File::options().write(true).open(&path).expect("scratch file");
                    f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).expect("file time");
                    ir.as_ref().map(|ir| run_ir(ir, None, 2, Some(3)))
                }
            };
            reset_output(false);
            let mut out = vec![];
            let r = guarded(|| runner::run_file(&path, None, 2, Some(3), &mut out)).map_err(|e| format!("panicked: {e}"))?;
            let records = drain();
            let out = String::from_utf8_lossy(&out).into_owned();
            ctx.transitions += 1;
            ctx.state(hash_str(&format!("{name}{c}{out}")));
            let bad = |m: String| Err(format!("run {n} of {name}, which held {:?} in turn: {m}; {r:?}, output {out:?}", &seq[..=n]));
            match want {
                Some(w) if w.0.is_err() => return bad(format!("the text itself is refused: {w:?}")),
                Some((_, w)) if r.is_err() || out != w => return bad(format!("the contents run alone print {w:?}")),
                None if r.is_ok() || !out.is_empty() || !records.is_empty() => return bad("ran although there is nothing to run".into()),
                _ => {}
            }
        }
        ctx.traces += 1;
        Ok(())
    })
}

// ---------------------------------------------------------------- all

pub fn c29(tier: Tier) -> Vec<Job> {
    let e = env();
    let mut v = vec![];
    for n in 1..=tier.pick(2usize, 3) {
        v.push(job(format!("entry{n}"), 16u64.pow(n as u32), move |i, ctx| entry_case(&defs(i, n), ctx)));
    }
    if tier == Tier::Quick {
        // three functions without parameters or results
        v.push(job("entry3", 64, |i, ctx| {
            let d: Vec<Def> = (0..3).map(|k| Def { attr: i / 4u64.pow(k) % 4, param: false, int: false }).collect();
            entry_case(&d, ctx)
        }));
    }
    v.push(job("metadata", 256 * 2 * 16, meta_case));
    {
        let e = e.clone();
        let n = tier.pick(3, 4);
        v.push(job("shots", count_words(n), move |i, ctx| shots_case(&e, &words_of(i, u64::from(n)), ctx)));
    }
    {
        let s = samples(&e);
        v.push(job("forms", s.len() as u64 * FORMS, move |i, ctx| forms_case(&s[(i / FORMS) as usize], i % FORMS, ctx)));
    }
    {
        let ir = word_ir(&e, &["x0", "m0"]);
        let ir = ir.trim_end().to_string();
        v.push(job("truncated text", ir.len() as u64, move |i, ctx| {
            ctx.state(i);
            refused(&ir.as_bytes()[..i as usize], ctx)
        }));
        let bc = bitcode(&word_ir(&e, &["x0", "m0"]));
        let w = wrapped(&bc);
        let n = bc.len() as u64;
        v.push(job("truncated bitcode", n, move |i, ctx| {
            ctx.state(i);
            let b = bc[..i as usize].to_vec();
            let f = in_fork(LIMIT, || print!("{:?}", refused(&b, &mut Ctx::default())));
            ctx.transitions += 1;
            ctx.traces += 1;
            let s = String::from_utf8_lossy(&f.out).into_owned();
            // LLVM itself stops the program for some of these
            if s == "Ok(())" || s.is_empty() && f.end != End::Exit(0) {
                Ok(())
            } else {
                Err(format!("{s} {:?}", f.end))
            }
        }));
        v.push(job("truncated wrapper", 20, move |i, ctx| {
            ctx.state(i);
            let b = w[..i as usize].to_vec();
            let f = in_fork(LIMIT, || print!("{:?}", refused(&b, &mut Ctx::default())));
            ctx.transitions += 1;
            ctx.traces += 1;
            let s = String::from_utf8_lossy(&f.out).into_owned();
            if s == "Ok(())" || s.is_empty() && f.end != End::Exit(0) {
                Ok(())
            } else {
                Err(format!("{s} {:?}", f.end))
            }
        }));
    }
    v.push(job("broken", BROKEN.len() as u64, |i, ctx| {
        ctx.state(i);
        ctx.log(|| BROKEN[i as usize].to_string());
        refused(BROKEN[i as usize].as_bytes(), ctx)
    }));
    {
        let ir = word_ir(&e, &["x0", "m0"]);
        v.push(job("files", 14, move |i, ctx| {
            let dir = Scratch::new();
            let (t, bc) = (ir.as_bytes(), bitcode(&ir));
            let path = match i {
                0 => dir.file("a", t),
                1 => dir.file("a.txt", t),
                2 => dir.file("ll", t),
                3 => dir.file("a.ll.txt", t),
                4 => dir.file("a.bc", t),
                5 => dir.file("a.bc", b""),
                6 => dir.file("a.ll", b""),
                7 => dir.0.join("missing.bc").to_str().unwrap().into(),
                8 => dir.0.join("missing.ll").to_str().unwrap().into(),
                9 => dir.file("a.bc", &bc[..bc.len() / 2 & !3]),
                10 => dir.file("a.ll", &t[..t.len() / 2]),
                11 => String::new(),
                12 => dir.0.to_str().unwrap().into(),
                _ => dir.file("a.bcc", &bc),
            };
            ctx.state(i);
            ctx.transitions += 1;
            ctx.traces += 1;
            reset_output(false);
            let mut out = vec![];
            let r = guarded(|| runner::run_file(&path, None, 1, Some(1), &mut out)).map_err(|e| format!("panicked: {e}"))?;
            match r {
                Err(e) if !e.trim().is_empty() && out.is_empty() && drain().is_empty() => Ok(()),
                r => Err(format!("file {path:?}: {r:?} with output {:?}", String::from_utf8_lossy(&out))),
            }
        }));
    }
    v.push(job("failing shot", 4 * 4 * 2, |i, ctx| fail_case(i % 4 + 1, i / 4 % 4, i / 16, ctx)));
    v.push(job("command line", 6 * 4 * 7 * 4 * 2 * 2, cli_case));
    v.push(job("arguments", 8, |i, ctx| {
        let dir = Scratch::new();
        let p = dir.file("p.ll", TWO.as_bytes());
        let (args, ok): (Vec<&str>, bool) = match i {
            0 => (vec!["q", "--help"], true),
            1 => (vec!["q", "--version"], true),
            2 => (vec!["q", "-h", "-f", &p], true),
            3 => (vec!["q", "--unknown"], false),
            4 => (vec!["q", "-f", &p, "extra"], false),
            5 => (vec!["q", "-f"], false),
            6 => (vec!["q", "-f", &p, "-s", "1", "-s", "2"], false),
            _ => (vec!["q", "-e", "-f", &p], false),
        };
        let f = cli(&args, None);
        ctx.state(i);
        ctx.transitions += 1;
        ctx.traces += 1;
        if !f.out.is_empty() || (f.end == End::Exit(0)) != ok || !matches!(f.end, End::Exit(0 | 3)) {
            return Err(format!("{args:?} ended with {:?} and printed {:?}", f.end, String::from_utf8_lossy(&f.out)));
        }
        Ok(())
    }));
    v.push(histories(&e, tier.pick(2, 3)));
    v.push(rewritten(&e, tier.pick(2, 4)));
    v.push(job("seeds", FORMS * SEEDS.len() as u64 * 4, seed_case));
    {
        let sizes: Vec<usize> = tier.pick(vec![8191, 8192, 8193, 65535, 65536, 65537, 1 << 17, (1 << 20) + 1], (12..=24).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1]).collect());
        let e = e.clone();
        v.push(job("sizes", sizes.len() as u64 * FORMS, move |i, ctx| size_case(&e, sizes[(i / FORMS) as usize], i % FORMS, ctx)));
    }
    {
        let e = e.clone();
        v.push(job("many shots", 5 * MANY.len() as u64 * 2, move |i, ctx| many_case(&e, i, ctx)));
    }
    {
        let pairs: Vec<(&str, String)> = BASES.iter().flat_map(|b| edits(b).into_iter().map(move |x| (*b, x))).collect();
        v.push(job("near names", pairs.len() as u64, move |i, ctx| name_case(pairs[i as usize].0, &pairs[i as usize].1, ctx)));
        let attrs: Vec<String> = ["entry_point", "EntryPoint"].iter().flat_map(|a| edits(a).into_iter().chain([a.to_string()])).collect();
        v.push(job("near attributes", attrs.len() as u64, move |i, ctx| attribute_case(&attrs[i as usize], ctx)));
    }
    v.push(job("attribute values", 26 * 4 * 3, value_case));
    v.push(job("paths", 16, path_case));
    {
        let words: Vec<String> = [&["x0", "m0", "alloc"] as &[&str], &[], &["h0", "h1", "m0", "m1", "rec0", "array"]].iter().map(|w| word_ir(&e, w)).collect();
        v.push(job("failing writer", 9, move |i, ctx| full_case(&words[(i / 3) as usize], i % 3, ctx)));
    }
    v
}
#[allow(unused)]
fn unused(o: Op) {}
