//! C31: the Python API gives what the runner gives.

use crate::engine::{guarded, hash_str, in_fork, job, Ctx, End, Job, Res, Tier};
use crate::p_bind::{drain, env, run_ir};
use crate::p_run::{bitcode, count_words, reset_output, shots, stdin_from, word_ir, words_of, Scratch, OTHER, TWO};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::Duration;

pub const SCRIPT: &str = "python-script";
const LIMIT: Duration = Duration::from_secs(60);

type Chunks = Rc<RefCell<Vec<String>>>;
/// A callback that collects the outputs it receives, and checks their three forms against each other.
fn collect() -> (Chunks, pyo3::Py<pyo3::PyAny>) {
    let c: Chunks = Rc::default();
    let d = c.clone();
    let f = qirrunner::callback(move |s, r, h| {
        let mut d = d.borrow_mut();
        if r != s || h != format!("<p>{s}</p>") {
            d.push(format!("<forms differ: {s:?} {r:?} {h:?}>"));
        }
        d.push(s.to_string());
        Ok(())
    });
    (c, f)
}

#[derive(Clone, Copy, Debug)]
struct Call {
    /// 0: run on text, 1: run on bitcode, 2: run_bytes on text, 3: run_bytes on bitcode
    form: u64,
    entry: Option<&'static str>,
    shots: Option<u32>,
    seed: Option<u64>,
    callback: bool,
}
fn call(c: &Call, ir: &str, f: Option<pyo3::Py<pyo3::PyAny>>) -> Result<(), (String, String)> {
    let r = match c.form {
        0 | 1 => {
            let dir = Scratch::new();
            let p = if c.form == 0 { dir.file("p.ll", ir.as_bytes()) } else { dir.file("p.bc", &bitcode(ir)) };
            qirrunner::run(&p, c.entry, c.shots, c.seed, f)
        }
        2 => qirrunner::run_bytes(ir.as_bytes(), c.entry, c.shots, c.seed, f),
        _ => qirrunner::run_bytes(&bitcode(ir), c.entry, c.shots, c.seed, f),
    };
    r.map_err(|e| (e.kind.to_string(), e.message))
}
/// Performs the call; what it says and what it prints.
fn observe(c: &Call, ir: &str) -> Result<(Result<(), (String, String)>, String), String> {
    if c.callback {
        let (chunks, f) = collect();
        let f2 = in_fork_out(|| {
            let r = call(c, ir, Some(f.clone()));
            print!("\u{1}{}", chunks.borrow().concat());
            r
        })?;
        let (printed, rest) = f2.1.split_once('\u{1}').ok_or("no end")?;
        if !printed.is_empty() {
            return Err(format!("printed {printed:?} although there is a callback"));
        }
        Ok((f2.0, rest.to_string()))
    } else {
        in_fork_out(|| call(c, ir, None))
    }
}
type Said = Result<(), (String, String)>;
fn in_fork_out(f: impl FnOnce() -> Said) -> Result<(Said, String), String> {
    let f = in_fork(LIMIT, || {
        let r = f();
        let _ = std::io::stdout().flush();
        match r {
            Ok(()) => print!("\u{2}"),
            Err((k, m)) => print!("\u{2}{k}\u{3}{m}"),
        }
    });
    let s = String::from_utf8_lossy(&f.out).into_owned();
    let Some((out, said)) = s.rsplit_once('\u{2}') else { return Err(format!("ended with {:?} after {s:?}", f.end)) };
    if f.end != End::Exit(0) {
        return Err(format!("ended with {:?} after {s:?}", f.end));
    }
    let said = said.split_once('\u{3}').map_or(Ok(()), |(k, m)| Err((k.to_string(), m.to_string())));
    Ok((said, out.to_string()))
}
fn want(c: &Call, ir: &str) -> (Result<(), String>, String) {
    run_ir(ir, c.entry, c.shots.unwrap_or(1), c.seed)
}
fn api_case(c: &Call, ir: &str, ctx: &mut Ctx) -> Res {
    ctx.log(|| format!("{c:?}\n{ir}"));
    let (r, out) = want(c, ir);
    let (said, got) = observe(c, ir)?;
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.state(hash_str(&format!("{c:?}{ir}")));
    match (&r, &said) {
        (Ok(()), Ok(())) => {}
        (Err(e), Err((k, m))) if k == "RuntimeError" && (m == e || c.form < 2 && !m.is_empty()) => {}
        _ => return Err(format!("{c:?}: the runner says {r:?}, the Python API {said:?}")),
    }
    if got != out {
        return Err(format!("{c:?}: the runner prints {out:?}, the Python API gives {got:?}"));
    }
    if r.is_ok() && shots(&got)?.len() != c.shots.unwrap_or(1) as usize {
        return Err(format!("{c:?}: not the requested number of shots: {got:?}"));
    }
    Ok(())
}

fn programs(n: u32) -> Vec<String> {
    let e = env();
    let mut v: Vec<String> = (0..count_words(n)).map(|i| word_ir(&e, &words_of(i, u64::from(n)))).collect();
    v.push(format!("{TWO}{OTHER}"));
    v.push(TWO.into());
    v.push("@t = internal constant [4 x i8] c\"\\C3\\A9x\\00\"\ndeclare void @__quantum__rt__int_record_output(i64, ptr)\ndeclare void @__quantum__rt__array_record_output(i64, ptr)\ndefine void @main() \"entry_point\" \"note\"=\"\\C3\\A9\" {\n  call void @__quantum__rt__array_record_output(i64 1, ptr null)\n  call void @__quantum__rt__int_record_output(i64 -3, ptr @t)\n  ret void\n}\n".into());
    v
}
/// Programs that are refused, at different points.
const REFUSED: [&str; 5] = [
    "declare void @f()\ndefine void @main() \"entry_point\" {\n  call void @f()\n  ret void\n}\n",
    "define void @main(i64 %x) \"entry_point\" {\n  ret void\n}\n",
    "define void @main() {\n  ret void\n}\n",
    "define void @a() \"entry_point\" {\n  ret void\n}\ndefine void @b() \"entry_point\" {\n  ret void\n}\n",
    "declare void @__quantum__rt__int_record_output(i64, ptr, ptr)\ndefine void @main() \"entry_point\" {\n  call void @__quantum__rt__int_record_output(i64 1, ptr null, ptr null)\n  ret void\n}\n",
];

/// Enumerates all sequences of output chunks and all uses of the handler in Python.
const PYTHON: &str = r#"
import sys, types, itertools, importlib.util
sys.dont_write_bytecode = True
native = types.ModuleType("qirrunner._native")
class Output:
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __repr__(self): return self.s
calls = []
def run(*a, **k): calls.append(("run", a, k))
def run_bytes(*a, **k): calls.append(("run_bytes", a, k))
native.Output, native.run, native.run_bytes, native.main = Output, run, run_bytes, lambda *a: None
sys.modules["qirrunner._native"] = native
sys.path.insert(0, sys.argv[1])
import qirrunner
from qirrunner import OutputHandler
assert qirrunner.run is run and qirrunner.run_bytes is run_bytes and qirrunner.Output is Output
n = 0
chunks = ["START\n", "METADATA\tx", "\n", "", "END\t0\n", "\u00e9 \t"]
for k in range(int(sys.argv[2]) + 1):
    for seq in itertools.product(chunks, repeat=k):
        h, other = OutputHandler(), OutputHandler()
        for i, c in enumerate(seq):
            assert h.handle(Output(c)) is None
            # reading in between changes nothing
            assert h.get_output() == "".join(seq[:i + 1]), (seq, i)
        assert h.get_output() == "".join(seq) and other.get_output() == "", seq
        n += 1
print(n)
"#;

pub fn c31(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let progs: Rc<Vec<String>> = Rc::new(programs(tier.pick(1, 2)));
    let calls: Rc<Vec<Call>> = Rc::new({
        let mut c = vec![];
        for form in 0..4 {
            for entry in [None, Some("main"), Some("b"), Some("nope"), Some("")] {
                for shots in [None, Some(0), Some(1), Some(3)] {
                    for seed in [0, 3, u64::MAX] {
                        for callback in [true, false] {
                            c.push(Call { form, entry, shots, seed: Some(seed), callback });
                        }
                    }
                }
            }
        }
        c
    });
    {
        let (progs, calls) = (progs.clone(), calls.clone());
        let k = calls.len() as u64;
        v.push(job("calls", progs.len() as u64 * k, move |i, ctx| api_case(&calls[(i % k) as usize], &progs[(i / k) as usize], ctx)));
    }
    {
        let calls = calls.clone();
        let k = calls.len() as u64;
        v.push(job("refused", REFUSED.len() as u64 * k, move |i, ctx| {
            let (c, ir) = (&calls[(i % k) as usize], REFUSED[(i / k) as usize]);
            if want(c, ir).0.is_ok() && c.shots != Some(0) && !(i / k == 3 && c.entry == Some("b")) {
                return Err(format!("the runner accepted {ir}"));
            }
            api_case(c, ir, ctx)
        }));
    }
    // unseeded calls do not repeat a seeded one's randomness source by accident, and have the same shape
    v.push(job("unseeded", 8, |i, ctx| {
        let c = Call { form: i % 4, entry: None, shots: Some(3), seed: None, callback: i / 4 == 0 };
        let (said, got) = observe(&c, TWO)?;
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.state(i);
        let s = shots(&got)?;
        if said.is_err() || s.len() != 3 || s.iter().any(|s| !s.ended || s.records.len() != 1) {
            return Err(format!("{c:?}: {said:?} {got:?}"));
        }
        Ok(())
    }));
    // bytes that are no program, files that are not there
    v.push(job("invalid", 20, |i, ctx| {
        ctx.state(i);
        ctx.transitions += 1;
        ctx.traces += 1;
        let (chunks, f) = collect();
        let f = (i % 2 == 0).then_some(f);
        let (said, out) = in_fork_out(|| {
            let dir = Scratch::new();
            let r = match i / 2 {
                0 => qirrunner::run_bytes(b"", None, None, None, f),
                1 => qirrunner::run_bytes(b"BC", None, None, None, f),
                2 => qirrunner::run_bytes(b"BC\xC0\xDE", None, None, None, f),
                3 => qirrunner::run_bytes(b"nonsense", None, None, None, f),
                4 => qirrunner::run_bytes(&[0, 0xff, 0xfe, 0x80, 0], None, None, None, f),
                5 => qirrunner::run(dir.0.join("no.ll").to_str().unwrap(), None, None, None, f),
                6 => qirrunner::run(dir.0.join("no.bc").to_str().unwrap(), None, None, None, f),
                7 => qirrunner::run(&dir.file("a.txt", TWO.as_bytes()), None, None, None, f),
                8 => qirrunner::run("", None, None, None, f),
                _ => qirrunner::run(&dir.file("a.bc", TWO.as_bytes()), None, None, None, f),
            };
            print!("{}", chunks.borrow().concat());
            r.map_err(|e| (e.kind.into(), e.message))
        })?;
        match said {
            Err((k, m)) if k == "RuntimeError" && !m.trim().is_empty() && out.is_empty() => Ok(()),
            _ => Err(format!("{said:?}, output {out:?}")),
        }
    }));
    // sequences of calls: every call's output goes where that call says
    {
        let depth = tier.pick(3u32, 4);
        let e = env();
        let progs: Vec<String> = vec![word_ir(&e, &["x0", "m0", "alloc"]), word_ir(&e, &["h0", "m0", "array"])];
        const K: u64 = 7;
        v.push(job("sequence", K.pow(depth), move |i, ctx| {
            let seq: Vec<u64> = (0..depth).map(|d| i / K.pow(d) % K).collect();
            ctx.log(|| format!("{seq:?}"));
            let step = |s: u64| -> (String, bool) {
                // what is printed directly, and what the callback receives
                let (chunks, f) = collect();
                let (ir, seed) = (&progs[(s % 2) as usize], Some(s + 1));
                let r = match s {
                    0 | 1 => qirrunner::run_bytes(ir.as_bytes(), None, Some(2), seed, Some(f)).is_ok(),
                    2 | 3 => qirrunner::run_bytes(ir.as_bytes(), None, Some(2), seed, None).is_ok(),
                    4 => qirrunner::run_bytes(REFUSED[0].as_bytes(), None, Some(2), seed, Some(f)).is_ok(),
                    5 => qirrunner::run_bytes(REFUSED[1].as_bytes(), None, Some(2), seed, None).is_ok(),
                    _ => {
                        let dir = Scratch::new();
                        let p = dir.file("p.ll", ir.as_bytes());
                        qirrunner::main(Some(["qir-runner", "-f", &p, "-r", "7", "-s", "2"].map(String::from).to_vec())).is_ok()
                    }
                };
                let _ = std::io::stdout().flush();
                let c = chunks.borrow().concat();
                (c, r)
            };
            let mut want = String::new();
            for s in &seq {
                let (ir, seed) = (progs[(*s % 2) as usize].as_str(), Some(s + 1));
                let ir = match s {
                    4 => REFUSED[0],
                    5 => REFUSED[1],
                    _ => ir,
                };
                let (r, out) = run_ir(ir, None, 2, seed);
                let _ = if matches!(s, 0 | 1 | 4) { write!(want, "<{out}|{}>", r.is_ok()) } else { write!(want, "{out}<|{}>", r.is_ok()) };
            }
            let f = in_fork(LIMIT, || {
                stdin_from("/dev/null");
                reset_output(true);
                for s in &seq {
                    let (c, ok) = step(*s);
                    print!("<{c}|{ok}>");
                    let _ = std::io::stdout().flush();
                }
            });
            let got = String::from_utf8_lossy(&f.out).into_owned();
            ctx.transitions += seq.len() as u64;
            ctx.traces += 1;
            ctx.state(hash_str(&format!("{seq:?}")));
            if got != want || f.end != End::Exit(0) {
                return Err(format!("calls {seq:?} give {got:?} ({:?}) instead of {want:?}", f.end));
            }
            Ok(())
        }));
    }
    // the callback fails at any of its calls: it has received what came before, the call does not succeed, the next one is whole
    {
        let e = env();
        let progs: Vec<String> = vec![word_ir(&e, &["x0", "m0", "alloc"]), word_ir(&e, &["h0", "m0", "array"]), word_ir(&e, &[])];
        v.push(job("failing callback", 3 * 2 * 2, move |i, ctx| {
            let (ir, bytes, then) = (&progs[(i % 3) as usize], i / 3 % 2 == 0, i / 6 == 0);
            let (r, want) = run_ir(ir, None, 2, Some(3));
            r.map_err(|e| format!("refused: {e}"))?;
            let mut at = 0;
            loop {
                ctx.log(|| format!("the callback fails at call {at}"));
                let chunks: Chunks = Rc::default();
                let c = chunks.clone();
                let f = qirrunner::callback(move |s, _, _| {
                    if c.borrow().len() == at {
                        return Err("no more".into());
                    }
                    c.borrow_mut().push(s.to_string());
                    Ok(())
                });
                let f = in_fork(LIMIT, || {
                    let dir = Scratch::new();
                    let p = dir.file("p.ll", ir.as_bytes());
                    let r = guarded(|| if bytes { qirrunner::run_bytes(ir.as_bytes(), None, Some(2), Some(3), Some(f)) } else { qirrunner::run(&p, None, Some(2), Some(3), Some(f)) }.is_ok());
                    let _ = std::io::stdout().flush();
                    print!("\u{1}{}\u{1}{}\u{1}{}\u{1}", chunks.borrow().len(), chunks.borrow().concat(), r == Ok(true));
                    let (all, g) = collect();
                    let ok = guarded(|| qirrunner::run_bytes(ir.as_bytes(), None, Some(2), Some(3), then.then_some(g)).is_ok());
                    let _ = std::io::stdout().flush();
                    print!("\u{1}{}\u{1}{ok:?}", all.borrow().concat());
                });
                let out = String::from_utf8_lossy(&f.out).into_owned();
                let part: Vec<&str> = out.split('\u{1}').collect();
                ctx.transitions += 2;
                ctx.traces += 1;
                ctx.state(hash_str(&format!("{i} {at}")));
                let [direct, n, got, ok, direct2, got2, ok2] = part[..] else { return Err(format!("callback failing at call {at}: ended with {:?} after {out:?}", f.end)) };
                let whole = n.parse::<usize>().is_ok_and(|n| n < at) || got == want;
                if !direct.is_empty() || !want.starts_with(got) || (ok == "true") != whole {
                    return Err(format!("callback failing at call {at}: succeeded {ok}, received {got:?}, printed {direct:?}; the output is {want:?}"));
                }
                let all = if then { (direct2, got2) == ("", &want) } else { (direct2, got2) == (&want, "") };
                if !all || ok2 != "Ok(true)" {
                    return Err(format!("after a callback that failed at call {at} the next run gives {ok2}, to the callback {got2:?}, to standard output {direct2:?} instead of {want:?}"));
                }
                if whole {
                    return Ok(());
                }
                at += 1;
            }
        }));
    }
    // the module's names
    v.push(job("module", 1, |_, ctx| {
        let mut n = qirrunner::names().map_err(|e| e.to_string())?;
        n.sort();
        ctx.state(0);
        ctx.transitions += 1;
        ctx.traces += 1;
        let missing: Vec<&str> = ["Output", "main", "run", "run_bytes"].into_iter().filter(|w| !n.iter().any(|x| x == w)).collect();
        if !missing.is_empty() {
            return Err(format!("the module lacks {missing:?}: {n:?}"));
        }
        Ok(())
    }));
    // the entry point of the package: arguments given, or taken from the process
    v.push(job("main", 2 * 10, |i, ctx| {
        let dir = Scratch::new();
        let ir = format!("{TWO}{OTHER}");
        let p = dir.file("p.ll", ir.as_bytes());
        let missing = dir.0.join("no.ll").to_str().unwrap().to_string();
        let (args, entry, n, seed): (Vec<&str>, &str, Option<u32>, u64) = match i / 2 {
            0 => (vec!["-f", &p, "-e", "a", "-r", "5"], "a", Some(1), 5),
            1 => (vec!["-s", "3", "-f", &p, "-e", "b", "-r", "5"], "b", Some(3), 5),
            2 => (vec!["-f", &p, "-e", "a", "--rngseed", "6", "--shots", "0"], "a", Some(0), 6),
            3 => (vec!["-f", &p], "", None, 0),
            4 => (vec!["-f", &missing], "", None, 0),
            5 => (vec!["--nonsense"], "", None, 0),
            6 => (vec!["-f", "-", "-e", "a", "-r", "8"], "a", Some(1), 8),
            7 => (vec!["-e", "a", "-r", "8", "-s2"], "a", Some(2), 8),
            8 => (vec!["-f", &p, "-e", "a", "-r", "9", "-s", "2"], "a", Some(2), 9),
            _ => (vec!["-f", &p, "-s", "none"], "", None, 0),
        };
        ctx.log(|| format!("{args:?}"));
        ctx.state(i);
        ctx.transitions += 1;
        ctx.traces += 1;
        let stdin = std::fs::File::open(&p).map_err(|e| e.to_string())?;
        let (ok, out) = if i % 2 == 0 {
            let o = Command::new("/proc/self/exe")
                .arg(SCRIPT)
                .args(&args)
                .stdin(Stdio::from(stdin))
                .stderr(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            if !matches!(o.status.code(), Some(0 | 3)) {
                return Err(format!("{args:?} from the process: ended with {:?}", o.status));
            }
            (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
        } else {
            let (said, out) = in_fork_out(|| {
                stdin_from(&p);
                reset_output(true);
                let a: Vec<String> = ["qir-runner"].iter().chain(&args).map(|s| s.to_string()).collect();
                qirrunner::main(Some(a)).map_err(|e| (e.kind.into(), e.message))
            })?;
            if let Err((k, _)) = &said {
                if k != "RuntimeError" {
                    return Err(format!("{args:?}: raised {k}"));
                }
            }
            (said.is_ok(), out)
        };
        let want = n.map(|n| guarded(|| run_ir(&ir, Some(entry), n, Some(seed)).1));
        match want {
            Some(w) if ok && Ok(&out) == w.as_ref() => Ok(()),
            None if !ok && out.is_empty() => Ok(()),
            w => Err(format!("{args:?}: accepted {ok}, printed {out:?} instead of {w:?}")),
        }
    }));
    // the handler of the Python package, on every sequence of chunks
    {
        let depth = tier.pick(5, 7);
        v.push(job("handler", 1, move |_, ctx| {
            let o = Command::new("python3")
                .args(["-c", PYTHON, "/repo/pip", &depth.to_string()])
                .env("PYTHONDONTWRITEBYTECODE", "1")
                .stdin(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let n: u64 = String::from_utf8_lossy(&o.stdout).trim().parse().unwrap_or(0);
            if !o.status.success() || n == 0 {
                return Err(format!("the output handler: {}", String::from_utf8_lossy(&o.stderr)));
            }
            ctx.transitions += n;
            ctx.traces += n;
            ctx.state(0);
            Ok(())
        }));
    }
    drain();
    v
}
