//! Exhaustive case engine.
//!
//! A property is a list of *jobs*; a job is a finite, indexed space of cases `0..n` and a function that
//! executes case `i` against the real code (and the reference model) and says whether the property held.
//! The engine executes every index of every job, spread over forked worker processes. A worker that
//! aborts, crashes or hangs is attributed to the case it was executing (shared memory), and that case is
//! confirmed in a fresh process before it is reported.

use std::collections::HashSet;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Job {
    pub name: String,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res>,
}

pub fn job(name: impl Into<String>, n: u64, run: impl Fn(u64, &mut Ctx) -> Res + 'static) -> Job {
    Job { name: name.into(), n, run: Box::new(run) }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: Vec<String>,
    pub jobs: fn(Tier) -> Vec<Job>,
}

const STATE_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Ctx {
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub states_capped: bool,
    pub tracing: bool,
    pub steps: Vec<String>,
}

impl Ctx {
    #[inline]
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            // written at once: the case may abort the process
            println!("STEP {s}");
            let _ = std::io::stdout().flush();
            self.steps.push(s);
        }
    }
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::new();
    h.bytes(s.as_bytes());
    h.0
}
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    #[inline]
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        if std::env::var_os("MC_PANIC_STDERR").is_some() {
            eprintln!("panic: {msg}{loc}");
        }
    }));
}

/// Runs `f`; a Rust panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- running a closure in a forked child

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}

pub struct Forked {
    pub end: End,
    pub out: Vec<u8>,
}

impl Forked {
    pub fn aborted(&self) -> bool {
        self.end == End::Signal(libc::SIGABRT)
    }
}

/// Forks; the child runs `f` with its standard output (and error) connected to a pipe, then exits 0.
/// Must be called from a process whose other threads are idle.
pub fn in_fork(timeout: Duration, f: impl FnOnce()) -> Forked {
    let (fd, pid) = fork_off(f);
    collect(fd, pid, timeout)
}
/// Several such processes at once.
pub fn in_forks(timeout: Duration, fs: Vec<Box<dyn FnOnce() + '_>>) -> Vec<Forked> {
    let l: Vec<_> = fs.into_iter().map(fork_off).collect();
    l.into_iter().map(|(fd, pid)| collect(fd, pid, timeout)).collect()
}
fn fork_off(f: impl FnOnce()) -> (i32, i32) {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::dup2(fds[1], 1);
            let devnull = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(devnull, 2);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let r = guarded(f);
            let _ = std::io::stdout().flush();
            libc::_exit(if r.is_ok() { 0 } else { 99 });
        }
        libc::close(fds[1]);
        (fds[0], pid)
    }
}
fn collect(fd: i32, pid: i32, timeout: Duration) -> Forked {
    unsafe {
        let mut out = Vec::new();
        let start = Instant::now();
        let mut buf = [0u8; 4096];
        let mut timed_out = false;
        loop {
            let left = timeout.saturating_sub(start.elapsed());
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left.as_millis().min(60_000) as i32);
            if n == 0 && start.elapsed() >= timeout {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if n > 0 {
                let k = libc::read(fd, buf.as_mut_ptr().cast(), buf.len());
                if k <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..k as usize]);
            }
        }
        libc::close(fd);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let end = if timed_out {
            End::Timeout
        } else if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else {
            End::Exit(libc::WEXITSTATUS(st))
        };
        Forked { end, out }
    }
}

// ---------------------------------------------------------------- the supervisor

const MAXW: usize = 64;

#[repr(C)]
struct Slot {
    cur: AtomicU64,   // global index + 1 of the case being executed (0: none)
    start: AtomicU64, // first index of the chunk
    ticks: AtomicU64,
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    done: AtomicU64,
    slots: [Slot; MAXW],
}

struct Space {
    jobs: Vec<Job>,
    offs: Vec<u64>,
    total: u64,
}
impl Space {
    fn new(jobs: Vec<Job>) -> Self {
        let mut offs = vec![];
        let mut t = 0;
        for j in &jobs {
            offs.push(t);
            t += j.n;
        }
        Space { jobs, offs, total: t }
    }
    fn locate(&self, g: u64) -> (usize, u64) {
        let j = match self.offs.binary_search(&g) {
            Ok(mut i) => {
                while self.jobs[i].n == 0 {
                    i += 1;
                }
                i
            }
            Err(i) => i - 1,
        };
        (j, g - self.offs[j])
    }
    fn run(&self, g: u64, ctx: &mut Ctx) -> Res {
        let (j, i) = self.locate(g);
        match guarded(|| (self.jobs[j].run)(i, ctx)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {p}")),
        }
    }
}

struct Outcome {
    transitions: u64,
    traces: u64,
    cases: u64,
    states: HashSet<u64>,
    capped: bool,
    fails: Vec<(u64, u64, String)>, // global index, chunk start, message
}

fn tmpdir() -> PathBuf {
    let p = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("tmp dir");
    p
}

fn worker(space: &Space, sh: &Shared, w: usize, file: &PathBuf, known: &[String]) -> ! {
    let mut ctx = Ctx::default();
    let mut cases = 0u64;
    let mut fails: Vec<(u64, u64, String)> = vec![];
    let slot = &sh.slots[w];
    'outer: while sh.stop.load(SeqCst) == 0 {
        // chunk size by the job the next index falls in
        let peek = sh.next.load(SeqCst);
        if peek >= space.total {
            break;
        }
        let (j, _) = space.locate(peek);
        let chunk = (space.jobs[j].n / 512).clamp(1, 512);
        let g0 = sh.next.fetch_add(chunk, SeqCst);
        if g0 >= space.total {
            break;
        }
        slot.start.store(g0, SeqCst);
        for g in g0..(g0 + chunk).min(space.total) {
            slot.cur.store(g + 1, SeqCst);
            slot.ticks.fetch_add(1, SeqCst);
            let r = space.run(g, &mut ctx);
            cases += 1;
            if let Err(m) = r {
                let (j, i) = space.locate(g);
                let key = format!("{}#{}", space.jobs[j].name, i);
                fails.push((g, g0, m));
                if !known.contains(&key) {
                    sh.stop.store(1, SeqCst);
                    break 'outer;
                }
            }
            if sh.stop.load(SeqCst) != 0 {
                break 'outer;
            }
        }
        slot.cur.store(0, SeqCst);
    }
    slot.cur.store(0, SeqCst);
    let mut o: Vec<u8> = vec![];
    let st: Vec<u64> = ctx.states.iter().copied().collect();
    for v in [ctx.transitions, ctx.traces, cases, u64::from(ctx.states_capped), st.len() as u64] {
        o.extend_from_slice(&v.to_le_bytes());
    }
    for v in st {
        o.extend_from_slice(&v.to_le_bytes());
    }
    for (g, s, m) in fails {
        o.extend_from_slice(&g.to_le_bytes());
        o.extend_from_slice(&s.to_le_bytes());
        o.extend_from_slice(&(m.len() as u64).to_le_bytes());
        o.extend_from_slice(m.as_bytes());
    }
    std::fs::write(file, o).expect("worker result");
    unsafe { libc::_exit(0) }
}

fn read_outcome(file: &PathBuf) -> Option<Outcome> {
    let b = std::fs::read(file).ok()?;
    let mut p = 0usize;
    let mut u = || {
        let v = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
        p += 8;
        v
    };
    let (transitions, traces, cases, capped, n) = (u(), u(), u(), u(), u());
    let mut states = HashSet::new();
    for _ in 0..n {
        states.insert(u());
    }
    let mut fails = vec![];
    let mut p = 40 + 8 * n as usize;
    while p < b.len() {
        let g = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
        let s = u64::from_le_bytes(b[p + 8..p + 16].try_into().unwrap());
        let l = u64::from_le_bytes(b[p + 16..p + 24].try_into().unwrap()) as usize;
        fails.push((g, s, String::from_utf8_lossy(&b[p + 24..p + 24 + l]).into_owned()));
        p += 24 + l;
    }
    Some(Outcome { transitions, traces, cases, states, capped: capped != 0, fails })
}

/// Re-executes `from..=g` in a fresh process; Some(message) if the last case fails there.
fn confirm(space: &Space, from: u64, g: u64) -> Option<String> {
    let f = in_fork(Duration::from_secs(120), || {
        let mut ctx = Ctx::default();
        for k in from..g {
            let _ = space.run(k, &mut ctx);
        }
        println!("REACHED");
        let _ = std::io::stdout().flush();
        if let Err(m) = space.run(g, &mut ctx) {
            println!("FAIL {m}");
        } else {
            println!("PASS");
        }
    });
    let out = String::from_utf8_lossy(&f.out).into_owned();
    if let Some(i) = out.find("\nFAIL ").or(if out.starts_with("FAIL ") { Some(0) } else { None }) {
        return Some(out[i..].trim().trim_start_matches("FAIL ").to_string());
    }
    if f.end == End::Exit(0) && out.contains("PASS") {
        return None;
    }
    Some(match f.end {
        End::Signal(s) => format!("process killed by signal {s} (crash or abort in the code under test)"),
        End::Timeout => "hang: case did not finish within 120 s".to_string(),
        End::Exit(c) => format!("process exited with code {c} inside the case"),
    })
}

/// Executes cases one per fresh process, starting at `from` and wrapping around, until one fails, all pass or time is up.
/// Used when a failure did not reproduce: the code under test then keeps state across cases, and only isolated cases are meaningful.
fn isolated_sweep(space: &Space, sh: &Shared, from: u64, nw: usize, dir: &PathBuf, cap: Duration) -> Option<(u64, String)> {
    let _ = std::fs::create_dir_all(dir);
    sh.next.store(0, SeqCst);
    sh.stop.store(0, SeqCst);
    let t0 = Instant::now();
    let mut pids = vec![];
    for w in 0..nw {
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let devnull = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(devnull, 2);
                libc::dup2(devnull, 1);
            }
            while sh.stop.load(SeqCst) == 0 && t0.elapsed() < cap {
                let k = sh.next.fetch_add(1, SeqCst);
                if k >= space.total {
                    break;
                }
                let g = (from + k) % space.total;
                if let Some(m) = confirm(space, g, g) {
                    sh.stop.store(1, SeqCst);
                    let _ = std::fs::write(dir.join(format!("i{w}")), format!("{g} {m}"));
                }
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(p, &mut st, 0) } < 0 {}
    }
    let mut found: Vec<(u64, String)> = (0..nw)
        .filter_map(|w| std::fs::read_to_string(dir.join(format!("i{w}"))).ok())
        .filter_map(|s| s.split_once(' ').map(|(g, m)| (g.parse().unwrap(), m.to_string())))
        .collect();
    found.sort();
    let _ = std::fs::remove_dir_all(dir);
    found.into_iter().next()
}

fn trace_of(space: &Space, g: u64) -> Vec<String> {
    let f = in_fork(Duration::from_secs(60), || {
        let mut ctx = Ctx { tracing: true, ..Ctx::default() };
        let r = space.run(g, &mut ctx);
        println!("STEP => {}", match r { Ok(()) => "holds".to_string(), Err(m) => format!("FAILS: {m}") });
    });
    String::from_utf8_lossy(&f.out).lines().filter_map(|l| l.strip_prefix("STEP ").map(str::to_string)).collect()
}

pub fn replay(prop: &Property, jobname: &str, idx: u64, from: u64, tier: Tier) -> i32 {
    let space = Space::new((prop.jobs)(tier));
    let Some(j) = space.jobs.iter().position(|j| j.name == jobname) else {
        eprintln!("no such job {jobname}");
        return 2;
    };
    let g = space.offs[j] + idx;
    for s in trace_of(&space, g) {
        println!("{s}");
    }
    match confirm(&space, space.offs[j] + from, g) {
        Some(m) => {
            println!("VIOLATED: {m}");
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

pub fn run_property(prop: &Property, tier: Tier, verif: &PathBuf) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap = Duration::from_secs(
        std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(400, 3600)),
    );
    let space = Space::new((prop.jobs)(tier));
    // known findings
    let kf = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut known: Vec<(String, String)> = vec![];
    for l in kf.lines() {
        // known: property=<id> case=<job>#<idx> <text>
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let (p, c, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", prop.id) {
                known.push((c.trim_start_matches("case=").to_string(), t.to_string()));
            }
        }
    }
    let known_keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(MAXW - 8).max(2);
    let dir = tmpdir();
    let sh: &Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*p.cast::<Shared>()
    };
    let spawn = |w: usize, gen: usize| -> i32 {
        let _ = std::io::stdout().flush();
        let file = dir.join(format!("w{w}.{gen}"));
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let devnull = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(devnull, 2);
                libc::dup2(devnull, 1);
            }
            worker(&space, sh, w, &file, &known_keys);
        }
        pid
    };
    let mut files = vec![];
    let mut pids = vec![];
    for w in 0..nw {
        files.push(dir.join(format!("w{w}.0")));
        pids.push((spawn(w, 0), 0usize, true));
    }
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
    let mut crashes: Vec<(u64, u64, String)> = vec![];
    let mut capped = false;
    let mut flaky = 0;
    let mut lost_cases = 0u64;
    while pids.iter().any(|p| p.2) {
        std::thread::sleep(Duration::from_millis(5));
        if t0.elapsed() > cap && sh.stop.load(SeqCst) == 0 {
            capped = true;
            sh.stop.store(2, SeqCst);
        }
        for w in 0..nw {
            if !pids[w].2 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w].0, &mut st, libc::WNOHANG) };
            let mut died: Option<String> = None;
            if r == pids[w].0 {
                pids[w].2 = false;
                if libc::WIFSIGNALED(st) {
                    died = Some(format!("signal {}", libc::WTERMSIG(st)));
                } else if libc::WEXITSTATUS(st) != 0 || sh.slots[w].cur.load(SeqCst) != 0 {
                    died = Some(format!("exit code {}", libc::WEXITSTATUS(st)));
                }
            } else {
                let t = sh.slots[w].ticks.load(SeqCst);
                if t != last[w].0 {
                    last[w] = (t, Instant::now());
                } else if last[w].1.elapsed() > Duration::from_secs(90) {
                    unsafe {
                        libc::kill(pids[w].0, libc::SIGKILL);
                        libc::waitpid(pids[w].0, &mut st, 0);
                    }
                    pids[w].2 = false;
                    died = Some("hang".to_string());
                }
            }
            if let Some(how) = died {
                let cur = sh.slots[w].cur.load(SeqCst);
                if cur == 0 {
                    eprintln!("worker {w} died outside a case ({how})");
                    flaky += 10;
                    continue;
                }
                let (g, s) = (cur - 1, sh.slots[w].start.load(SeqCst));
                let how = confirm(&space, g, g).map(|m| (g, m)).or_else(|| confirm(&space, s, g).map(|m| (s, m)));
                match how {
                    Some((from, m)) => {
                        crashes.push((g, from, m));
                        sh.stop.store(1, SeqCst);
                    }
                    None => {
                        flaky += 1;
                        lost_cases += 1;
                        eprintln!("worker {w} died in case {g} but the case passes in a fresh process");
                        if flaky < 5 && sh.stop.load(SeqCst) == 0 {
                            let gen = pids[w].1 + 1;
                            sh.slots[w].cur.store(0, SeqCst);
                            files.push(dir.join(format!("w{w}.{gen}")));
                            last[w] = (0, Instant::now());
                            pids[w] = (spawn(w, gen), gen, true);
                        }
                    }
                }
            }
        }
    }
    let (mut transitions, mut traces, mut cases) = (0u64, 0u64, 0u64);
    let mut states: HashSet<u64> = HashSet::new();
    let mut states_capped = false;
    let mut fails: Vec<(u64, u64, String)> = vec![];
    for f in &files {
        if let Some(o) = read_outcome(f) {
            transitions += o.transitions;
            traces += o.traces;
            cases += o.cases;
            states_capped |= o.capped;
            states.extend(o.states);
            fails.extend(o.fails);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut violations: Vec<(u64, u64, String)> = crashes;
    let mut known_hit: Vec<String> = vec![];
    let mut unconfirmed: Option<u64> = None;
    fails.sort();
    for (g, s, m) in fails {
        let (j, i) = space.locate(g);
        let key = format!("{}#{}", space.jobs[j].name, i);
        if let Some(k) = known.iter().find(|k| k.0 == key) {
            known_hit.push(format!("{} ({m})", k.1));
            continue;
        }
        if confirm(&space, g, g).is_some() {
            violations.push((g, g, m));
        } else if confirm(&space, s, g).is_some() {
            violations.push((g, s, m));
        } else if confirm(&space, g, g).is_some() {
            violations.push((g, g, m));
        } else {
            eprintln!("case {key} failed once ({m}) but not on re-execution");
            unconfirmed = Some(g);
        }
    }
    if let (Some(g), true) = (unconfirmed, violations.is_empty()) {
        let from = space.offs[space.locate(g).0];
        if let Some((g, m)) = isolated_sweep(&space, sh, from, nw, &dir, Duration::from_secs(tier.pick(300, 1800))) {
            violations.push((g, g, m));
        }
    }
    violations.sort();
    // samples
    let mut samples = vec![];
    let nj = space.jobs.len();
    for k in 0..8usize.min(nj) {
        let j = if nj <= 8 { k } else { k * (nj - 1) / 7 };
        let n = space.jobs[j].n;
        if n == 0 {
            continue;
        }
        let i = (n - 1) * 5 / 7;
        let t = trace_of(&space, space.offs[j] + i);
        samples.push(serde_json::json!({"job": space.jobs[j].name, "case": i, "steps": t}));
    }
    let per_job: Vec<_> =
        space.jobs.iter().filter(|j| j.n > 0).map(|j| serde_json::json!({"job": j.name, "cases": j.n})).collect();
    let exhaustive = !capped && flaky == 0 && violations.is_empty() && cases == space.total;
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states.len(),
            "states_note": if states_capped { "distinct reference-model states, counting stopped at a memory cap" } else { "distinct reference-model states reached" },
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "executions": cases,
            "space": space.total,
            "exhaustive": exhaustive,
            "jobs": per_job,
            "known_findings_seen": known_hit.len(),
            "cases_repeated_after_worker_loss": lost_cases,
            "samples": samples,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap())
        .expect("evidence");
    known_hit.sort();
    known_hit.dedup();
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {k}", prop.id);
    }
    println!(
        "{} {}: {} of {} cases in {} jobs, {} model states, {} transitions, {} traces compared, {:.1} s{}",
        prop.id,
        tier.name(),
        cases,
        space.total,
        nj,
        states.len(),
        transitions,
        traces,
        t0.elapsed().as_secs_f64(),
        if capped { " (time cap reached)" } else { "" }
    );
    if !violations.is_empty() {
        let rdir = evdir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let (g, from, m) = &violations[0];
        let (j, i) = space.locate(*g);
        let steps = trace_of(&space, *g);
        let path = rdir.join(format!("{}-{}.json", prop.id, hash_str(&format!("{}#{}", space.jobs[j].name, i))));
        let body = serde_json::json!({
            "property": prop.id, "tier": tier.name(), "job": space.jobs[j].name, "case": i,
            "from": i - (*g - *from).min(i), "message": m, "steps": steps,
            "how": format!("/verif/run.sh replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
        println!("  {}#{}: {m}", space.jobs[j].name, i);
        for s in &steps {
            println!("    {s}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if flaky >= 5 || unconfirmed.is_some() {
        eprintln!("could not complete reliably");
        return 2;
    }
    0
}

/// The command line.
pub fn main_with(props: Vec<Property>, args: &[String], verif: PathBuf) -> ! {
    let usage = || -> ! {
        eprintln!("usage: mc run <property> [quick|thorough] | mc replay <file> | mc list");
        std::process::exit(2)
    };
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match args.get(1).map(String::as_str) {
        Some("run") => {
            let Some(id) = args.get(2) else { usage() };
            run_property(find(id), tier(args.get(3).map_or("quick", String::as_str)), &verif)
        }
        Some("replay") => {
            let Some(f) = args.get(2) else { usage() };
            let s = std::fs::read_to_string(f).expect("replay file");
            let j: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            replay(
                find(j["property"].as_str().unwrap()),
                j["job"].as_str().unwrap(),
                j["case"].as_u64().unwrap(),
                j["from"].as_u64().unwrap(),
                tier(j["tier"].as_str().unwrap()),
            )
        }
        Some("list") => {
            for p in &props {
                let q: u64 = (p.jobs)(Tier::Quick).iter().map(|j| j.n).sum();
                let t: u64 = (p.jobs)(Tier::Thorough).iter().map(|j| j.n).sum();
                println!("{} quick {q} thorough {t}", p.id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
