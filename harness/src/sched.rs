//! A controlled scheduler: of two OS threads exactly one runs, and control changes hands only at scheduling points,
//! and a plan says after how many of its points each thread is preempted. There are two kinds of points:
//! - every allocation, reallocation and deallocation and every random draw (calls out of the code under test that the
//!   harness owns);
//! - every instruction of the executable that is atomic or whose memory operand lies in the executable's own writable
//!   statics. They are found by single-stepping each program once (`profile`), and then made to trap (`run` with
//!   breakpoints). Between two of them a thread touches nothing another thread could, short of memory that it reached
//!   through one of them, so that preempting elsewhere shows nothing more.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub const MAX_SEG: usize = 8;
static TURN: AtomicU32 = AtomicU32::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
static SEG: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
static PLAN: [AtomicU64; MAX_SEG] = [const { AtomicU64::new(u64::MAX) }; MAX_SEG];
static ONE: Mutex<()> = Mutex::new(());
static TID: [AtomicU32; 2] = [const { AtomicU32::new(0) }; 2];
/// Points are breakpoints, not allocations and draws.
static SHARED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(u32::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn futex(op: i32, val: u32, timeout_ms: i64) {
    let ts = libc::timespec { tv_sec: timeout_ms / 1000, tv_nsec: timeout_ms % 1000 * 1_000_000 };
    unsafe { libc::syscall(libc::SYS_futex, TURN.as_ptr(), op | libc::FUTEX_PRIVATE_FLAG, val, &ts, 0, 0) };
}
fn wait_for(me: u32) {
    let (mut seen, mut still) = (PROGRESS.load(SeqCst), 0);
    for k in 0.. {
        let t = TURN.load(SeqCst);
        if t == me || FREE.load(SeqCst) {
            return;
        }
        if k < 200 {
            std::hint::spin_loop();
            continue;
        }
        futex(libc::FUTEX_WAIT, t, 2);
        let p = PROGRESS.load(SeqCst);
        if p == seen && asleep(t) {
            still += 1;
        } else {
            (seen, still) = (p, 0);
        }
        if still > 4 {
            // the thread that has the turn waits for something this one holds: let both run
            FREE.store(true, SeqCst);
            return;
        }
    }
}
/// Does that thread wait in the kernel?
fn asleep(t: u32) -> bool {
    let tid = TID[t as usize].load(SeqCst);
    let mut b = [0u8; 128];
    let mut path = [0u8; 64];
    {
        use std::io::Write;
        let _ = write!(&mut path[..63], "/proc/self/task/{tid}/stat");
    }
    unsafe {
        let fd = libc::open(path.as_ptr().cast(), libc::O_RDONLY);
        if fd < 0 {
            return true;
        }
        let n = libc::read(fd, b.as_mut_ptr().cast(), b.len()).max(0) as usize;
        libc::close(fd);
        let at = b[..n].iter().rposition(|c| *c == b')').unwrap_or(0);
        b.get(at + 2) == Some(&b'S')
    }
}
fn hand_over(me: u32) {
    let other = 1 - me;
    let s = SEG.load(SeqCst) + 1;
    SEG.store(s, SeqCst);
    LEFT.store(if s < MAX_SEG { PLAN[s].load(SeqCst) } else { u64::MAX }, SeqCst);
    TURN.store(other, SeqCst);
    futex(libc::FUTEX_WAKE, 2, 0);
}

/// A scheduling point.
#[inline]
pub fn point() {
    let me = ME.try_with(Cell::get).unwrap_or(u32::MAX);
    if me != u32::MAX && !SHARED.load(SeqCst) {
        slow(me);
    }
}
#[cold]
fn slow(me: u32) {
    COUNT.with(|c| c.set(c.get() + 1));
    if FREE.load(SeqCst) {
        return;
    }
    PROGRESS.fetch_add(1, SeqCst);
    let left = LEFT.load(SeqCst);
    if left > 1 {
        LEFT.store(left - 1, SeqCst);
        return;
    }
    if DONE[1 - me as usize].load(SeqCst) {
        LEFT.store(u64::MAX, SeqCst);
        return;
    }
    hand_over(me);
    wait_for(me);
}

/// Runs two programs on threads of their own under a plan: program 0 runs up to its `plan[0]`-th point, then program 1
/// for `plan[1]` points, and so on; after the plan each runs to its end. Returns their results and their numbers of points.
/// With `at`, points are the executions of the instructions at these addresses.
pub fn run<T: Send>(progs: [&(dyn Fn() -> T + Sync); 2], plan: &[u64], at: Option<&[usize]>) -> ([T; 2], [u64; 2]) {
    let _one = ONE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    SHARED.store(at.is_some(), SeqCst);
    rand::verif_script::POINT.store(point as fn() as *mut (), SeqCst);
    for s in 0..MAX_SEG {
        PLAN[s].store(plan.get(s).copied().unwrap_or(u64::MAX), SeqCst);
    }
    SEG.store(0, SeqCst);
    LEFT.store(PLAN[0].load(SeqCst), SeqCst);
    FREE.store(false, SeqCst);
    TURN.store(0, SeqCst);
    DONE[0].store(false, SeqCst);
    DONE[1].store(false, SeqCst);
    let one = |me: u32, f: &(dyn Fn() -> T + Sync)| -> (T, u64) {
        TID[me as usize].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
        wait_for(me);
        COUNT.with(|c| c.set(0));
        ME.with(|m| m.set(me));
        let r = f();
        ME.with(|m| m.set(u32::MAX));
        DONE[me as usize].store(true, SeqCst);
        hand_over(me);
        (r, COUNT.with(Cell::get))
    };
    TID[0].store(0, SeqCst);
    TID[1].store(0, SeqCst);
    if let Some(at) = at {
        trap::set(at);
    }
    let (a, b) = std::thread::scope(|s| {
        let mk = |me: u32, f| std::thread::Builder::new().stack_size(512 * 1024).spawn_scoped(s, move || one(me, f)).expect("thread");
        let (a, b) = (mk(0, progs[0]), mk(1, progs[1]));
        (a.join().expect("thread"), b.join().expect("thread"))
    });
    if at.is_some() {
        trap::clear();
    }
    ([a.0, b.0], [a.1, b.1])
}

/// Single-steps a program and returns the addresses of its instructions that access shared memory, in order of address.
pub fn profile(f: impl FnOnce()) -> Vec<usize> {
    trap::profile(f)
}

/// Where the executable is loaded.
pub fn base() -> usize {
    trap::text().0
}

mod trap {
    //! Breakpoints and single steps within the process itself.
    use super::*;
    use libc::{c_int, c_void, siginfo_t, ucontext_t, REG_EFL, REG_RIP};

    const TF: i64 = 0x100;
    const MAX: usize = 4096;
    static N: AtomicUsize = AtomicUsize::new(0);
    static AT: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
    static mut ORIG: [u8; MAX] = [0; MAX];
    static PROFILE: AtomicBool = AtomicBool::new(false);
    static OPEN: AtomicBool = AtomicBool::new(false);
    thread_local! {
        /// the breakpoint to set again after the step
        static PENDING: Cell<usize> = const { Cell::new(0) };
    }
    unsafe extern "C" {
        static __data_start: u8;
        static _end: u8;
        static __executable_start: u8;
        static etext: u8;
    }
    pub fn text() -> (usize, usize) {
        (&raw const __executable_start as usize, &raw const etext as usize)
    }

    extern "C" fn handler(_: c_int, _: *mut siginfo_t, uc: *mut c_void) {
        unsafe {
            let g = &mut (*uc.cast::<ucontext_t>()).uc_mcontext.gregs;
            let rip = g[REG_RIP as usize] as usize;
            if PROFILE.load(SeqCst) {
                let (lo, hi) = text();
                if (lo..hi).contains(&rip) && shared(rip, g) {
                    add(rip);
                }
                return;
            }
            let p = PENDING.with(Cell::get);
            if p != 0 {
                PENDING.with(|x| x.set(0));
                g[REG_EFL as usize] &= !TF;
                put(p, 0xCC);
                return;
            }
            let a = rip.wrapping_sub(1);
            let n = N.load(SeqCst);
            let Some(k) = (0..n).find(|k| AT[*k].load(SeqCst) == a) else {
                libc::abort();
            };
            g[REG_RIP as usize] = a as i64;
            let me = ME.try_with(Cell::get).unwrap_or(u32::MAX);
            if me != u32::MAX {
                slow(me);
            }
            put(a, (&raw const ORIG).cast::<u8>().add(k).read());
            PENDING.with(|x| x.set(a));
            g[REG_EFL as usize] |= TF;
        }
    }
    unsafe fn put(a: usize, b: u8) {
        (a as *mut u8).write_volatile(b);
    }
    fn add(a: usize) {
        let n = N.load(SeqCst);
        if n < MAX && !(0..n).any(|k| AT[k].load(SeqCst) == a) {
            AT[n].store(a, SeqCst);
            N.store(n + 1, SeqCst);
        }
    }
    fn install() {
        unsafe {
            let mut s: libc::sigaction = std::mem::zeroed();
            s.sa_sigaction = handler as *const () as usize;
            s.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(libc::SIGTRAP, &s, std::ptr::null_mut());
        }
    }
    pub fn set(at: &[usize]) {
        install();
        if !OPEN.swap(true, SeqCst) {
            let (lo, hi) = text();
            let lo = lo & !4095;
            unsafe {
                assert_eq!(libc::mprotect(lo as *mut c_void, hi.next_multiple_of(4096) - lo, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC), 0);
            }
        }
        let n = at.len().min(MAX);
        for k in 0..n {
            AT[k].store(at[k], SeqCst);
            unsafe {
                (&raw mut ORIG).cast::<u8>().add(k).write((at[k] as *const u8).read_volatile());
            }
        }
        N.store(n, SeqCst);
        for a in &at[..n] {
            unsafe { put(*a, 0xCC) };
        }
    }
    pub fn clear() {
        for k in 0..N.load(SeqCst) {
            unsafe { put(AT[k].load(SeqCst), (&raw const ORIG).cast::<u8>().add(k).read()) };
        }
        N.store(0, SeqCst);
    }
    pub fn profile(f: impl FnOnce()) -> Vec<usize> {
        install();
        N.store(0, SeqCst);
        PROFILE.store(true, SeqCst);
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        f();
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        PROFILE.store(false, SeqCst);
        let mut v: Vec<usize> = (0..N.load(SeqCst)).map(|k| AT[k].load(SeqCst)).collect();
        v.sort_unstable();
        v
    }

    /// Is the instruction at `rip` atomic, or is its memory operand in the statics of the executable?
    /// (To take an instruction without a memory operand for one that has one does no harm.)
    unsafe fn shared(rip: usize, g: &[i64; 23]) -> bool {
        let c = |k: usize| ((rip + k) as *const u8).read();
        let (mut k, mut lock, mut rex, mut tls) = (0, false, 0u8, false);
        loop {
            match c(k) {
                0xF0 => lock = true,
                0x64 | 0x65 => tls = true,
                0x66 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 | 0x67 => {}
                _ => break,
            }
            k += 1;
        }
        if lock {
            return true;
        }
        if tls {
            return false;
        }
        if c(k) & 0xF0 == 0x40 {
            rex = c(k);
            k += 1;
        }
        let op = c(k);
        k += 1;
        let mut xchg = false;
        match op {
            0x0F => {
                let o = c(k);
                k += 1;
                match o {
                    0x38 | 0x3A => k += 1,
                    0x05 | 0x0B | 0x31 | 0xA2 | 0x80..=0x8F | 0xC8..=0xCF => return false,
                    _ => {}
                }
            }
            // string instructions
            0xA4 | 0xA5 | 0xAA | 0xAB => return within(g[libc::REG_RDI as usize] as usize) || (op < 0xA8 && within(g[libc::REG_RSI as usize] as usize)),
            0xC5 => {
                rex = if c(k) & 0x80 == 0 { 4 } else { 0 };
                k += 2;
            }
            0xC4 => {
                rex = (!c(k) >> 5) & 7;
                k += 3;
            }
            0x62 => {
                rex = (!c(k) >> 5) & 7;
                k += 4;
            }
            0x86 | 0x87 => xchg = true,
            0x00..=0x3F if op & 7 >= 4 => return false,
            0x50..=0x61 | 0x68 | 0x6A | 0x6C..=0x7F | 0x90..=0xAF | 0xB0..=0xBF | 0xC2 | 0xC3 | 0xC8..=0xCF | 0xD4..=0xD7 | 0xE0..=0xF1 | 0xF4 | 0xF5 | 0xF8..=0xFD => return false,
            _ => {}
        }
        // VEX instructions have their opcode before the operand; it has been skipped
        let m = c(k);
        let (md, rm) = (m >> 6, m & 7);
        if md == 3 || op == 0x8D {
            return false;
        }
        k += 1;
        let reg = |n: u8| -> usize {
            let r = [
                libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI, libc::REG_R8, libc::REG_R9,
                libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
            ][n as usize];
            g[r as usize] as usize
        };
        let d8 = |k: usize| c(k) as i8 as isize as usize;
        let d32 = |k: usize| ((rip + k) as *const i32).read_unaligned() as isize as usize;
        let ea = if rm == 4 {
            let sib = c(k);
            k += 1;
            let x = (sib >> 3 & 7) | (rex & 2) << 2;
            let ix = if x == 4 { 0 } else { reg(x) << (sib >> 6) };
            let b = (sib & 7) | (rex & 1) << 3;
            let base = if sib & 7 == 5 && md == 0 { d32(k) } else { reg(b) };
            base.wrapping_add(ix).wrapping_add(match md {
                1 => d8(k),
                2 => d32(k),
                _ => 0,
            })
        } else if rm == 5 && md == 0 {
            // (the length of an immediate operand aside)
            (rip + k + 4).wrapping_add(d32(k))
        } else {
            reg(rm | (rex & 1) << 3).wrapping_add(match md {
                1 => d8(k),
                2 => d32(k),
                _ => 0,
            })
        };
        xchg || within(ea)
    }
    fn within(a: usize) -> bool {
        let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
        (lo..hi).contains(&a) && !ours(a)
    }
    /// The statics of the harness itself that the programs' calls touch.
    fn ours(a: usize) -> bool {
        crate::alloc::owns(a) || rand::verif_script::owns(a) || {
            let b = |p: usize, n: usize| (p..p + n).contains(&a);
            b(&raw const TURN as usize, 4) || b(&raw const FREE as usize, 1) || b(&raw const PROGRESS as usize, 8) || b(&raw const SHARED as usize, 1) || b(&raw const LEFT as usize, 8)
        }
    }
}
