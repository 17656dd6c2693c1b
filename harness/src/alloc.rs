//! A tracking, poisoning global allocator.
//!
//! Between `begin()` and `end()` every block allocated *inside a tracked window* (`tracked(..)`, i.e. while
//! a runtime function executes) is entered in a table. Freed blocks are filled with a poison byte and kept
//! in quarantine until `end()`, so that a double free, a write after free or a leak is an observation, and
//! a read after free yields garbage deterministically instead of stale but correct data.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub const POISON: u8 = 0xDD;
const MAX: usize = 1 << 19;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    window: u32,
    live: bool,
}

struct Table {
    n: usize,
    b: [Block; MAX],
}

static LOCK: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static mut TABLE: Table = Table { n: 0, b: [Block { ptr: 0, size: 0, align: 0, window: 0, live: false }; MAX] };
/// Open-addressed index over the table by address (0: empty, else slot + 1). Quarantine keeps addresses unique.
static mut INDEX: [u32; 4 * MAX] = [0; 4 * MAX];
static DOUBLE: AtomicUsize = AtomicUsize::new(0);
static BADSIZE: AtomicUsize = AtomicUsize::new(0);
static OVERFLOW: AtomicUsize = AtomicUsize::new(0);
static WINDOW: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub struct Track;

/// Is this the static that every (untracked) call reads?
pub fn owns(a: usize) -> bool {
    let c = &raw const COUNT as usize;
    (c..c + 8).contains(&a)
}

fn lock() {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, SeqCst);
}
#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    unsafe { &mut TABLE }
}

#[allow(static_mut_refs)]
fn index(p: usize, t: &Table) -> (&'static mut u32, bool) {
    let x = unsafe { &mut INDEX };
    let mut k = ((p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) % (4 * MAX);
    loop {
        if x[k] == 0 {
            return (&mut x[k], false);
        }
        if t.b[x[k] as usize - 1].ptr == p {
            return (&mut x[k], true);
        }
        k = (k + 1) % (4 * MAX);
    }
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        let p = System.alloc(l);
        if !p.is_null() && ON.try_with(Cell::get).unwrap_or(false) {
            // memory handed out is not zero, whatever the system's allocator does
            std::ptr::write_bytes(p, 0xA5, l.size());
            enter(p, l);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        let p = System.alloc_zeroed(l);
        if !p.is_null() && ON.try_with(Cell::get).unwrap_or(false) {
            enter(p, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        if COUNT.load(SeqCst) > 0 && retire(p, l) {
            return;
        }
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        crate::sched::point();
        if COUNT.load(SeqCst) == 0 && !ON.try_with(Cell::get).unwrap_or(false) {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

fn enter(p: *mut u8, l: Layout) {
    lock();
    let t = table();
    if t.n < MAX {
        *index(p as usize, t).0 = t.n as u32 + 1;
        t.b[t.n] = Block {
            ptr: p as usize,
            size: l.size(),
            align: l.align(),
            window: WINDOW.load(SeqCst) as u32,
            live: true,
        };
        t.n += 1;
        COUNT.store(t.n, SeqCst);
    } else {
        OVERFLOW.fetch_add(1, SeqCst);
    }
    unlock();
}

/// True if the block is one of ours (then it is quarantined).
fn retire(p: *mut u8, l: Layout) -> bool {
    lock();
    let t = table();
    let (slot, hit) = index(p as usize, t);
    if hit {
        let b = &mut t.b[*slot as usize - 1];
        if b.live {
            b.live = false;
            if b.size != l.size() || b.align != l.align() {
                BADSIZE.fetch_add(1, SeqCst);
            }
            unsafe { std::ptr::write_bytes(p, POISON, b.size) };
        } else {
            DOUBLE.fetch_add(1, SeqCst);
        }
    }
    unlock();
    hit
}

/// Runs `f` in a tracked window; returns its value and the window's number.
pub fn tracked<T>(f: impl FnOnce() -> T) -> (T, u32) {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            let v = self.0;
            ON.with(|o| o.set(v));
        }
    }
    let w = WINDOW.fetch_add(1, SeqCst) + 1;
    let old = ON.with(|o| o.replace(true));
    let _off = Off(old);
    (f(), w as u32)
}
/// Runs harness code inside a tracked window without tracking.
#[allow(dead_code)]
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let old = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(old));
    r
}

#[allow(dead_code)]
pub fn live_total() -> usize {
    lock();
    let t = table();
    let n = t.b[..t.n].iter().filter(|b| b.live).count();
    unlock();
    n
}
/// Number of live blocks allocated in a window.
pub fn live_in(window: u32) -> usize {
    lock();
    let t = table();
    let n = t.b[..t.n].iter().filter(|b| b.live && b.window == window).count();
    unlock();
    n
}
/// Whether `size` bytes from `p` lie in one live tracked block.
pub fn is_live(p: *const u8, size: usize) -> bool {
    lock();
    let t = table();
    let a = p as usize;
    let r = t.b[..t.n].iter().any(|b| b.live && b.ptr <= a && a + size <= b.ptr + b.size);
    unlock();
    r
}
/// Whether `p` lies in a block that was freed (and is in quarantine).
#[allow(dead_code)]
pub fn is_freed(p: *const u8) -> bool {
    lock();
    let t = table();
    let a = p as usize;
    let r = t.b[..t.n].iter().any(|b| !b.live && b.ptr <= a && a < b.ptr + b.size.max(1));
    unlock();
    r
}

/// Forgets everything tracked so far (really freeing what is in quarantine).
pub fn begin() {
    let _ = finish_inner();
}
pub struct Heap {
    pub leaked: Vec<(u32, usize)>,
    pub problems: Vec<String>,
}
pub fn end() -> Heap {
    let (leaked, problems) = finish_inner();
    Heap { leaked, problems }
}
impl Heap {
    /// Err on any memory error, or if more than `allowed` blocks are still live.
    pub fn check(&self, allowed: usize) -> Result<(), String> {
        if let Some(p) = self.problems.first() {
            return Err(p.clone());
        }
        if self.leaked.len() > allowed {
            return Err(format!(
                "{} block(s) leaked, {allowed} expected: sizes {:?}",
                self.leaked.len(),
                self.leaked.iter().map(|l| l.1).collect::<Vec<_>>()
            ));
        }
        Ok(())
    }
}

fn finish_inner() -> (Vec<(u32, usize)>, Vec<String>) {
    let old = ON.with(|o| o.replace(false));
    let mut leaked: Vec<(u32, usize)> = Vec::with_capacity(64);
    let mut poison_broken = 0usize;
    lock();
    {
        let t = table();
        // (in reverse order of insertion, each chain of the index stays intact)
        for k in (0..t.n).rev() {
            *index(t.b[k].ptr, t).0 = 0;
        }
        for b in &t.b[..t.n] {
            if b.live {
                if leaked.len() < 64 {
                    leaked.push((b.window, b.size));
                }
            } else {
                let s = unsafe { std::slice::from_raw_parts(b.ptr as *const u8, b.size) };
                if s.iter().any(|x| *x != POISON) {
                    poison_broken += 1;
                }
                unsafe {
                    System.dealloc(b.ptr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align));
                }
            }
        }
        t.n = 0;
        COUNT.store(0, SeqCst);
    }
    unlock();
    let mut p = vec![];
    let d = DOUBLE.swap(0, SeqCst);
    if d > 0 {
        p.push(format!("double free of {d} block(s)"));
    }
    if poison_broken > 0 {
        p.push(format!("write after free in {poison_broken} block(s)"));
    }
    if BADSIZE.swap(0, SeqCst) > 0 {
        p.push("block freed with a layout different from its allocation".into());
    }
    if OVERFLOW.swap(0, SeqCst) > 0 {
        p.push("allocation table overflow (harness limit)".into());
    }
    ON.with(|o| o.set(old));
    (leaked, p)
}
