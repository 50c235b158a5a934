//! Runtime support: everything that would make a run non-reproducible is taken
//! over here.
//!
//! - `getrandom` (used by `rand`'s OS source and by the standard library's hash
//!   maps) is answered, on case threads, from a seeded stream;
//! - memory allocated by a case is counted, and a case that exceeds its budget
//!   aborts the (child) process: unbounded growth is thus a deterministic event
//!   rather than an out-of-memory condition;
//! - panics on case threads are recorded rather than printed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

thread_local! {
    static STREAM: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn set_stream(seed: u64) {
    STREAM.with(|s| s.set(splitmix(seed ^ 0x6a09_e667_f3bc_c908) | 1));
}

pub fn clear_stream() {
    STREAM.with(|s| s.set(0));
}

pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn fill(buf: *mut u8, n: usize) -> bool {
    let mut s = match STREAM.try_with(Cell::get) {
        Ok(s) => s,
        Err(_) => return false,
    };
    if s == 0 {
        return false;
    }
    for i in 0..n {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let v = splitmix(s);
        unsafe { *buf.add(i) = (v >> 32) as u8 };
    }
    if s == 0 {
        s = 1;
    }
    STREAM.with(|c| c.set(s));
    true
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Overrides libc's `syscall` for this binary: only `getrandom` is intercepted.
///
/// # Safety
/// Same contract as libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> i64 {
    if n == libc::SYS_getrandom && fill(a as *mut u8, b) {
        return b as i64;
    }
    raw(n, a, b, c, d, e, f)
}

/// Overrides libc's `getrandom` for this binary.
///
/// # Safety
/// Same contract as libc's `getrandom`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if fill(b, n) {
        return n as isize;
    }
    raw(libc::SYS_getrandom, b as usize, n, f as usize, 0, 0, 0) as isize
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scan(p, l.size());
        charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[inline]
fn charge(n: i64) {
    let over = LIVE
        .try_with(|c| {
            let v = c.get().saturating_add(n);
            c.set(v);
            if n > 0 {
                let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
                let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
            }
            n > 0 && v > BUDGET.try_with(Cell::get).unwrap_or(i64::MAX)
        })
        .unwrap_or(false);
    if over {
        let _ = BUDGET.try_with(|b| b.set(i64::MAX));
        let m = b"ALLOCATION BUDGET EXCEEDED\n";
        unsafe {
            libc::write(2, m.as_ptr().cast(), m.len());
            libc::abort();
        }
    }
}

/// Sets the number of bytes the current thread may have allocated from now on.
pub fn set_alloc_budget(bytes: i64) {
    LIVE.with(|l| l.set(0));
    BUDGET.with(|b| b.set(bytes));
}

/// Bytes allocated and not freed by the case.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

/// What `f` allocates on this thread: the most it held at once, and the sum of
/// all its allocations, in bytes.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let start = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(start));
    let before = TOTAL.with(Cell::get);
    let r = f();
    let peak = PEAK.with(Cell::get) - start;
    (r, peak.max(0) as u64, TOTAL.with(Cell::get).wrapping_sub(before))
}

thread_local! {
    /// Patterns looked for in the memory freed by this thread.
    static WATCH: Cell<([[u8; 8]; 8], usize)> = const { Cell::new(([[0; 8]; 8], 0)) };
    static HITS: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn scan(p: *mut u8, n: usize) {
    let Ok((pats, k)) = WATCH.try_with(Cell::get) else { return };
    if k == 0 || n < 8 {
        return;
    }
    // The block is still allocated here.
    let bytes = unsafe { std::slice::from_raw_parts(p as *const std::mem::MaybeUninit<u8>, n) };
    for i in 0..=n - 8 {
        let mut w = [0u8; 8];
        for (j, b) in w.iter_mut().enumerate() {
            *b = unsafe { std::ptr::read_volatile(bytes[i + j].as_ptr()) };
        }
        if pats[..k].contains(&w) {
            HITS.with(|h| h.set(h.get() + 1));
            return;
        }
    }
}

/// Runs `f` and counts the blocks freed meanwhile that hold a piece of the
/// given secrets (at most eight pieces of eight bytes).
pub fn watch_freed(secrets: &[[u8; 8]], f: impl FnOnce()) -> u64 {
    let mut pats = [[0u8; 8]; 8];
    pats[..secrets.len()].copy_from_slice(secrets);
    HITS.with(|h| h.set(0));
    WATCH.with(|w| w.set((pats, secrets.len())));
    f();
    WATCH.with(|w| w.set(([[0; 8]; 8], 0)));
    HITS.with(Cell::get)
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.try_with(Cell::get).unwrap_or(false) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            default(info);
        }
    }));
}

pub fn quiet(on: bool) {
    QUIET.with(|q| q.set(on));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}
