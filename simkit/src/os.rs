//! OS seams.  The harness binaries define the C symbols through which Rust programs obtain OS
//! randomness and wall-clock time, so `HashMap` seeds, `thread_rng`, `OsRng`, uuids, mnemonics and
//! `SystemTime::now` all become functions of the simulation seed.
use std::cell::Cell;

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static SEEDED: Cell<bool> = const { Cell::new(false) };
    // wall clock override in nanoseconds since the unix epoch (None: the real clock)
    static WALL: Cell<Option<i128>> = const { Cell::new(None) };
    static WALL_TICK: Cell<u64> = const { Cell::new(0) };
    static WALL_READS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_READS: Cell<u64> = const { Cell::new(0) };
    static SOURCE: Cell<Source> = const { Cell::new(Source::Fair) };
    static DRAWN: std::cell::RefCell<Option<Vec<Vec<u8>>>> = const { std::cell::RefCell::new(None) };
}

/// How this thread's source of randomness behaves.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Source {
    Fair,
    /// every byte is this one
    Stuck(u8),
    /// hands out fewer bytes than asked for, now and then interrupted
    Short,
    /// fails after so many calls
    Fails(u64),
}
pub fn set_source(s: Source) {
    SOURCE.with(|x| x.set(s));
}
/// start keeping what is handed out; `drawn` returns it, call by call
pub fn record_entropy() {
    DRAWN.with(|d| *d.borrow_mut() = Some(vec![]));
}
pub fn drawn() -> Vec<Vec<u8>> {
    DRAWN.with(|d| d.borrow_mut().take().unwrap_or_default())
}

pub fn seed_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
    SEEDED.with(|e| e.set(true));
}
pub fn entropy_reads() -> u64 {
    ENTROPY_READS.with(|r| r.get())
}
/// Set (or clear) this thread's simulated wall clock; every read advances it by `tick` ns.
pub fn set_wall(ns: Option<i128>, tick: u64) {
    WALL.with(|w| w.set(ns));
    WALL_TICK.with(|w| w.set(tick));
}
pub fn wall() -> Option<i128> {
    WALL.with(|w| w.get())
}
pub fn wall_reads() -> u64 {
    WALL_READS.with(|r| r.get())
}

fn next_entropy() -> u64 {
    ENTROPY.with(|e| {
        let mut s = e.get();
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        e.set(s);
        crate::mix(s)
    })
}

/// The kernel, past every seam.
/// # Safety
/// as the system call
pub unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as libc::c_long
}
/// Some crates ask the kernel for randomness by number.
/// # Safety
/// as the system call
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, c as u32) as libc::c_long;
    }
    raw(n, a, b, c, d, e, f)
}

/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !SEEDED.with(|s| s.get()) {
        return raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) as isize;
    }
    let calls = ENTROPY_READS.with(|r| {
        r.set(r.get() + 1);
        r.get()
    });
    let source = SOURCE.with(|s| s.get());
    let mut len = len;
    match source {
        Source::Fails(n) if calls > n => {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
        Source::Short => {
            let k = next_entropy();
            if k % 4 == 0 {
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            len = len.min(1 + (k >> 8) as usize % len.max(1));
        }
        _ => {}
    }
    let mut i = 0;
    while i < len {
        let mut w = next_entropy().to_le_bytes();
        if let Source::Stuck(b) = source {
            w = [b; 8];
        }
        for b in w {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    DRAWN.with(|d| {
        if let Some(d) = d.borrow_mut().as_mut() {
            d.push(std::slice::from_raw_parts(buf, len).to_vec())
        }
    });
    len as isize
}

/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some(ns) = WALL.with(|w| w.get()) {
            WALL_READS.with(|r| r.set(r.get() + 1));
            (*ts).tv_sec = ns.div_euclid(1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as libc::c_long;
            WALL.with(|w| w.set(Some(ns + WALL_TICK.with(|t| t.get()) as i128)));
            return 0;
        }
    }
    raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as libc::c_int
}

/// keeps the linker from dropping the seams, and proves they are in effect
pub fn assert_seams() {
    std::hint::black_box(getrandom as *const ());
    std::hint::black_box(clock_gettime as *const ());
    std::hint::black_box(syscall as *const ());
    set_wall(Some(12_345_000_000_678), 0);
    let t = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_nanos())
        .unwrap_or(0);
    set_wall(None, 0);
    assert_eq!(t, 12_345_000_000_678, "clock seam not linked");
    let h = std::thread::spawn(|| {
        seed_entropy(42);
        std::hint::black_box(std::collections::hash_map::RandomState::new());
        entropy_reads()
    });
    assert!(h.join().unwrap() > 0, "entropy seam not linked");
}
