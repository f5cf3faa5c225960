//! File-system seam: the C functions through which `std::fs` works.  While a thread has a box, every
//! relative path of that thread leads into the box (a scratch directory of its own), and every call is
//! a point where the simulator can inject a short read or write, an interruption or a failure.
use simkit::Rng;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    ffi::{c_char, c_int, c_void, CStr, CString},
};

pub struct Box_ {
    pub root: String,
    pub rng: Rng,
    pub short: bool,
    pub interrupt: bool,
    /// fail the n-th call of this kind with this errno
    pub fail: Option<(&'static str, u64, c_int)>,
    /// the disk holds only so many more bytes
    pub disk: Option<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub fired: BTreeMap<&'static str, u64>,
    pub last_interrupt: bool,
}

thread_local! {
    static BOX: RefCell<Option<Box_>> = const { RefCell::new(None) };
}
pub fn enter(b: Box_) {
    BOX.with(|x| *x.borrow_mut() = Some(b));
}
pub fn leave() -> Option<Box_> {
    BOX.with(|x| x.borrow_mut().take())
}
fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

enum Verdict {
    Go(Option<usize>),
    Fail(c_int),
}
fn judge(kind: &'static str, len: usize) -> Verdict {
    BOX.with(|x| {
        let Ok(mut b) = x.try_borrow_mut() else { return Verdict::Go(None) };
        let Some(b) = b.as_mut() else { return Verdict::Go(None) };
        let n = b.counts.entry(kind).or_default();
        *n += 1;
        if let Some((k, at, e)) = b.fail {
            if k == kind && *n == at {
                *b.fired.entry(match k { "read" => "read_error", "write" => "write_error", "open" => "open_error", "stdout" => "stdout_error", _ => "mkdir_error" }).or_default() += 1;
                return Verdict::Fail(e);
            }
        }
        if kind == "read" || kind == "write" {
            if b.interrupt && !b.last_interrupt && b.rng.below(6) == 0 {
                b.last_interrupt = true;
                *b.fired.entry("interrupted_call").or_default() += 1;
                return Verdict::Fail(libc::EINTR);
            }
            b.last_interrupt = false;
            let mut n = len;
            if b.short && len > 1 && b.rng.below(2) == 0 {
                n = 1 + b.rng.below(len as u64) as usize;
                *b.fired.entry(if kind == "read" { "short_read" } else { "short_write" }).or_default() += 1;
            }
            if kind == "write" {
                if let Some(d) = &mut b.disk {
                    if *d == 0 {
                        *b.fired.entry("disk_full").or_default() += 1;
                        return Verdict::Fail(libc::ENOSPC);
                    }
                    n = n.min(*d as usize);
                    *d -= n as u64;
                }
            }
            return Verdict::Go(Some(n));
        }
        Verdict::Go(None)
    })
}
fn active() -> bool {
    BOX.with(|x| x.try_borrow().map_or(false, |b| b.is_some()))
}
fn redirect(path: *const c_char) -> Option<CString> {
    let p = unsafe { CStr::from_ptr(path) };
    if p.to_bytes().first() == Some(&b'/') {
        return None;
    }
    BOX.with(|x| {
        let b = x.try_borrow().ok()?;
        let b = b.as_ref()?;
        let mut v = b.root.as_bytes().to_vec();
        v.push(b'/');
        v.extend_from_slice(p.to_bytes());
        CString::new(v).ok()
    })
}
unsafe fn ret(r: libc::c_long) -> libc::c_long {
    r
}

macro_rules! path_or {
    ($p:ident, $r:ident) => {
        let $r = redirect($p);
        let $p = $r.as_ref().map_or($p, |c| c.as_ptr());
    };
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if redirect(path).is_some() {
        if let Verdict::Fail(e) = judge("open", 0) {
            errno(e);
            return -1;
        }
    }
    path_or!(path, r);
    ret(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as c_int)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 && active() {
        match judge("read", n) {
            Verdict::Fail(e) => {
                errno(e);
                return -1;
            }
            Verdict::Go(m) => n = m.unwrap_or(n),
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if active() {
        if fd == 1 {
            // progress messages of the generator
            return match judge("stdout", n) {
                Verdict::Fail(e) => {
                    errno(e);
                    -1
                }
                _ => n as isize,
            };
        }
        if fd > 2 {
            match judge("write", n) {
                Verdict::Fail(e) => {
                    errno(e);
                    return -1;
                }
                Verdict::Go(m) => n = m.unwrap_or(n),
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    if redirect(path).is_some() {
        if let Verdict::Fail(e) = judge("mkdir", 0) {
            errno(e);
            return -1;
        }
    }
    path_or!(path, r);
    libc::syscall(libc::SYS_mkdir, path, mode as c_int) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    path_or!(a, r1);
    path_or!(b, r2);
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    path_or!(a, r1);
    libc::syscall(libc::SYS_unlink, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut c_void) -> c_int {
    if path.is_null() {
        return libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int;
    }
    let fd_call = *path == 0;
    let r = if fd_call { None } else { redirect(path) };
    let path = r.as_ref().map_or(path, |c| c.as_ptr());
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int
}
