//! The disk: files below one scratch directory are written through these stand-ins for the libc
//! calls of std::fs, which follow a script of faults.  Everything else passes straight through.

use crate::count;
use std::ffi::{c_char, c_long, c_void, CStr};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DAct {
    /// accept at most so many bytes
    Accept(usize),
    Interrupted,
    /// fails for good with this errno
    Fail(i32),
}

pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EDQUOT: i32 = 122;

#[derive(Default, Debug)]
pub struct Disk {
    root: String,
    /// what the coming open calls answer (empty: succeed)
    pub opens: Vec<DAct>,
    /// what the coming write calls do (empty: accept everything)
    pub writes: Vec<DAct>,
    /// bytes left on the device
    pub space: Option<usize>,
    pub write_calls: u64,
    pub failed: bool,
    fds: Vec<i32>,
}

static DISK: Mutex<Option<Disk>> = Mutex::new(None);

/// From now on files below `root` are on the simulated disk.
#[inline(never)]
pub fn disk_begin(root: &str, opens: Vec<DAct>, writes: Vec<DAct>, space: Option<usize>) {
    *DISK.lock().unwrap() = Some(Disk {
        root: root.into(),
        opens,
        writes,
        space,
        ..Default::default()
    });
}

#[inline(never)]
pub fn disk_end() -> Disk {
    DISK.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no simulated disk")
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut i32;
}

fn fail(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

fn next(v: &mut Vec<DAct>) -> Option<DAct> {
    if v.is_empty() {
        None
    } else {
        Some(v.remove(0))
    }
}

unsafe fn open_at(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    let go = || syscall(257, dir as c_long, path, flags as c_long, mode as c_long) as i32;
    let Ok(mut g) = DISK.try_lock() else { return go() };
    let Some(d) = g.as_mut() else { return go() };
    if !CStr::from_ptr(path).to_str().is_ok_and(|p| p.starts_with(&d.root)) {
        return go();
    }
    let w = flags & 3 != 0;
    if w {
        match next(&mut d.opens) {
            Some(DAct::Interrupted) => {
                count("fault:open interrupted", 1);
                return fail(4) as i32;
            }
            Some(DAct::Fail(e)) => {
                count("fault:open fails", 1);
                d.failed = true;
                return fail(e) as i32;
            }
            _ => {}
        }
    }
    let fd = go();
    if fd >= 0 && w {
        d.fds.push(fd);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(-100, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    open_at(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if let Ok(mut g) = DISK.try_lock() {
        if let Some(d) = g.as_mut() {
            d.fds.retain(|f| *f != fd);
        }
    }
    syscall(3, fd as c_long) as i32
}

/// How many of `n` bytes the disk takes, or Err(errno); None: not on the simulated disk.
fn admit(fd: i32, n: usize) -> Option<Result<usize, i32>> {
    let mut g = DISK.try_lock().ok()?;
    let d = g.as_mut()?;
    if !d.fds.contains(&fd) {
        return None;
    }
    d.write_calls += 1;
    if n == 0 {
        return Some(Ok(0));
    }
    let mut take = n;
    match next(&mut d.writes) {
        Some(DAct::Interrupted) => {
            count("fault:write to disk interrupted", 1);
            return Some(Err(4));
        }
        Some(DAct::Fail(e)) => {
            count("fault:write to disk fails", 1);
            d.failed = true;
            return Some(Err(e));
        }
        Some(DAct::Accept(k)) if k < n => {
            count("fault:short write to disk", 1);
            take = k.max(1);
        }
        _ => {}
    }
    if let Some(s) = d.space {
        if s == 0 {
            count("fault:disk full", 1);
            d.failed = true;
            return Some(Err(ENOSPC));
        }
        take = take.min(s);
        d.space = Some(s - take);
    }
    Some(Ok(take))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
    match admit(fd, n) {
        None => syscall(1, fd as c_long, buf, n) as isize,
        Some(Ok(k)) => syscall(1, fd as c_long, buf, k) as isize,
        Some(Err(e)) => fail(e),
    }
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    let total: usize = (0..n as usize).map(|i| (*iov.add(i)).len).sum();
    match admit(fd, total) {
        None => syscall(20, fd as c_long, iov, n as c_long) as isize,
        Some(Err(e)) => fail(e),
        Some(Ok(mut k)) => {
            let mut done = 0;
            for i in 0..n as usize {
                let v = &*iov.add(i);
                let m = v.len.min(k);
                if m > 0 {
                    let r = syscall(1, fd as c_long, v.base, m) as isize;
                    if r < 0 {
                        return if done > 0 { done } else { r };
                    }
                    done += r;
                    k -= m;
                }
            }
            done
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if let Ok(mut g) = DISK.try_lock() {
        if let Some(d) = g.as_mut() {
            if d.fds.contains(&fd) && d.failed {
                return fail(EIO) as i32;
            }
        }
    }
    syscall(74, fd as c_long) as i32
}
