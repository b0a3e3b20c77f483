//! Stands in for `write` of the C library, so that writes of the RocksDB in this process can be made
//! to fail, to stop half way, or to be the last thing the process does.

use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering};

pub const OFF: u8 = 0;
/// The write fails with EIO and writes nothing.
pub const FAIL: u8 = 1;
/// The process dies before the write.
pub const DIE_BEFORE: u8 = 2;
/// The process dies after the write.
pub const DIE_AFTER: u8 = 3;
/// The process dies having written a part.
pub const DIE_TORN: u8 = 4;

static KIND: AtomicU8 = AtomicU8::new(OFF);
static LEFT: AtomicI64 = AtomicI64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static LOG_ONLY: AtomicU8 = AtomicU8::new(0);

/// From now on the write with this number (counted from 0) is hit, all later ones too if it fails.
pub fn arm(kind: u8, at: i64, log_only: bool) {
    LEFT.store(at, Ordering::SeqCst);
    SEEN.store(0, Ordering::SeqCst);
    FIRED.store(0, Ordering::SeqCst);
    LOG_ONLY.store(u8::from(log_only), Ordering::SeqCst);
    KIND.store(kind, Ordering::SeqCst);
}

/// Stops; returns how many writes were seen and how many were hit.
pub fn disarm() -> (u64, u64) {
    KIND.store(OFF, Ordering::SeqCst);
    (SEEN.load(Ordering::SeqCst), FIRED.load(Ordering::SeqCst))
}

unsafe fn raw(fd: i32, buf: *const u8, n: usize) -> isize {
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

/// Writes past the stand-in.
pub fn say(fd: i32, text: &str) {
    unsafe {
        raw(fd, text.as_ptr(), text.len());
    }
}

/// Whether this is a file of the store (not the information log, not a pipe).
unsafe fn of_store(fd: i32) -> (bool, bool) {
    let mut path = [0_u8; 64];
    let s = format!("/proc/self/fd/{fd}\0");
    path[..s.len()].copy_from_slice(s.as_bytes());
    let mut out = [0_u8; 4096];
    let n = libc::readlink(path.as_ptr().cast(), out.as_mut_ptr().cast(), out.len());
    if n <= 0 {
        return (false, false);
    }
    let name = std::str::from_utf8(&out[..n as usize]).unwrap_or("");
    let file = name.rsplit('/').next().unwrap_or("");
    let inside = name.contains("/rkdb-");
    (inside && file != "LOG", file.ends_with(".log"))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    let buf: *const u8 = buf.cast();
    let kind = KIND.load(Ordering::SeqCst);
    if kind != OFF {
        let (inside, log) = of_store(fd);
        if inside && (log || LOG_ONLY.load(Ordering::SeqCst) == 0) {
            SEEN.fetch_add(1, Ordering::SeqCst);
            let left = LEFT.fetch_sub(1, Ordering::SeqCst);
            if kind == FAIL && left <= 0 {
                FIRED.fetch_add(1, Ordering::SeqCst);
                *libc::__errno_location() = libc::EIO;
                return -1;
            }
            if left == 0 {
                match kind {
                    DIE_BEFORE => libc::_exit(77),
                    DIE_AFTER => {
                        raw(fd, buf, n);
                        libc::_exit(77)
                    }
                    DIE_TORN => {
                        raw(fd, buf, n / 2);
                        libc::_exit(77)
                    }
                    _ => {}
                }
            }
        }
    }
    raw(fd, buf, n)
}
