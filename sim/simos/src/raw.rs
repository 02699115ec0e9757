//! Raw system calls (never interposed).
use std::arch::asm;
#[inline]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Convert a raw result to the libc convention.
#[inline]
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as usize, 128, val as usize, 0, 0, 0); // FUTEX_WAIT|PRIVATE
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(libc::SYS_futex, addr as usize, 129, i32::MAX as usize, 0, 0, 0);
}
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let r = unsafe { sc6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return false;
        }
        b = &b[r as usize..];
    }
    true
}
pub fn read_to_end(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let r = unsafe { sc6(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return v;
        }
        v.extend_from_slice(&buf[..r as usize]);
    }
}
pub fn read_file(path: &str) -> Option<Vec<u8>> {
    let c = std::ffi::CString::new(path).ok()?;
    let fd = unsafe { sc6(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, libc::O_RDONLY as usize, 0, 0, 0) };
    if fd < 0 {
        return None;
    }
    let v = read_to_end(fd as i32);
    unsafe { sc6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) };
    Some(v)
}
pub fn write_file(path: &str, data: &[u8]) -> bool {
    let c = match std::ffi::CString::new(path) {
        Ok(c) => c,
        _ => return false,
    };
    let fd = unsafe {
        sc6(
            libc::SYS_openat,
            libc::AT_FDCWD as usize,
            c.as_ptr() as usize,
            (libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC) as usize,
            0o644,
            0,
            0,
        )
    };
    if fd < 0 {
        return false;
    }
    let r = write_all(fd as i32, data);
    unsafe { sc6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) };
    r
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
