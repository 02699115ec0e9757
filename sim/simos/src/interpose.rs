//! libc entry points. Calls from simulated threads are served by the simulator; everything else
//! goes straight to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::fs::{Ino, Node};
use crate::raw::{ret, sc6, set_errno};
use crate::sched::{self, Stop};
use crate::{active, sim, Fault, InSim, OpK, OpenFile, FD_BASE};
use libc::{c_char, c_int, c_void, off64_t, size_t, ssize_t};

type Rs<T> = Result<T, i32>;

unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    std::ffi::CStr::from_ptr(p).to_bytes()
}
fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE
}
fn out(r: Rs<i64>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
/// the process (not a scheduled thread) ends here
pub fn die(why: Stop) -> ! {
    match why {
        Stop::Crash => crate::preload_exit(137),
        w => {
            crate::raw::write_all(2, format!("simos: run stopped: {:?}\n", w).as_bytes());
            crate::preload_exit(139)
        }
    }
}
fn crash(power: bool) -> ! {
    sim().do_crash(power);
    // leave the simulator guard: this thread never comes back
    sched::stop(Stop::Crash)
}
/// start an operation: scheduling point, then fault decision
fn op(k: OpK, path: &[u8], len: usize) -> Rs<Option<usize>> {
    match sim().decide(k, path, len) {
        None => Ok(None),
        Some(Fault::Errno(e)) => {
            sim().note(|| format!("{:?} {} len={} -> FAULT {}", k, String::from_utf8_lossy(path), len, crate::errname(e)));
            Err(e)
        }
        Some(Fault::Short(n)) => {
            sim().note(|| format!("{:?} {} len={} -> FAULT short {}", k, String::from_utf8_lossy(path), len, n));
            Ok(Some(n as usize))
        }
        Some(Fault::Crash { power, .. }) => {
            sim().note(|| format!("{:?} {} len={} -> CRASH", k, String::from_utf8_lossy(path), len));
            crash(power)
        }
    }
}
fn run<T>(f: impl FnOnce() -> Rs<T>) -> Rs<T> {
    sched::point();
    let _g = InSim::enter();
    f()
}
fn base(dirfd: c_int) -> Rs<Option<Ino>> {
    if dirfd == libc::AT_FDCWD {
        Ok(None)
    } else {
        Ok(Some(sim().fds.get(&dirfd).ok_or(libc::EBADF)?.ino))
    }
}
fn alloc_fd(of: OpenFile) -> c_int {
    let s = sim();
    let mut fd = FD_BASE;
    while s.fds.contains_key(&fd) {
        fd += 1;
    }
    if let Some(n) = s.fs.inodes.get_mut(&of.ino) {
        n.opens += 1;
    }
    s.fds.insert(fd, of);
    fd
}
fn do_open(dirfd: c_int, path: &[u8], flags: c_int, mode: u32) -> Rs<i64> {
    let b = base(dirfd)?;
    let creating = flags & libc::O_CREAT != 0;
    if flags & libc::O_TMPFILE == libc::O_TMPFILE {
        return Err(libc::EOPNOTSUPP);
    }
    op(
        if creating {
            OpK::Create
        } else if flags & libc::O_DIRECTORY != 0 {
            // opening a directory is not interrupted
            OpK::Readdir
        } else {
            OpK::Open
        },
        path,
        0,
    )?;
    let s = sim();
    let now = s.real_ns;
    let w = s.fs.walk(b, path, flags & libc::O_NOFOLLOW == 0)?;
    let ino = match w.2 {
        Some(i) => {
            if creating && flags & libc::O_EXCL != 0 {
                s.note(|| format!("open {} -> EEXIST", String::from_utf8_lossy(path)));
                return Err(libc::EEXIST);
            }
            i
        }
        None => {
            if !creating {
                s.note(|| format!("open {} -> ENOENT", String::from_utf8_lossy(path)));
                return Err(libc::ENOENT);
            }
            if path.ends_with(b"/") {
                return Err(libc::EISDIR);
            }
            s.fs.create_file(w.0, &w.1, mode, now)?
        }
    };
    let acc = flags & libc::O_ACCMODE;
    match &s.fs.node(ino)?.node {
        Node::Dir(_) => {
            if acc != libc::O_RDONLY || creating {
                return Err(libc::EISDIR);
            }
        }
        Node::Sym(_) => return Err(libc::ELOOP),
        Node::File(_) => {
            if flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            let p = s.fs.join_path(w.0, &w.1);
            if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                s.fs.truncate(ino, 0, now)?;
                s.fs.mutations.push(("truncate", p));
            } else if acc != libc::O_RDONLY && w.2.is_some() {
                s.fs.mutations.push(("open-for-write", p));
            }
        }
    }
    let full = s.fs.join_path(w.0, &w.1);
    let fd = alloc_fd(OpenFile { ino, pos: 0, flags, path: full });
    s.note(|| format!("open {} flags={:#x} -> fd {}", String::from_utf8_lossy(path), flags, fd - FD_BASE));
    Ok(fd as i64)
}
unsafe fn gen_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if active() && (dirfd == libc::AT_FDCWD || is_sim_fd(dirfd) || *p as u8 == b'/') {
        let path = cpath(p).to_vec();
        return out(run(|| do_open(if path.starts_with(b"/") { libc::AT_FDCWD } else { dirfd }, &path, flags, mode))) as c_int;
    }
    ret(sc6(libc::SYS_openat, dirfd as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    gen_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    gen_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    gen_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
    gen_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: u32) -> c_int {
    gen_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        if !active() {
            return 0; // thread-local destructors after the run
        }
        return out(run(|| {
            let s = sim();
            s.note(|| format!("close fd {}", fd - FD_BASE));
            match s.fds.remove(&fd) {
                Some(of) => {
                    if let Some(n) = s.fs.inodes.get_mut(&of.ino) {
                        n.opens = n.opens.saturating_sub(1);
                    }
                    Ok(0)
                }
                None => Err(libc::EBADF),
            }
        })) as c_int;
    }
    ret(sc6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<i64>) -> Rs<i64> {
    let s = sim();
    let (ino, pos, path, acc) = {
        let of = s.fds.get(&fd).ok_or(libc::EBADF)?;
        (of.ino, at.map(|a| a as u64).unwrap_or(of.pos), of.path.clone(), of.flags & libc::O_ACCMODE)
    };
    if acc == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    if at.map(|a| a < 0).unwrap_or(false) {
        return Err(libc::EINVAL);
    }
    let lim = op(OpK::Read, &path, n)?;
    let f = s.fs.file(ino)?;
    let avail = f.data.len().saturating_sub(pos) as usize;
    let mut m = n.min(avail);
    if let Some(l) = lim {
        m = m.min(l);
    }
    if m > 0 {
        f.data.read(pos, std::slice::from_raw_parts_mut(buf, m));
    }
    if at.is_none() {
        s.fds.get_mut(&fd).unwrap().pos += m as u64;
    }
    s.hash(pos ^ (m as u64) << 32);
    s.covered(&path, pos, m as u64);
    s.note(|| format!("read {} pos={} n={} -> {}", String::from_utf8_lossy(&path), pos, n, m));
    Ok(m as i64)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) && active() {
        return out(run(|| do_read(fd, buf as *mut u8, n, None))) as ssize_t;
    }
    ret(sc6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if is_sim_fd(fd) && active() {
        return out(run(|| do_read(fd, buf as *mut u8, n, Some(off)))) as ssize_t;
    }
    ret(sc6(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if is_sim_fd(fd) && active() {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = v.iter().map(|x| x.iov_len).sum();
        let mut tmp = vec![0u8; total];
        let r = out(run(|| do_read(fd, tmp.as_mut_ptr(), total, None))) as ssize_t;
        if r > 0 {
            let mut o = 0usize;
            for x in v {
                let k = x.iov_len.min(r as usize - o);
                std::ptr::copy_nonoverlapping(tmp.as_ptr().add(o), x.iov_base as *mut u8, k);
                o += k;
                if o == r as usize {
                    break;
                }
            }
        }
        return r;
    }
    ret(sc6(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
/// how much of a write to standard output goes through
fn stdout_limit(n: usize) -> Rs<i64> {
    match sim().decide(OpK::Write, b"<stdout>", n) {
        None => Ok(n as i64),
        Some(Fault::Errno(e)) => Err(e),
        Some(Fault::Short(k)) => Ok((k as usize).min(n) as i64),
        Some(Fault::Crash { power, .. }) => crash(power),
    }
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<i64>) -> Rs<i64> {
    let s = sim();
    let (ino, pos, path, flags) = {
        let of = s.fds.get(&fd).ok_or(libc::EBADF)?;
        (of.ino, at.map(|a| a as u64).unwrap_or(of.pos), of.path.clone(), of.flags)
    };
    if flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    let pos = if flags & libc::O_APPEND != 0 { s.fs.file(ino)?.data.len() } else { pos };
    let slice = std::slice::from_raw_parts(buf, n);
    let now = s.real_ns;
    let lim = match s.decide(OpK::Write, &path, n) {
        None => None,
        Some(Fault::Errno(e)) => {
            s.note(|| format!("write {} pos={} n={} -> FAULT {}", String::from_utf8_lossy(&path), pos, n, crate::errname(e)));
            return Err(e);
        }
        Some(Fault::Short(k)) => Some(k as usize),
        Some(Fault::Crash { power, torn }) => {
            let k = (torn as usize).min(n);
            s.note(|| format!("write {} pos={} n={} -> CRASH after {}", String::from_utf8_lossy(&path), pos, n, k));
            if k > 0 {
                s.fs.write_at(ino, pos, &slice[..k], now)?;
            }
            crash(power)
        }
    };
    let m = lim.map(|l| l.min(n)).unwrap_or(n);
    if pos + m as u64 > (1 << 40) {
        return Err(libc::EFBIG);
    }
    s.fs.write_at(ino, pos, &slice[..m], now)?;
    if at.is_none() {
        s.fds.get_mut(&fd).unwrap().pos = pos + m as u64;
    }
    s.hash(pos ^ (m as u64) << 32);
    s.note(|| format!("write {} pos={} n={} -> {}", String::from_utf8_lossy(&path), pos, n, m));
    Ok(m as i64)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) && active() {
        return out(run(|| do_write(fd, buf as *const u8, n, None))) as ssize_t;
    }
    let mut n = n;
    if fd == 1 && active() && sim().stdout {
        match run(|| stdout_limit(n)) {
            Ok(m) => n = m as usize,
            Err(e) => return out(Err(e)) as ssize_t,
        }
    }
    ret(sc6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if is_sim_fd(fd) && active() {
        return out(run(|| do_write(fd, buf as *const u8, n, Some(off)))) as ssize_t;
    }
    ret(sc6(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if is_sim_fd(fd) && active() {
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let mut tmp = vec![];
        for x in v {
            tmp.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return out(run(|| do_write(fd, tmp.as_ptr(), tmp.len(), None))) as ssize_t;
    }
    if fd == 1 && cnt > 0 && active() && sim().stdout {
        // a vectored write may always stop after its first part
        let v = std::slice::from_raw_parts(iov, cnt as usize);
        let x = v.iter().find(|x| x.iov_len > 0).unwrap_or(&v[0]);
        return write(fd, x.iov_base, x.iov_len);
    }
    ret(sc6(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if is_sim_fd(fd) && active() {
        return out(run(|| {
            let s = sim();
            let (ino, pos, path) = {
                let of = s.fds.get(&fd).ok_or(libc::EBADF)?;
                (of.ino, of.pos, of.path.clone())
            };
            op(OpK::Seek, &path, 0)?;
            let b = match wh {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => pos as i64,
                libc::SEEK_END => s.fs.file(ino)?.data.len() as i64,
                _ => return Err(libc::EINVAL),
            };
            let n = b.checked_add(off).ok_or(libc::EOVERFLOW)?;
            if n < 0 {
                return Err(libc::EINVAL);
            }
            s.fds.get_mut(&fd).unwrap().pos = n as u64;
            s.note(|| format!("lseek {} {} {} -> {}", String::from_utf8_lossy(&path), off, wh, n));
            Ok(n)
        }));
    }
    ret(sc6(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
struct StatR {
    ino: Ino,
    mode: u32,
    size: u64,
    mtime: u64,
    nlink: u32,
}
fn stat_ino(i: Ino) -> Rs<StatR> {
    let n = sim().fs.node(i)?;
    let (t, size) = match &n.node {
        Node::File(f) => (libc::S_IFREG, f.data.len()),
        Node::Dir(_) => (libc::S_IFDIR, 4096),
        Node::Sym(t) => (libc::S_IFLNK, t.len() as u64),
    };
    Ok(StatR { ino: i, mode: t | (n.mode & 0o7777), size, mtime: n.mtime, nlink: n.nlink })
}
fn do_stat(dirfd: c_int, path: &[u8], flags: c_int) -> Rs<StatR> {
    if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        let (ino, p) = {
            let of = sim().fds.get(&dirfd).ok_or(libc::EBADF)?;
            (of.ino, of.path.clone())
        };
        op(OpK::Stat, &p, 0)?;
        return stat_ino(ino);
    }
    let b = if path.starts_with(b"/") { None } else { base(dirfd)? };
    op(OpK::Stat, path, 0)?;
    let i = sim().fs.lookup(b, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?;
    stat_ino(i)
}
unsafe fn fill_stat(st: *mut libc::stat64, r: &StatR) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_dev = 77;
    (*st).st_ino = r.ino;
    (*st).st_mode = r.mode;
    (*st).st_nlink = r.nlink as u64;
    (*st).st_size = r.size as i64;
    (*st).st_blksize = 4096;
    (*st).st_blocks = r.size.div_ceil(512) as i64;
    (*st).st_mtime = (r.mtime / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (r.mtime % 1_000_000_000) as i64;
}
fn sim_path_call(dirfd: c_int, path: &[u8]) -> bool {
    active() && (dirfd == libc::AT_FDCWD || is_sim_fd(dirfd) || path.starts_with(b"/"))
}
unsafe fn gen_stat(dirfd: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let path = cpath(p).to_vec();
    if sim_path_call(dirfd, &path) {
        return match run(|| do_stat(dirfd, &path, flags)) {
            Ok(r) => {
                fill_stat(st, &r);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(sc6(libc::SYS_newfstatat, dirfd as usize, p as usize, st as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    gen_stat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    gen_stat(libc::AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    gen_stat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    gen_stat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, f: c_int) -> c_int {
    gen_stat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat64, f: c_int) -> c_int {
    gen_stat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if is_sim_fd(fd) && active() {
        return gen_stat(fd, c"".as_ptr(), st, libc::AT_EMPTY_PATH);
    }
    ret(sc6(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut libc::statx) -> c_int {
    let path = cpath(p).to_vec();
    if p.is_null() && active() {
        set_errno(libc::EFAULT);
        return -1;
    }
    if sim_path_call(d, &path) {
        return match run(|| do_stat(d, &path, flags)) {
            Ok(r) => {
                std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*b).stx_mask = libc::STATX_BASIC_STATS | libc::STATX_BTIME;
                (*b).stx_blksize = 4096;
                (*b).stx_nlink = r.nlink;
                (*b).stx_mode = r.mode as u16;
                (*b).stx_ino = r.ino;
                (*b).stx_size = r.size;
                (*b).stx_blocks = r.size.div_ceil(512);
                (*b).stx_mtime.tv_sec = (r.mtime / 1_000_000_000) as i64;
                (*b).stx_mtime.tv_nsec = (r.mtime % 1_000_000_000) as u32;
                (*b).stx_btime = (*b).stx_mtime;
                (*b).stx_dev_minor = 77;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(sc6(libc::SYS_statx, d as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    let path = cpath(p).to_vec();
    if sim_path_call(d, &path) {
        return out(run(|| do_stat(d, &path, 0).map(|_| 0))) as c_int;
    }
    ret(sc6(libc::SYS_faccessat, d as usize, p as usize, mode as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, p, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: u32) -> c_int {
    let pa = cpath(a).to_vec();
    let pb = cpath(b).to_vec();
    if sim_path_call(d1, &pa) {
        return out(run(|| {
            op(OpK::Rename, &pa, 0)?;
            let s = sim();
            let b1 = if pa.starts_with(b"/") { None } else { base(d1)? };
            let b2 = if pb.starts_with(b"/") { None } else { base(d2)? };
            if flags & !1 != 0 {
                return Err(libc::EINVAL);
            }
            let r = s.fs.rename(b1, &pa, b2, &pb, flags & 1 != 0);
            s.note(|| format!("rename {} -> {} = {:?}", String::from_utf8_lossy(&pa), String::from_utf8_lossy(&pb), r));
            r.map(|_| 0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_renameat2, d1 as usize, a as usize, d2 as usize, b as usize, flags as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let path = cpath(p).to_vec();
    if sim_path_call(d, &path) {
        return out(run(|| {
            op(OpK::Unlink, &path, 0)?;
            let b = if path.starts_with(b"/") { None } else { base(d)? };
            let s = sim();
            let r = if flags & libc::AT_REMOVEDIR != 0 { s.fs.rmdir(b, &path) } else { s.fs.unlink(b, &path) };
            s.note(|| format!("unlink {} = {:?}", String::from_utf8_lossy(&path), r));
            r.map(|_| 0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_unlinkat, d as usize, p as usize, flags as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: u32) -> c_int {
    let path = cpath(p).to_vec();
    if sim_path_call(d, &path) {
        return out(run(|| {
            op(OpK::Mkdir, &path, 0)?;
            let b = if path.starts_with(b"/") { None } else { base(d)? };
            let s = sim();
            let now = s.real_ns;
            let r = s.fs.mkdir(b, &path, mode, now);
            s.note(|| format!("mkdir {} = {:?}", String::from_utf8_lossy(&path), r));
            r.map(|_| 0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_mkdirat, d as usize, p as usize, mode as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    mkdirat(libc::AT_FDCWD, p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(t: *const c_char, d: c_int, p: *const c_char) -> c_int {
    let path = cpath(p).to_vec();
    let target = cpath(t).to_vec();
    if sim_path_call(d, &path) {
        return out(run(|| {
            op(OpK::Mkdir, &path, 0)?;
            let b = if path.starts_with(b"/") { None } else { base(d)? };
            let now = sim().real_ns;
            sim().fs.symlink(b, &target, &path, now).map(|_| 0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_symlinkat, t as usize, d as usize, p as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    symlinkat(t, libc::AT_FDCWD, p)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    let pa = cpath(a).to_vec();
    let pb = cpath(b).to_vec();
    if sim_path_call(d1, &pa) {
        return out(run(|| {
            op(OpK::Rename, &pa, 0)?;
            let b1 = if pa.starts_with(b"/") { None } else { base(d1)? };
            let b2 = if pb.starts_with(b"/") { None } else { base(d2)? };
            sim().fs.link(b1, &pa, b2, &pb).map(|_| 0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_linkat, d1 as usize, a as usize, d2 as usize, b as usize, flags as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let path = cpath(p).to_vec();
    if sim_path_call(d, &path) {
        return out(run(|| {
            op(OpK::Stat, &path, 0)?;
            let b = if path.starts_with(b"/") { None } else { base(d)? };
            let i = sim().fs.lookup(b, &path, false)?;
            match &sim().fs.node(i)?.node {
                Node::Sym(t) => {
                    let m = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, m);
                    Ok(m as i64)
                }
                _ => Err(libc::EINVAL),
            }
        })) as ssize_t;
    }
    ret(sc6(libc::SYS_readlinkat, d as usize, p as usize, buf as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    readlinkat(libc::AT_FDCWD, p, buf, n)
}
unsafe fn do_fsync(fd: c_int, nr: i64) -> c_int {
    if is_sim_fd(fd) && active() {
        return out(run(|| {
            let (ino, path) = {
                let of = sim().fds.get(&fd).ok_or(libc::EBADF)?;
                (of.ino, of.path.clone())
            };
            op(OpK::Sync, &path, 0)?;
            sim().fs.fsync(ino);
            sim().note(|| format!("fsync {}", String::from_utf8_lossy(&path)));
            Ok(0)
        })) as c_int;
    }
    ret(sc6(nr, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if is_sim_fd(fd) && active() {
        return out(run(|| {
            op(OpK::Sync, b"", 0)?;
            sim().fs.sync_all();
            Ok(0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_syncfs, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if is_sim_fd(fd) && active() {
        return out(run(|| {
            let (ino, path) = {
                let of = sim().fds.get(&fd).ok_or(libc::EBADF)?;
                (of.ino, of.path.clone())
            };
            if len < 0 {
                return Err(libc::EINVAL);
            }
            op(OpK::Trunc, &path, len as usize)?;
            let now = sim().real_ns;
            sim().fs.truncate(ino, len as u64, now)?;
            sim().note(|| format!("ftruncate {} {}", String::from_utf8_lossy(&path), len));
            Ok(0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    if active() {
        let path = cpath(p).to_vec();
        return out(run(|| {
            op(OpK::Trunc, &path, len as usize)?;
            let i = sim().fs.lookup(None, &path, true)?;
            let now = sim().real_ns;
            sim().fs.truncate(i, len as u64, now)?;
            sim().fs.mutations.push(("truncate", path.clone()));
            Ok(0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_truncate, p as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if is_sim_fd(fd) && active() {
        return match run(|| {
            let (ino, path) = {
                let of = sim().fds.get(&fd).ok_or(libc::EBADF)?;
                (of.ino, of.path.clone())
            };
            op(OpK::Trunc, &path, len as usize)?;
            let now = sim().real_ns;
            let cur = sim().fs.file(ino)?.data.len();
            if (off + len) as u64 > cur {
                sim().fs.truncate(ino, (off + len) as u64, now)?;
            }
            Ok(0)
        }) {
            Ok(_) => 0,
            Err(e) => e,
        };
    }
    let r = sc6(libc::SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0);
    if r < 0 {
        -r as c_int
    } else {
        0
    }
}
unsafe fn do_chmod(path: Option<Vec<u8>>, d: c_int, fd: c_int, mode: u32) -> c_int {
    out(run(|| {
        let i = match &path {
            Some(p) => {
                op(OpK::Chmod, p, 0)?;
                let b = if p.starts_with(b"/") { None } else { base(d)? };
                let (dd, n, e) = sim().fs.walk(b, p, true)?;
                let full = sim().fs.join_path(dd, &n);
                sim().fs.mutations.push(("chmod", full));
                e.ok_or(libc::ENOENT)?
            }
            None => {
                op(OpK::Chmod, b"", 0)?;
                sim().fds.get(&fd).ok_or(libc::EBADF)?.ino
            }
        };
        sim().fs.inodes.get_mut(&i).ok_or(libc::ENOENT)?.mode = mode;
        Ok(0)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: u32) -> c_int {
    if active() {
        return do_chmod(Some(cpath(p).to_vec()), libc::AT_FDCWD, -1, mode);
    }
    ret(sc6(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, mode: u32, flags: c_int) -> c_int {
    let path = cpath(p).to_vec();
    if sim_path_call(d, &path) {
        return do_chmod(Some(path), d, -1, mode);
    }
    ret(sc6(libc::SYS_fchmodat, d as usize, p as usize, mode as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    if is_sim_fd(fd) && active() {
        return do_chmod(None, 0, fd, mode);
    }
    ret(sc6(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_sim_fd(fd) {
        if !active() {
            return 0;
        }
        if !sim().fds.contains_key(&fd) {
            set_errno(libc::EBADF);
            return -1;
        }
        return match cmd {
            libc::F_GETFL => sim().fds[&fd].flags,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let of = &sim().fds[&fd];
                let n = OpenFile { ino: of.ino, pos: of.pos, flags: of.flags, path: of.path.clone() };
                alloc_fd(n)
            }
            _ => 0,
        };
    }
    ret(sc6(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, o: c_int) -> c_int {
    if is_sim_fd(fd) && active() {
        sched::point();
        return 0;
    }
    ret(sc6(libc::SYS_flock, fd as usize, o as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    -(sc6(libc::SYS_fadvise64, fd as usize, a as usize, b as usize, c as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(sc6(libc::SYS_copy_file_range, a as usize, oa as usize, b as usize, ob as usize, n, f as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(sc6(libc::SYS_sendfile, a as usize, b as usize, o as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(sc6(libc::SYS_splice, a as usize, oa as usize, b as usize, ob as usize, n, f as usize))
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, r: u64, a: usize) -> c_int {
    if is_sim_fd(fd) {
        set_errno(libc::ENOTTY);
        return -1;
    }
    ret(sc6(libc::SYS_ioctl, fd as usize, r as usize, a, 0, 0, 0)) as c_int
}
// ---- memory maps of simulated files: a private snapshot ----
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if fd >= FD_BASE && active() {
        let r = run(|| {
            let (ino, path) = {
                let of = sim().fds.get(&fd).ok_or(libc::EBADF)?;
                (of.ino, of.path.clone())
            };
            op(OpK::Map, &path, 0)?;
            let p = sc6(libc::SYS_mmap, 0, n, (libc::PROT_READ | libc::PROT_WRITE) as usize, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
            if p < 0 {
                return Err(-p as i32);
            }
            let d = &sim().fs.file(ino)?.data;
            let o = (off as u64).min(d.len());
            let m = (n as u64).min(d.len() - o) as usize;
            d.read(o, std::slice::from_raw_parts_mut(p as *mut u8, m));
            sim().covered(&path, o, m as u64);
            Ok(p as i64)
        });
        return match r {
            Ok(p) => p as *mut c_void,
            Err(e) => {
                set_errno(e);
                libc::MAP_FAILED
            }
        };
    }
    ret(sc6(libc::SYS_mmap, a as usize, n, prot as usize, flags as usize, fd as usize, off as usize)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap64(a, n, prot, flags, fd, off)
}
// ---- directories ----
struct SimDir {
    fd: c_int,
    ents: Vec<(Vec<u8>, Ino, u8)>,
    pos: usize,
    d: libc::dirent64,
    path: Vec<u8>,
}
static mut DIRS: Vec<usize> = Vec::new();
#[allow(static_mut_refs)]
unsafe fn is_sim_dir(p: *mut c_void) -> bool {
    DIRS.contains(&(p as usize))
}
macro_rules! next {
    ($n:literal, $t:ty) => {{
        let p = libc::dlsym(libc::RTLD_NEXT, concat!($n, "\0").as_ptr() as *const c_char);
        std::mem::transmute::<*mut c_void, $t>(p)
    }};
}
fn open_dir(fd: c_int) -> Rs<i64> {
    let s = sim();
    let (ino, path) = {
        let of = s.fds.get(&fd).ok_or(libc::EBADF)?;
        (of.ino, of.path.clone())
    };
    let mut ents: Vec<(Vec<u8>, Ino, u8)> = vec![];
    if let Node::Dir(d) = &s.fs.node(ino)?.node {
        for (n, c) in d {
            let t = match &s.fs.node(*c)?.node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Sym(_) => libc::DT_LNK,
            };
            ents.push((n.clone(), *c, t));
        }
    } else {
        return Err(libc::ENOTDIR);
    }
    crate::prng::Rng::new(crate::prng::mix(s.seed, ino ^ 0xd1e)).shuffle(&mut ents);
    ents.insert(0, (b".".to_vec(), ino, libc::DT_DIR));
    ents.insert(1, (b"..".to_vec(), ino, libc::DT_DIR));
    let b = Box::new(SimDir { fd, ents, pos: 0, d: unsafe { std::mem::zeroed() }, path });
    let p = Box::into_raw(b) as usize;
    #[allow(static_mut_refs)]
    unsafe {
        DIRS.push(p)
    };
    Ok(p as i64)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if active() {
        let path = cpath(p).to_vec();
        let r = run(|| {
            let fd = do_open(libc::AT_FDCWD, &path, libc::O_RDONLY | libc::O_DIRECTORY, 0)? as c_int;
            open_dir(fd)
        });
        return match r {
            Ok(v) => v as *mut c_void,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    next!("opendir", extern "C" fn(*const c_char) -> *mut c_void)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if is_sim_fd(fd) && active() {
        return match run(|| open_dir(fd)) {
            Ok(v) => v as *mut c_void,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    next!("fdopendir", extern "C" fn(c_int) -> *mut c_void)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if is_sim_dir(d) {
        let sd = &mut *(d as *mut SimDir);
        let r = run(|| {
            op(OpK::Readdir, &sd.path, 0)?;
            if sd.pos >= sd.ents.len() {
                return Ok(false);
            }
            let (n, i, t) = sd.ents[sd.pos].clone();
            sd.pos += 1;
            sd.d = std::mem::zeroed();
            sd.d.d_ino = i;
            sd.d.d_off = sd.pos as i64;
            sd.d.d_type = t;
            sd.d.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (k, b) in n.iter().enumerate() {
                sd.d.d_name[k] = *b as c_char;
            }
            Ok(true)
        });
        return match r {
            Ok(true) => &mut sd.d,
            Ok(false) => {
                // std distinguishes end from error by errno, which it zeroes first
                std::ptr::null_mut()
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    next!("readdir64", extern "C" fn(*mut c_void) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if is_sim_dir(d) {
        DIRS.retain(|x| *x != d as usize);
        let b = Box::from_raw(d as *mut SimDir);
        return close(b.fd);
    }
    next!("closedir", extern "C" fn(*mut c_void) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if is_sim_dir(d) {
        return (*(d as *mut SimDir)).fd;
    }
    next!("dirfd", extern "C" fn(*mut c_void) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char {
    if active() {
        let path = cpath(p).to_vec();
        let r = run(|| {
            op(OpK::Stat, &path, 0)?;
            let (d, n, e) = sim().fs.walk(None, &path, true)?;
            let i = e.ok_or(libc::ENOENT)?;
            let full = if matches!(sim().fs.node(i)?.node, Node::Dir(_)) { sim().fs.dir_path(i) } else { sim().fs.join_path(d, &n) };
            Ok(full)
        });
        return match r {
            Ok(f) => {
                let b = if o.is_null() { libc::malloc(f.len() + 1) as *mut u8 } else { o as *mut u8 };
                std::ptr::copy_nonoverlapping(f.as_ptr(), b, f.len());
                *b.add(f.len()) = 0;
                b as *mut c_char
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    next!("realpath", extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, o)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let c = &sim().fs.cwd;
        if c.len() + 1 > n {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
        *b.add(c.len()) = 0;
        return b;
    }
    let r = sc6(libc::SYS_getcwd, b as usize, n, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if active() {
        let path = cpath(p).to_vec();
        return out(run(|| {
            let i = sim().fs.lookup(None, &path, true)?;
            sim().fs.cwd = sim().fs.dir_path(i);
            Ok(0)
        })) as c_int;
    }
    ret(sc6(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int
}
// ---- time and randomness ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if active() {
        let s = sim();
        s.tick(100);
        let ns = if c == libc::CLOCK_REALTIME || c == libc::CLOCK_REALTIME_COARSE { s.real_ns } else { s.clock_ns };
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(sc6(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if active() {
        let ns = sim().real_ns;
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_usec = (ns % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret(sc6(libc::SYS_gettimeofday, t as usize, z as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        sched::sleep_ns((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
        return 0;
    }
    ret(sc6(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        let ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        let ns = if f & 1 != 0 { ns.saturating_sub(sim().clock_ns) } else { ns };
        sched::sleep_ns(ns);
        return 0;
    }
    -(sc6(libc::SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched::point();
        return 0;
    }
    ret(sc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: u32) -> ssize_t {
    if active() {
        let p = b as *mut u8;
        for i in 0..n {
            *p.add(i) = sim().rand.u64() as u8;
        }
        return n as ssize_t;
    }
    ret(sc6(libc::SYS_getrandom, b as usize, n, f as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if active() {
        return 4242;
    }
    ret(sc6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0)) as c_int
}
/// std issues futex, statx, copy_file_range, getrandom through `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if active() {
        match n {
            libc::SYS_futex => {
                let cmd = b as i32;
                let to = if d == 0 || (cmd & 127) == 1 || (cmd & 127) == 10 {
                    None
                } else {
                    let t = &*(d as *const libc::timespec);
                    Some(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
                };
                match sched::futex(a, cmd, c as u32, to, (cmd & 127 & !256) == 0) {
                    Ok(v) => return v as i64,
                    Err(libc::ENOSYS) => {}
                    Err(er) => {
                        set_errno(er);
                        return -1;
                    }
                }
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as i64,
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as u32) as i64,
            libc::SYS_copy_file_range => return copy_file_range(a as c_int, b as *mut off64_t, c as c_int, d as *mut off64_t, e, f as u32) as i64,
            libc::SYS_renameat2 => return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as i64,
            libc::SYS_openat => return openat(a as c_int, b as *const c_char, c as c_int, d as u32) as i64,
            libc::SYS_openat2 => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            _ => {}
        }
    }
    ret(sc6(n, a, b, c, d, e, f)) as i64
}
/// keep this object file in the link
pub fn anchor() {}
