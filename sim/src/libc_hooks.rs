#![allow(invalid_runtime_symbol_definitions, function_casts_as_integer)]
//! The libc symbols the simulator defines. Calls from threads that are not
//! simulated, and on descriptors and paths that are not, go to the kernel.
use crate::os::{self, *};
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, AtomicU32, Ordering::*};

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

unsafe fn cs<'a>(p: *const c_char) -> &'a [u8] { if p.is_null() { b"" } else { CStr::from_ptr(p).to_bytes() } }

unsafe fn done(b: &mut Busy, r: Result<isize, i32>) -> isize {
    match r { Ok(v) => v, Err(e) => { b.fail(e); -1 } }
}

/// files of the host that the code may look at and must not depend on
fn hidden(p: &[u8]) -> bool { p.starts_with(b"/proc/self/cgroup") || p.starts_with(b"/proc/self/mountinfo") || p.starts_with(b"/sys/fs/cgroup") }

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if in_sim() {
        let mut b = Busy::new();
        let p = cs(path);
        if hidden(p) { b.fail(libc::ENOENT); return -1; }
        if let Some(r) = os::open(dirfd, p, flags, mode) { return done(&mut b, r.map(|x| x as isize)) as c_int; }
    }
    pass(257, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int
}

#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: u32) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: u32) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int { do_open(d, p, f, m) }

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if in_sim() && is_fd(fd) {
        let _b = Busy::new();
        let p = ofd(fd).path.clone();
        let _ = trigger("close", &p);
        close_fd(fd);
        return 0;
    }
    pass(3, fd as usize, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if in_sim() && is_fd(fd) {
        let mut b = Busy::new();
        let r = os::read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None);
        return done(&mut b, r.map(|x| x as isize));
    }
    pass(0, fd as usize, buf as usize, n, 0, 0, 0)
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if in_sim() && is_fd(fd) {
        let mut b = Busy::new();
        let r = os::read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64));
        return done(&mut b, r.map(|x| x as isize));
    }
    pass(17, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t { do_pread(fd, buf, n, off) }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t { do_pread(fd, buf, n, off) }
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if in_sim() && is_fd(fd) {
        for i in 0..cnt as usize { let v = &*iov.add(i); if v.iov_len > 0 { return read(fd, v.iov_base, v.iov_len); } }
        return 0;
    }
    pass(19, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}

#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if in_sim() && (is_fd(fd) || fd == 1 || fd == 2) {
        let mut b = Busy::new();
        let r = os::write(fd, std::slice::from_raw_parts(buf as *const u8, n));
        return done(&mut b, r.map(|x| x as isize));
    }
    pass(1, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if in_sim() && (is_fd(fd) || fd == 1 || fd == 2) {
        let mut b = Busy::new();
        let mut v: Vec<u8> = Vec::new();
        for i in 0..cnt as usize { let x = &*iov.add(i); if x.iov_len > 0 { v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)); } }
        let r = os::write(fd, &v);
        return done(&mut b, r.map(|x| x as isize));
    }
    pass(20, fd as usize, iov as usize, cnt as usize, 0, 0, 0)
}

unsafe fn do_lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    if in_sim() && is_fd(fd) {
        let mut b = Busy::new();
        let p = ofd(fd).path.clone();
        if let Trig::Errno(e) = trigger("lseek", &p) { b.fail(e); return -1; }
        let o = ofd(fd);
        let base = match wh { libc::SEEK_SET => 0, libc::SEEK_CUR => o.pos as i64, libc::SEEK_END => real_size(&sim().ino[o.ino]) as i64, _ => { b.fail(libc::EINVAL); return -1; } };
        let np = base + off;
        if np < 0 { b.fail(libc::EINVAL); return -1; }
        o.pos = np as u64;
        return np;
    }
    pass(8, fd as usize, off as usize, wh as usize, 0, 0, 0) as i64
}
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 { do_lseek(fd, off, wh) }
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 { do_lseek(fd, off, wh) }

unsafe fn fill(st: *mut libc::stat, r: &StatOut) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat>());
    (*st).st_mode = r.mode; (*st).st_size = r.size as i64; (*st).st_ino = r.ino; (*st).st_nlink = r.nlink; (*st).st_dev = r.dev; (*st).st_ctime = 1_000 + r.ctime as i64; (*st).st_blksize = r.blksize as i64; (*st).st_mtime = 1_000 + r.mtime as i64;
    (*st).st_blocks = r.blocks as i64;
}
unsafe fn do_stat(dirfd: c_int, path: &[u8], flags: c_int, st: *mut libc::stat) -> Option<c_int> {
    if !in_sim() { return None; }
    let mut b = Busy::new();
    let r = os::stat(dirfd, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?;
    Some(done(&mut b, r.map(|r| { fill(st, &r); 0 })) as c_int)
}
unsafe fn rstat(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int {
    match do_stat(d, cs(p), f, st) { Some(r) => r, None => pass(262, d as usize, p as usize, st as usize, f as usize, 0, 0) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    match do_stat(fd, b"", 0, st) { Some(r) => r, None => pass(5, fd as usize, st as usize, 0, 0, 0, 0) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int { fstat(fd, st) }
#[no_mangle] pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int { rstat(d, p, st, f) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat, f: c_int) -> c_int { rstat(d, p, st, f) }
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat) -> c_int { rstat(libc::AT_FDCWD, p, st, 0) }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat) -> c_int { rstat(libc::AT_FDCWD, p, st, 0) }
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat) -> c_int { rstat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat) -> c_int { rstat(libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW) }

#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if in_sim() && !p.is_null() && !out.is_null() {
        let mut b = Busy::new();
        let path = cs(p);
        if !(path.is_empty() && flags & libc::AT_EMPTY_PATH == 0) {
            if let Some(r) = os::stat(d, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
                return done(&mut b, r.map(|r| {
                    std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*out).stx_mask = 0x7ff; (*out).stx_mode = r.mode as u16; (*out).stx_size = r.size; (*out).stx_ino = r.ino;
                    (*out).stx_nlink = r.nlink as u32; (*out).stx_dev_minor = r.dev as u32; (*out).stx_ctime.tv_sec = 1_000 + r.ctime as i64; (*out).stx_mtime.tv_sec = 1_000 + r.mtime as i64; (*out).stx_blksize = r.blksize as u32; (*out).stx_blocks = r.blocks;
                    0
                })) as c_int;
            }
        }
    }
    pass(332, d as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as c_int
}

#[no_mangle] pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if in_sim() {
        let mut b = Busy::new();
        if let Some(r) = os::readlink(d, cs(p)) {
            return done(&mut b, r.map(|v| { let k = v.len().min(n); std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, k); k as isize }));
        }
    }
    pass(267, d as usize, p as usize, buf as usize, n, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t { readlinkat(libc::AT_FDCWD, p, buf, n) }

#[no_mangle] pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    if in_sim() {
        let mut b = Busy::new();
        if let Some(r) = os::stat(d, cs(p), true) { return done(&mut b, r.map(|_| 0)) as c_int; }
    }
    pass(269, d as usize, p as usize, m as usize, f as usize, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int { faccessat(libc::AT_FDCWD, p, m, 0) }

// ------------------------------------------------------------- directories

#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if in_sim() && is_fd(fd) {
        let mut b = Busy::new();
        let o = ofd(fd);
        if o.opath { b.fail(libc::EBADF); return std::ptr::null_mut(); }
        if sim().ino[o.ino].kind != Kind::Dir { b.fail(libc::ENOTDIR); return std::ptr::null_mut(); }
        let path = o.path.clone();
        if let os::Trig::Errno(e) = os::trigger("fdopen", &path) { b.fail(e); return std::ptr::null_mut(); }
        let d = Box::new(SimDir { fd, buf: Box::new(std::mem::zeroed()), queue: Default::default(), last: None, eof: false });
        let p = Box::into_raw(d);
        sim().dirs.insert(p as usize, p as usize);
        return p as *mut c_void;
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut c_void)(fd)
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if in_sim() {
        let mut b = Busy::new();
        if let Some(r) = os::open(libc::AT_FDCWD, cs(p), libc::O_DIRECTORY, 0) {
            match r {
                Err(e) => { b.fail(e); return std::ptr::null_mut(); }
                Ok(fd) => { drop(b); return fdopendir(fd); }
            }
        }
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(p)
}
fn is_dir(d: *mut c_void) -> bool { tid() != 0 && has_sim() && sim().dirs.contains_key(&(d as usize)) }
unsafe fn do_readdir(d: *mut c_void) -> *mut libc::dirent64 {
    let mut b = Busy::new();
    let sd = &mut *(d as *mut SimDir);
    match os::readdir(sd) {
        Err(e) => { b.fail(e); std::ptr::null_mut() }
        Ok(None) => std::ptr::null_mut(),
        Ok(Some((name, dt, ino))) => {
            let e = &mut *sd.buf;
            e.d_ino = ino; e.d_type = dt; e.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (i, c) in name.iter().enumerate() { e.d_name[i] = *c as c_char; }
            e.d_name[name.len()] = 0;
            // std reads d_name in place and copies as much as the name needs
            e as *mut libc::dirent64
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    if in_sim() && is_dir(d) { return do_readdir(d); }
    real!("readdir", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64)(d)
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if in_sim() && is_dir(d) { return do_readdir(d); }
    real!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64)(d)
}
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if in_sim() && is_dir(d) { return (*(d as *mut SimDir)).fd; }
    real!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int)(d)
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if !d.is_null() && is_dir(d) && in_sim() {
        let _b = Busy::new();
        let sd = Box::from_raw(d as *mut SimDir);
        sim().dirs.remove(&(d as usize));
        let p = ofd(sd.fd).path.clone();
        let _ = trigger("close", &p);
        close_fd(sd.fd);
        return 0;
    }
    real!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int)(d)
}

// ------------------------------------------------------------- descriptors

unsafe fn dup_sim(fd: c_int) -> c_int {
    let mut b = Busy::new();
    let p = ofd(fd).path.clone();
    if let Trig::Errno(e) = trigger("dup", &p) { b.fail(e); return -1; }
    let oi = sim().fds[(fd - FD0) as usize].unwrap();
    sim().ofds[oi].refs += 1;
    bind_fd(oi)
}
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if in_sim() && is_fd(fd) { return dup_sim(fd); }
    pass(32, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if in_sim() && is_fd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup_sim(fd),
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => { let o = ofd(fd); (if o.write { libc::O_WRONLY } else { libc::O_RDONLY }) | (if o.opath { libc::O_PATH } else { 0 }) }
            _ => 0,
        };
    }
    pass(72, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int { do_fcntl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { do_fcntl(fd, cmd, arg) }

unsafe fn simple_fd(fd: c_int, op: &'static str, nr: i64, a: usize, b2: usize, c: usize) -> c_int {
    if in_sim() && is_fd(fd) {
        let mut b = Busy::new();
        let p = ofd(fd).path.clone();
        return match trigger(op, &p) {
            Trig::Errno(e) => { b.fail(e); -1 }
            _ => {
                match op {
                    "fsync" => sim().fsyncs += 1,
                    "ftruncate" => { sim().wrote.push(("truncated", p.clone())); let o = ofd(fd); if let Some(d) = &mut sim().ino[o.ino].data { d.resize(a.min(1 << 30), 0); } }
                    "fchmod" => { sim().wrote.push(("changed the mode of", p.clone())); let o = ofd(fd); sim().ino[o.ino].mode = a as u32 & 0o7777; }
                    _ => {}
                }
                0
            }
        };
    }
    pass(nr, fd as usize, a, b2, c, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { simple_fd(fd, "fsync", 74, 0, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { simple_fd(fd, "fsync", 75, 0, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int { simple_fd(fd, "ftruncate", 77, n as usize, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { simple_fd(fd, "ftruncate", 77, n as usize, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int { simple_fd(fd, "fchmod", 91, m as usize, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, m: c_int) -> c_int { simple_fd(fd, "flock", 73, m as usize, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn posix_fadvise(fd: c_int, o: i64, l: i64, a: c_int) -> c_int {
    if in_sim() && is_fd(fd) { return 0; }
    -(sys6(221, fd as usize, o as usize, l as usize, a as usize, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn posix_fadvise64(fd: c_int, o: i64, l: i64, a: c_int) -> c_int { posix_fadvise(fd, o, l, a) }

#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: u32) -> ssize_t {
    if in_sim() && (a >= FD0 || b >= FD0) { set_errno(libc::EXDEV); return -1; }
    pass(326, a as usize, oa as usize, b as usize, ob as usize, n, f as usize)
}
#[no_mangle] pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if in_sim() && (o >= FD0 || i >= FD0) { set_errno(libc::EINVAL); return -1; }
    pass(40, o as usize, i as usize, off as usize, n, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t { sendfile(o, i, off, n) }

#[no_mangle] pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    if in_sim() {
        let mut g = Busy::new();
        if let (Some(x), Some(_)) = (os::resolve(d1, cs(a), false), os::resolve(d2, cs(b), false)) {
            let pre = match &x { Ok(f) => f.canon.clone(), _ => b"?".to_vec() };
            sim().wrote.push(("renamed", pre.clone()));
            if let Trig::Errno(e) = trigger("rename", &pre) { g.fail(e); return -1; }
            let r = (|| {
                let f = os::resolve(d1, cs(a), false).unwrap()?; let t = os::resolve(d2, cs(b), false).unwrap()?;
                let i = f.ino.ok_or(libc::ENOENT)?;
                sim().ino[f.parent].kids.retain(|k| k.0 != f.name);
                sim().ino[t.parent].kids.retain(|k| k.0 != t.name);
                sim().ino[t.parent].kids.push((t.name.clone(), i));
                sim().ino[i].parent = t.parent;
                Ok(0)
            })();
            return done(&mut g, r) as c_int;
        }
    }
    pass(264, d1 as usize, a as usize, d2 as usize, b as usize, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { renameat(libc::AT_FDCWD, a, libc::AT_FDCWD, b) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if in_sim() {
        let mut g = Busy::new();
        if let Some(x) = os::resolve(d, cs(p), false) {
            let pre = match &x { Ok(f) => f.canon.clone(), _ => b"?".to_vec() };
            sim().wrote.push(("removed", pre.clone()));
            if let Trig::Errno(e) = trigger("unlink", &pre) { g.fail(e); return -1; }
            let r = os::resolve(d, cs(p), false).unwrap().and_then(|f| { f.ino.ok_or(libc::ENOENT)?; sim().ino[f.parent].kids.retain(|k| k.0 != f.name); Ok(0) });
            return done(&mut g, r) as c_int;
        }
    }
    pass(263, d as usize, p as usize, f as usize, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { unlinkat(libc::AT_FDCWD, p, 0) }

// ------------------------------------------------------------- other calls that change something
//
// The scan makes none of these. They are here so that a program that does is
// seen, and sees what it would see on a real file system.

/// A change of what `path` names: recorded, can be made to fail, then `f`.
unsafe fn change(d: c_int, path: &[u8], follow: bool, what: &'static str, op: &'static str, f: impl FnOnce(Found) -> Result<isize, i32>) -> Option<c_int> {
    if !in_sim() { return None; }
    let mut g = Busy::new();
    let x = if path.is_empty() && is_fd(d) { let o = ofd(d); Ok(Found { parent: sim().ino[o.ino].parent, name: vec![], ino: Some(o.ino), canon: o.path.clone() }) } else { os::resolve(d, path, follow)? };
    let pre = match &x { Ok(f) => f.canon.clone(), _ => b"?".to_vec() };
    sim().wrote.push((what, pre.clone()));
    if let Trig::Errno(e) = trigger(op, &pre) { g.fail(e); return Some(-1); }
    Some(done(&mut g, x.and_then(f)) as c_int)
}
fn there(f: Found) -> Result<isize, i32> { f.ino.map(|i| { sim().ino[i].ctime += 1; 0 }).ok_or(libc::ENOENT) }
fn create(f: Found, kind: Kind, mode: u32, to: &[u8]) -> Result<isize, i32> {
    if f.ino.is_some() { return Err(libc::EEXIST); }
    os::new_node(f.parent, &f.name, kind, mode, to);
    Ok(0)
}

#[no_mangle] pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: u32) -> c_int {
    change(d, cs(p), false, "made the directory", "mkdir", |f| create(f, Kind::Dir, m & 0o7777, b"")).unwrap_or_else(|| pass(258, d as usize, p as usize, m as usize, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int { mkdirat(libc::AT_FDCWD, p, m) }
#[no_mangle] pub unsafe extern "C" fn mknodat(d: c_int, p: *const c_char, m: u32, dev: u64) -> c_int {
    let k = match m & libc::S_IFMT { libc::S_IFIFO => Kind::Fifo, 0 | libc::S_IFREG => Kind::File, _ => Kind::Sock };
    change(d, cs(p), false, "made the special file", "mknod", |f| create(f, k, m & 0o7777, b"")).unwrap_or_else(|| pass(259, d as usize, p as usize, m as usize, dev as usize, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn mknod(p: *const c_char, m: u32, dev: u64) -> c_int { mknodat(libc::AT_FDCWD, p, m, dev) }
#[no_mangle] pub unsafe extern "C" fn mkfifoat(d: c_int, p: *const c_char, m: u32) -> c_int { mknodat(d, p, m & 0o7777 | libc::S_IFIFO, 0) }
#[no_mangle] pub unsafe extern "C" fn mkfifo(p: *const c_char, m: u32) -> c_int { mkfifoat(libc::AT_FDCWD, p, m) }
#[no_mangle] pub unsafe extern "C" fn creat(p: *const c_char, m: u32) -> c_int { do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, m) }
#[no_mangle] pub unsafe extern "C" fn creat64(p: *const c_char, m: u32) -> c_int { creat(p, m) }
#[no_mangle] pub unsafe extern "C" fn symlinkat(to: *const c_char, d: c_int, p: *const c_char) -> c_int {
    change(d, cs(p), false, "made the symlink", "symlink", |f| create(f, Kind::Link, 0o777, cs(to))).unwrap_or_else(|| pass(266, to as usize, d as usize, p as usize, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn symlink(to: *const c_char, p: *const c_char) -> c_int { symlinkat(to, libc::AT_FDCWD, p) }
#[no_mangle] pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    change(d2, cs(b), false, "made the link", "link", |t| {
        let f = match os::resolve(d1, cs(a), fl & libc::AT_SYMLINK_FOLLOW != 0) { Some(x) => x?, None => return Err(libc::EXDEV) };
        let i = f.ino.ok_or(libc::ENOENT)?;
        if t.ino.is_some() { return Err(libc::EEXIST); }
        if sim().ino[i].kind == Kind::Dir { return Err(libc::EPERM); }
        sim().ino[t.parent].kids.push((t.name, i));
        Ok(0)
    }).unwrap_or_else(|| pass(265, d1 as usize, a as usize, d2 as usize, b as usize, fl as usize, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int { linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    change(libc::AT_FDCWD, cs(p), false, "removed", "rmdir", |f| {
        let i = f.ino.ok_or(libc::ENOENT)?;
        if sim().ino[i].kind != Kind::Dir { return Err(libc::ENOTDIR); }
        if !sim().ino[i].kids.is_empty() { return Err(libc::ENOTEMPTY); }
        sim().ino[f.parent].kids.retain(|k| k.0 != f.name);
        Ok(0)
    }).unwrap_or_else(|| pass(84, p as usize, 0, 0, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    if in_sim() { if unlink(p) == 0 { return 0; } }
    real!("remove", unsafe extern "C" fn(*const c_char) -> c_int)(p)
}
#[no_mangle] pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: u32, fl: c_int) -> c_int {
    change(d, cs(p), fl & libc::AT_SYMLINK_NOFOLLOW == 0, "changed the mode of", "chmod", |f| { let i = f.ino.ok_or(libc::ENOENT)?; sim().ino[i].mode = m & 0o7777; sim().ino[i].ctime += 1; Ok(0) })
        .unwrap_or_else(|| pass(268, d as usize, p as usize, m as usize, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int { fchmodat(libc::AT_FDCWD, p, m, 0) }
#[no_mangle] pub unsafe extern "C" fn fchownat(d: c_int, p: *const c_char, u: u32, g: u32, fl: c_int) -> c_int {
    change(d, cs(p), fl & libc::AT_SYMLINK_NOFOLLOW == 0, "changed the owner of", "chown", there).unwrap_or_else(|| pass(260, d as usize, p as usize, u as usize, g as usize, fl as usize, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn chown(p: *const c_char, u: u32, g: u32) -> c_int { fchownat(libc::AT_FDCWD, p, u, g, 0) }
#[no_mangle] pub unsafe extern "C" fn lchown(p: *const c_char, u: u32, g: u32) -> c_int { fchownat(libc::AT_FDCWD, p, u, g, libc::AT_SYMLINK_NOFOLLOW) }
#[no_mangle] pub unsafe extern "C" fn fchown(fd: c_int, u: u32, g: u32) -> c_int {
    if in_sim() && is_fd(fd) { return fchownat(fd, c"".as_ptr(), u, g, libc::AT_EMPTY_PATH); }
    pass(93, fd as usize, u as usize, g as usize, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, fl: c_int) -> c_int {
    // without a path: the descriptor itself
    change(d, cs(p), fl & libc::AT_SYMLINK_NOFOLLOW == 0, "changed the times of", "utimes", there).unwrap_or_else(|| pass(280, d as usize, p as usize, t as usize, fl as usize, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int { utimensat(fd, std::ptr::null(), t, 0) }
#[no_mangle] pub unsafe extern "C" fn utimes(p: *const c_char, t: *const libc::timeval) -> c_int {
    change(libc::AT_FDCWD, cs(p), true, "changed the times of", "utimes", there).unwrap_or_else(|| pass(235, p as usize, t as usize, 0, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn lutimes(p: *const c_char, t: *const libc::timeval) -> c_int {
    change(libc::AT_FDCWD, cs(p), false, "changed the times of", "utimes", there).unwrap_or_else(|| real!("lutimes", unsafe extern "C" fn(*const c_char, *const libc::timeval) -> c_int)(p, t))
}
#[no_mangle] pub unsafe extern "C" fn futimes(fd: c_int, t: *const libc::timeval) -> c_int {
    if in_sim() && is_fd(fd) { return utimensat(fd, std::ptr::null(), std::ptr::null(), 0); }
    real!("futimes", unsafe extern "C" fn(c_int, *const libc::timeval) -> c_int)(fd, t)
}
#[no_mangle] pub unsafe extern "C" fn truncate(p: *const c_char, n: i64) -> c_int {
    change(libc::AT_FDCWD, cs(p), true, "truncated", "truncate", |f| { let i = f.ino.ok_or(libc::ENOENT)?; let s = sim(); if let Some(d) = &mut s.ino[i].data { d.resize(n.clamp(0, 1 << 30) as usize, 0); } else { s.ino[i].size = n.max(0) as u64; } s.ino[i].ctime += 1; Ok(0) })
        .unwrap_or_else(|| pass(76, p as usize, n as usize, 0, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn truncate64(p: *const c_char, n: i64) -> c_int { truncate(p, n) }
#[no_mangle] pub unsafe extern "C" fn fallocate(fd: c_int, m: c_int, o: i64, l: i64) -> c_int {
    if in_sim() && is_fd(fd) {
        return change(fd, b"", true, "allocated space for", "fallocate", |f| {
            let i = f.ino.unwrap();
            if m & 1 == 0 { if let Some(d) = &mut sim().ino[i].data { let e = (o + l).clamp(0, 1 << 30) as usize; if d.len() < e { d.resize(e, 0); } } }
            Ok(0)
        }).unwrap();
    }
    pass(285, fd as usize, m as usize, o as usize, l as usize, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: i64, l: i64) -> c_int { fallocate(fd, m, o, l) }
#[no_mangle] pub unsafe extern "C" fn posix_fallocate(fd: c_int, o: i64, l: i64) -> c_int { if fallocate(fd, 0, o, l) == 0 { 0 } else { os::errno() } }
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(fd: c_int, o: i64, l: i64) -> c_int { posix_fallocate(fd, o, l) }
#[no_mangle] pub unsafe extern "C" fn setxattr(p: *const c_char, n: *const c_char, v: *const c_void, l: size_t, f: c_int) -> c_int {
    change(libc::AT_FDCWD, cs(p), true, "set an attribute of", "setxattr", there).unwrap_or_else(|| pass(188, p as usize, n as usize, v as usize, l, f as usize, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn lsetxattr(p: *const c_char, n: *const c_char, v: *const c_void, l: size_t, f: c_int) -> c_int {
    change(libc::AT_FDCWD, cs(p), false, "set an attribute of", "setxattr", there).unwrap_or_else(|| pass(189, p as usize, n as usize, v as usize, l, f as usize, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn fsetxattr(fd: c_int, n: *const c_char, v: *const c_void, l: size_t, f: c_int) -> c_int {
    if in_sim() && is_fd(fd) { return change(fd, b"", true, "set an attribute of", "setxattr", there).unwrap(); }
    pass(190, fd as usize, n as usize, v as usize, l, f as usize, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, o: i64) -> ssize_t {
    if in_sim() && is_fd(fd) {
        let was = ofd(fd).pos;
        ofd(fd).pos = o as u64;
        let r = write(fd, p, n);
        ofd(fd).pos = was;
        return r;
    }
    pass(18, fd as usize, p as usize, n, o as usize, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, p: *const c_void, n: size_t, o: i64) -> ssize_t { pwrite64(fd, p, n, o) }

/// The working directory is the process's, all its threads share it.
#[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    change(libc::AT_FDCWD, cs(p), true, "changed the working directory to", "chdir", |f| { let i = f.ino.ok_or(libc::ENOENT)?; if sim().ino[i].kind != Kind::Dir { return Err(libc::ENOTDIR); } sim().cwd = f.canon; Ok(0) })
        .unwrap_or_else(|| pass(80, p as usize, 0, 0, 0, 0, 0) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn fchdir(fd: c_int) -> c_int {
    if in_sim() && is_fd(fd) {
        return change(fd, b"", true, "changed the working directory to", "chdir", |f| { if sim().ino[f.ino.unwrap()].kind != Kind::Dir { return Err(libc::ENOTDIR); } sim().cwd = f.canon; Ok(0) }).unwrap();
    }
    pass(81, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if in_sim() && !sim().cwd.is_empty() && !buf.is_null() {
        let mut b = Busy::new();
        let mut v = ROOT.to_vec();
        if sim().cwd != b"/" { v.extend_from_slice(&sim().cwd); }
        if v.len() + 1 > n { b.fail(libc::ERANGE); return std::ptr::null_mut(); }
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
        *buf.add(v.len()) = 0;
        return buf;
    }
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if in_sim() && !p.is_null() {
        let mut b = Busy::new();
        if let Some(x) = os::resolve(libc::AT_FDCWD, cs(p), true) {
            let pre = match &x { Ok(f) => f.canon.clone(), _ => b"?".to_vec() };
            if let Trig::Errno(e) = trigger("realpath", &pre) { b.fail(e); return std::ptr::null_mut(); }
            let f = match x { Ok(f) if f.ino.is_some() => f, Ok(_) => { b.fail(libc::ENOENT); return std::ptr::null_mut(); } Err(e) => { b.fail(e); return std::ptr::null_mut(); } };
            let mut v = ROOT.to_vec();
            if f.canon != b"/" { v.extend_from_slice(&f.canon); }
            let o = if out.is_null() { libc::malloc(v.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(v.as_ptr(), o as *mut u8, v.len());
            *o.add(v.len()) = 0;
            return o;
        }
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}

// ------------------------------------------------------------- time, randomness, cpus

#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sim() {
        let _b = Busy::new();
        let n = clock_read();
        (*ts).tv_sec = (n / 1_000_000_000) as i64; (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    pass(228, c as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, f: u32) -> ssize_t {
    if in_sim() { let _b = Busy::new(); random_bytes(std::slice::from_raw_parts_mut(p as *mut u8, n)); return n as ssize_t; }
    pass(318, p as usize, n, f as usize, 0, 0, 0)
}
#[no_mangle] pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut u8) -> c_int {
    if in_sim() {
        std::ptr::write_bytes(set, 0, n);
        let k = sim().cpus as usize;
        for i in 0..k { *set.add(i / 8) |= 1 << (i % 8); }
        return 0;
    }
    let r = pass(204, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 { return -1; }
    if (r as usize) < n { std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize); }
    0
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() { let _b = Busy::new(); event(0x4e1d, true); return 0; }
    pass(24, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if in_sim() { let _b = Busy::new(); sleep_ns(((*a).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*a).tv_nsec as u64)); return 0; }
    pass(35, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if in_sim() {
        let _b = Busy::new();
        let n = ((*a).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*a).tv_nsec as u64);
        let n = if f & libc::TIMER_ABSTIME != 0 { n.saturating_sub((sim().now as i64 + sim().skew).max(0) as u64) } else { n };
        sleep_ns(n);
        return 0;
    }
    -(sys6(230, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int)
}

// ------------------------------------------------------------- futex

unsafe fn futex(addr: usize, op: c_int, val: u32, ts: *const libc::timespec, bits: u32) -> c_long {
    let mut b = Busy::new();
    let cmd = op & 0x7f & !256;
    match cmd {
        0 | 9 => {
            let dl = if ts.is_null() { NEVER } else {
                let n = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
                // absolute times were derived from the skewed clock
                if cmd == 9 { (n as i64).saturating_sub(sim().skew).max(0) as u64 } else { sim().now.saturating_add(n) }
            };
            match futex_wait(addr, val, if cmd == 9 { bits } else { !0 }, dl) { 0 => 0, e => { b.fail(e); -1 } }
        }
        1 | 10 => futex_wake(addr, val, if cmd == 10 { bits } else { !0 }) as c_long,
        _ => { b.fail(libc::ENOSYS); -1 }
    }
}

#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_sim() {
        match n {
            202 => return futex(a, b as c_int, c as u32, d as *const libc::timespec, f as u32),
            318 => return getrandom(a as *mut c_void, b, c as u32) as c_long,
            332 => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
            326 => return copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e, f as u32) as c_long,
            24 => return sched_yield() as c_long,
            _ => {}
        }
    }
    pass(n, a, b, c, d, e, f) as c_long
}

// ------------------------------------------------------------- threads

struct Start { f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void, id: u32, token: &'static AtomicU32 }
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let (f, arg, id, token) = (s.f, s.arg, s.id, s.token);
    drop(s);
    thread_begin(id, token);
    let r = f(arg);
    thread_end();
    r
}
type PC = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real = real!("pthread_create", PC);
    if !in_sim() { return real(t, at, f, arg); }
    let _b = Busy::new();
    if let Trig::Errno(e) = trigger("thread", b"create") { return e; }
    let (id, token) = thread_register();
    let p = Box::into_raw(Box::new(Start { f, arg, id, token }));
    let r = real(t, at, trampoline, p as *mut c_void);
    if r != 0 { thread_unregister(id); drop(Box::from_raw(p)); return r; }
    sim().th[id as usize - 1].pthread = *t as u64;
    event(0x7c, false);
    r
}
#[no_mangle] pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if in_sim() {
        let _b = Busy::new();
        // handles are reused after a join: the newest match is the right one
        let id = sim().th.iter().rposition(|x| x.pthread == t as u64);
        if let Some(i) = id { join(i as u32 + 1); sim().th[i].pthread = 0; }
    }
    real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, r)
}

/// Called from main so that the linker keeps every symbol above.
/// every basic block of the instrumented crates (tools/rustc-points)
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc() { os::point() }
#[no_mangle] pub extern "C" fn simos_point() { os::point() }

pub fn keep() -> usize {
    static K: AtomicU32 = AtomicU32::new(0);
    let v: [usize; 13] = [__sanitizer_cov_trace_pc as usize, open64 as usize, openat as usize, read as usize, write as usize, syscall as usize, statx as usize,
        pthread_create as usize, readdir64 as usize, fdopendir as usize, clock_gettime as usize, close as usize, getrandom as usize];
    K.store(v.iter().fold(0, |a, b| a ^ *b) as u32, Relaxed);
    v.len()
}
