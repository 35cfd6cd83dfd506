//! Definitions of the libc symbols the program reaches the system through.
//! Inside a simulated process they act on the simulated machine; in the
//! driver they pass straight to the kernel.
use crate::rt::{self, St, active, block, g, point, wake};
use crate::spec::*;
use crate::sys;
use crate::vfs::{Data, Fd, FdKind, Ino, R};
use libc::*;
use std::ffi::CStr;

static mut ARGV: *mut *const c_char = std::ptr::null_mut();
static mut ARGC: i32 = 0;

extern "C" fn grab_args(argc: i32, argv: *mut *const c_char, _env: *const u8) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}
#[used]
#[unsafe(link_section = ".init_array.00001")]
static GRAB: extern "C" fn(i32, *mut *const c_char, *const u8) = grab_args;

pub fn argc() -> i32 {
    unsafe { ARGC }
}

/// Replace the process arguments (std reads argv up to the first NULL).
pub fn set_args(args: &[String]) {
    unsafe {
        if args.len() + 1 > ARGC as usize {
            rt::harness_fail("too many arguments");
        }
        for (i, a) in args.iter().enumerate() {
            let c = std::ffi::CString::new(a.as_str()).unwrap_or_default();
            *ARGV.add(i) = c.into_raw();
        }
        *ARGV.add(args.len()) = std::ptr::null();
    }
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e };
}
fn fail<T: From<i8>>(e: i32) -> T {
    set_errno(e);
    T::from(-1)
}
fn raw_ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn cstr<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    unsafe { CStr::from_ptr(p) }.to_string_lossy()
}
fn inactive<T: From<i8>>() -> T {
    fail(ENOSYS)
}

// ---------------------------------------------------------------- file ops

struct Op {
    op: &'static str,
    path: String,
    nth: u32,
    act: Option<Act>,
}

/// Enter a file-system operation: environment changes, scheduling, faults.
fn enter(op: &'static str, path: &str) -> Op {
    enter_q(op, path, false)
}
fn enter_q(op: &'static str, path: &str, quiet: bool) -> Op {
    let h = hash_bytes(3, path.as_bytes());
    point(op, h & 0xffff_ffff);
    let s = g();
    if !quiet {
        mutations(s);
    }
    let n = s
        .op_count
        .entry((op.to_string(), path.to_string()))
        .or_insert(0);
    *n += 1;
    let nth = *n;
    let mut act = None;
    for (i, f) in s.ex.faults.iter().enumerate() {
        let any = f.op == "*" || (f.op == "stat*" && (op == "stat" || op == "lstat"));
        if f.op != op && !any {
            continue;
        }
        let hit = if f.path == path && f.op == op {
            f.nth == nth || f.nth == 0
        } else if f.path == path
            || f.path
                .strip_suffix('*')
                .is_some_and(|p| path.starts_with(p))
            || f.path.strip_prefix('*').is_some_and(|p| path.ends_with(p))
        {
            // A pattern: count its own matches; 0 means every one of them.
            let c = s.fault_hits.entry(i).or_insert(0);
            *c += 1;
            f.nth == *c || f.nth == 0
        } else {
            false
        };
        if hit && act.is_none() {
            act = Some(f.act.clone());
        }
    }
    if let Some(a) = &act {
        s.fired.push(Fault {
            op: op.into(),
            path: path.into(),
            nth,
            act: a.clone(),
        });
        if s.ex.trace {
            let l = format!("         fault {op} {path} #{nth}: {a:?}");
            s.trace.push(l);
        }
    }
    let o = Op {
        op,
        path: path.to_string(),
        nth,
        act,
    };
    match &o.act {
        Some(Act::Kill) => {
            leave(&o, -9999);
            rt::finish(Status::Killed);
        }
        Some(Act::PowerLoss(seed)) => {
            leave(&o, -9999);
            g().vfs.power_loss(*seed);
            rt::finish(Status::Killed);
        }
        Some(Act::Stall(ms)) => {
            rt::sleep_ns(ms * 1_000_000);
        }
        _ => {}
    }
    o
}
fn leave(o: &Op, res: i64) {
    let s = g();
    s.log_hash = mix(s.log_hash, res as u64 & 0xffff_ffff);
    if s.ex.trace {
        let l = format!("         {} {} #{} = {}", o.op, o.path, o.nth, res);
        s.trace.push(l);
    }
    if o.path.starts_with('<') && o.act.is_none() {
        return;
    }
    let rec = OpRec {
        op: o.op.to_string(),
        path: o.path.clone(),
        nth: o.nth,
        res,
        tid: rt::tid(),
        fault: o.act.is_some(),
    };
    s.ops.push(rec);
    if s.ops.len() > MAX_OPS {
        rt::finish(Status::StepLimit);
    }
}
/// More system calls than any scenario needs: such a run counts as one that does not end.
const MAX_OPS: usize = 300_000;
fn errno_of(o: &Op) -> Option<i32> {
    match &o.act {
        Some(Act::Errno(e)) => Some(*e),
        _ => None,
    }
}

fn mutations(s: &mut rt::Sim) {
    if let Actor::Mutator(ms) = &mut s.ex.actor {
        while let Some(m) = ms.first_mut() {
            if m.wait > 0 {
                m.wait -= 1;
                return;
            }
            let m = ms.remove(0);
            match &m.node {
                Some(n) => s.vfs.put(&m.path, n),
                None => s.vfs.remove_tree(&m.path),
            }
            rt::event("mutate", m.path.clone(), None);
        }
    }
}

fn run<T>(o: Op, f: impl FnOnce(&mut rt::Sim) -> R<T>) -> R<T> {
    if let Some(e) = errno_of(&o) {
        leave(&o, -(e as i64));
        return Err(e);
    }
    let r = f(g());
    leave(
        &o,
        match &r {
            Ok(_) => 0,
            Err(e) => -(*e as i64),
        },
    );
    r
}

fn do_open(base: &str, path: &str, flags: i32, mode: u32) -> i32 {
    let abs = g().vfs.abs(base, path);
    let w = flags & O_ACCMODE != O_RDONLY;
    let o = enter(if w { "openw" } else { "open" }, &abs);
    match run(o, |s| s.vfs.open(base, path, flags, mode)) {
        Ok(fd) => fd,
        Err(e) => fail(e),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(sys::OPEN, path as i64, flags as i64, mode as i64) })
            as i32;
    }
    let cwd = g().vfs.cwd.clone();
    do_open(&cwd, &unsafe { cstr(path) }, flags, mode)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: i32, mode: u32) -> i32 {
    unsafe { open64(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dirfd: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    if !active() {
        return inactive();
    }
    match g().vfs.base_of(dirfd) {
        Ok(b) => do_open(&b, &unsafe { cstr(path) }, flags, mode),
        Err(e) => fail(e),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dirfd: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    unsafe { openat64(dirfd, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: u32) -> i32 {
    unsafe { open64(path, O_WRONLY | O_CREAT | O_TRUNC, mode) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(sys::CLOSE, fd as i64, 0, 0) }) as i32;
    }
    let path = match g().vfs.fd(fd) {
        Ok(f) => f.path.clone(),
        Err(e) => return fail(e),
    };
    let o = enter_q("close", &path, true);
    g().vfs.fds.remove(&fd);
    // Linux closes the descriptor even when close reports an error.
    match run(o, |_| Ok(())) {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}

fn fd_of(fd: i32) -> R<Fd> {
    g().vfs.fd(fd).cloned()
}

fn do_read(fd: i32, buf: *mut u8, n: usize, at: Option<u64>) -> R<usize> {
    let f = fd_of(fd)?;
    let o = enter_q("read", &f.path, true);
    if let Some(e) = errno_of(&o) {
        leave(&o, -(e as i64));
        return Err(e);
    }
    let mut n = n;
    if let Some(Act::Short(k)) = &o.act {
        n = n.min((*k).max(1));
    }
    let r = match f.kind {
        FdKind::Stdin => read_stdin(buf, n),
        FdKind::Null => Ok(0),
        FdKind::Random => {
            let s = g();
            for i in 0..n {
                unsafe { *buf.add(i) = s.rnd.next() as u8 };
            }
            Ok(n)
        }
        FdKind::File | FdKind::Dir { .. } => {
            let s = g();
            match &s.vfs.inodes[f.ino].data {
                Data::File(b) => {
                    if f.flags & O_ACCMODE == O_WRONLY {
                        Err(EBADF)
                    } else {
                        let off = (at.unwrap_or(f.off) as usize).min(b.len());
                        let k = n.min(b.len() - off);
                        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr().add(off), buf, k) };
                        if at.is_none() {
                            s.vfs.fds.get_mut(&fd).unwrap().off = (off + k) as u64;
                        }
                        Ok(k)
                    }
                }
                _ => Err(EISDIR),
            }
        }
        FdKind::Stdout | FdKind::Stderr => Err(EBADF),
    };
    leave(
        &o,
        match &r {
            Ok(k) => *k as i64,
            Err(e) => -(*e as i64),
        },
    );
    r
}

fn read_stdin(buf: *mut u8, n: usize) -> R<usize> {
    if n == 0 {
        return Ok(0);
    }
    loop {
        let s = g();
        if !s.stdin.buf.is_empty() {
            let k = s.stdin.buf.len().min(n);
            let k = s.stdin.amount(k);
            for i in 0..k {
                unsafe { *buf.add(i) = s.stdin.buf.pop_front().unwrap() };
            }
            wake(rt::KEY_STDIN_W, u32::MAX, usize::MAX);
            return Ok(k);
        }
        if s.stdin.closed_w {
            return Ok(0);
        }
        block("read-stdin", rt::KEY_STDIN_R, u32::MAX, rt::NEVER);
    }
}

fn do_write(fd: i32, buf: *const u8, n: usize, at: Option<u64>) -> R<usize> {
    let f = fd_of(fd)?;
    let o = enter_q("write", &f.path, true);
    let data = unsafe { std::slice::from_raw_parts(buf, n) };
    let mut n = n;
    match &o.act {
        Some(Act::Errno(e)) => {
            leave(&o, -(*e as i64));
            return Err(*e);
        }
        Some(Act::Short(k)) => n = n.min((*k).max(1)),
        Some(Act::ShortThen(k, e)) => {
            n = n.min((*k).max(1));
            let next = Fault {
                op: "write".into(),
                path: f.path.clone(),
                nth: o.nth + 1,
                act: Act::Errno(*e),
            };
            g().ex.faults.push(next);
        }
        Some(Act::KillPartial(k)) => n = n.min(*k),
        _ => {}
    }
    let data = &data[..n.min(data.len())];
    let r = match f.kind {
        FdKind::Stdout => write_stdout(data),
        FdKind::Stderr => {
            let s = g();
            match s.ex.pipes.close_stderr_after {
                Some(k) if s.errb.len() >= k && n > 0 => Err(EPIPE),
                _ => {
                    s.errb.extend_from_slice(data);
                    Ok(data.len())
                }
            }
        }
        FdKind::Null => Ok(n),
        FdKind::File => {
            let s = g();
            if f.flags & O_ACCMODE == O_RDONLY {
                Err(EBADF)
            } else {
                let off = if f.flags & O_APPEND != 0 {
                    s.vfs.len(f.ino)
                } else {
                    at.unwrap_or(f.off)
                };
                s.vfs.write_at(f.ino, off, data).map(|_| {
                    if at.is_none() {
                        s.vfs.fds.get_mut(&fd).unwrap().off = off + data.len() as u64;
                    }
                    data.len()
                })
            }
        }
        _ => Err(EBADF),
    };
    leave(
        &o,
        match &r {
            Ok(k) => *k as i64,
            Err(e) => -(*e as i64),
        },
    );
    if let Some(Act::KillPartial(_)) = &o.act {
        rt::finish(Status::Killed);
    }
    r
}

fn write_stdout(data: &[u8]) -> R<usize> {
    if data.is_empty() {
        return Ok(0);
    }
    if !g().stdout_is_pipe {
        let s = g();
        if let Some(k) = s.ex.pipes.close_stdout_after {
            if s.out.len() >= k {
                return Err(EPIPE);
            }
        }
        let mut n = data.len();
        if let Some(k) = s.ex.pipes.stdout_full_after {
            if s.out.len() >= k {
                return Err(ENOSPC);
            }
            n = n.min(k - s.out.len());
        }
        let n = s.stdout.amount(n);
        s.out.extend_from_slice(&data[..n]);
        return Ok(n);
    }
    loop {
        let s = g();
        if s.stdout.closed_r {
            return Err(EPIPE);
        }
        let space = s.stdout.cap.saturating_sub(s.stdout.buf.len());
        if space > 0 {
            let k = s.stdout.amount(data.len().min(space));
            s.stdout.buf.extend(&data[..k]);
            wake(rt::KEY_STDOUT_R, u32::MAX, usize::MAX);
            return Ok(k);
        }
        block("write-stdout", rt::KEY_STDOUT_W, u32::MAX, rt::NEVER);
    }
}

fn sz(r: R<usize>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !active() {
        return raw_ret(unsafe { sys::sc3(sys::READ, fd as i64, buf as i64, n as i64) }) as isize;
    }
    sz(do_read(fd, buf, n, None))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if !active() {
        return inactive();
    }
    sz(do_read(fd, buf, n, Some(off as u64)))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: i32, v: *const iovec, n: i32) -> isize {
    if !active() {
        return inactive();
    }
    for i in 0..n as usize {
        let e = unsafe { &*v.add(i) };
        if e.iov_len > 0 {
            return sz(do_read(fd, e.iov_base as *mut u8, e.iov_len, None));
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if !active() {
        return raw_ret(unsafe { sys::sc3(sys::WRITE, fd as i64, buf as i64, n as i64) }) as isize;
    }
    sz(do_write(fd, buf, n, None))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    if !active() {
        return inactive();
    }
    sz(do_write(fd, buf, n, Some(off as u64)))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, v: *const iovec, n: i32) -> isize {
    let mut all = Vec::new();
    for i in 0..n as usize {
        let e = unsafe { &*v.add(i) };
        all.extend_from_slice(unsafe {
            std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len)
        });
    }
    unsafe { write(fd, all.as_ptr(), all.len()) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !active() {
        return inactive();
    }
    let f = match fd_of(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    if !matches!(f.kind, FdKind::File) {
        return fail(ESPIPE);
    }
    let s = g();
    let base = match whence {
        SEEK_SET => 0,
        SEEK_CUR => f.off as i64,
        SEEK_END => s.vfs.len(f.ino) as i64,
        _ => return fail(EINVAL),
    };
    let n = base + off;
    if n < 0 {
        return fail(EINVAL);
    }
    s.vfs.fds.get_mut(&fd).unwrap().off = n as u64;
    n
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    unsafe { lseek64(fd, off, whence) }
}

// ---------------------------------------------------------------- metadata

fn fill(ino: Ino, st: *mut stat64) {
    let s = g();
    let n = &s.vfs.inodes[ino];
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        let st = &mut *st;
        st.st_dev = 1;
        st.st_ino = ino as u64 + 2;
        st.st_mode = n.mode;
        st.st_nlink = n.nlink as u64;
        st.st_uid = 1000;
        st.st_gid = 1000;
        st.st_size = s.vfs.len(ino) as i64;
        st.st_blksize = 4096;
        st.st_blocks = (st.st_size + 511) / 512;
        st.st_mtime = n.mtime as i64;
        st.st_ctime = n.mtime as i64;
        st.st_atime = n.mtime as i64;
    }
}
fn fill_pipe(st: *mut stat64) {
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        (*st).st_mode = S_IFIFO | 0o600;
        (*st).st_uid = 1000;
    }
}
fn do_stat(base: &str, path: &str, st: *mut stat64, follow: bool) -> i32 {
    let abs = g().vfs.abs(base, path);
    let o = enter(if follow { "stat" } else { "lstat" }, &abs);
    match run(o, |s| s.vfs.resolve(base, path, follow)) {
        Ok(i) => {
            fill(i, st);
            0
        }
        Err(e) => fail(e),
    }
}
fn do_fstat(fd: i32, st: *mut stat64) -> i32 {
    match fd_of(fd) {
        Ok(f) => {
            let o = enter_q("fstat", &f.path, true);
            if let Err(e) = run(o, |_| Ok(())) {
                return fail(e);
            }
            match f.kind {
                FdKind::File | FdKind::Dir { .. } => fill(f.ino, st),
                _ => fill_pipe(st),
            }
            0
        }
        Err(e) => fail(e),
    }
}
fn do_fstatat(dirfd: i32, path: &str, st: *mut stat64, flags: i32) -> i32 {
    if path.is_empty() && flags & AT_EMPTY_PATH != 0 {
        return do_fstat(dirfd, st);
    }
    match g().vfs.base_of(dirfd) {
        Ok(b) => do_stat(&b, path, st, flags & AT_SYMLINK_NOFOLLOW == 0),
        Err(e) => fail(e),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut stat64) -> i32 {
    if !active() {
        return inactive();
    }
    do_fstatat(AT_FDCWD, &unsafe { cstr(path) }, st, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut stat64) -> i32 {
    unsafe { stat64(path, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut stat64) -> i32 {
    if !active() {
        return inactive();
    }
    do_fstatat(AT_FDCWD, &unsafe { cstr(path) }, st, AT_SYMLINK_NOFOLLOW)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut stat64) -> i32 {
    unsafe { lstat64(path, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut stat64) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(5, fd as i64, st as i64, 0) }) as i32;
    }
    do_fstat(fd, st)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut stat64) -> i32 {
    unsafe { fstat64(fd, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(
    d: i32,
    path: *const c_char,
    st: *mut stat64,
    flags: i32,
) -> i32 {
    if !active() {
        return inactive();
    }
    do_fstatat(d, &unsafe { cstr(path) }, st, flags)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat(d: i32, path: *const c_char, st: *mut stat64, flags: i32) -> i32 {
    unsafe { fstatat64(d, path, st, flags) }
}
unsafe fn do_statx(d: i32, path: *const c_char, flags: i32, out: *mut statx) -> i32 {
    let mut st: stat64 = unsafe { std::mem::zeroed() };
    let p = if path.is_null() {
        "".into()
    } else {
        unsafe { cstr(path) }
    };
    let r = do_fstatat(d, &p, &mut st, flags);
    if r != 0 {
        return r;
    }
    unsafe {
        std::ptr::write_bytes(out, 0, 1);
        let x = &mut *out;
        x.stx_mask = STATX_BASIC_STATS;
        x.stx_blksize = 4096;
        x.stx_nlink = st.st_nlink as u32;
        x.stx_uid = st.st_uid;
        x.stx_gid = st.st_gid;
        x.stx_mode = st.st_mode as u16;
        x.stx_ino = st.st_ino;
        x.stx_size = st.st_size as u64;
        x.stx_blocks = st.st_blocks as u64;
        x.stx_mtime.tv_sec = st.st_mtime;
        x.stx_atime.tv_sec = st.st_mtime;
        x.stx_ctime.tv_sec = st.st_mtime;
        x.stx_dev_minor = 1;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    d: i32,
    path: *const c_char,
    flags: i32,
    mask: u32,
    out: *mut libc::statx,
) -> i32 {
    if !active() {
        return raw_ret(unsafe {
            sys::sc6(
                332,
                d as i64,
                path as i64,
                flags as i64,
                mask as i64,
                out as i64,
                0,
            )
        }) as i32;
    }
    unsafe { do_statx(d, path, flags, out) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, mode: i32) -> i32 {
    unsafe { faccessat(AT_FDCWD, path, mode, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn faccessat(d: i32, path: *const c_char, mode: i32, _flags: i32) -> i32 {
    if !active() {
        return inactive();
    }
    let b = match g().vfs.base_of(d) {
        Ok(b) => b,
        Err(e) => return fail(e),
    };
    let p = unsafe { cstr(path) };
    let abs = g().vfs.abs(&b, &p);
    let o = enter("access", &abs);
    let r = run(o, |s| {
        let i = s.vfs.resolve(&b, &p, true)?;
        let m = s.vfs.inodes[i].mode;
        if mode & R_OK != 0 && m & 0o400 == 0
            || mode & W_OK != 0 && m & 0o200 == 0
            || mode & X_OK != 0 && m & 0o100 == 0
        {
            return Err(EACCES);
        }
        Ok(())
    });
    unit(r)
}
fn unit(r: R<()>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        set_errno(ENOSYS);
        return std::ptr::null_mut();
    }
    let p = unsafe { cstr(path) };
    let abs = g().vfs.abs(&g().vfs.cwd.clone(), &p);
    let o = enter("realpath", &abs);
    match run(o, |s| s.vfs.realpath(&p)) {
        Ok(r) => unsafe {
            let buf = if out.is_null() {
                malloc(r.len() + 1) as *mut c_char
            } else {
                out
            };
            std::ptr::copy_nonoverlapping(r.as_ptr() as *const c_char, buf, r.len());
            *buf.add(r.len()) = 0;
            buf
        },
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if !active() {
        let r = raw_ret(unsafe { sys::sc3(79, buf as i64, n as i64, 0) });
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    let cwd = g().vfs.cwd.clone();
    let o = enter("getcwd", &cwd);
    match run(o, |s| s.vfs.resolve("/", &cwd, true)) {
        Ok(_) if cwd.len() < n => unsafe {
            std::ptr::copy_nonoverlapping(cwd.as_ptr() as *const c_char, buf, cwd.len());
            *buf.add(cwd.len()) = 0;
            buf
        },
        Ok(_) => {
            set_errno(ERANGE);
            std::ptr::null_mut()
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chdir(path: *const c_char) -> i32 {
    if !active() {
        return inactive();
    }
    let p = unsafe { cstr(path) };
    match g().vfs.realpath(&p) {
        Ok(r) => {
            g().vfs.cwd = r;
            0
        }
        Err(e) => fail(e),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: usize) -> isize {
    if !active() {
        return raw_ret(unsafe { sys::sc3(89, path as i64, buf as i64, n as i64) }) as isize;
    }
    let p = unsafe { cstr(path) };
    let cwd = g().vfs.cwd.clone();
    let abs = g().vfs.abs(&cwd, &p);
    let o = enter("readlink", &abs);
    match run(o, |s| s.vfs.readlink(&cwd, &p)) {
        Ok(t) => {
            let k = t.len().min(n);
            unsafe { std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, k) };
            k as isize
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

// ---------------------------------------------------------------- namespace

macro_rules! path_op {
    ($name:ident, $op:literal, ($($a:ident: $t:ty),*), |$s:ident, $b:ident, $p:ident| $body:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(path: *const c_char $(, $a: $t)*) -> i32 {
            if !active() {
                return inactive();
            }
            let $p = unsafe { cstr(path) };
            let $b = g().vfs.cwd.clone();
            let abs = g().vfs.abs(&$b, &$p);
            let o = enter($op, &abs);
            unit(run(o, |$s| $body))
        }
    };
}
path_op!(mkdir, "mkdir", (mode: u32), |s, b, p| s.vfs.mkdir(&b, &p, mode));
path_op!(rmdir, "rmdir", (), |s, b, p| s.vfs.unlink(&b, &p, true));
path_op!(unlink, "unlink", (), |s, b, p| s.vfs.unlink(&b, &p, false));
path_op!(chmod, "chmod", (mode: u32), |s, b, p| {
    let i = s.vfs.resolve(&b, &p, true)?;
    s.vfs.inodes[i].mode = (s.vfs.inodes[i].mode & !0o7777) | (mode & 0o7777);
    Ok(())
});
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(d: i32, path: *const c_char, flags: i32) -> i32 {
    if !active() {
        return inactive();
    }
    let p = unsafe { cstr(path) };
    let b = match g().vfs.base_of(d) {
        Ok(b) => b,
        Err(e) => return fail(e),
    };
    let abs = g().vfs.abs(&b, &p);
    let o = enter("unlink", &abs);
    unit(run(o, |s| s.vfs.unlink(&b, &p, flags & AT_REMOVEDIR != 0)))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdirat(d: i32, path: *const c_char, mode: u32) -> i32 {
    if !active() {
        return inactive();
    }
    let p = unsafe { cstr(path) };
    let b = match g().vfs.base_of(d) {
        Ok(b) => b,
        Err(e) => return fail(e),
    };
    let abs = g().vfs.abs(&b, &p);
    let o = enter("mkdir", &abs);
    unit(run(o, |s| s.vfs.mkdir(&b, &p, mode)))
}
fn do_rename(d1: i32, from: &str, d2: i32, to: &str, flags: u32) -> i32 {
    let (b1, b2) = match (g().vfs.base_of(d1), g().vfs.base_of(d2)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return fail(EBADF),
    };
    let abs = g().vfs.abs(&b2, to);
    let o = enter("rename", &abs);
    unit(run(o, |s| {
        s.vfs
            .rename(&b1, from, &b2, to, flags & RENAME_NOREPLACE != 0)
    }))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> i32 {
    if !active() {
        return inactive();
    }
    do_rename(
        AT_FDCWD,
        &unsafe { cstr(from) },
        AT_FDCWD,
        &unsafe { cstr(to) },
        0,
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat(d1: i32, from: *const c_char, d2: i32, to: *const c_char) -> i32 {
    if !active() {
        return inactive();
    }
    do_rename(d1, &unsafe { cstr(from) }, d2, &unsafe { cstr(to) }, 0)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat2(
    d1: i32,
    from: *const c_char,
    d2: i32,
    to: *const c_char,
    flags: u32,
) -> i32 {
    if !active() {
        return inactive();
    }
    do_rename(d1, &unsafe { cstr(from) }, d2, &unsafe { cstr(to) }, flags)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> i32 {
    if !active() {
        return inactive();
    }
    let (f, t) = unsafe { (cstr(from), cstr(to)) };
    let abs = g().vfs.abs(&g().vfs.cwd.clone(), &t);
    let o = enter("link", &abs);
    unit(run(o, |s| s.vfs.link(&f, &t)))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(
    _d1: i32,
    from: *const c_char,
    _d2: i32,
    to: *const c_char,
    _flags: i32,
) -> i32 {
    unsafe { link(from, to) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symlink(target: *const c_char, path: *const c_char) -> i32 {
    if !active() {
        return inactive();
    }
    let (t, p) = unsafe { (cstr(target), cstr(path)) };
    let abs = g().vfs.abs(&g().vfs.cwd.clone(), &p);
    let o = enter("symlink", &abs);
    unit(run(o, |s| s.vfs.symlink(&t, &p)))
}
macro_rules! fd_op {
    ($name:ident, $op:literal, ($($a:ident: $t:ty),*), |$s:ident, $f:ident| $body:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(fd: i32 $(, $a: $t)*) -> i32 {
            if !active() {
                return inactive();
            }
            let $f = match fd_of(fd) {
                Ok(f) => f,
                Err(e) => return fail(e),
            };
            let o = enter($op, &$f.path);
            unit(run(o, |$s| $body))
        }
    };
}
fd_op!(fchmod, "chmod", (mode: u32), |s, f| {
    if f.ino == usize::MAX {
        return Err(EINVAL);
    }
    s.vfs.inodes[f.ino].mode = (s.vfs.inodes[f.ino].mode & !0o7777) | (mode & 0o7777);
    Ok(())
});
fd_op!(fsync, "fsync", (), |s, f| {
    if f.ino == usize::MAX {
        return Err(EINVAL);
    }
    s.vfs.fsync(f.ino);
    Ok(())
});
fd_op!(fdatasync, "fsync", (), |s, f| {
    if f.ino == usize::MAX {
        return Err(EINVAL);
    }
    s.vfs.fsync(f.ino);
    Ok(())
});
fd_op!(ftruncate64, "truncate", (len: i64), |s, f| {
    let mut b = match s.vfs.inodes.get(f.ino).map(|i| &i.data) {
        Some(Data::File(b)) => b.clone(),
        _ => return Err(EINVAL),
    };
    b.resize(len as usize, 0);
    s.vfs.set_data(f.ino, b);
    Ok(())
});
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmodat(d: i32, path: *const c_char, mode: u32, _f: i32) -> i32 {
    let _ = d;
    unsafe { chmod(path, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchown(_fd: i32, _u: u32, _g: u32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chown(_p: *const c_char, _u: u32, _g: u32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn futimens(_fd: i32, _t: *const timespec) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn utimensat(
    _d: i32,
    _p: *const c_char,
    _t: *const timespec,
    _f: i32,
) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(_fd: i32, _op: i32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(
    _a: i32,
    _b: *mut i64,
    _c: i32,
    _d: *mut i64,
    _e: usize,
    _f: u32,
) -> isize {
    set_errno(ENOSYS);
    -1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(_a: i32, _b: i32, _c: *mut i64, _d: usize) -> isize {
    set_errno(EINVAL);
    -1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(72, fd as i64, cmd as i64, arg) }) as i32;
    }
    let f = match fd_of(fd) {
        Ok(f) => f,
        Err(e) => return fail(e),
    };
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => g().vfs.alloc_fd(f, arg as i32),
        F_GETFL => f.flags,
        F_GETFD => FD_CLOEXEC,
        _ => 0,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: i64) -> i32 {
    unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: i32) -> i32 {
    unsafe { fcntl(fd, F_DUPFD, 3) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup2(fd: i32, to: i32) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(33, fd as i64, to as i64, 0) }) as i32;
    }
    match fd_of(fd) {
        Ok(f) => {
            g().vfs.fds.insert(to, f);
            to
        }
        Err(e) => fail(e),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(_fd: i32, _r: u64, _a: i64) -> i32 {
    fail(ENOTTY)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn isatty(_fd: i32) -> i32 {
    set_errno(ENOTTY);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: u64, timeout: i32) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(7, fds as i64, n as i64, timeout as i64) }) as i32;
    }
    let deadline = if timeout < 0 {
        rt::NEVER
    } else {
        g().now + timeout as u64 * 1_000_000
    };
    loop {
        let mut ready = 0;
        for i in 0..n as usize {
            let p = unsafe { &mut *fds.add(i) };
            let s = g();
            p.revents = 0;
            match s.vfs.fds.get(&p.fd).map(|f| f.kind.clone()) {
                None => p.revents = POLLNVAL,
                Some(FdKind::Stdin) => {
                    if !s.stdin.buf.is_empty() {
                        p.revents = POLLIN;
                    } else if s.stdin.closed_w {
                        p.revents = POLLHUP;
                    }
                }
                _ => p.revents = p.events,
            }
            ready += (p.revents != 0) as i32;
        }
        if ready > 0 || g().now >= deadline {
            return ready;
        }
        block("poll", rt::KEY_STDIN_R, u32::MAX, deadline);
    }
}

// ---------------------------------------------------------------- directories

pub struct Dirp {
    fd: i32,
    ent: dirent64,
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut Dirp {
    if !active() {
        set_errno(ENOSYS);
        return std::ptr::null_mut();
    }
    let p = unsafe { cstr(path) };
    let cwd = g().vfs.cwd.clone();
    let abs = g().vfs.abs(&cwd, &p);
    let o = enter("opendir", &abs);
    let r = run(o, |s| {
        let i = s.vfs.resolve(&cwd, &p, true)?;
        let names = s.vfs.opendir_list(i)?;
        let fd = Fd {
            kind: FdKind::Dir { names, next: 0 },
            ino: i,
            off: 0,
            flags: O_RDONLY,
            path: abs.clone(),
        };
        Ok(s.vfs.alloc_fd(fd, 3))
    });
    match r {
        Ok(fd) => Box::into_raw(Box::new(Dirp {
            fd,
            ent: unsafe { std::mem::zeroed() },
        })),
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut Dirp {
    let s = g();
    let r = match s.vfs.fd(fd) {
        Ok(f) => {
            let ino = f.ino;
            s.vfs.opendir_list(ino)
        }
        Err(e) => Err(e),
    };
    match r {
        Ok(names) => {
            s.vfs.fds.get_mut(&fd).unwrap().kind = FdKind::Dir { names, next: 0 };
            Box::into_raw(Box::new(Dirp {
                fd,
                ent: unsafe { std::mem::zeroed() },
            }))
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut Dirp) -> *mut dirent64 {
    let dp = unsafe { &mut *d };
    let path = match g().vfs.fd(dp.fd) {
        Ok(f) => f.path.clone(),
        Err(e) => {
            set_errno(e);
            return std::ptr::null_mut();
        }
    };
    let o = enter_q("readdir", &path, true);
    let fdn = dp.fd;
    let r = run(o, |s| {
        if let Some(Fd {
            kind: FdKind::Dir { names, next },
            ..
        }) = s.vfs.fds.get_mut(&fdn)
        {
            let e = names.get(*next).cloned();
            *next += 1;
            Ok(e)
        } else {
            Err(EBADF)
        }
    });
    match r {
        Ok(Some((name, ino, t))) => {
            dp.ent.d_ino = ino as u64 + 2;
            dp.ent.d_type = t;
            let n = name.len().min(255);
            for (i, b) in name.bytes().take(n).enumerate() {
                dp.ent.d_name[i] = b as c_char;
            }
            dp.ent.d_name[n] = 0;
            dp.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
            &mut dp.ent
        }
        Ok(None) => std::ptr::null_mut(),
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir(d: *mut Dirp) -> *mut dirent64 {
    unsafe { readdir64(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut Dirp) -> i32 {
    let b = unsafe { Box::from_raw(d) };
    g().vfs.fds.remove(&b.fd);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut Dirp) -> i32 {
    unsafe { (*d).fd }
}

// ---------------------------------------------------------------- time, randomness

fn now_ts(clock: i32) -> (i64, i64) {
    let mut t = g().now;
    if clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_COARSE {
        t += 1_790_000_000_000_000_000;
    }
    ((t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut timespec) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(228, clock as i64, ts as i64, 0) }) as i32;
    }
    point("clock", clock as u64);
    let (s, n) = now_ts(clock);
    unsafe {
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
    }
    0
}
fn to_ns(ts: *const timespec) -> u64 {
    unsafe {
        ((*ts).tv_sec.max(0) as u64)
            .saturating_mul(1_000_000_000)
            .saturating_add((*ts).tv_nsec.max(0) as u64)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> i32 {
    if !active() {
        return raw_ret(unsafe { sys::sc3(35, req as i64, rem as i64, 0) }) as i32;
    }
    rt::sleep_ns(to_ns(req));
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    clock: i32,
    flags: i32,
    req: *const timespec,
    _rem: *mut timespec,
) -> i32 {
    if !active() {
        return -raw_ret(unsafe { sys::sc6(230, clock as i64, flags as i64, req as i64, 0, 0, 0) })
            as i32;
    }
    let mut ns = to_ns(req);
    if flags & TIMER_ABSTIME != 0 {
        let (s, n) = now_ts(clock);
        ns = ns.saturating_sub(s as u64 * 1_000_000_000 + n as u64);
    }
    rt::sleep_ns(ns);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    if !active() {
        // The driver itself is deterministic as well.
        for i in 0..n {
            unsafe { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) };
        }
        return n as isize;
    }
    point("getrandom", n as u64);
    let s = g();
    for i in 0..n {
        unsafe { *buf.add(i) = s.rnd.next() as u8 };
    }
    n as isize
}

// ---------------------------------------------------------------- threads

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(
    out: *mut u64,
    attr: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    if !active() {
        return unsafe { (rt::real().create)(out, attr, f, arg) };
    }
    let o = enter_q("thread", "<thread>", true);
    if let Some(e) = errno_of(&o) {
        leave(&o, -(e as i64));
        return e;
    }
    match rt::spawn_raw("thread", attr, f, arg) {
        Ok(t) => {
            unsafe { *out = 0x7000_0000 + t as u64 };
            point("spawn", t as u64);
            0
        }
        Err(e) => e,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(id: u64, out: *mut *mut u8) -> i32 {
    if !active() {
        return unsafe { (rt::real().join)(id, out) };
    }
    let t = id.wrapping_sub(0x7000_0000) as usize;
    if t >= g().ths.len() {
        return ESRCH;
    }
    point("join", t as u64);
    if g().ths[t].st != St::Done {
        rt::join(t);
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_detach(_id: u64) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_setname_np(_id: u64, _n: *const c_char) -> i32 {
    if active() && !rt::exiting() {
        let t = rt::tid() as usize;
        if t < g().ths.len() {
            g().ths[t].name = unsafe { cstr(_n) }.into_owned();
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !active() {
        return 0;
    }
    rt::yield_now("yield");
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, n: usize, mask: *mut u8) -> i32 {
    if !active() {
        return inactive();
    }
    let c = g().ex.cpus.clamp(1, 64) as usize;
    unsafe {
        std::ptr::write_bytes(mask, 0, n);
        for i in 0..c {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettid() -> i32 {
    if !active() {
        return sys::getpid();
    }
    4000 + rt::tid() as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getuid() -> u32 {
    1000
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn geteuid() -> u32 {
    1000
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> i32 {
    if active() { 4000 } else { sys::getpid() }
}

fn futex(addr: u64, op: i32, val: u32, timeout: *const timespec, val3: u32) -> R<i64> {
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            let s = g();
            let id = rt::futex_id(s, addr);
            point("futex-wait", id);
            if unsafe { (addr as *const u32).read_volatile() } != val {
                return Err(EAGAIN);
            }
            let deadline = if timeout.is_null() {
                rt::NEVER
            } else {
                let t = to_ns(timeout);
                if cmd == 0 {
                    g().now.saturating_add(t)
                } else if op & 256 != 0 {
                    t.saturating_sub(1_790_000_000_000_000_000)
                } else {
                    t
                }
            };
            if deadline <= g().now {
                return Err(ETIMEDOUT);
            }
            let bits = if cmd == 9 { val3 } else { u32::MAX };
            if block("futex-block", addr, bits, deadline) {
                Ok(0)
            } else {
                Err(ETIMEDOUT)
            }
        }
        1 | 10 => {
            let bits = if cmd == 10 { val3 } else { u32::MAX };
            let n = wake(addr, bits, val as i32 as usize);
            let s = g();
            let id = rt::futex_id(s, addr);
            point("futex-wake", id);
            Ok(n as i64)
        }
        3 | 4 => Ok(wake(addr, u32::MAX, usize::MAX) as i64),
        _ => Err(ENOSYS),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !active() {
        if n == 318 {
            return unsafe { getrandom(a as *mut u8, b as usize, 0) } as i64;
        }
        return raw_ret(unsafe { sys::sc6(n, a, b, c, d, e, f) });
    }
    match n {
        202 => match futex(a as u64, b as i32, c as u32, d as *const timespec, f as u32) {
            Ok(v) => v,
            Err(e) => {
                set_errno(e);
                -1
            }
        },
        318 => unsafe { getrandom(a as *mut u8, b as usize, 0) as i64 },
        186 => unsafe { gettid() as i64 },
        332 => unsafe {
            do_statx(
                a as i32,
                b as *const c_char,
                c as i32,
                e as *mut libc::statx,
            ) as i64
        },
        24 => unsafe { sched_yield() as i64 },
        _ => {
            *g().unknown.entry(format!("syscall {n}")).or_insert(0) += 1;
            set_errno(ENOSYS);
            -1
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if active() {
        rt::finish(Status::Exit(code & 255));
    }
    sys::exit_group(code)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn _exit(code: i32) -> ! {
    unsafe { exit(code) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn abort() -> ! {
    if active() {
        rt::finish(Status::Signal(6));
    }
    sys::exit_group(98)
}

// ---------------------------------------------------------------- coverage

static mut GUARDS: u32 = 0;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            GUARDS += 1;
            *p = GUARDS;
            p = p.add(1);
        }
    }
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        rt::POS += 1;
        if !rt::COV.is_null() {
            *rt::COV.add(*g as usize & (rt::COV_LEN - 1)) = 1;
        }
        if rt::POS >= rt::TRIGGER {
            rt::edge_trigger();
        }
    }
}

/// A load or store of the server's code: a place to preempt like an edge.
#[inline]
fn mem_access() {
    unsafe {
        rt::POS += 1;
        if rt::POS >= rt::TRIGGER {
            rt::edge_trigger();
        }
    }
}
macro_rules! accesses {
    ($($n:ident),*) => { $(#[unsafe(no_mangle)] pub extern "C" fn $n(_a: *const u8) { mem_access() })* };
}
accesses!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);
