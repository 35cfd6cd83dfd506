//! Raw Linux x86-64 system calls. The simulator defines the libc symbols
//! itself, so everything it needs from the real kernel goes through here.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
             options(nostack));
    }
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    unsafe { sc6(n, a, b, c, 0, 0, 0) }
}

pub const READ: i64 = 0;
pub const WRITE: i64 = 1;
pub const OPEN: i64 = 2;
pub const CLOSE: i64 = 3;
pub const FUTEX: i64 = 202;

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc3(WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn out(s: &str) {
    write_all(1, s.as_bytes());
}
pub fn err(s: &str) {
    write_all(2, s.as_bytes());
}

pub fn read_file(path: &str) -> Result<Vec<u8>, i32> {
    let mut p = path.as_bytes().to_vec();
    p.push(0);
    unsafe {
        let fd = sc3(OPEN, p.as_ptr() as i64, 0o2000000, 0);
        if fd < 0 {
            return Err(-fd as i32);
        }
        let mut v = Vec::new();
        let mut buf = vec![0u8; 65536];
        loop {
            let n = sc3(READ, fd, buf.as_mut_ptr() as i64, buf.len() as i64);
            if n == -4 {
                continue;
            }
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        sc3(CLOSE, fd, 0, 0);
        Ok(v)
    }
}

pub fn write_file(path: &str, data: &[u8]) -> Result<(), i32> {
    let tmp = format!("{path}.tmp{}", getpid());
    let mut p = tmp.as_bytes().to_vec();
    p.push(0);
    let mut q = path.as_bytes().to_vec();
    q.push(0);
    unsafe {
        let fd = sc3(
            OPEN,
            p.as_ptr() as i64,
            0o1 | 0o100 | 0o1000 | 0o2000000,
            0o644,
        );
        if fd < 0 {
            return Err(-fd as i32);
        }
        write_all(fd as i32, data);
        sc3(CLOSE, fd, 0, 0);
        sc3(82, p.as_ptr() as i64, q.as_ptr() as i64, 0); // rename
    }
    Ok(())
}

pub fn mkdir_p(path: &str) {
    let mut cur = String::new();
    for part in path.split('/') {
        if part.is_empty() {
            cur.push('/');
            continue;
        }
        if !cur.ends_with('/') && !cur.is_empty() {
            cur.push('/');
        }
        cur.push_str(part);
        let mut p = cur.as_bytes().to_vec();
        p.push(0);
        unsafe { sc3(83, p.as_ptr() as i64, 0o755, 0) };
    }
}

pub fn getpid() -> i32 {
    unsafe { sc3(39, 0, 0, 0) as i32 }
}
/// Raw fork: the driver processes are single-threaded.
pub fn fork() -> i32 {
    unsafe extern "C" {
        fn fork() -> i32;
    }
    unsafe { fork() }
}
pub fn wait4(pid: i32, nohang: bool) -> Option<(i32, i32)> {
    let mut st: i32 = 0;
    loop {
        let r = unsafe {
            sc6(
                61,
                pid as i64,
                &mut st as *mut i32 as i64,
                nohang as i64,
                0,
                0,
                0,
            )
        };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return None;
        }
        return Some((r as i32, st));
    }
}
pub fn kill(pid: i32, sig: i32) {
    unsafe { sc3(62, pid as i64, sig as i64, 0) };
}
pub fn exit_group(code: i32) -> ! {
    unsafe { sc3(231, code as i64, 0, 0) };
    unreachable!()
}
pub fn mmap_shared(len: usize) -> *mut u8 {
    let r = unsafe { sc6(9, 0, len as i64, 3, 0x21 | 0x4000, -1, 0) };
    assert!(r > 0, "mmap failed {r}");
    r as *mut u8
}
/// Private memory at a fixed address.
pub fn mmap_at(at: usize, len: usize) -> i64 {
    // PRIVATE | ANONYMOUS | NORESERVE | FIXED_NOREPLACE
    unsafe {
        sc6(
            9,
            at as i64,
            len as i64,
            3,
            0x2 | 0x20 | 0x4000 | 0x100000,
            -1,
            0,
        )
    }
}
/// Real monotonic nanoseconds, for budgets and rates in the driver only.
pub fn real_now() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sc3(228, 1, ts.as_mut_ptr() as i64, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub fn usleep(us: u64) {
    let ts = [(us / 1_000_000) as i64, ((us % 1_000_000) * 1000) as i64];
    unsafe { sc3(35, ts.as_ptr() as i64, 0, 0) };
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { sc6(FUTEX, addr as i64, 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake(addr: *const u32) {
    unsafe { sc6(FUTEX, addr as i64, 129, 1, 0, 0, 0) };
}
pub fn pin_cpu(cpu: usize) {
    let mut mask = [0u64; 16];
    mask[cpu / 64] |= 1 << (cpu % 64);
    unsafe { sc3(203, 0, 128, mask.as_ptr() as i64) };
}
pub fn cpus() -> Vec<usize> {
    let mut mask = [0u64; 16];
    let r = unsafe { sc3(204, 0, 128, mask.as_mut_ptr() as i64) };
    let mut v = vec![];
    if r > 0 {
        for i in 0..1024 {
            if mask[i / 64] >> (i % 64) & 1 == 1 {
                v.push(i);
            }
        }
    }
    if v.is_empty() { vec![0] } else { v }
}
/// Ask for a fixed address-space layout; returns true if it was not set yet.
pub fn disable_aslr() -> bool {
    unsafe {
        let cur = sc3(135, 0xffffffff, 0, 0);
        if cur & 0x0040000 != 0 {
            return false;
        }
        sc3(135, cur | 0x0040000, 0, 0) >= 0
    }
}

pub fn die_with_parent() {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, 9) };
}
/// Limit this process's address space.
pub fn limit_memory(bytes: u64) {
    let l = [bytes, bytes];
    unsafe { sc3(160, 9, l.as_ptr() as i64, 0) };
}
