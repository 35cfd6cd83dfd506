//! The heap of a simulated process: an arena at a fixed address, so that
//! the layout of the heap, and code depending on it (alignment of buffers),
//! does not vary with what the driver process did before.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

const BASE: usize = 0x10_0000_0000;
const SIZE: usize = 3 << 30;

pub struct Arena;
#[global_allocator]
static ARENA: Arena = Arena;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(BASE);
// Free blocks by size class (powers of two), linked through their first word.
static FREE: [AtomicUsize; 40] = [const { AtomicUsize::new(0) }; 40];

/// From now on, this process allocates from the arena.
pub fn enter() {
    let r = crate::sys::mmap_at(BASE, SIZE);
    if r != BASE as i64 {
        crate::rt::harness_fail(&format!("no room for the heap: {r}"));
    }
    ON.store(true, Relaxed);
}
fn class(l: &Layout) -> u32 {
    l.size()
        .max(l.align())
        .max(16)
        .next_power_of_two()
        .trailing_zeros()
}
struct Guard;
fn lock() -> Guard {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Release);
    }
}
fn inside(p: *mut u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}
unsafe fn take(l: &Layout) -> (*mut u8, bool) {
    let c = class(l);
    let _g = lock();
    let p = FREE[c as usize].load(Relaxed);
    if p != 0 {
        FREE[c as usize].store(unsafe { *(p as *const usize) }, Relaxed);
        return (p as *mut u8, false);
    }
    let n = 1usize << c;
    let at = (NEXT.load(Relaxed) + n.min(4096) - 1) & !(n.min(4096) - 1);
    if at + n > BASE + SIZE {
        return (std::ptr::null_mut(), false);
    }
    NEXT.store(at + n, Relaxed);
    (at as *mut u8, true)
}
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) || l.align() > 4096 {
            return unsafe { System.alloc(l) };
        }
        unsafe { take(&l).0 }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) || l.align() > 4096 {
            return unsafe { System.alloc_zeroed(l) };
        }
        let (p, fresh) = unsafe { take(&l) };
        if !fresh && !p.is_null() {
            unsafe { p.write_bytes(0, l.size()) };
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !inside(p) {
            // The driver's.
            if !ON.load(Relaxed) {
                unsafe { System.dealloc(p, l) };
            }
            return;
        }
        let c = class(&l) as usize;
        let _g = lock();
        unsafe { *(p as *mut usize) = FREE[c].load(Relaxed) };
        FREE[c].store(p as usize, Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON.load(Relaxed) {
            return unsafe { System.realloc(p, l, n) };
        }
        let m = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
        if inside(p) && class(&l) == class(&m) {
            return p;
        }
        let q = unsafe { self.alloc(m) };
        if !q.is_null() {
            unsafe {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
        }
        q
    }
}
