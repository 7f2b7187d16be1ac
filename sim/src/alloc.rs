//! Global allocator: inside a simulated process all heap memory comes from an arena at a fixed
//! address, so that nothing in a run depends on address-space randomisation or on earlier runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Arena;
const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 64 << 30;
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(BASE);
const CLASSES: usize = 40;
/// blocks of this class (16 MiB) and above are never written by the allocator except for their first word
const BIG: usize = 24;
static mut FREE: [usize; CLASSES] = [0; CLASSES];

fn lock() { while LOCK.swap(true, Acquire) { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, Release); }
fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(32).next_power_of_two();
    n.trailing_zeros() as usize
}
pub fn activate() {
    unsafe {
        let p = libc::mmap(BASE as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != BASE { libc::_exit(97); }
    }
    ON.store(true, SeqCst);
}
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) { return System.alloc(l); }
        let c = class(&l);
        lock();
        let p = if FREE[c] != 0 {
            let p = FREE[c];
            FREE[c] = *(p as *const usize);
            p
        } else {
            let n = 1usize << c;
            let a = n.min(4096);
            let p = (NEXT.load(Relaxed) + a - 1) & !(a - 1);
            let p = (p + l.align() - 1) & !(l.align() - 1);
            if p + n > BASE + SIZE { unlock(); return std::ptr::null_mut(); }
            NEXT.store(p + n, Relaxed);
            p
        };
        unlock();
        dstplan::ffi::LIVE.fetch_add(l.size(), Relaxed);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= BASE && a < BASE + SIZE {
            let c = class(&l);
            dstplan::ffi::LIVE.fetch_sub(l.size(), Relaxed);
            // give the memory of large blocks back; they read as zeroes afterwards
            if c >= BIG { libc::madvise(a as *mut _, 1 << c, libc::MADV_DONTNEED); }
            lock();
            *(a as *mut usize) = FREE[c];
            FREE[c] = a;
            unlock();
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) { return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, if class(&l) >= BIG { 8 } else { l.size() }); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let inside = a >= BASE && a < BASE + SIZE;
        if !inside && !ON.load(Relaxed) { return System.realloc(p, l, n); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if inside && class(&l) == class(&nl) { dstplan::ffi::LIVE.fetch_add(n.wrapping_sub(l.size()), Relaxed); return p; }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
