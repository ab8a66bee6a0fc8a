//! Global allocator: a bump arena at a fixed address with size-class free lists. Addresses are a
//! function of the run (not of the host), and a task may have seeded padding, so that address
//! layout is one more environment input the scenario decides.
use crate::{rng::Rng, sys};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

const BASE: usize = 0x5000_0000_0000;
const SPAN: usize = 1 << 36;
pub struct Arena;

struct State {
    base: usize,
    next: usize,
    limit: usize,
    floor: usize,
    free: [usize; 48 + 64],
    pad: Option<Rng>,
    allocs: u64,
}
/// Bytes that library code holds (allocations and frees made while a task is inside the library).
static mut COUNTED: i64 = 0;
static mut PEAK: i64 = 0;
#[inline]
fn count(n: i64) {
    if crate::rt::sim_task().is_some() {
        unsafe {
            COUNTED += n;
            if COUNTED > PEAK {
                PEAK = COUNTED;
            }
        }
    }
}
pub fn counted() -> i64 {
    unsafe { COUNTED }
}
pub fn peak() -> i64 {
    unsafe { PEAK }
}
pub fn restart_peak() {
    unsafe { PEAK = COUNTED }
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut ST: State = State { base: 0, next: 0, limit: 0, floor: 0, free: [0; 112], pad: None, allocs: 0 };

// classes 0..48: multiples of 16 up to 768; then powers of two
fn class(size: usize) -> (usize, usize) {
    if size <= 768 {
        let c = (size.max(1) + 15) / 16;
        (c - 1, c * 16)
    } else {
        let p = size.next_power_of_two();
        (48 + p.trailing_zeros() as usize, p)
    }
}
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn get(layout: Layout) -> (*mut u8, bool) {
    lock();
    let st = &mut *std::ptr::addr_of_mut!(ST);
    if st.base == 0 {
        let f = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let mut p = sys::mmap_at(BASE, SPAN, f | 0x100000 /* MAP_FIXED_NOREPLACE */) as usize;
        if p == 0 {
            p = sys::mmap_at(0, SPAN, f) as usize;
        }
        if p == 0 {
            unlock();
            return (std::ptr::null_mut(), false);
        }
        st.base = p;
        st.next = p;
        st.limit = p + SPAN;
    }
    st.allocs += 1;
    let (c, size) = class(layout.size().max(layout.align()));
    let mut fresh = st.free[c] == 0;
    let mut pad = 0;
    if let Some(r) = &mut st.pad {
        if r.chance(1, 2) && size < 1 << 16 {
            fresh = true;
        }
        pad = 16 * r.below(24);
    }
    let res = if !fresh {
        let p = st.free[c];
        st.free[c] = *(p as *const usize);
        (p as *mut u8, false)
    } else {
        let a = layout.align().max(16);
        let p = (st.next + pad + a - 1) / a * a;
        if p + size > st.limit {
            (std::ptr::null_mut(), false)
        } else {
            st.next = p + size;
            (p as *mut u8, true)
        }
    };
    unlock();
    res
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        get(l).0
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        let (p, zero) = get(l);
        if !zero && !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        let (c, _) = class(l.size().max(l.align()));
        lock();
        let st = &mut *std::ptr::addr_of_mut!(ST);
        if (p as usize) < st.floor {
            unlock();
            return;
        }
        *(p as *mut usize) = st.free[c];
        st.free[c] = p as usize;
        unlock();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let (c0, _) = class(l.size().max(l.align()));
        let (c1, _) = class(new.max(l.align()));
        if c0 == c1 {
            count(new as i64 - l.size() as i64);
            return p;
        }
        let n = Layout::from_size_align_unchecked(new, l.align());
        count(new as i64);
        let q = get(n).0;
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// At the start of a run (nothing is freed into it from before): the same addresses whatever the
/// process did before, and a limit to the memory of the run.
pub fn begin_run(bytes: usize) {
    unsafe {
        let st = &mut *std::ptr::addr_of_mut!(ST);
        st.next = st.base + (1 << 33);
        st.floor = st.next;
        st.free = [0; 112];
        st.limit = (st.next + bytes).min(st.base + SPAN);
        COUNTED = 0;
        PEAK = 0;
    }
}
pub fn set_padding(seed: Option<u64>) {
    lock();
    unsafe {
        (*std::ptr::addr_of_mut!(ST)).pad = seed.map(Rng::new);
    }
    unlock();
}
