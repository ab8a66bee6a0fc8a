//! Raw system calls (never interposed), shared memory, futex.
use std::arch::asm;

pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
pub unsafe fn raw3(n: i64, a: usize, b: usize, c: usize) -> isize {
    raw6(n, a, b, c, 0, 0, 0)
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Turns a raw result into the libc convention.
pub fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw6(libc::SYS_futex, addr as usize, libc::FUTEX_WAIT as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: u32) {
    raw6(libc::SYS_futex, addr as usize, libc::FUTEX_WAKE as usize, n as usize, 0, 0, 0);
}
pub unsafe fn mmap_at(addr: usize, len: usize, flags: i32) -> *mut u8 {
    let r = raw6(libc::SYS_mmap, addr, len, (libc::PROT_READ | libc::PROT_WRITE) as usize, flags as usize, usize::MAX, 0);
    if r < 0 && r > -4096 {
        std::ptr::null_mut()
    } else {
        r as *mut u8
    }
}
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap_at(0, len, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) };
    assert!(!p.is_null());
    p
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group, code as usize, 0, 0);
    }
    unreachable!()
}
pub fn raw_write(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw3(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len()) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
