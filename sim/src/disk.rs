//! The simulated disk: paths under /fpsim/ live in memfds of this process, every call on them
//! is counted and may fail, be cut short or interrupted, or be the moment the process dies.
//! Everything else passes through to the kernel.
use crate::{rt, sys};
use serde::{Deserialize, Serialize};
use std::ffi::CStr;

pub const ROOT: &[u8] = b"/fpsim/";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// transfer at most this many bytes
    Short(u32),
    Eintr,
    Eio,
    Enospc,
    /// the process dies after this many bytes of the call were transferred
    Crash(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plan {
    /// (number of the write call, what happens)
    pub writes: Vec<(u32, Fault)>,
    pub reads: Vec<(u32, Fault)>,
    /// error number of the first open
    pub open_err: Option<i32>,
    /// bytes that fit on the disk
    pub capacity: Option<u32>,
    /// error on the n-th fsync
    pub sync_err: Option<u32>,
    /// all reads and writes transfer at most this many bytes
    pub chunk: Option<u32>,
}

struct Inode {
    fd: i32,
    synced: usize,
}
struct Disk {
    names: Vec<(Vec<u8>, usize)>,
    inodes: Vec<Inode>,
    fds: Vec<(i32, usize)>,
    plan: Plan,
    writes: u32,
    reads: u32,
    opens: u32,
    syncs: u32,
}
#[derive(Default, Clone)]
pub struct Fired {
    pub short: u64,
    pub eintr: u64,
    pub eio: u64,
    pub enospc: u64,
    pub open: u64,
    pub sync: u64,
    pub crash: u64,
    pub calls: u64,
}
static mut DISK: Disk = Disk {
    names: Vec::new(),
    inodes: Vec::new(),
    fds: Vec::new(),
    plan: Plan { writes: Vec::new(), reads: Vec::new(), open_err: None, capacity: None, sync_err: None, chunk: None },
    writes: 0,
    reads: 0,
    opens: 0,
    syncs: 0,
};
static mut FIRED: Fired = Fired { short: 0, eintr: 0, eio: 0, enospc: 0, open: 0, sync: 0, crash: 0, calls: 0 };

fn disk() -> &'static mut Disk {
    unsafe { &mut *std::ptr::addr_of_mut!(DISK) }
}
pub fn fired() -> &'static mut Fired {
    unsafe { &mut *std::ptr::addr_of_mut!(FIRED) }
}

/// Installs the faults for the next operation; calls are counted from zero again.
pub fn arm(plan: &Plan) {
    let d = disk();
    d.plan = plan.clone();
    d.writes = 0;
    d.reads = 0;
    d.opens = 0;
    d.syncs = 0;
}

fn new_inode() -> usize {
    let fd = unsafe { sys::raw3(libc::SYS_memfd_create, b"fpsim\0".as_ptr() as usize, 0, 0) } as i32;
    assert!(fd >= 0, "memfd");
    let d = disk();
    d.inodes.push(Inode { fd, synced: 0 });
    d.inodes.len() - 1
}
fn size_of(fd: i32) -> usize {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        sys::raw3(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0);
        st.st_size as usize
    }
}

/// Content of a file as the simulator sees it.
pub fn content(path: &str) -> Option<Vec<u8>> {
    let d = disk();
    let i = d.names.iter().find(|(n, _)| n == path.as_bytes())?.1;
    let fd = d.inodes[i].fd;
    let mut v = vec![0u8; size_of(fd)];
    let n = v.len();
    unsafe {
        sys::raw6(libc::SYS_pread64, fd as usize, v.as_mut_ptr() as usize, n, 0, 0, 0);
    }
    Some(v)
}
pub fn put(path: &str, data: &[u8]) {
    remove(path);
    let i = new_inode();
    let d = disk();
    let fd = d.inodes[i].fd;
    let mut off = 0;
    while off < data.len() {
        let r = unsafe { sys::raw6(libc::SYS_pwrite64, fd as usize, data[off..].as_ptr() as usize, data.len() - off, off, 0, 0) };
        assert!(r > 0);
        off += r as usize;
    }
    d.names.push((path.as_bytes().to_vec(), i));
}
/// Descriptors of simulated files that have not been closed.
pub fn open_files() -> usize {
    disk().fds.len()
}
pub fn remove(path: &str) {
    disk().names.retain(|(n, _)| n != path.as_bytes());
}

fn sim_path<'a>(p: *const libc::c_char) -> Option<&'a [u8]> {
    if p.is_null() {
        return None;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    if b.starts_with(ROOT) {
        Some(b)
    } else {
        None
    }
}
fn err(e: i32) -> isize {
    sys::set_errno(e);
    -1
}

unsafe fn sim_open(path: &[u8], flags: i32) -> i32 {
    rt::tick(30);
    rt::exempt(|| {
        let d = disk();
        fired().calls += 1;
        d.opens += 1;
        if d.opens == 1 {
            if let Some(e) = d.plan.open_err {
                fired().open += 1;
                return err(e) as i32;
            }
        }
        let found = d.names.iter().find(|(n, _)| n == path).map(|x| x.1);
        let i = match found {
            Some(_) if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 => return err(libc::EEXIST) as i32,
            Some(i) => i,
            None if flags & libc::O_CREAT == 0 => return err(libc::ENOENT) as i32,
            None => {
                let i = new_inode();
                d.names.push((path.to_vec(), i));
                i
            }
        };
        let link = format!("/proc/self/fd/{}\0", d.inodes[i].fd);
        let f = flags & !(libc::O_CREAT | libc::O_EXCL);
        let fd = sys::raw6(libc::SYS_openat, libc::AT_FDCWD as usize, link.as_ptr() as usize, f as usize, 0, 0, 0);
        if fd >= 0 {
            if flags & libc::O_TRUNC != 0 {
                d.inodes[i].synced = 0;
            }
            d.fds.push((fd as i32, i));
        }
        sys::ret(fd) as i32
    })
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    match sim_path(p) {
        Some(path) => sim_open(path, flags),
        None => sys::ret(sys::raw6(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    match sim_path(p) {
        Some(path) => sim_open(path, flags),
        None => sys::ret(sys::raw6(libc::SYS_openat, dir as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const libc::c_char, mode: u32) -> i32 {
    open(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if rt::me().is_some() {
        disk().fds.retain(|(f, _)| *f != fd);
    }
    sys::ret(sys::raw3(libc::SYS_close, fd as usize, 0, 0)) as i32
}

fn inode_of(fd: i32) -> Option<usize> {
    if rt::me().is_none() {
        return None;
    }
    disk().fds.iter().find(|(f, _)| *f == fd).map(|x| x.1)
}

enum Go {
    Fail(i32),
    Upto(usize),
    Crash(usize),
}
/// Decides what happens to a transfer of n bytes.
fn decide(write: bool, n: usize, inode: usize) -> Go {
    let d = disk();
    let k = if write { d.writes } else { d.reads };
    if write {
        d.writes += 1
    } else {
        d.reads += 1
    }
    let f = fired();
    f.calls += 1;
    let list = if write { &d.plan.writes } else { &d.plan.reads };
    let fault = list.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let mut max = n;
    match fault {
        Some(Fault::Eintr) => {
            f.eintr += 1;
            return Go::Fail(libc::EINTR);
        }
        Some(Fault::Eio) => {
            f.eio += 1;
            return Go::Fail(libc::EIO);
        }
        Some(Fault::Enospc) if write => {
            f.enospc += 1;
            return Go::Fail(libc::ENOSPC);
        }
        Some(Fault::Enospc) => {
            f.eio += 1;
            return Go::Fail(libc::EIO);
        }
        Some(Fault::Crash(b)) => {
            f.crash += 1;
            return Go::Crash((b as usize).min(n));
        }
        Some(Fault::Short(b)) => max = max.min(b.max(1) as usize),
        None => {}
    }
    if let Some(c) = d.plan.chunk {
        max = max.min(c.max(1) as usize);
    }
    if write {
        if let Some(c) = d.plan.capacity {
            let used: usize = size_of(d.inodes[inode].fd);
            let room = (c as usize).saturating_sub(used);
            if room == 0 && n > 0 {
                f.enospc += 1;
                return Go::Fail(libc::ENOSPC);
            }
            max = max.min(room);
        }
    }
    if max < n {
        f.short += 1;
    }
    Go::Upto(max)
}

unsafe fn transfer(write: bool, nr: i64, fd: i32, p: usize, n: usize, off: usize) -> isize {
    match inode_of(fd) {
        None => sys::ret(sys::raw6(nr, fd as usize, p, n, off, 0, 0)),
        Some(i) => {
            rt::tick(30);
            let go = rt::exempt(|| decide(write, n, i));
            match go {
                Go::Fail(e) => err(e),
                Go::Upto(m) => sys::ret(sys::raw6(nr, fd as usize, p, m, off, 0, 0)),
                Go::Crash(m) => {
                    if write {
                        sys::raw6(nr, fd as usize, p, m, off, 0, 0);
                    }
                    rt::crash()
                }
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    transfer(true, libc::SYS_write, fd, p as usize, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    transfer(false, libc::SYS_read, fd, p as usize, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    transfer(true, libc::SYS_pwrite64, fd, p as usize, n, off as usize)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut u8, n: usize, off: i64) -> isize {
    transfer(false, libc::SYS_pread64, fd, p as usize, n, off as usize)
}
/// Vectored calls transfer their first non-empty buffer only (a legal short transfer).
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if inode_of(fd).is_none() {
        return sys::ret(sys::raw3(libc::SYS_writev, fd as usize, v as usize, n as usize));
    }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return write(fd, x.iov_base as *const u8, x.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if inode_of(fd).is_none() {
        return sys::ret(sys::raw3(libc::SYS_readv, fd as usize, v as usize, n as usize));
    }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return read(fd, x.iov_base as *mut u8, x.iov_len);
        }
    }
    0
}
unsafe fn do_sync(nr: i64, fd: i32) -> i32 {
    if let Some(i) = inode_of(fd) {
        rt::tick(30);
        let d = disk();
        let k = d.syncs;
        d.syncs += 1;
        fired().calls += 1;
        if d.plan.sync_err == Some(k) {
            fired().sync += 1;
            return err(libc::EIO) as i32;
        }
        d.inodes[i].synced = size_of(d.inodes[i].fd);
        return 0;
    }
    sys::ret(sys::raw3(nr, fd as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    do_sync(libc::SYS_fsync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    do_sync(libc::SYS_fdatasync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => rt::exempt(|| {
            let d = disk();
            match d.names.iter().position(|(n, _)| n == a) {
                None => err(libc::ENOENT) as i32,
                Some(k) => {
                    let i = d.names.remove(k).1;
                    d.names.retain(|(n, _)| n != b);
                    d.names.push((b.to_vec(), i));
                    0
                }
            }
        }),
        _ => sys::ret(sys::raw3(libc::SYS_rename, a as usize, b as usize, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    match sim_path(a) {
        Some(a) => {
            let d = disk();
            let n = d.names.len();
            rt::exempt(|| d.names.retain(|(x, _)| x != a));
            if d.names.len() == n {
                err(libc::ENOENT) as i32
            } else {
                0
            }
        }
        None => sys::ret(sys::raw3(libc::SYS_unlink, a as usize, 0, 0)) as i32,
    }
}
fn fd_of(path: &[u8]) -> Option<i32> {
    let d = disk();
    d.names.iter().find(|(n, _)| n == path).map(|(_, i)| d.inodes[*i].fd)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const libc::c_char, st: *mut libc::stat) -> i32 {
    match sim_path(p) {
        Some(x) => match fd_of(x) {
            Some(fd) => sys::ret(sys::raw3(libc::SYS_fstat, fd as usize, st as usize, 0)) as i32,
            None => err(libc::ENOENT) as i32,
        },
        None => sys::ret(sys::raw3(libc::SYS_stat, p as usize, st as usize, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, p: *const libc::c_char, flags: i32, mask: u32, buf: *mut libc::statx) -> i32 {
    if let Some(x) = sim_path(p) {
        return match fd_of(x) {
            Some(fd) => sys::ret(sys::raw6(
                libc::SYS_statx,
                fd as usize,
                b"\0".as_ptr() as usize,
                libc::AT_EMPTY_PATH as usize,
                mask as usize,
                buf as usize,
                0,
            )) as i32,
            None => err(libc::ENOENT) as i32,
        };
    }
    sys::ret(sys::raw6(libc::SYS_statx, dir as usize, p as usize, flags as usize, mask as usize, buf as usize, 0)) as i32
}
