//! The scheduler. Tasks are real threads; exactly one holds the token. Every basic block edge,
//! load and store of the instrumented crates is a possible preemption point; the scenario's
//! schedule decides after how many steps which other task continues.
use crate::rng::{Rng, Trace};
use crate::sys;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Sched {
    /// (steps until the next preemption, which of the other runnable tasks continues)
    pub slices: Vec<(u32, u8)>,
    /// Further preemptions at rarely visited places: at the n-th visit with probability
    /// rare/1000n, drawn from the seed.
    #[serde(default)]
    pub rare: u32,
    #[serde(default)]
    pub rare_seed: u64,
    /// the first runnable task continues when one ends (so with `rare`, too)
    #[serde(default)]
    pub first: bool,
}

/// What the environment of one task looks like.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Env {
    pub hash_seed: u64,
    pub clock_s: u64,
    pub clock_jump_s: u32,
    pub cpus: u8,
    pub stack_kb: u32,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Ready,
    Done,
}

pub struct Task {
    id: usize,
    token: AtomicU32,
    st: St,
    in_rt: bool,
    loc: u32,
    op_steps: u64,
    op_cap: u64,
    hash: Rng,
    env: Env,
    clock_reads: u64,
    pthread: u64,
    spawned: bool,
    body: Option<Box<dyn FnOnce() + Send>>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum End {
    AllDone,
    Crashed,
}

pub struct Rt {
    tasks: Vec<*mut Task>,
    main: AtomicU32,
    sched: Vec<(u32, u8)>,
    pos: usize,
    left: u64,
    pub trace: Trace,
    pub steps: u64,
    pub preemptions: u64,
    pub blocked: u64,
    pub slept_ns: u64,
    crashed: bool,
    finished: *mut Task,
    pub library_threads: u64,
    rare: u64,
    rare_rng: u64,
    first: bool,
    last_slice: u64,
    taken: Vec<(u32, u8)>,
    pub env_reads: [u64; 5], // hash seeds, clock, cpus, pid, variables and others
}

static mut RT: Rt = Rt {
    tasks: Vec::new(),
    main: AtomicU32::new(0),
    sched: Vec::new(),
    pos: 0,
    left: u64::MAX,
    trace: Trace(1),
    steps: 0,
    preemptions: 0,
    blocked: 0,
    slept_ns: 0,
    crashed: false,
    finished: null_mut(),
    library_threads: 0,
    rare: 0,
    rare_rng: 1,
    first: false,
    last_slice: 0,
    taken: Vec::new(),
    env_reads: [0; 5],
};

const MAX_RARE: usize = 20_000;
/// how often every location was visited, with rare preemptions only
static mut VISITS: [u32; COV] = [0; COV];

thread_local! {
    static ME: Cell<*mut Task> = const { Cell::new(null_mut()) };
}

pub fn rt() -> &'static mut Rt {
    unsafe { &mut *std::ptr::addr_of_mut!(RT) }
}

/// Shared (across forked runs) bitmaps: basic block edges reached, and pairs of locations
/// (where one task was preempted, where the other one continued).
pub const COV: usize = 1 << 16;
pub const PAIRS: usize = 1 << 22;
static mut COV_MAP: *mut u8 = null_mut();
static mut PAIR_MAP: *mut u8 = null_mut();
pub fn init_maps() {
    unsafe {
        COV_MAP = sys::shared(COV);
        PAIR_MAP = sys::shared(PAIRS / 8);
    }
}
pub fn count_maps() -> (u64, u64) {
    unsafe {
        let c = (0..COV).filter(|i| *COV_MAP.add(*i) != 0).count() as u64;
        let p = (0..PAIRS / 8).map(|i| (*PAIR_MAP.add(i)).count_ones() as u64).sum();
        (c, p)
    }
}

pub fn me() -> Option<&'static mut Task> {
    let p = ME.with(|m| m.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
/// The calling task, if it is simulated code (not the simulator itself).
pub fn sim_task() -> Option<&'static mut Task> {
    me().filter(|t| !t.in_rt)
}

#[inline(always)]
fn step(loc: u32) {
    let p = ME.with(|m| m.get());
    if p.is_null() {
        return;
    }
    let t = unsafe { &mut *p };
    if t.in_rt {
        return;
    }
    if loc != 0 {
        t.loc = loc;
        // the map is shared by all workers; a store to it would slow down every one of them
        unsafe {
            let c = COV_MAP.add(loc as usize & (COV - 1));
            if *c == 0 {
                *c = 1
            }
        }
    }
    t.op_steps += 1;
    let r = rt();
    r.steps += 1;
    r.left -= 1;
    if t.op_steps > t.op_cap {
        hang(t);
    }
    if r.left == 0 {
        slice_end(t);
    } else if r.rare != 0 {
        rare(r, t, loc);
    }
}

fn rare(r: &mut Rt, t: &mut Task, loc: u32) {
    let v = unsafe { &mut VISITS[t.loc as usize & (COV - 1)] };
    if loc != 0 {
        *v += 1;
    }
    r.rare_rng ^= r.rare_rng << 13;
    r.rare_rng ^= r.rare_rng >> 7;
    r.rare_rng ^= r.rare_rng << 17;
    if (r.rare_rng >> 32) * *v as u64 <= r.rare && r.taken.len() < MAX_RARE {
        let pick = r.rare_rng as u8;
        take(r, pick);
        yield_to(t, Some(pick));
    }
}

/// Remembers a preemption, so that the schedule can be written down without the rare ones.
fn take(r: &mut Rt, pick: u8) {
    if r.rare != 0 {
        r.taken.push(((r.steps - r.last_slice).min(u32::MAX as u64) as u32, pick));
        r.last_slice = r.steps;
    }
}
/// The preemptions of a run with rare ones.
pub fn taken() -> Vec<(u32, u8)> {
    rt().taken.clone()
}

/// Simulated code outside the instrumented crates (I/O calls, log records) takes steps, too.
pub fn tick(n: u32) {
    for _ in 0..n {
        step(0);
    }
}

#[cold]
fn hang(t: &mut Task) {
    t.in_rt = true;
    crate::driver::report_hang(t.id, t.op_steps);
}

fn next_slice(r: &mut Rt) -> Option<u8> {
    if r.pos < r.sched.len() {
        let (gap, pick) = r.sched[r.pos];
        r.pos += 1;
        r.left = gap.max(1) as u64;
        Some(pick)
    } else {
        r.left = u64::MAX;
        None
    }
}

#[cold]
fn slice_end(t: &mut Task) {
    let r = rt();
    // the pick belongs to the slice that just ended
    let pick = r.sched[r.pos - 1].1;
    next_slice(r);
    take(r, pick);
    yield_to(t, Some(pick));
}

/// Gives the token to another runnable task (if there is one) and waits to get it back.
fn yield_to(t: &mut Task, pick: Option<u8>) {
    let r = rt();
    let others: usize = r.tasks.iter().filter(|p| unsafe { (***p).st == St::Ready && (***p).id != t.id }).count();
    if others == 0 {
        return;
    }
    let k = pick.unwrap_or(0) as usize % others;
    // counted from the task after this one, so that pick 0 is round robin
    let n = r.tasks.len();
    let mut seen = 0;
    let mut to = null_mut();
    for d in 1..n {
        let p = r.tasks[(t.id + d) % n];
        if unsafe { (*p).st } == St::Ready {
            if seen == k {
                to = p;
                break;
            }
            seen += 1;
        }
    }
    r.preemptions += 1;
    r.trace.add(((t.id as u64) << 32) | t.loc as u64);
    r.trace.add(r.steps);
    let to = unsafe { &mut *to };
    let h = crate::rng::mix(((t.loc as u64) << 32) | to.loc as u64) as usize & (PAIRS - 1);
    unsafe { *PAIR_MAP.add(h / 8) |= 1 << (h % 8) }
    let saved = t.in_rt;
    t.in_rt = true;
    grant(&to.token);
    wait(&t.token);
    crate::driver::set_running(t.id);
    t.in_rt = saved;
}

fn grant(f: &AtomicU32) {
    f.store(1, Ordering::SeqCst);
    unsafe { sys::futex_wake(f as *const _ as *const u32, 1) }
}
fn wait(f: &AtomicU32) {
    while f.load(Ordering::SeqCst) == 0 {
        unsafe { sys::futex_wait(f as *const _ as *const u32, 0) }
    }
    f.store(0, Ordering::SeqCst);
}

fn finish(t: &mut Task) {
    t.in_rt = true;
    t.st = St::Done;
    let r = rt();
    r.trace.add(0xd0e0 + t.id as u64);
    r.finished = t;
    grant(&r.main);
}

fn new_task(id: usize, env: &Env, body: Option<Box<dyn FnOnce() + Send>>) -> *mut Task {
    Box::into_raw(Box::new(Task {
        id,
        token: AtomicU32::new(0),
        st: St::Ready,
        in_rt: true,
        loc: 0,
        op_steps: 0,
        op_cap: 4_000_000_000,
        hash: Rng::new(env.hash_seed ^ 0x68617368),
        env: env.clone(),
        clock_reads: 0,
        pthread: 0,
        spawned: false,
        body,
    }))
}

struct SendPtr(*mut Task);
unsafe impl Send for SendPtr {}

/// Runs the tasks under the schedule until all are done, or one simulates the crash of the
/// process (then the others stop wherever they are).
pub fn run(bodies: Vec<(Env, Box<dyn FnOnce() + Send>)>, sched: &Sched) -> End {
    let r = rt();
    r.tasks.clear();
    r.sched = sched.slices.clone();
    r.pos = 0;
    r.crashed = false;
    r.rare = if bodies.len() > 1 { ((sched.rare as u64) << 32) / 1000 } else { 0 };
    r.rare_rng = sched.rare_seed | 1;
    r.first = sched.first || r.rare != 0;
    r.last_slice = r.steps;
    if r.rare != 0 {
        r.taken = Vec::with_capacity(MAX_RARE + r.sched.len());
        unsafe { (*std::ptr::addr_of_mut!(VISITS)).fill(0) }
    }
    let mut handles = Vec::new();
    for (i, (env, f)) in bodies.into_iter().enumerate() {
        let t = new_task(i, &env, Some(f));
        r.tasks.push(t);
        let s = SendPtr(t);
        let h = std::thread::Builder::new()
            .stack_size((env.stack_kb.max(64) as usize) << 10)
            .spawn(move || {
                let s = s;
                let t = unsafe { &mut *s.0 };
                wait(&t.token);
                ME.with(|m| m.set(t));
                let f = t.body.take().unwrap();
                f();
                finish(t);
                ME.with(|m| m.set(null_mut()));
            })
            .expect("spawn");
        handles.push(Some(h));
    }
    next_slice(r);
    let mut pick = 0usize;
    loop {
        let ready: Vec<*mut Task> = r.tasks.iter().copied().filter(|p| unsafe { (**p).st == St::Ready }).collect();
        if ready.is_empty() {
            r.rare = 0;
            return End::AllDone;
        }
        let t = unsafe { &*ready[pick % ready.len()] };
        grant(&t.token);
        wait(&r.main);
        if r.crashed {
            r.rare = 0;
            return End::Crashed;
        }
        let f = unsafe { &*r.finished };
        if !f.spawned {
            // its thread-local destructors run before anyone else continues
            let _ = handles[f.id].take().unwrap().join();
        }
        pick = if !r.first && r.pos < r.sched.len() { r.sched[r.pos].1 as usize } else { 0 };
    }
}

/// The simulated process dies here: nothing of it runs any more.
pub fn crash() -> ! {
    let t = me().expect("crash outside of a task");
    t.in_rt = true;
    let r = rt();
    r.crashed = true;
    r.trace.add(0xc5a5);
    grant(&r.main);
    loop {
        wait(&t.token);
    }
}

/// Runs simulator code within a task: no preemption, no interposition.
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    match me() {
        Some(t) => {
            let s = t.in_rt;
            t.in_rt = true;
            let x = f();
            t.in_rt = s;
            x
        }
        None => f(),
    }
}

/// Brackets one operation of the library (a task is inside the simulator otherwise); returns the
/// steps it took.
pub fn op_begin(cap: u64) {
    if let Some(t) = me() {
        t.op_steps = 0;
        t.op_cap = cap;
        t.in_rt = false;
    }
}
pub fn op_end() -> u64 {
    match me() {
        Some(t) => {
            t.in_rt = true;
            let n = t.op_steps;
            t.op_cap = u64::MAX;
            n
        }
        None => 0,
    }
}

// ---- sanitizer coverage callbacks -------------------------------------------------------------

static mut NEXT_GUARD: u32 = 1;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT_GUARD;
        NEXT_GUARD += 1;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    step(*guard)
}
macro_rules! mem_callbacks {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(_p: *const u8) { step(0) }
    )*};
}
mem_callbacks!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
    __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16);
pub fn guards() -> u32 {
    unsafe { NEXT_GUARD - 1 }
}

// ---- environment: hash seeds, clocks, CPUs, blocking, threads ---------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    match sim_task() {
        Some(t) => {
            rt().env_reads[0] += 1;
            for i in 0..n {
                *p.add(i) = t.hash.next() as u8;
            }
            n as isize
        }
        None => {
            // the simulator itself must not depend on it either
            let _ = flags;
            for i in 0..n {
                *p.add(i) = 0x5a ^ i as u8;
            }
            n as isize
        }
    }
}

fn now_ns(t: &mut Task) -> u64 {
    t.clock_reads += 1;
    rt().env_reads[1] += 1;
    let base = 1_700_000_000u64 + t.env.clock_s;
    let jumps = t.clock_reads / 2 * t.env.clock_jump_s as u64;
    (base + jumps) * 1_000_000_000 + rt().steps + rt().slept_ns + t.clock_reads * 1000
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    match sim_task() {
        Some(t) => {
            let n = now_ns(t);
            (*ts).tv_sec = (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as i64;
            0
        }
        None => sys::ret(sys::raw3(libc::SYS_clock_gettime, clk as usize, ts as usize, 0)) as i32,
    }
}
unsafe fn sleep(req: *const libc::timespec) {
    let r = rt();
    r.slept_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    block();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim_task().is_some() {
        sleep(req);
        return 0;
    }
    sys::ret(sys::raw3(libc::SYS_nanosleep, req as usize, rem as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim_task().is_some() {
        if flags & libc::TIMER_ABSTIME == 0 {
            sleep(req);
        } else {
            block();
        }
        return 0;
    }
    -sys::raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim_task().is_some() {
        block();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match sim_task() {
        Some(t) => {
            rt().env_reads[3] += 1;
            1000 + (t.env.hash_seed % 30000) as i32
        }
        None => sys::raw3(libc::SYS_getpid, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, set: *mut u8) -> i32 {
    match sim_task() {
        Some(t) => {
            rt().env_reads[2] += 1;
            for i in 0..len {
                *set.add(i) = 0;
            }
            for i in 0..t.env.cpus.max(1) as usize {
                *set.add(i / 8) |= 1 << (i % 8);
            }
            0
        }
        None => {
            let r = sys::raw3(libc::SYS_sched_getaffinity, pid as usize, len, set as usize);
            if r < 0 {
                sys::ret(r) as i32
            } else {
                0
            }
        }
    }
}

/// Environment variables differ from task to task, except those of std and those that are paths.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if let Some(t) = sim_task() {
        if !n.starts_with(b"RUST_") && !matches!(n, b"TMPDIR" | b"HOME" | b"PATH" | b"PWD") {
            rt().env_reads[4] += 1;
            let mut h = t.env.hash_seed | 1;
            for b in n {
                h = (h ^ *b as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
            }
            const VALUES: [&[u8]; 10] = [b"\0", b"0\0", b"1\0", b"2\0", b"10\0", b"64\0", b"1000000\0", b"true\0", b"off\0", b"debug\0"];
            return match VALUES.get((h >> 20) as usize % 16) {
                Some(v) => v.as_ptr() as *const _,
                None => null(),
            };
        }
    }
    // what the process was started with
    extern "C" {
        static environ: *const *const libc::c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::ffi::CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && v[n.len()] == b'=' && v.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    null()
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    type F = unsafe extern "C" fn(i32) -> i64;
    if matches!(name, libc::_SC_PHYS_PAGES | libc::_SC_AVPHYS_PAGES | libc::_SC_NPROCESSORS_ONLN | libc::_SC_NPROCESSORS_CONF) {
        if let Some(t) = sim_task() {
            rt().env_reads[4] += 1;
            return match name {
                libc::_SC_PHYS_PAGES | libc::_SC_AVPHYS_PAGES => 1 << (10 + t.env.hash_seed % 14),
                _ => t.env.cpus.max(1) as i64,
            };
        }
    }
    let rf: F = std::mem::transmute(real(b"sysconf\0"));
    rf(name)
}

/// The running task cannot continue by itself: someone else's turn. Costs steps, so that a
/// deadlock ends as a hang.
fn block() {
    let t = me().unwrap();
    tick(50);
    let r = rt();
    r.blocked += 1;
    t.op_steps += 1000;
    yield_to(t, None);
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && sim_task().is_some() {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                set_errno_i64(libc::EAGAIN);
                return -1;
            }
            block();
            if d != 0 {
                // a wait with a timeout times out (legal at any time once simulated time moves)
                rt().slept_ns += 1_000_000;
                if (*(a as *const AtomicU32)).load(Ordering::SeqCst) == c as u32 {
                    set_errno_i64(libc::ETIMEDOUT);
                    return -1;
                }
            }
            return 0; // possibly spurious, which futexes allow
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    sys::ret(sys::raw6(n, a, b, c, d, e, f)) as i64
}
fn set_errno_i64(e: i32) {
    sys::set_errno(e)
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Tramp {
    f: StartFn,
    arg: *mut libc::c_void,
    task: *mut Task,
}
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let tr = unsafe { Box::from_raw(p as *mut Tramp) };
    let t = unsafe { &mut *tr.task };
    wait(&t.token);
    ME.with(|m| m.set(t));
    t.in_rt = false;
    let r = (tr.f)(tr.arg);
    finish(t);
    ME.with(|m| m.set(null_mut()));
    r
}
unsafe fn real(name: &[u8]) -> usize {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const libc::c_void, f: StartFn, arg: *mut libc::c_void) -> i32 {
    type F = unsafe extern "C" fn(*mut u64, *const libc::c_void, StartFn, *mut libc::c_void) -> i32;
    let rf: F = std::mem::transmute(real(b"pthread_create\0"));
    match sim_task() {
        None => rf(out, attr, f, arg),
        Some(t) => {
            t.in_rt = true;
            let r = rt();
            r.library_threads += 1;
            let mut env = t.env.clone();
            env.hash_seed = t.hash.next();
            let nt = new_task(r.tasks.len(), &env, None);
            (*nt).spawned = true;
            (*nt).op_cap = t.op_cap;
            let tr = Box::into_raw(Box::new(Tramp { f, arg, task: nt }));
            let res = rf(out, attr, trampoline, tr as *mut _);
            if res == 0 {
                (*nt).pthread = *out;
                r.tasks.push(nt);
            }
            t.in_rt = false;
            res
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, out: *mut *mut libc::c_void) -> i32 {
    type F = unsafe extern "C" fn(u64, *mut *mut libc::c_void) -> i32;
    let rf: F = std::mem::transmute(real(b"pthread_join\0"));
    if let Some(_t) = sim_task() {
        let target = rt().tasks.iter().copied().find(|p| (**p).spawned && (**p).pthread == th);
        if let Some(p) = target {
            while std::ptr::read_volatile(&(*p).st) != St::Done {
                block();
            }
        }
    }
    rf(th, out)
}
