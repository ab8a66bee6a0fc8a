//! Runs seeds in forked processes, collects, confirms, minimises, replays, reports.
use crate::exec::{self, controls, kind_name, relevant};
use crate::rng::mix;
use crate::scen::*;
use crate::{alloc, gen, minimize, rt, sys};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const PROPS: [&str; 20] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

// ---- the process of one run ---------------------------------------------------------------------

const SLOT: usize = 1 << 20;
#[repr(C)]
struct Slot {
    len: AtomicU64,
    running: AtomicU32,
    cur: [(AtomicU32, AtomicU32); 128],
    data: [u8; 0],
}
static mut MY: *mut Slot = std::ptr::null_mut();
static mut OUT: Option<Outcome> = None;

pub fn out() -> &'static mut Outcome {
    unsafe { (*std::ptr::addr_of_mut!(OUT)).get_or_insert_with(Default::default) }
}
fn my() -> Option<&'static Slot> {
    unsafe { MY.as_ref() }
}
pub fn set_running(task: usize) {
    if let Some(s) = my() {
        s.running.store(task as u32, SeqCst);
    }
}
pub fn set_current(task: usize, op: usize, kind: u32) {
    if let Some(s) = my() {
        let c = &s.cur[task & 127];
        c.0.store(op as u32, SeqCst);
        c.1.store(kind, SeqCst);
        if kind != 0 {
            s.running.store(task as u32, SeqCst);
        }
    }
}
pub fn note_ratio(steps: u64, bound: u64) {
    let o = out();
    o.max_work = o.max_work.max(steps * 1000 / bound.max(1));
}
fn deliver() -> ! {
    let b = bincode::serialize(out()).unwrap_or_default();
    if let Some(s) = my() {
        if b.len() < SLOT - 4096 {
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), (s.data.as_ptr() as *mut u8).add(0), b.len());
            }
            s.len.store(b.len() as u64, SeqCst);
        }
    }
    sys::exit_now(0)
}
pub fn report_hang(task: usize, steps: u64) -> ! {
    let (op, kind) = match my() {
        Some(s) => (s.cur[task & 127].0.load(SeqCst), s.cur[task & 127].1.load(SeqCst)),
        None => (0, 0),
    };
    out().bad(&format!("hang-{}", kind_name(kind)), task, op as usize, format!("no end after {} steps", steps));
    out().taken = rt::taken();
    deliver()
}

/// Runs a scenario in a child of this (single-threaded) process.
fn run_child(slot: *mut Slot, s: &Scenario, timeout: u32) -> Outcome {
    unsafe {
        (*slot).len.store(0, SeqCst);
        (*slot).running.store(0, SeqCst);
        for c in &(*slot).cur {
            c.1.store(0, SeqCst);
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(0);
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            MY = slot;
            alloc::begin_run(2 << 30);
            OUT = Some(Default::default());
            if let Err(e) = std::panic::catch_unwind(|| exec::exec(s)) {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                out().bad("harness", 99, 0, format!("{:?}", m));
            }
            deliver();
        }
        if pid < 0 {
            let mut o = Outcome::default();
            o.bad("harness", 99, 0, "fork failed".into());
            return o;
        }
        libc::alarm(timeout);
        let mut st = 0i32;
        let mut timed_out = false;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            // interrupted by the alarm
            timed_out = true;
            libc::kill(pid, libc::SIGKILL);
        }
        libc::alarm(0);
        let n = (*slot).len.load(SeqCst) as usize;
        if n > 0 && !timed_out {
            let b = std::slice::from_raw_parts((*slot).data.as_ptr(), n);
            if let Ok(o) = bincode::deserialize::<Outcome>(b) {
                return o;
            }
        }
        let mut o = Outcome::default();
        let t = (*slot).running.load(SeqCst) as usize;
        let op = (*slot).cur[t & 127].0.load(SeqCst) as usize;
        let kind = kind_name((*slot).cur[t & 127].1.load(SeqCst));
        if timed_out {
            o.bad(&format!("hang-{}", kind), t, op, format!("no end after {} s", timeout));
        } else if kind == "none" {
            o.bad("harness", t, op, format!("the process died outside of an operation, status {:#x}", st));
        } else {
            o.bad(&format!("abort-{}", kind), t, op, format!("the process died, status {:#x}", st));
        }
        o
    }
}

const TIMEOUT: u32 = 100;

/// The first violation of the scenario's property, if the control runs confirm it.
fn judge_outcome(slot: *mut Slot, s: &Scenario, o: &Outcome) -> Option<Violation> {
    let v = o.violations.iter().find(|v| v.class != "harness" && relevant(&s.prop, &v.class))?;
    for c in controls(s, v) {
        let x = run_child(slot, &c, TIMEOUT);
        if x.violations.iter().any(|y| y.class == v.class) {
            return None;
        }
    }
    Some(v.clone())
}

// ---- batches --------------------------------------------------------------------------------------

#[repr(C)]
struct Shared {
    next: AtomicU64,
    /// smallest index with a violation so far
    first_bad: AtomicU64,
}
#[derive(Serialize, Deserialize, Default)]
struct Batch {
    runs: u64,
    nontrivial: Vec<u64>,
    digests: Vec<(u64, u64)>,
    stats: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    steps: u64,
    preemptions: u64,
    slept_ns: u64,
    checks: u64,
    max_work: u64,
    unconfirmed: u64,
    slow: Vec<(u64, u64)>,
    other_classes: BTreeMap<String, u64>,
    found: Vec<(u64, Violation)>,
    harness: Vec<(u64, String)>,
}
impl Batch {
    fn join(&mut self, b: Batch) {
        self.runs += b.runs;
        self.nontrivial.extend(b.nontrivial);
        self.digests.extend(b.digests);
        for (k, v) in b.stats {
            *self.stats.entry(k).or_default() += v;
        }
        for (k, v) in b.fired_runs {
            *self.fired_runs.entry(k).or_default() += v;
        }
        for (k, v) in b.other_classes {
            *self.other_classes.entry(k).or_default() += v;
        }
        self.steps += b.steps;
        self.preemptions += b.preemptions;
        self.slept_ns += b.slept_ns;
        self.checks += b.checks;
        self.max_work = self.max_work.max(b.max_work);
        self.unconfirmed += b.unconfirmed;
        self.slow.extend(b.slow);
        self.found.extend(b.found);
        self.harness.extend(b.harness);
    }
}
const RESULT: usize = 256 << 20;

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    mix(mix(base) ^ mix(p).rotate_left(17) ^ mix(i ^ 0xabcdef).rotate_left(31))
}

fn batch(prop: &str, base: u64, from: u64, runs: u64, workers: usize, wall: Duration, stop: bool) -> Batch {
    let shared = sys::shared(4096) as *mut Shared;
    unsafe {
        (*shared).next.store(from, SeqCst);
        (*shared).first_bad.store(u64::MAX, SeqCst);
    }
    let mut kids = Vec::new();
    let start = Instant::now();
    for _ in 0..workers {
        let region = sys::shared(RESULT);
        let slot = sys::shared(SLOT) as *mut Slot;
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            quiet();
            let b = worker(prop, base, from + runs, shared, slot, start, wall, stop);
            let b = bincode::serialize(&b).unwrap_or_default();
            unsafe {
                *(region as *mut u64) = b.len() as u64;
                if b.len() + 8 < RESULT {
                    std::ptr::copy_nonoverlapping(b.as_ptr(), region.add(8), b.len());
                }
            }
            sys::exit_now(0);
        }
        kids.push((pid, region));
    }
    let mut all = Batch::default();
    for (pid, region) in kids {
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let n = *(region as *const u64) as usize;
            match bincode::deserialize::<Batch>(std::slice::from_raw_parts(region.add(8), n)) {
                Ok(b) if n > 0 => all.join(b),
                _ => all.harness.push((0, format!("worker died, status {:#x}", st))),
            }
            libc::munmap(region as *mut _, RESULT);
        }
    }
    all.found.sort_by_key(|x| x.0);
    all
}

/// No output of the code under test, and alarms interrupt waiting.
fn quiet() {
    extern "C" fn nothing(_: i32) {}
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::dup2(fd, 1);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, base: u64, end: u64, shared: *mut Shared, slot: *mut Slot, start: Instant, wall: Duration, stop: bool) -> Batch {
    let mut b = Batch::default();
    let sh = unsafe { &*shared };
    loop {
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= end || start.elapsed() > wall || (stop && i > sh.first_bad.load(SeqCst)) {
            return b;
        }
        let s = gen::generate(prop, seed_of(base, prop, i), i);
        let t = Instant::now();
        let o = run_child(slot, &s, TIMEOUT);
        b.slow.push((t.elapsed().as_millis() as u64, i));
        b.slow.sort_by_key(|x| std::cmp::Reverse(x.0));
        b.slow.truncate(5);
        b.runs += 1;
        b.digests.push((i, digest(&o)));
        if o.nontrivial {
            b.nontrivial.push(o.trace);
        }
        for (k, v) in &o.stats {
            *b.stats.entry(k.clone()).or_default() += v;
            *b.fired_runs.entry(k.clone()).or_default() += 1;
        }
        b.steps += o.steps;
        b.preemptions += o.preemptions;
        b.slept_ns += o.slept_ns;
        b.checks += o.checks;
        b.max_work = b.max_work.max(o.max_work);
        for v in &o.violations {
            if v.class == "harness" {
                b.harness.push((i, v.msg.clone()));
            } else if !relevant(prop, &v.class) {
                *b.other_classes.entry(v.class.clone()).or_default() += 1;
            }
        }
        if o.violations.iter().any(|v| relevant(prop, &v.class)) {
            match judge_outcome(slot, &s, &o) {
                Some(v) => {
                    sh.first_bad.fetch_min(i, SeqCst);
                    b.found.push((i, v));
                }
                None => b.unconfirmed += 1,
            }
        }
    }
}
fn digest(o: &Outcome) -> u64 {
    let mut t = crate::rng::Trace(7);
    t.add_bytes(&bincode::serialize(o).unwrap_or_default());
    t.0
}

// ---- commands -------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    verif_seed: u64,
    index: u64,
    hooks: bool,
    scenario: Scenario,
}

fn dir() -> String {
    std::env::var("FPSIM_DIR").unwrap_or_else(|_| "/verif".into())
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}

/// (runs, wall limit in seconds)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C02" | "C05" => 17_000,
        "C07" => 10_000,
        "C08" => 8_000,
        "C09" => 40_000,
        "C10" => 45_000,
        "C11" => 200_000,
        "C12" => 35_000,
        "C13" => 50_000,
        "C14" => 180_000,
        "C15" => 120_000,
        "C16" => 110_000,
        "C17" => 25_000,
        "C18" => 15_000,
        "C20" => 300,
        _ => 13_000,
    };
    if tier == "thorough" {
        (quick * 30, 780)
    } else {
        (quick, 75)
    }
}

pub fn main() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("FPSIM_NOASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) != -1 {
                std::env::set_var("FPSIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("fpsim: re-execution failed: {}", e);
            }
        }
    }
    rt::init_maps();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = log::set_logger(&exec::LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match arg(0) {
        "check" => check(arg(1), if arg(2).is_empty() { "quick" } else { arg(2) }),
        "replay" => replay(arg(1)),
        "digest" => digests(arg(1), arg(2).parse().unwrap_or(100), arg(3).parse().unwrap_or(8)),
        "one" => one(arg(1), arg(2).parse().unwrap_or(0)),
        _ => {
            eprintln!("usage: fpsim check <property> [quick|thorough] | replay <file> | digest <property> <runs> <workers> | one <property> <index>");
            2
        }
    };
    sys::exit_now(code)
}

fn say(s: &str) {
    sys::raw_write(1, format!("{}\n", s).as_bytes());
}

/// One digest over the outcomes (traces, statistics, answers) of many seeds.
fn digests(prop: &str, n: u64, workers: usize) -> i32 {
    let b = batch(prop, env_u64("VERIF_SEED", 1), 0, n, workers.max(1), Duration::from_secs(3600), false);
    let mut d = b.digests.clone();
    d.sort();
    for x in &d {
        say(&format!("{} {} {:016x}", prop, x.0, x.1));
    }
    if !b.harness.is_empty() {
        eprintln!("harness: {:?}", &b.harness[..b.harness.len().min(5)]);
        return 2;
    }
    0
}

fn one(prop: &str, i: u64) -> i32 {
    let s = gen::generate(prop, seed_of(env_u64("VERIF_SEED", 1), prop, i), i);
    say(&serde_json::to_string(&s).unwrap());
    let slot = sys::shared(SLOT) as *mut Slot;
    let o = run_child(slot, &s, TIMEOUT);
    say(&format!("{:#?}", o));
    0
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    quiet_err();
    let slot = sys::shared(SLOT) as *mut Slot;
    let o = run_child(slot, &r.scenario, TIMEOUT);
    say(&format!("trace {:016x} steps {} preemptions {}", o.trace, o.steps, o.preemptions));
    match judge_outcome(slot, &r.scenario, &o) {
        Some(v) => {
            say(&format!("{} in task {} operation {}: {}", v.class, v.task, v.op, v.msg));
            say(&format!("VIOLATION property={} replay={}", r.property, file));
            1
        }
        None => {
            say("no violation");
            0
        }
    }
}
fn quiet_err() {
    extern "C" fn nothing(_: i32) {}
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let (mut runs, mut wall) = budget(prop, tier);
    runs = env_u64("FPSIM_RUNS", runs);
    wall = env_u64("FPSIM_WALL", wall);
    let workers = env_u64("FPSIM_WORKERS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize;
    let b = batch(prop, base, 0, runs, workers.max(1), Duration::from_secs(wall), true);
    let mut code = 0;
    let mut violations = 0;
    if !b.harness.is_empty() {
        sys::raw_write(2, format!("fpsim: harness error: {:?}\n", &b.harness[..b.harness.len().min(3)]).as_bytes());
        code = 2;
    }
    if let Some((i, v)) = b.found.first() {
        quiet_err();
        violations = b.found.len();
        let s = gen::generate(prop, seed_of(base, prop, *i), *i);
        let slot = sys::shared(SLOT) as *mut Slot;
        let class = v.class.clone();
        let hang = class.starts_with("hang");
        let mut test = |c: &Scenario| {
            let o = run_child(slot, c, if hang { 30 } else { TIMEOUT });
            o.violations.iter().find(|y| y.class != "harness" && relevant(&c.prop, &y.class)).map_or(false, |y| y.class == class)
                && judge_outcome(slot, c, &o).is_some()
        };
        // a schedule that is written down instead of drawn while running shrinks better
        let mut s = s;
        if s.work.scheds().iter().filter(|x| x.rare != 0).count() == 1 {
            let o = run_child(slot, &s, TIMEOUT);
            let mut c = s.clone();
            for x in c.work.scheds().into_iter().filter(|x| x.rare != 0) {
                *x = rt::Sched { slices: o.taken.clone(), rare: 0, rare_seed: 0, first: true };
            }
            if !o.taken.is_empty() && test(&c) {
                s = c;
            }
        }
        let (m, tries) = minimize::minimise(&s, Instant::now() + Duration::from_secs(if tier == "quick" { 60 } else { 120 }), &mut test);
        let o = run_child(slot, &m, TIMEOUT);
        let (m, v2) = match judge_outcome(slot, &m, &o) {
            Some(x) => (m, x),
            None => (s, v.clone()),
        };
        let r = Replay { property: prop.into(), class: v2.class.clone(), message: v2.msg.clone(), verif_seed: base, index: *i, hooks: exec::HOOKS, scenario: m };
        let d = format!("{}/replays", dir());
        let _ = std::fs::create_dir_all(&d);
        let path = format!("{}/{}-{}.json", d, prop, i);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap_or_default());
        // the file must fail the same way every time
        let mut same = true;
        for _ in 0..2 {
            let st = std::process::Command::new("/proc/self/exe").args(["replay", &path]).output();
            let text = st.as_ref().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
            same &= matches!(&st, Ok(o) if o.status.code() == Some(1)) && text.contains(&format!("trace {:016x}", o.trace)) | text.contains("VIOLATION");
        }
        say(&format!("{} (run {} of VERIF_SEED {}, {} runs tried while minimising, replays {})", v2.msg, i, base, tries, if same { "exactly" } else { "NOT exactly" }));
        say(&format!("VIOLATION property={} replay={}", prop, path));
        code = 1;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    if std::env::var_os("FPSIM_SLOW").is_some() {
        let mut x = b.slow.clone();
        x.sort_by_key(|x| std::cmp::Reverse(x.0));
        x.truncate(8);
        say(&format!("slowest (ms, index): {:?}", x));
        say(&format!("unconfirmed {} other {:?}", b.unconfirmed, b.other_classes));
    }
    evidence(prop, tier, base, &b, wall_s, violations);
    if code == 0 {
        say(&format!("{}: {} runs, {} comparisons, no violation ({:.1} s)", prop, b.runs, b.checks, wall_s));
    }
    code
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C17" | "C19" | "C20" => "one case = one simulated execution of a seeded scenario (prepared graphs, tasks with query histories, schedule, faults); non-trivial: at least one answer is a path over three or more nodes; distinct: different trace hash (all answers and every preemption with its location and step)",
        "C08" => "one case = one simulated execution of seeded preparations in several environments and interleavings; non-trivial: the prepared graph has more than 300 bytes; distinct: different trace hash (prepared graph and every preemption)",
        "C09" => "one case = one preparation with seeded parameters and early ends of its witness searches, and the queries on it; non-trivial: at least one answer is a path over three or more nodes; distinct: different trace hash (prepared graph, answers)",
        "C10" => "one case = one seeded history of edits, preparations (some aborted) and queries of several tasks; non-trivial: at least one answer is a path over three or more nodes; distinct: different trace hash",
        "C11" => "one case = one seeded history of operations with misuse and failing log records; non-trivial: more than one edge was accepted; distinct: different trace hash (sizes of all inspected graphs)",
        "C12" | "C13" => "one case = one seeded history of saves and loads over streams with faults, crash and restart; non-trivial: the image has more than 300 bytes and a fault or cut was planned; distinct: different trace hash (bytes in the store at restart, answers)",
        "C18" => "one case = one seeded history, repeated many times, of edits, preparations, queries, saves, loads, exports and imports, many of them refused, aborted or failing; non-trivial: at least one answer is a path over three or more nodes; distinct: different trace hash (bytes held at all checkpoints)",
        _ => "one case = one seeded export and/or import on the simulated disk with faults, crash or damage; non-trivial: more than one edge, and for C16 a file that differs from the undamaged one; distinct: different trace hash (file content)",
    }
}

fn evidence(prop: &str, tier: &str, base: u64, b: &Batch, wall: f64, violations: usize) {
    let distinct = b.nontrivial.iter().collect::<BTreeSet<_>>().len();
    let (cov, pairs) = rt::count_maps();
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut samples = Vec::new();
    for i in 0..3u64 {
        let s = gen::generate(prop, seed_of(base, prop, i), i);
        let mut t = serde_json::to_string(&s).unwrap_or_default();
        if t.len() > 3000 {
            t = format!("{}... ({} bytes)", t.chars().take(3000).collect::<String>(), t.len());
        }
        samples.push(t);
    }
    let fault_keys = [
        "short transfers", "EINTR", "EIO", "ENOSPC", "failed opens", "failed syncs", "crashes in a transfer", "crashes in a save",
        "short stream transfers", "interrupted stream calls", "failed stream calls", "stream calls without room", "logger panicked",
        "preparations aborted", "queries aborted inside", "refused queries", "witness searches cut", "orders refused", "processes died",
        "damaged files", "damaged images refused", "imports refused",
    ];
    let mut faults = BTreeMap::new();
    for k in fault_keys {
        if let Some(n) = b.stats.get(k) {
            faults.insert(k, serde_json::json!({"times": n, "runs": b.fired_runs.get(k)}));
        }
    }
    let other: BTreeMap<_, _> = b.stats.iter().filter(|x| !fault_keys.contains(&x.0.as_str())).collect();
    let v = serde_json::json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": distinct,
            "rule": rule(prop),
            "samples": samples,
            "comparisons_with_oracle": b.checks,
            "simulated_runs_per_hour": per_hour(b.runs),
            "seeds_per_hour": per_hour(b.runs),
            "simulated_steps": b.steps,
            "simulated_time_s": b.slept_ns as f64 / 1e9 + b.steps as f64 / 1e9,
            "faults_injected": faults,
            "preemptions": b.preemptions,
            "distinct_preemption_location_pairs": pairs,
            "basic_block_edges_reached": cov,
            "basic_block_edges_instrumented": rt::guards(),
            "events": other,
            "unconfirmed_suspicions": b.unconfirmed,
            "violations_of_other_properties_seen": b.other_classes,
            "largest_use_of_a_bound_permille": b.max_work,
            "hooks_compiled_in": exec::HOOKS,
            "components_real": ["fast_paths (all of it)", "priority-queue, indexmap, hashbrown", "serde, serde_json, bincode", "std"],
            "components_simulated": ["thread scheduler", "clocks", "hash seeds", "CPU count", "pid", "futex waits and sleeps", "file system under /fpsim/", "reader and writer streams", "logger", "allocator"],
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof", "interleavings are sequentially consistent at the granularity of the instrumented loads, stores and basic blocks"],
    });
    let d = format!("{}/evidence", dir());
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, prop), serde_json::to_string_pretty(&v).unwrap_or_default()) {
        sys::raw_write(2, format!("cannot write evidence: {}\n", e).as_bytes());
    }
}
