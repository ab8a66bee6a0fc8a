//! Executes scenarios. Everything here tolerates any scenario value, so that the minimiser may
//! shrink it blindly.
use crate::driver::{self, out};
use crate::graphs::{self, prepare, Graph, Order, Prep};
use crate::model::Model;
use crate::rng::Rng;
use crate::rt::{self, End, Env, Sched};
use crate::scen::*;
use fast_paths::{FastGraph, FastGraph32, InputGraph, PathCalculator, ShortestPath};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the current operation of a task is (for processes that die or hang).
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Kind {
    Single = 1,
    Multi,
    Prep,
    Bad,
    Poison,
    Other,
}
pub fn kind_name(k: u32) -> &'static str {
    ["none", "single", "multi", "prep", "bad", "poison", "other"].get(k as usize).unwrap_or(&"none")
}

pub const QUERY_CAP: u64 = 1_500_000_000;
pub const PREP_CAP: u64 = 6_000_000_000;

/// Runs library code as one operation of a task: preemptible, panics caught, steps counted.
pub fn lib<T>(task: usize, op: usize, kind: Kind, cap: u64, f: impl FnOnce() -> T) -> (Result<T, String>, u64) {
    driver::set_current(task, op, kind as u32);
    rt::op_begin(cap);
    let r = catch_unwind(AssertUnwindSafe(f));
    let r = match r {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = rt::exempt(|| if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            });
            drop(e);
            Err(m)
        }
    };
    let steps = rt::op_end();
    if steps > cap / 4 {
        out().stat("operations over a quarter of the step limit", 1);
    }
    driver::set_current(task, op, 0);
    (r, steps)
}

/// Body of a task that may touch the scenario's state (only the holder of the token runs).
pub struct Body(pub Box<dyn FnOnce()>);
unsafe impl Send for Body {}
impl Body {
    /// The caller guarantees that everything borrowed outlives the run.
    pub fn new<'a>(f: impl FnOnce() + 'a) -> Body {
        let b: Box<dyn FnOnce() + 'a> = Box::new(f);
        Body(unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'a>, Box<dyn FnOnce() + 'static>>(b) })
    }
}
pub fn run_tasks(bodies: Vec<(Env, Body)>, sched: &Sched) -> End {
    let v: Vec<(Env, Box<dyn FnOnce() + Send>)> = bodies
        .into_iter()
        .map(|(e, b)| {
            let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                let b = b;
                if let Err(e) = catch_unwind(AssertUnwindSafe(b.0)) {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    out().bad("harness", 99, 0, format!("simulator panicked: {:?}", m));
                }
            });
            (e, f)
        })
        .collect();
    let r = rt::run(v, sched);
    r
}
/// One task on its own.
pub fn run_alone(env: &Env, f: impl FnOnce()) -> End {
    run_tasks(vec![(env.clone(), Body::new(f))], &Sched::default())
}
/// Shares something between tasks although the type system would not allow it.
pub struct Sh<T>(pub *mut T);
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Sh<T> {}
impl<T> Sh<T> {
    pub fn new(x: &mut T) -> Sh<T> {
        Sh(x)
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
}

// ---- logger -------------------------------------------------------------------------------------

thread_local! {
    static LOG_SEEN: Cell<u32> = const { Cell::new(0) };
    static LOG_PANIC: Cell<u32> = const { Cell::new(u32::MAX) };
}
pub struct SimLogger;
struct Null(u64);
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut n = Null(0);
        let _ = std::fmt::write(&mut n, *r.args());
        rt::tick(10);
        let k = LOG_SEEN.with(|c| {
            let k = c.get();
            c.set(k + 1);
            k
        });
        if LOG_PANIC.with(|c| c.get()) == k {
            rt::exempt(|| out().stat("logger panicked", 1));
            panic!("simulated logger failure");
        }
    }
    fn flush(&self) {}
}
pub static LOGGER: SimLogger = SimLogger;
/// The n-th record from now on makes the logger of this thread panic.
pub fn log_panic_at(n: Option<u32>) {
    LOG_SEEN.with(|c| c.set(0));
    LOG_PANIC.with(|c| c.set(n.unwrap_or(u32::MAX)));
}
pub fn log_seen() -> u32 {
    LOG_SEEN.with(|c| c.get())
}
pub fn set_log(level: u8) {
    log::set_max_level(match level {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Warn,
        _ => log::LevelFilter::Trace,
    });
}

// ---- hooks --------------------------------------------------------------------------------------

#[cfg(feature = "hooks")]
pub fn set_room(r: Option<Room>) {
    use fast_paths::sim_hooks::*;
    set_epoch_room(match r {
        Some(Room::Start(x)) => Some(x),
        _ => None,
    });
    set_epoch_jump(match r {
        Some(Room::Jump(a, x)) => Some((a, x)),
        _ => None,
    });
}
#[cfg(not(feature = "hooks"))]
pub fn set_room(_r: Option<Room>) {}
#[cfg(feature = "hooks")]
pub fn set_budget(f: Option<fn(usize) -> usize>) {
    fast_paths::sim_hooks::set_witness_budget(f)
}
#[cfg(not(feature = "hooks"))]
pub fn set_budget(_f: Option<fn(usize) -> usize>) {}
pub const HOOKS: bool = cfg!(feature = "hooks");

// ---- oracle for answers ---------------------------------------------------------------------------

/// (class, message) of everything wrong with an answer.
pub fn judge(
    m: &Model,
    ss: &[(usize, usize)],
    ts: &[(usize, usize)],
    single: bool,
    ans: &Option<ShortestPath>,
) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let expect = if single { m.dist(ss[0].0, ts[0].0) } else { m.multi(ss, ts) };
    let got = ans.as_ref().map(|p| p.get_weight() as u128);
    let o = out();
    o.checks += 1;
    let tr = &mut rt::rt().trace;
    tr.add(got.map_or(u64::MAX, |x| x as u64));
    if let Some(p) = ans {
        for x in p.get_nodes() {
            tr.add(*x as u64);
        }
    }
    if expect != got {
        v.push((
            if single { "weight-single" } else { "weight-multi" }.to_string(),
            format!("from {} to {}: expected {:?}, got {:?}", show(ss), show(ts), expect, got),
        ));
    }
    if let Some(p) = ans {
        let nodes = p.get_nodes();
        if nodes.len() > 2 {
            o.nontrivial = true;
        }
        let mut bad = None;
        if nodes.is_empty() {
            bad = Some("no nodes".to_string());
        } else {
            let (a, b) = (nodes[0], nodes[nodes.len() - 1]);
            match m.path_weight(nodes) {
                None => bad = Some("consecutive nodes without an edge".to_string()),
                Some(w) => {
                    let ok = ss.iter().filter(|x| x.0 == a && x.1 != usize::MAX).any(|x| {
                        ts.iter()
                            .filter(|y| y.0 == b && y.1 != usize::MAX)
                            .any(|y| x.1 as u128 + w + y.1 as u128 == p.get_weight() as u128)
                    });
                    if !ok {
                        bad = Some(format!("edges weigh {}", w));
                    }
                }
            }
            if p.get_source() != a || p.get_target() != b {
                bad = Some(format!("reported ends {} {}", p.get_source(), p.get_target()));
            }
            if !p.is_found() {
                bad = Some("marked as not found".to_string());
            }
        }
        if let Some(b) = bad {
            v.push((
                "path".to_string(),
                format!("from {} to {}: {}: weight {} nodes {:?}", show(ss), show(ts), b, p.get_weight(), nodes),
            ));
        }
    }
    v
}
fn show(v: &[(usize, usize)]) -> String {
    if v.len() == 1 && v[0].1 == 0 {
        format!("{}", v[0].0)
    } else {
        format!("{:?}", v)
    }
}

pub struct Ready {
    pub fg: FastGraph,
    pub model: Model,
    pub input: InputGraph,
    pub n: usize,
    /// which graph of the scenario
    pub at: usize,
    /// steps that the preparation took
    pub steps: u64,
}

pub type Calcs = BTreeMap<(u8, usize), PathCalculator>;

pub fn fit(v: &[(usize, usize)], n: usize) -> Vec<(usize, usize)> {
    let v: Vec<_> = v.iter().map(|x| (x.0 % n, x.1)).collect();
    if v.is_empty() {
        vec![(0, 0)]
    } else {
        v
    }
}

pub fn poisoned(fg: &FastGraph, k: u32) -> Option<FastGraph> {
    fn walk(v: &mut serde_json::Value, k: &mut u64) -> bool {
        match v {
            serde_json::Value::Number(n) => {
                if *k == 0 {
                    *n = (1u64 << 40).into();
                    return true;
                }
                *k -= 1;
                false
            }
            serde_json::Value::Array(a) => a.iter_mut().any(|x| walk(x, k)),
            serde_json::Value::Object(o) => o.iter_mut().any(|(_, x)| walk(x, k)),
            _ => false,
        }
    }
    fn count(v: &serde_json::Value) -> u64 {
        match v {
            serde_json::Value::Number(_) => 1,
            serde_json::Value::Array(a) => a.iter().map(count).sum(),
            serde_json::Value::Object(o) => o.values().map(count).sum(),
            _ => 0,
        }
    }
    let mut v = serde_json::to_value(fg).ok()?;
    let n = count(&v);
    let mut k = if n == 0 { return None } else { k as u64 % n };
    walk(&mut v, &mut k);
    serde_json::from_value(v).ok()
}

/// All numbers of a prepared graph can be represented in 32 bits.
pub fn fits32(fg: &FastGraph) -> bool {
    fn ok(v: &serde_json::Value) -> bool {
        match v {
            serde_json::Value::Number(n) => n.as_u64().map_or(false, |x| x < u32::MAX as u64 || x == u64::MAX),
            serde_json::Value::Array(a) => a.iter().all(ok),
            serde_json::Value::Object(o) => o.values().all(ok),
            _ => true,
        }
    }
    serde_json::to_value(fg).map_or(true, |v| ok(&v))
}

/// Restores a prepared graph in the way the scenario asks for.
fn restore(fg: FastGraph, via: u8) -> FastGraph {
    match via {
        1 => fg.clone(),
        2 => bincode::deserialize(&bincode::serialize(&fg).expect("ser")).expect("de"),
        3 => serde_json::from_str(&serde_json::to_string(&fg).expect("ser")).expect("de"),
        4 => {
            let fits = fits32(&fg);
            if fits {
                FastGraph32::new(&fg).convert_to_usize()
            } else {
                fg
            }
        }
        _ => fg,
    }
}

#[allow(dead_code)]
pub trait SyncNo {
    const SYNC: bool = false;
}
#[allow(dead_code)]
pub trait SendNo {
    const SEND: bool = false;
}
pub struct Probe<T>(std::marker::PhantomData<T>);
impl<T> SyncNo for Probe<T> {}
impl<T> SendNo for Probe<T> {}
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    pub const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    pub const SEND: bool = true;
}

type Ends = Vec<(usize, usize)>;
/// Queries and the steps they took
struct Asked {
    graph: usize,
    task: usize,
    from: Ends,
    to: Ends,
    single: bool,
    steps: u64,
}
type Tally = Vec<Asked>;

/// Compares the work on street networks with that of Dijkstra's algorithm on the same input (C20).
fn compare_work(w: &Service, ready: &[Ready], tally: &Tally) {
    for r in ready {
        let g = &w.graphs[r.at];
        let alike = g.like && streets(&w.graphs[0]) == streets(g) && matches!(w.graphs[0].prep, Prep::Default) && ready[0].at == 0;
        let by_default = !g.like && matches!(g.prep, Prep::Default);
        if streets(g).is_none() || !(alike || by_default && r.at == 0) {
            continue;
        }
        let edges: Vec<(usize, usize, usize)> = r.model.ledger.edges.iter().map(|(x, w)| (x.0, x.1, *w)).collect();
        let m = edges.len() as u64;
        // work of Dijkstra's algorithm: for each of the queries, and to visit everything
        let mut plain = plain_search::Plain::new(r.n, &edges);
        let mut all = 0;
        let mut tasks: BTreeMap<usize, (u64, u64, u64)> = BTreeMap::new();
        // steps of some of the queries, and of the same queries on new calculators
        let mut anew: BTreeMap<usize, (u64, u64, u64)> = BTreeMap::new();
        run_alone(&Default::default(), || {
            for a in [0, r.n / 2, r.n - 1] {
                all += lib(101, 0, Kind::Other, QUERY_CAP, || plain.search(a, usize::MAX)).1;
            }
            all /= 3;
            for q in tally.iter().filter(|q| q.graph == r.at) {
                let x = tasks.entry(q.task).or_default();
                // of several sources and targets one pair each
                for i in 0..q.from.len().max(q.to.len()) {
                    let (a, b) = (q.from[i % q.from.len()].0, q.to[i % q.to.len()].0);
                    x.1 += lib(101, 0, Kind::Other, QUERY_CAP, || plain.search(a, b)).1;
                }
                x.0 += q.steps;
                x.2 += 1;
                let y = anew.entry(q.task).or_default();
                if y.2 < MAX_ANEW {
                    let mut calc = fast_paths::create_calculator(&r.fg);
                    let (a, steps) = lib(101, 0, Kind::Other, QUERY_CAP, || {
                        if q.single {
                            calc.calc_path(&r.fg, q.from[0].0, q.to[0].0)
                        } else {
                            calc.calc_path_multiple_sources_and_targets(&r.fg, q.from.clone(), q.to.clone())
                        }
                    });
                    if a.is_ok() {
                        y.0 += q.steps;
                        y.1 += steps;
                        y.2 += 1;
                    }
                }
            }
        });
        let o = out();
        let mut limit = |what: &str, class: &str, value: u64, bound: u64| {
            o.checks += 1;
            driver::note_ratio(value, bound);
            if value > bound {
                o.bad(class, 100, r.at, format!("a network of {} nodes and {} edges{}: {}: {}, more than {}", r.n, m, if alike { ", prepared with an earlier ordering" } else { "" }, what, value, bound));
            }
        };
        limit("out-edges after preparation", "shortcuts", r.fg.get_num_out_edges() as u64, m * 2);
        limit("in-edges after preparation", "shortcuts", r.fg.get_num_in_edges() as u64, m * 2);
        limit("steps of the preparation (bound: 3/2 of the Dijkstra searches from every node)", "slow-prep", r.steps, all * r.n as u64 * 3 / 2);
        if alike {
            limit("steps of the preparation with the earlier ordering (bound: half of the first preparation)", "slow-prep", r.steps, ready[0].steps / 2);
        }
        for (t, x) in &tasks {
            if x.2 >= 20 {
                limit(&format!("steps of {} queries of task {} (bound: half of the Dijkstra searches)", x.2, t), "slow-query", x.0, x.1 / 2);
            }
        }
        for (t, x) in &anew {
            if x.2 >= 20 {
                limit(&format!("steps of {} queries of task {} (bound: 3/2 of those of the same queries on new calculators)", x.2, t), "slow-used", x.0, x.1 * 3 / 2);
            }
        }
        let o = out();
        o.stat("queries repeated on new calculators", anew.values().map(|x| x.2).sum());
        o.stat("queries compared with Dijkstra searches", tasks.values().map(|x| x.2).sum());
        if let Ok(f) = std::env::var("FPSIM_RATIOS") {
            use std::io::Write;
            let line = format!("{} n {} all {:.3} like {:.3} fwd {:.3} query {:.3} used {:.3}\n", alike, r.n, r.steps as f64 / (all * r.n as u64) as f64, r.steps as f64 / ready[0].steps as f64, r.fg.get_num_out_edges().max(r.fg.get_num_in_edges()) as f64 / m as f64, tasks.values().filter(|x| x.2 >= 20).map(|x| x.0 as f64 / x.1 as f64).fold(0.0, f64::max), anew.values().filter(|x| x.2 >= 20).map(|x| x.0 as f64 / x.1 as f64).fold(0.0, f64::max));
            let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).map(|mut f| f.write_all(line.as_bytes()));
        }
    }
}
/// As many queries per task and graph are repeated on new calculators.
const MAX_ANEW: u64 = 120;
const MIN_STREETS: usize = 3000;
fn streets(g: &Served) -> Option<(usize, u32, u8, u64)> {
    match &g.graph {
        Graph::Family { kind, n, deg, wmode, seed } if (*kind == 102 || *kind == 103) && *n >= MIN_STREETS => Some((*n, *deg, *wmode, *seed)),
        _ => None,
    }
}
struct Seen {
    equal: Vec<usize>,
    /// by class of graphs and query: who asked first, and the answer
    answers: BTreeMap<(usize, bool, Ends, Ends), (usize, usize, Option<(usize, Vec<usize>)>)>,
}
/// Equal queries have to be answered identically.
fn same_answer(seen: Sh<Seen>, class: usize, ss: &[(usize, usize)], ts: &[(usize, usize)], single: bool, a: &Option<ShortestPath>, t: usize, op: usize) {
    let got = a.as_ref().map(|p| (p.get_weight(), p.get_nodes().clone()));
    let v = seen.get();
    let class = v.equal[class];
    out().checks += 1;
    match v.answers.get(&(class, single, ss.to_vec(), ts.to_vec())) {
        None => {
            if v.answers.len() < 20_000 {
                v.answers.insert((class, single, ss.to_vec(), ts.to_vec()), (t, op, got));
            }
        }
        Some(x) => {
            out().stat("equal queries", 1);
            if x.2 != got {
                let m = format!("query from {} to {} on equal prepared graphs: task {} operation {} got {:?}, task {} operation {} got {:?}", show(ss), show(ts), x.0, x.1, x.2, t, op, got);
                out().bad("different", t, op, m.chars().take(2000).collect());
            }
        }
    }
}

/// Calculators by number and node count; taken out while they are in use.
type Rack = Vec<((u8, usize), PathCalculator)>;
fn take(rack: Sh<Rack>, key: (u8, usize)) -> Option<PathCalculator> {
    let v = rack.get();
    v.iter().rposition(|x| x.0 == key).map(|i| v.remove(i).1)
}
fn put(rack: Sh<Rack>, key: (u8, usize), c: Option<PathCalculator>) {
    if let Some(c) = c {
        rack.get().push((key, c));
    }
}

/// Upper bound for the steps of a query (see DESIGN.md).
fn work_bound(r: &Ready, ss: usize, ts: usize, len: usize) -> u64 {
    let e = (r.fg.get_num_in_edges() + r.fg.get_num_out_edges()) as u64;
    let n = r.n as u64;
    let lg = 64 - (e + n + 2).leading_zeros() as u64;
    2000 * (1 + (ss * ts) as u64 + (ss + ts) as u64 + len as u64) + 60 * lg * (e + n)
}

pub fn service(s: &Scenario, w: &Service) {
    if s.prop == "C04" && !(<Probe<FastGraph>>::SYNC && <Probe<FastGraph>>::SEND && <Probe<PathCalculator>>::SEND) {
        out().bad("not-sync", 0, 0, "prepared graphs or calculators cannot be used by several threads any more".into());
        return;
    }
    let mut ready: Vec<Ready> = Vec::new();
    {
        let rp = Sh::new(&mut ready);
        run_alone(&w.setup, || {
            for (i, g) in w.graphs.iter().enumerate() {
                let ledger = g.graph.ledger();
                let n = ledger.num_nodes;
                let edges = g.graph.edges();
                set_room(w.prep_room);
                let prep = match rp.get().first() {
                    Some(first) if g.like && first.n == n => Prep::Order(Order::Explicit(first.fg.get_node_ordering()), match g.prep {
                        Prep::Order(_, b) => b,
                        _ => None,
                    }),
                    _ => g.prep.clone(),
                };
                // on street networks the bound of C20 is near 35 steps per node and edge
                let cap = if s.prop == "C20" && streets(g).is_some() { 45 * n as u64 * ledger.edges.len() as u64 } else { PREP_CAP };
                let (r, steps) = lib(100, i, Kind::Prep, cap, || {
                    let input = graphs::input_of(&edges);
                    let fg = prepare(&input, &prep, g.via == 5);
                    (input, fg)
                });
                set_room(None);
                match r {
                    Err(m) => out().bad("panic-prep", 100, i, format!("preparation panicked: {}", m)),
                    Ok((input, fg)) => {
                        let e = fg.get_num_in_edges() as u64 + fg.get_num_out_edges() as u64;
                        out().stat("shortcuts and edges prepared", e);
                        out().stat("preparation steps", steps);
                        if let Ok(fg) = catch_unwind(AssertUnwindSafe(|| restore(fg, g.via))) {
                            rp.get().push(Ready { fg, model: Model::new(ledger), input, n, at: i, steps });
                        }
                    }
                }
            }
        });
    }
    if ready.is_empty() || !out().violations.is_empty() {
        return;
    }
    let rp = Sh::new(&mut ready);
    let mut pool = Rack::new();
    let pool = if w.pool { Some(Sh::new(&mut pool)) } else { None };
    // for C19: equal graphs by the first of them, and the answers seen
    let same = |a: &Served, b: &Served| serde_json::to_string(&(&a.graph, &a.prep)).ok() == serde_json::to_string(&(&b.graph, &b.prep)).ok();
    let equal: Vec<usize> = if s.prop == "C19" { w.graphs.iter().map(|g| w.graphs.iter().position(|h| same(g, h)).unwrap_or(0)).collect() } else { vec![] };
    let mut seen = Seen { equal, answers: BTreeMap::new() };
    let seen = Sh::new(&mut seen);
    let mut tally = Tally::new();
    let tally = Sh::new(&mut tally);
    let bodies = w
        .tasks
        .iter()
        .enumerate()
        .map(|(t, task)| (task.env.clone(), Body::new(move || reader(s, w, t, task, rp, pool, seen, tally))))
        .collect();
    run_tasks(bodies, &w.sched);
    if s.prop == "C20" {
        compare_work(w, rp.get(), tally.get());
    }
}

fn reader(s: &Scenario, w: &Service, t: usize, task: &Reader, rp: Sh<Vec<Ready>>, pool: Option<Sh<Rack>>, seen: Sh<Seen>, tally: Sh<Tally>) {
    let ready = rp.get();
    let mut own = Rack::new();
    let rack = pool.unwrap_or(Sh::new(&mut own));
    let c07 = s.prop == "C07";
    let c19 = s.prop == "C19";
    let finish = |op: usize, r: &Ready, ss: &[(usize, usize)], ts: &[(usize, usize)], single: bool, a: Result<Option<ShortestPath>, String>, steps: u64, bounded: bool| {
        out().stat("queries", 1);
        match a {
            Err(m) => out().bad(
                if single { "panic-single" } else { "panic-multi" },
                t,
                op,
                format!("query from {} to {} panicked: {}", show(ss), show(ts), m),
            ),
            Ok(a) => {
                for (c, m) in judge(&r.model, ss, ts, single, &a) {
                    out().bad(&c, t, op, m);
                }
                if c19 {
                    same_answer(seen, r.at, ss, ts, single, &a, t, op);
                }
                if c07 && bounded {
                    let len = a.as_ref().map_or(0, |p| p.get_nodes().len());
                    let b = work_bound(r, ss.len(), ts.len(), len);
                    driver::note_ratio(steps, b);
                    if steps > b {
                        out().bad("work", t, op, format!("query from {} to {} took {} steps, more than {}", show(ss), show(ts), steps, b));
                    }
                }
            }
        }
    };
    let query_on = |op: usize, c: u8, r: &Ready, fg: &FastGraph, ss: &[(usize, usize)], ts: &[(usize, usize)], single: bool| {
        let key = (c % 3, r.n);
        let mut calc = take(rack, key);
        if w.fresh {
            calc = None;
        }
        set_room(task.room);
        let kind = if single { Kind::Single } else { Kind::Multi };
        let used = calc.is_some();
        let (a, steps) = lib(t, op, kind, QUERY_CAP, || {
            let calc = calc.get_or_insert_with(|| fast_paths::create_calculator(fg));
            if single {
                calc.calc_path(fg, ss[0].0, ts[0].0)
            } else {
                calc.calc_path_multiple_sources_and_targets(fg, ss.to_vec(), ts.to_vec())
            }
        });
        set_room(None);
        put(rack, key, calc);
        if s.prop == "C20" && used && a.is_ok() {
            tally.get().push(Asked { graph: r.at, task: t, from: ss.to_vec(), to: ts.to_vec(), single, steps });
        }
        finish(op, r, ss, ts, single, a, steps, true);
    };
    let query = |op: usize, c: u8, r: &Ready, ss: &[(usize, usize)], ts: &[(usize, usize)], single: bool| query_on(op, c, r, &r.fg, ss, ts, single);
    let mut slot: Option<(usize, Box<FastGraph>)> = None;
    for (k, op) in task.ops.iter().enumerate() {
        let g_of = |g: u8| &ready[g as usize % ready.len()];
        match op {
            Op::Q(c, g, a, b) => {
                let r = g_of(*g);
                if r.n > 0 {
                    query(k, *c, r, &[(a % r.n, 0)], &[(b % r.n, 0)], true);
                }
            }
            Op::M(c, g, ss, ts) => {
                let r = g_of(*g);
                if r.n > 0 {
                    query(k, *c, r, &fit(ss, r.n), &fit(ts, r.n), false);
                }
            }
            Op::Fq(g, a, b) => {
                let r = g_of(*g);
                if r.n > 0 {
                    let (a, b) = (a % r.n, b % r.n);
                    set_room(task.room);
                    let (x, st) = lib(t, k, Kind::Single, QUERY_CAP, || fast_paths::calc_path(&r.fg, a, b));
                    set_room(None);
                    finish(k, r, &[(a, 0)], &[(b, 0)], true, x, st, true);
                }
            }
            Op::Fm(g, ss, ts) => {
                let r = g_of(*g);
                if r.n > 0 {
                    let (ss, ts) = (fit(ss, r.n), fit(ts, r.n));
                    set_room(task.room);
                    let (x, st) = lib(t, k, Kind::Multi, QUERY_CAP, || {
                        fast_paths::calc_path_multiple_sources_and_targets(&r.fg, ss.clone(), ts.clone())
                    });
                    set_room(None);
                    finish(k, r, &ss, &ts, false, x, st, true);
                }
            }
            Op::Burst(c, g, count, seed) => {
                let r = g_of(*g);
                if r.n > 0 {
                    let mut rng = Rng::new(*seed);
                    let pool: Vec<usize> = (0..12).map(|_| rng.below(r.n)).collect();
                    for _ in 0..(*count).min(300_000) {
                        let a = if r.n <= 60 { rng.below(r.n) } else { *rng.pick(&pool) };
                        let b = rng.below(r.n);
                        query(k, *c, r, &[(a, 0)], &[(b, 0)], true);
                        if !out().violations.is_empty() {
                            break;
                        }
                    }
                }
            }
            Op::Bad(c, g, kind, x) => {
                let r = g_of(*g);
                let n = r.n;
                let big = n + *x % 5 + if *x % 7 == 0 { 1 << 20 } else { 0 };
                let big = if *x % 11 == 0 { usize::MAX } else { big };
                let ok = if n > 0 { *x % n } else { 0 };
                let key = (c % 3, n);
                let other = ready.iter().find(|o| o.n != n);
                // with an empty graph there is no valid node
                let fg = &r.fg;
                set_room(task.room);
                let mut calc = take(rack, key);
                let (res, _) = lib(t, k, Kind::Bad, QUERY_CAP, || {
                    let calc = calc.get_or_insert_with(|| fast_paths::create_calculator(fg));
                    match kind % 12 {
                        0 => calc.calc_path(fg, big, ok),
                        1 => calc.calc_path(fg, ok, big),
                        2 => calc.calc_path_multiple_sources_and_targets(fg, vec![], vec![(ok, 0)]),
                        3 => calc.calc_path_multiple_sources_and_targets(fg, vec![(ok, 0)], vec![]),
                        4 => calc.calc_path_multiple_sources_and_targets(fg, vec![(ok, 3), (0, 1), (big, 0)], vec![(ok, 0)]),
                        5 => calc.calc_path_multiple_sources_and_targets(fg, vec![(ok, 1)], vec![(0, 2), (big, 2), (ok, 0)]),
                        6 => match other {
                            Some(o) => calc.calc_path(&o.fg, ok.min(o.n.saturating_sub(1)), 0),
                            None => calc.calc_path(fg, big, big),
                        },
                        7 => calc.calc_path(fg, big, big),
                        8 => fast_paths::calc_path(fg, ok, big),
                        9 => fast_paths::calc_path_multiple_sources_and_targets(fg, vec![(big, 1)], vec![(ok, 0)]),
                        10 => calc.calc_path_multiple_sources_and_targets(fg, vec![(ok, 0), (big, usize::MAX)], vec![(0, 0)]),
                        _ => calc.calc_path_multiple_sources_and_targets(fg, vec![], vec![]),
                    }
                });
                set_room(None);
                put(rack, key, calc);
                out().stat("refused queries", res.is_err() as u64);
                out().checks += 1;
                if let Ok(a) = res {
                    out().bad("not-refused", t, k, format!("invalid query (kind {}, node {}) answered {:?}", kind % 12, big, a.map(|p| p.get_weight())));
                }
            }
            Op::Poison(c, g, num, a, b) => {
                let r = g_of(*g);
                if r.n == 0 {
                    continue;
                }
                if let Some(p) = poisoned(&r.fg, *num) {
                    let key = (c % 3, r.n);
                    set_room(task.room);
                    let mut calc = take(rack, key);
                    let (res, _) = lib(t, k, Kind::Poison, QUERY_CAP, || {
                        let calc = calc.get_or_insert_with(|| PathCalculator::new(r.n));
                        calc.calc_path(&p, a % r.n, b % r.n).map(|p| p.get_weight())
                    });
                    set_room(None);
                    put(rack, key, calc);
                    out().stat("queries aborted inside", res.is_err() as u64);
                }
            }
            Op::Slot(c, g, a, b) => {
                let i = *g as usize % ready.len();
                let r = &ready[i];
                if r.n == 0 {
                    continue;
                }
                if slot.as_ref().map(|x| x.0) != Some(i) {
                    let (f, _) = lib(t, k, Kind::Other, QUERY_CAP, || r.fg.clone());
                    match (f, &mut slot) {
                        (Ok(f), Some(x)) => {
                            *x.1 = f;
                            x.0 = i;
                        }
                        (Ok(f), None) => slot = Some((i, Box::new(f))),
                        _ => continue,
                    }
                    out().stat("prepared graphs replaced in place", 1);
                }
                query_on(k, *c, r, &slot.as_ref().unwrap().1, &[(a % r.n, 0)], &[(b % r.n, 0)], true);
            }
            Op::Fresh(c, g) => {
                let n = g_of(*g).n;
                take(rack, (c % 3, n));
            }
            Op::Prep(g, a, b) => {
                let r = g_of(*g);
                let sp = &w.graphs[*g as usize % w.graphs.len()].prep;
                if r.n == 0 {
                    continue;
                }
                let (a, b) = (a % r.n, b % r.n);
                set_room(w.prep_room);
                let (f, _) = lib(t, k, Kind::Prep, PREP_CAP, || prepare(&r.input, sp, (a & 1) == 1));
                set_room(None);
                match f {
                    Err(m) => out().bad("panic-prep", t, k, format!("preparation panicked: {}", m)),
                    Ok(f) => {
                        out().stat("preparations in reader tasks", 1);
                        let (x, st) = lib(t, k, Kind::Single, QUERY_CAP, || fast_paths::calc_path(&f, a, b));
                        finish(k, r, &[(a, 0)], &[(b, 0)], true, x, st, false);
                    }
                }
            }
        }
    }
}

/// Which classes of violations are violations of which property.
pub fn relevant(prop: &str, class: &str) -> bool {
    let any = |l: &[&str]| l.contains(&class);
    let dead = |l: &[&str]| match class.split_once('-') {
        Some(("abort", k)) | Some(("hang", k)) | Some(("panic", k)) => l.contains(&k),
        _ => false,
    };
    match prop {
        "C01" => any(&["weight-single"]) || dead(&["single"]),
        "C02" => any(&["path"]),
        "C03" => any(&["weight-multi"]) || dead(&["multi"]),
        "C04" => any(&["weight-single", "weight-multi", "path", "not-sync"]) || dead(&["single", "multi"]),
        "C05" => any(&["weight-single", "weight-multi", "path", "not-refused"]) || dead(&["single", "multi"]) || any(&["abort-bad", "hang-bad"]),
        "C06" => any(&["weight-single", "weight-multi", "path"]) || dead(&["single", "multi", "prep"]),
        "C07" => any(&["work"]) || dead(&["single", "multi", "prep"]),
        "C17" => any(&["weight-single", "weight-multi", "path"]) || dead(&["single", "multi", "prep"]),
        "C09" => any(&["weight-single", "path"]) || dead(&["single", "prep"]),
        "C10" => any(&["weight-single", "weight-multi", "path", "not-refused", "order"]) || dead(&["single", "multi", "prep", "bad"]) && class != "panic-bad",
        "C19" => any(&["different"]),
        "C20" => any(&["shortcuts", "slow-prep", "slow-query", "slow-used"]) || class.starts_with("hang-"),
        "C18" => any(&["memory", "working-memory", "files"]),
        _ => class != "harness",
    }
}

/// Scenarios that must NOT show the violation for it to be one of this property.
pub fn controls(s: &Scenario, v: &Violation) -> Vec<Scenario> {
    let w = match &s.work {
        Work::Service(w) => w,
        _ => return exec_controls(s),
    };
    if ["not-sync", "not-refused", "abort-bad", "hang-bad", "work"].contains(&v.class.as_str()) {
        return vec![];
    }
    let mut r = Vec::new();
    let mut push = |w: Service| {
        let mut c = s.clone();
        c.work = Work::Service(w);
        r.push(c);
    };
    match s.prop.as_str() {
        "C04" => {
            // the task of the violation on its own
            for (i, t) in w.tasks.iter().enumerate() {
                if i == v.task as usize || v.task >= 99 {
                    let mut x = w.clone();
                    x.tasks = vec![t.clone()];
                    x.sched = Sched::default();
                    push(x);
                }
            }
        }
        "C05" => {
            let mut x = w.clone();
            for t in &mut x.tasks {
                t.ops.retain(|o| !matches!(o, Op::Bad(..) | Op::Poison(..)));
            }
            push(x);
        }
        "C06" => {
            let mut x = w.clone();
            x.prep_room = None;
            x.fresh = true;
            for t in &mut x.tasks {
                t.room = None;
            }
            push(x);
        }
        _ => {}
    }
    r
}
fn exec_controls(_s: &Scenario) -> Vec<Scenario> {
    vec![]
}

pub fn exec(s: &Scenario) {
    set_log(s.log);
    crate::alloc::set_padding(s.pad);
    match &s.work {
        Work::Service(w) => service(s, w),
        Work::Det(w) => crate::exec_more::det(s, w),
        Work::Witness(w) => crate::exec_more::witness(w),
        Work::Life(w) => crate::exec_more::life(w),
        Work::Book(w) => crate::exec_files::book(w),
        Work::Image(w) => crate::exec_files::image(s, w),
        Work::Text(w) => crate::exec_files::text(s, w),
        Work::Mem(w) => crate::exec_mem::mem(w),
    }
    let r = rt::rt();
    let o = out();
    o.trace = r.trace.0;
    o.taken = if o.violations.is_empty() { vec![] } else { rt::taken() };
    o.steps = r.steps;
    o.preemptions = r.preemptions;
    o.slept_ns = r.slept_ns;
    o.stat("blocked", r.blocked);
    o.stat("threads of the library", r.library_threads);
    o.stat("hash seed reads", r.env_reads[0]);
    o.stat("clock reads", r.env_reads[1]);
    o.stat("cpu count reads", r.env_reads[2]);
    o.stat("reads of pid, variables and memory size", r.env_reads[3] + r.env_reads[4]);
    let f = crate::disk::fired();
    o.stat("short transfers", f.short);
    o.stat("EINTR", f.eintr);
    o.stat("EIO", f.eio);
    o.stat("ENOSPC", f.enospc);
    o.stat("failed opens", f.open);
    o.stat("failed syncs", f.sync);
    o.stat("crashes in a transfer", f.crash);
}
