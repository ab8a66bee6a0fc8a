//! C18: memory and open files over long histories.
use crate::driver::{self, out};
use crate::exec::*;
use crate::exec_files::Stream;
use crate::graphs::{self, prepare};
use crate::rng::Rng;
use crate::scen::*;
use crate::{alloc, disk, rt};
use fast_paths::{FastGraph, FastGraph32, InputGraph, PathCalculator};
use std::collections::BTreeMap;

struct Obj {
    fg: FastGraph,
    input: InputGraph,
    n: usize,
    /// edges and shortcuts, both directions
    e: usize,
}
#[derive(Default)]
struct Calc {
    calc: Option<PathCalculator>,
    /// largest prepared graph and query it has seen
    e: usize,
    st: usize,
}
type Rack = BTreeMap<(u8, usize), Calc>;

// Bytes; generous multiples of what the objects need (DESIGN.md has the largest values seen).
fn fast_bound(n: usize, e: usize) -> usize {
    2048 + 400 * n + 400 * e
}
fn calc_bound(n: usize, e: usize, st: usize) -> usize {
    2048 + 600 * n + 150 * e + 100 * st
}
fn slack(n: usize, e: usize) -> usize {
    8192 + 200 * (n + e)
}

struct Meter {
    /// other tasks are running: nothing can be said about the peak of one operation
    alone: bool,
}
impl Meter {
    fn run<T>(&self, t: usize, k: usize, kind: Kind, bound: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        let base = alloc::counted();
        alloc::restart_peak();
        let (r, _) = lib(t, k, kind, if kind == Kind::Prep { PREP_CAP } else { QUERY_CAP }, f);
        if self.alone {
            let peak = (alloc::peak() - base).max(0) as u64;
            out().checks += 1;
            driver::note_ratio(peak, bound as u64);
            if peak > bound as u64 {
                out().bad("working-memory", t, k, format!("{} needed {} bytes of working memory, more than {}", what, peak, bound));
            }
        }
        r
    }
    fn free<T>(&self, t: usize, k: usize, x: T) {
        let _ = lib(t, k, Kind::Other, QUERY_CAP, move || drop(x));
    }
}

pub fn mem(w: &Mem) {
    let mut objs: Vec<Obj> = Vec::new();
    let op = Sh::new(&mut objs);
    let (mut n, mut e) = (0, 0);
    run_alone(&w.setup, || {
        for (i, g) in w.graphs.iter().enumerate() {
            let edges = g.graph.edges();
            let ledger = g.graph.ledger();
            let (r, _) = lib(100, i, Kind::Prep, PREP_CAP, || {
                let input = graphs::input_of(&edges);
                let fg = prepare(&input, &g.prep, g.via == 5);
                (input, fg)
            });
            if let Ok((input, fg)) = r {
                let e = fg.get_num_in_edges() + fg.get_num_out_edges();
                let before = alloc::counted();
                if g.via == 1 {
                    let c = lib(100, i, Kind::Other, QUERY_CAP, || fg.clone()).0;
                    let _ = lib(100, i, Kind::Other, QUERY_CAP, || drop(c));
                }
                if alloc::counted() > before + 1024 {
                    out().bad("memory", 100, i, format!("a clone of a prepared graph that was dropped left {} bytes", alloc::counted() - before));
                }
                op.get().push(Obj { fg, input, n: ledger.num_nodes, e: e + edges.len() * 2 });
            }
        }
    });
    for o in &objs {
        n = n.max(o.n);
        e = e.max(o.e);
    }
    let op = Sh::new(&mut objs);
    if op.get().is_empty() {
        return;
    }
    let expect: usize = op.get().iter().map(|o| fast_bound(o.n, o.e) + 200 * o.e).sum();
    held(100, w.graphs.len(), alloc::counted(), (expect + slack(n, e)) as i64, "preparing the graphs");
    let mut pool = Rack::new();
    let pool = Sh::new(&mut pool);
    let bodies = w
        .tasks
        .iter()
        .enumerate()
        .map(|(t, task)| (task.env.clone(), Body::new(move || task_of(w, t, task, op, pool, slack(n, e)))))
        .collect();
    run_tasks(bodies, &w.sched);
    run_alone(&w.setup, || {
        let m = Meter { alone: false };
        for (_, c) in std::mem::take(pool.get()) {
            m.free(101, 0, c.calc);
        }
        for o in op.get().drain(..) {
            m.free(101, 0, o.fg);
            m.free(101, 0, o.input);
        }
        let left = alloc::counted();
        held(101, 0, left, slack(n, e) as i64, "the whole history, after everything was dropped");
        if left < -4096 {
            out().bad("harness", 101, 0, format!("{} bytes counted", left));
        }
        out().checks += 1;
        if disk::open_files() > 0 {
            out().bad("files", 101, 0, format!("{} files are still open at the end", disk::open_files()));
        }
    });
    rt::rt().trace.add(alloc::counted() as u64);
}

fn held(t: usize, k: usize, now: i64, bound: i64, what: &str) {
    out().checks += 1;
    rt::rt().trace.add(now as u64);
    driver::note_ratio(now.max(0) as u64, bound.max(1) as u64);
    if now > bound {
        out().bad("memory", t, k, format!("{}: {} bytes are held, more than {}", what, now, bound));
    }
}

fn task_of(w: &Mem, t: usize, task: &MemTask, op: Sh<Vec<Obj>>, pool: Sh<Rack>, slack: usize) {
    let objs = op.get();
    let m = Meter { alone: w.tasks.len() == 1 };
    let base = alloc::counted();
    let mut own = Rack::new();
    let own = Sh::new(&mut own);
    // calculators of the pool are handed from task to task
    let rack = if w.pool { pool } else { own };
    for round in 0..w.rounds.min(5000) {
        for (k, op) in task.ops.iter().enumerate() {
            one(&m, t, k, op, objs, rack, round);
            if !out().violations.is_empty() {
                return;
            }
        }
        if m.alone {
            let c: usize = rack.get().iter().map(|(k, c)| calc_bound(k.1, c.e, c.st)).sum();
            held(t, task.ops.len(), alloc::counted() - base, (c + slack) as i64, &format!("round {} of {} operations", round, task.ops.len()));
        }
    }
    for (_, c) in std::mem::take(own.get()) {
        m.free(t, task.ops.len(), c.calc);
    }
}

fn one(m: &Meter, t: usize, k: usize, op: &MemOp, objs: &[Obj], rack: Sh<Rack>, round: u32) {
    let of = |g: u8| &objs[g as usize % objs.len()];
    let take = |c: u8, o: &Obj, st: usize| -> Calc {
        let mut x = rack.get().remove(&(c % 3, o.n)).unwrap_or_default();
        x.e = x.e.max(o.e);
        x.st = x.st.max(st);
        x
    };
    let put = |c: u8, o: &Obj, x: Calc| {
        // another task may have put one there meanwhile
        if let Some(old) = rack.get().insert((c % 3, o.n), x) {
            m.free(t, k, old.calc);
        }
    };
    let query = |c: u8, o: &Obj, fg: &FastGraph, ss: &[(usize, usize)], ts: &[(usize, usize)], single: bool, bad: bool| {
        let mut x = take(c, o, ss.len() + ts.len());
        let b = calc_bound(o.n, o.e, ss.len() + ts.len()) + 4096;
        let kind = if bad { Kind::Bad } else { Kind::Single };
        let calc = &mut x.calc;
        let r = m.run(t, k, kind, b, "a query", || {
            let calc = calc.get_or_insert_with(|| fast_paths::PathCalculator::new(o.n));
            if single {
                calc.calc_path(fg, ss[0].0, ts[0].0)
            } else {
                calc.calc_path_multiple_sources_and_targets(fg, ss.to_vec(), ts.to_vec())
            }
        });
        put(c, o, x);
        out().stat(if bad { "refused queries" } else { "queries" }, 1);
        if let Ok(r) = r {
            if r.as_ref().map_or(false, |p| p.get_nodes().len() > 2) {
                out().nontrivial = true;
            }
            m.free(t, k, r);
        }
    };
    match op {
        MemOp::Q(c, g, a, b) => {
            let o = of(*g);
            if o.n > 0 {
                query(*c, o, &o.fg, &[(a % o.n, 0)], &[(b % o.n, 0)], true, false);
            }
        }
        MemOp::M(c, g, ss, ts) => {
            let o = of(*g);
            if o.n > 0 {
                query(*c, o, &o.fg, &fit(ss, o.n), &fit(ts, o.n), false, false);
            }
        }
        MemOp::Bad(c, g, kind, a) => {
            let o = of(*g);
            let big = [(o.n + a % 3, 0)];
            let ok = [(if o.n > 0 { a % o.n } else { 0 }, 1)];
            match kind % 6 {
                0 => query(*c, o, &o.fg, &big, &ok, true, true),
                1 => query(*c, o, &o.fg, &ok, &big, true, true),
                2 => query(*c, o, &o.fg, &[ok[0], big[0]], &ok, false, true),
                3 => query(*c, o, &o.fg, &[], &ok, false, true),
                4 => query(*c, o, &o.fg, &ok, &[], false, true),
                _ => {
                    if let Some(x) = objs.iter().find(|x| x.n != o.n) {
                        query(*c, o, &x.fg, &ok, &ok, true, true)
                    }
                }
            }
        }
        MemOp::Poison(c, g, num, a, b) => {
            let o = of(*g);
            if o.n > 0 {
                if let Some(p) = poisoned(&o.fg, *num) {
                    query(*c, o, &p, &[(a % o.n, 0)], &[(b % o.n, 0)], true, true);
                }
            }
        }
        MemOp::Burst(c, g, count, seed) => {
            let o = of(*g);
            let mut r = Rng::new(*seed ^ round as u64);
            for _ in 0..(*count).min(100_000) {
                if o.n > 0 && out().violations.is_empty() {
                    query(*c, o, &o.fg, &[(r.below(o.n), 0)], &[(r.below(o.n), 0)], true, false);
                }
            }
        }
        MemOp::Free(g, a, b) => {
            let o = of(*g);
            if o.n > 0 {
                let before = alloc::counted();
                let r = m.run(t, k, Kind::Single, 2 * calc_bound(o.n, o.e, 2) + 4096, "a query", || fast_paths::calc_path(&o.fg, a % o.n, b % o.n));
                m.free(t, k, r);
                out().stat("queries", 1);
                if m.alone {
                    held(t, k, alloc::counted() - before, slack(o.n, o.e) as i64, "a query without calculator");
                }
            }
        }
        MemOp::Fresh(c, g) => {
            let x = take(*c, of(*g), 0);
            m.free(t, k, x.calc);
        }
        MemOp::Prep(g, p, abort) => {
            let o = of(*g);
            log_panic_at(*abort);
            let r = m.run(t, k, Kind::Other, prep_bound(o), "a preparation", || prepare(&o.input, p, round % 2 == 1));
            log_panic_at(None);
            out().stat("preparations", 1);
            if abort.is_some() && r.is_err() {
                out().stat("preparations aborted", 1);
            }
            if let Ok(f) = r {
                m.free(t, k, f);
            }
        }
        MemOp::Order(g, bad, x) => {
            let o = of(*g);
            let r = m.run(t, k, Kind::Other, prep_bound(o), "a preparation", || {
                let mut order = fast_paths::get_node_ordering(&o.fg);
                let n = order.len();
                match bad % 5 {
                    1 => order.push(0),
                    2 if n > 0 => {
                        order.pop();
                    }
                    3 if n > 1 => order[x % n] = order[(x + 1) % n],
                    4 if n > 0 => order[x % n] = n + x % 5,
                    _ => {}
                }
                fast_paths::prepare_with_order(&o.input, &order)
            });
            match r {
                Ok(f) => {
                    out().stat(if f.is_ok() { "preparations" } else { "orders refused" }, 1);
                    m.free(t, k, f);
                }
                Err(_) => out().stat("orders refused", 1),
            }
        }
        MemOp::Input(edges, misuse) => {
            let b = 4096 + 200 * (edges.len() + 1);
            let mut g: Option<InputGraph> = None;
            log_panic_at(if misuse % 4 == 3 { Some(*misuse as u32 / 4) } else { None });
            let gm = &mut g;
            let _ = m.run(t, k, Kind::Other, b, "adding edges", || {
                let g = gm.insert(InputGraph::new());
                for x in edges {
                    if x.3 != 0 {
                        g.add_edge_bidir(x.0, x.1, x.2);
                    } else {
                        g.add_edge(x.0, x.1, x.2);
                    }
                }
                g.freeze();
            });
            let _ = m.run(t, k, Kind::Other, b, "misuse of an input graph", || match misuse % 4 {
                0 => gm.as_mut().unwrap().freeze(),
                1 => {
                    gm.as_mut().unwrap().add_edge(0, 1, 1);
                }
                _ => gm.as_mut().unwrap().thaw(),
            });
            log_panic_at(None);
            m.free(t, k, g);
            out().stat("input graphs", 1);
        }
        MemOp::Image(g, how, save, load, cut) => {
            let o = of(*g);
            let mut data: Vec<u8> = Vec::new();
            let b = 16384 + 6 * fast_bound(o.n, o.e);
            let mut s = Stream::new(&mut data, save);
            let sm = &mut s;
            let r = m.run(t, k, Kind::Other, b, "a save", || match how % 4 {
                0 => bincode::serialize_into(sm, &o.fg).is_ok(),
                1 => serde_json::to_writer(sm, &o.fg).is_ok(),
                2 => bincode::serialize_into(sm, &FastGraph32::new(&o.fg)).is_ok(),
                _ => bincode::serialize_into(sm, &o.input).is_ok(),
            });
            out().stat("saves", 1);
            let _ = r;
            if let Some(c) = cut {
                let n = data.len();
                data.truncate(*c as usize % (n + 1));
            }
            let mut s = Stream::new(&mut data, load);
            let sm = &mut s;
            let r = m.run(t, k, Kind::Other, b, "a load", || match how % 4 {
                0 => bincode::deserialize_from::<_, FastGraph>(sm).map(drop).is_ok(),
                1 => serde_json::from_reader::<_, FastGraph>(sm).map(drop).is_ok(),
                2 => bincode::deserialize_from::<_, FastGraph32>(sm).map(|f| f.convert_to_usize()).map(drop).is_ok(),
                _ => bincode::deserialize_from::<_, InputGraph>(sm).map(drop).is_ok(),
            });
            if matches!(r, Ok(false)) {
                out().stat("damaged images refused", 1);
            }
        }
        MemOp::Big(count, nodes, seed, dimacs, save, load) => {
            let mut r = Rng::new(*seed);
            let n = (*nodes).clamp(2, 100_000);
            let edges: Vec<_> = (0..(*count).min(20_000)).map(|_| (r.below(n), r.below(n), r.below(1000), 0)).collect();
            let mut input: Option<InputGraph> = None;
            let im = &mut input;
            let _ = m.run(t, k, Kind::Other, 65536 + 200 * edges.len(), "adding edges", || *im = Some(graphs::input_of(&edges)));
            if let Some(x) = &input {
                files(m, t, k, x, edges.len(), *dimacs, save, load);
            }
            m.free(t, k, input);
        }
        MemOp::Parade(count, first, step, seed) => {
            let before = alloc::counted();
            let mut r = Rng::new(*seed);
            let mut most = (0, 0);
            for j in 0..(*count).min(300) as usize {
                let n = (first + j * step).clamp(2, 400);
                let edges = graphs::family(*r.pick(&[0, 1, 2, 3, 4, 5]), n, 2, r.below(6) as u8, r.next());
                let kind = r.below(8);
                let (a, b) = (r.below(n), r.below(n));
                let path = format!("/fpsim/parade{}", t);
                let (x, _) = lib(t, k, Kind::Other, PREP_CAP, || {
                    let input = graphs::input_of(&edges);
                    let n = input.get_num_nodes();
                    let order: Vec<usize> = (0..n).collect();
                    let fg = match kind {
                        0..=3 => fast_paths::prepare_with_order_with_params(&input, &order, &fast_paths::ParamsWithOrder::new(30)).ok(),
                        4 | 5 => Some(fast_paths::prepare(&input)),
                        _ => None,
                    };
                    let mut e = input.get_num_edges();
                    if let Some(fg) = &fg {
                        e = fg.get_num_in_edges() + fg.get_num_out_edges();
                        if n > 0 {
                            drop(fast_paths::calc_path(fg, a % n, b % n));
                            let mut c = fast_paths::create_calculator(fg);
                            drop(c.calc_path(fg, b % n, a % n));
                        }
                        if kind % 2 == 0 {
                            let f = FastGraph32::new(fg);
                            drop(bincode::serialize(&f).map(|x| bincode::deserialize::<FastGraph32>(&x)));
                        }
                    }
                    if kind >= 5 {
                        if kind == 5 { input.to_file(&path) } else { input.to_dimacs_file(&path) }.unwrap();
                        drop(if kind == 5 { InputGraph::from_file(&path) } else { InputGraph::from_dimacs_file(&path) });
                    }
                    (n, e)
                });
                disk::remove(&path);
                if let Ok(x) = x {
                    most = (most.0.max(x.0), most.1.max(x.1));
                }
                out().stat("graphs of a parade", 1);
            }
            if m.alone {
                held(t, k, alloc::counted() - before, slack(most.0, most.1) as i64, "a series of graphs that were all dropped");
                if disk::open_files() > 0 {
                    out().bad("files", t, k, format!("{} files are still open after exports and imports", disk::open_files()));
                }
            }
        }
        MemOp::Text(g, dimacs, save, load) => {
            let o = of(*g);
            files(m, t, k, &o.input, o.e, *dimacs, save, load);
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn files(m: &Meter, t: usize, k: usize, input: &InputGraph, e: usize, dimacs: bool, save: &disk::Plan, load: &disk::Plan) {
            let b = 65536 + 200 * (e + 1);
            let path = format!("/fpsim/mem{}", t);
            disk::remove(&path);
            disk::arm(save);
            let _ = m.run(t, k, Kind::Other, b, "an export", || if dimacs { input.to_dimacs_file(&path) } else { input.to_file(&path) }.is_ok());
            disk::arm(load);
            let r = m.run(t, k, Kind::Other, b, "an import", || if dimacs { InputGraph::from_dimacs_file(&path) } else { InputGraph::from_file(&path) });
            disk::arm(&Default::default());
            disk::remove(&path);
            out().stat("imports", 1);
            if let Ok(r) = r {
                m.free(t, k, r);
            } else {
                out().stat("imports refused", 1);
            }
            if m.alone {
                out().checks += 1;
                if disk::open_files() > 0 {
                    out().bad("files", t, k, format!("{} files are still open after an export and an import", disk::open_files()));
                }
            }
}
fn prep_bound(o: &Obj) -> usize {
    65536 + 4000 * (o.n + o.e)
}
