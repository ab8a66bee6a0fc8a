//! Determinism of preparation, cut witness searches, edits and re-preparation.
use crate::driver::out;
use crate::exec::*;
use crate::graphs::{self, perm, prepare, Prep};
use crate::model::{Ledger, Model};
use crate::rng::Rng;
use crate::rt;
use crate::scen::*;
use fast_paths::{FastGraph, InputGraph, ParamsWithOrder};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ---- C08 ----------------------------------------------------------------------------------------

pub fn det(s: &Scenario, w: &Det) {
    let edges = w.graph.edges();
    let mut base: Option<Result<Vec<u8>, String>> = None;
    crate::alloc::set_padding(None);
    set_log(0);
    {
        let b = Sh::new(&mut base);
        run_alone(&Default::default(), || {
            let (r, _) = lib(100, 0, Kind::Prep, PREP_CAP, || prepare(&graphs::input_of(&edges), &w.prep, false));
            *b.get() = Some(r.map(|f| bincode::serialize(&f).expect("serialize")));
        });
    }
    let base = match base {
        Some(Ok(b)) => b,
        _ => return, // C07's business
    };
    out().nontrivial = base.len() > 300;
    rt::rt().trace.add_bytes(&base);
    crate::alloc::set_padding(s.pad);
    let (base, edges) = (&base, &edges);
    let bodies = w
        .tasks
        .iter()
        .enumerate()
        .map(|(t, task)| {
            let b = Body::new(move || {
                set_log(task.log);
                let mut k = 0;
                for g in &task.warm {
                    let e = g.edges();
                    let _ = lib(t, k, Kind::Other, PREP_CAP, || {
                        let f = prepare(&graphs::input_of(&e), &Prep::Default, true);
                        if f.get_num_nodes() > 1 {
                            fast_paths::calc_path(&f, 0, 1);
                        }
                    });
                    k += 1;
                }
                let mut e = edges.clone();
                if let Some(x) = task.shuffle {
                    let mut r = Rng::new(x);
                    // a bidirectional edge may as well be added as two edges
                    let mut v = Vec::new();
                    for y in e {
                        if y.3 != 0 && r.chance(1, 2) {
                            v.push((y.0, y.1, y.2, 0));
                            v.push((y.1, y.0, y.2, 0));
                        } else {
                            v.push(y);
                        }
                        if r.chance(1, 20) {
                            // a heavier duplicate
                            v.push((y.0, y.1, y.2 + r.range(0, 3) * (y.2 > 0) as usize, y.3));
                        }
                    }
                    r.shuffle(&mut v);
                    e = v;
                }
                let input = lib(t, k, Kind::Other, PREP_CAP, || graphs::input_of(&e)).0;
                let input = match input {
                    Ok(i) => i,
                    Err(_) => return,
                };
                for i in 0..task.times.clamp(1, 4) {
                    let (r, _) = lib(t, k, Kind::Other, PREP_CAP, || prepare(&input, &w.prep, task.alt));
                    out().checks += 1;
                    out().stat("preparations compared", 1);
                    match r {
                        Err(m) => out().bad("differs", t, k, format!("preparation number {} in another environment panicked: {}", i, m)),
                        Ok(f) => {
                            let b = bincode::serialize(&f).expect("serialize");
                            if b != *base {
                                let d = b.iter().zip(base.iter()).position(|(x, y)| x != y).unwrap_or(b.len().min(base.len()));
                                out().bad(
                                    "differs",
                                    t,
                                    k,
                                    format!("preparation number {} in another environment differs: {} and {} bytes, first at {}", i, base.len(), b.len(), d),
                                );
                            }
                        }
                    }
                    k += 1;
                }
            });
            (task.env.clone(), b)
        })
        .collect();
    run_tasks(bodies, &w.sched);
}

// ---- C09 ----------------------------------------------------------------------------------------

thread_local! {
    static CUTS: RefCell<(Vec<(u32, u32)>, Option<(u32, u32, u32)>)> = const { RefCell::new((Vec::new(), None)) };
    static SEARCH: Cell<u32> = const { Cell::new(0) };
}
fn budget(regular: usize) -> usize {
    rt::exempt(|| {
        let k = SEARCH.with(|c| {
            let k = c.get();
            c.set(k + 1);
            k
        });
        CUTS.with(|c| {
            let c = c.borrow();
            if let Ok(i) = c.0.binary_search_by_key(&k, |x| x.0) {
                out().stat("witness searches cut", 1);
                return (c.0[i].1 as usize).min(regular);
            }
            if let Some((p, f, b)) = c.1 {
                if k % p.max(1) == f % p.max(1) {
                    out().stat("witness searches cut", 1);
                    return (b as usize).min(regular);
                }
            }
            regular
        })
    })
}

pub fn witness(w: &Witness) {
    let mut done: Option<(FastGraph, Model)> = None;
    let d = Sh::new(&mut done);
    run_alone(&w.env, || {
        let edges = w.graph.edges();
        let mut cuts = w.cuts.clone();
        cuts.sort();
        CUTS.with(|c| *c.borrow_mut() = (cuts, w.every));
        SEARCH.with(|c| c.set(0));
        set_budget(Some(budget));
        set_room(w.room);
        let (r, _) = lib(0, 0, Kind::Prep, PREP_CAP, || prepare(&graphs::input_of(&edges), &w.prep, false));
        set_room(None);
        set_budget(None);
        out().stat("witness searches", SEARCH.with(|c| c.get()) as u64);
        match r {
            Err(m) => out().bad("panic-prep", 0, 0, format!("preparation panicked: {}", m)),
            Ok(f) => *d.get() = Some((f, Model::new(w.graph.ledger()))),
        }
    });
    let (fg, model) = match &done {
        Some(x) => (&x.0, &x.1),
        None => return,
    };
    if model.n == 0 {
        return;
    }
    rt::rt().trace.add_bytes(&bincode::serialize(fg).unwrap_or_default());
    run_alone(&w.env, || {
        let mut qs: Vec<(usize, usize)> = w.queries.iter().map(|q| (q.0 % model.n, q.1 % model.n)).collect();
        if w.all_pairs && model.n <= 120 {
            qs.extend((0..model.n * model.n).map(|i| (i / model.n, i % model.n)));
        }
        for (k, (a, b)) in qs.into_iter().enumerate() {
            let (r, _) = lib(0, k + 1, Kind::Single, QUERY_CAP, || fast_paths::calc_path(fg, a, b));
            one(0, k + 1, model, a, b, r);
        }
    });
}
fn one(t: usize, k: usize, model: &Model, a: usize, b: usize, r: Result<Option<fast_paths::ShortestPath>, String>) {
    out().stat("queries", 1);
    match r {
        Err(m) => out().bad("panic-single", t, k, format!("query from {} to {} panicked: {}", a, b, m)),
        Ok(x) => {
            for (c, m) in judge(model, &[(a, 0)], &[(b, 0)], true, &x) {
                out().bad(&c, t, k, m);
            }
        }
    }
}

// ---- C10 ----------------------------------------------------------------------------------------

struct Version {
    fg: FastGraph,
    model: Model,
}

pub fn life(w: &Life) {
    let mut versions: Vec<Version> = Vec::new();
    let v = Sh::new(&mut versions);
    let bodies = w
        .tasks
        .iter()
        .enumerate()
        .map(|(t, task)| (task.env.clone(), Body::new(move || life_task(w, t, task, v))))
        .collect();
    run_tasks(bodies, &w.sched);
}

fn life_task(w: &Life, t: usize, task: &LifeTask, versions: Sh<Vec<Version>>) {
    // versions are boxed by never growing the vector beyond its capacity
    let vs = versions.get();
    if vs.capacity() == 0 {
        vs.reserve_exact(400);
    }
    let mut ledger = Ledger::default();
    let mut calcs: Calcs = BTreeMap::new();
    let clean = |e: &[graphs::E]| -> Vec<graphs::E> { e.iter().map(|x| (x.0 % 2000, x.1 % 2000, x.2.min(1 << 44), x.3)).collect() };
    let add = |g: &mut InputGraph, l: &mut Ledger, e: &[graphs::E], k: usize| {
        let e = clean(e);
        for x in &e {
            l.add(x.0, x.1, x.2, x.3 != 0);
        }
        let (r, _) = lib(t, k, Kind::Other, PREP_CAP, || {
            for x in &e {
                if x.3 != 0 {
                    g.add_edge_bidir(x.0, x.1, x.2);
                } else {
                    g.add_edge(x.0, x.1, x.2);
                }
            }
            g.freeze();
        });
        r.is_ok()
    };
    let mut g = InputGraph::new();
    if !add(&mut g, &mut ledger, &w.start, 1000) {
        return;
    }
    let mut kept: Option<(InputGraph, Ledger)> = None;
    for (k, op) in task.ops.iter().enumerate() {
        match op {
            LifeOp::Add(e) => {
                g.thaw();
                if !add(&mut g, &mut ledger, e, k) {
                    return;
                }
                out().stat("edits", 1);
            }
            LifeOp::Rebuild(e) => {
                g = InputGraph::new();
                ledger = Ledger::default();
                if !add(&mut g, &mut ledger, e, k) {
                    return;
                }
                out().stat("edits", 1);
            }
            LifeOp::Keep => {
                if let Ok(c) = lib(t, k, Kind::Other, QUERY_CAP, || g.clone()).0 {
                    kept = Some((c, ledger.clone()));
                }
            }
            LifeOp::Swap => {
                if let Some(x) = &mut kept {
                    std::mem::swap(&mut g, &mut x.0);
                    std::mem::swap(&mut ledger, &mut x.1);
                    out().stat("inputs exchanged", 1);
                }
            }
            LifeOp::Publish(how, abort) => {
                if versions.get().len() >= 390 {
                    continue;
                }
                let n = ledger.num_nodes;
                let order: Option<(Vec<usize>, Option<usize>)> = match how {
                    How::New(_) => None,
                    How::OrderOf(back, b) => {
                        let vs = versions.get();
                        let p = if vs.is_empty() {
                            (0..n).collect()
                        } else {
                            let i = vs.len() - 1 - *back as usize % vs.len();
                            let (o, _) = lib(t, k, Kind::Other, QUERY_CAP, || fast_paths::get_node_ordering(&versions.get()[i].fg));
                            match o {
                                Ok(o) => perm(&graphs::Order::Explicit(o), n),
                                Err(m) => {
                                    out().bad("order", t, k, format!("get_node_ordering panicked: {}", m));
                                    continue;
                                }
                            }
                        };
                        Some((p, *b))
                    }
                    How::Perm(o, b) => Some((perm(o, n), *b)),
                    How::WrongLen(d) => {
                        let d = if *d == 0 { 1 } else { *d as i64 };
                        let l = (n as i64 + d).max(0) as usize;
                        if l == n {
                            continue;
                        }
                        Some(((0..l).collect(), None))
                    }
                    How::Twice(i, j) => {
                        if n == 0 || i % n == j % n {
                            continue;
                        }
                        let mut p: Vec<usize> = (0..n).collect();
                        p[i % n] = j % n;
                        Some((p, if i % 2 == 0 { None } else { Some(*j % 7) }))
                    }
                    How::NoNode(i, x) => {
                        if n == 0 {
                            continue;
                        }
                        let mut p: Vec<usize> = (0..n).collect();
                        let far = if *x % 5 == 4 { usize::MAX } else { n + *x % 5 };
                        p[*i % n] = far;
                        Some((p, None))
                    }
                };
                let wrong = matches!(how, How::WrongLen(_) | How::NoNode(..) | How::Twice(..));
                let mut abort = *abort;
                loop {
                    log_panic_at(abort);
                    let (r, _) = lib(t, k, if wrong { Kind::Bad } else { Kind::Prep }, PREP_CAP, || match (&order, how) {
                        (Some((p, None)), _) => fast_paths::prepare_with_order(&g, p),
                        (Some((p, Some(b))), _) => fast_paths::prepare_with_order_with_params(&g, p, &ParamsWithOrder::new(*b)),
                        (None, How::New(p)) => Ok(prepare(&g, p, k % 2 == 1)),
                        _ => Err("no".into()),
                    });
                    log_panic_at(None);
                    out().checks += 1;
                    match r {
                        Err(m) if m == "simulated logger failure" => {
                            out().stat("preparations aborted", 1);
                            abort = None;
                            continue;
                        }
                        Err(m) => match how {
                            How::NoNode(..) | How::Twice(..) => out().stat("orders refused", 1),
                            How::WrongLen(_) => out().bad("not-refused", t, k, format!("order of wrong length panicked instead of an error: {}", m)),
                            _ => out().bad("panic-prep", t, k, format!("preparation panicked: {}", m)),
                        },
                        Ok(Err(m)) => {
                            if wrong {
                                out().stat("orders refused", 1)
                            } else {
                                out().bad("panic-prep", t, k, format!("valid order was refused: {}", m))
                            }
                        }
                        Ok(Ok(f)) => {
                            if wrong {
                                out().bad("not-refused", t, k, format!("invalid order accepted: {:?}", how));
                            } else {
                                out().stat("versions published", 1);
                                if let Some((o, _)) = &order {
                                    let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || fast_paths::get_node_ordering(&f));
                                    if r.as_ref() != Ok(o) {
                                        let at = r.as_ref().map(|r| o.iter().zip(r).position(|(a, b)| a != b));
                                        out().bad("order", t, k, format!("the node ordering of a graph prepared with an order is another one, from {:?} on", at));
                                    }
                                }
                                versions.get().push(Version { fg: f, model: Model::new(ledger.clone()) });
                            }
                        }
                    }
                    break;
                }
            }
            LifeOp::Query(back, a, b) => {
                let vs = versions.get();
                if vs.is_empty() {
                    continue;
                }
                let v = &vs[vs.len() - 1 - *back as usize % vs.len()];
                let n = v.model.n;
                if n == 0 {
                    continue;
                }
                let (a, b) = (a % n, b % n);
                let (r, _) = lib(t, k, Kind::Single, QUERY_CAP, || {
                    let c = calcs.entry((0, n)).or_insert_with(|| fast_paths::create_calculator(&v.fg));
                    c.calc_path(&v.fg, a, b)
                });
                one(t, k, &v.model, a, b, r);
            }
            LifeOp::Multi(back, ss, ts) => {
                let vs = versions.get();
                if vs.is_empty() {
                    continue;
                }
                let v = &vs[vs.len() - 1 - *back as usize % vs.len()];
                let n = v.model.n;
                if n == 0 {
                    continue;
                }
                let (ss, ts) = (fit(ss, n), fit(ts, n));
                let (r, _) = lib(t, k, Kind::Multi, QUERY_CAP, || {
                    fast_paths::calc_path_multiple_sources_and_targets(&v.fg, ss.clone(), ts.clone())
                });
                out().stat("queries", 1);
                match r {
                    Err(m) => out().bad("panic-multi", t, k, format!("query panicked: {}", m)),
                    Ok(x) => {
                        for (c, m) in judge(&v.model, &ss, &ts, false, &x) {
                            out().bad(&c, t, k, m);
                        }
                    }
                }
            }
            LifeOp::Check(back) => {
                let vs = versions.get();
                if vs.is_empty() {
                    continue;
                }
                let v = &vs[vs.len() - 1 - *back as usize % vs.len()];
                let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || fast_paths::get_node_ordering(&v.fg));
                out().checks += 1;
                let ok = match &r {
                    Ok(o) => {
                        let mut s = o.clone();
                        s.sort_unstable();
                        s == (0..v.model.n).collect::<Vec<_>>()
                    }
                    Err(_) => false,
                };
                if !ok {
                    out().bad("order", t, k, format!("node ordering of {} nodes is {:?}", v.model.n, r));
                }
            }
        }
    }
}
