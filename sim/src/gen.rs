//! Generates the scenario of a seed.
use crate::disk::{Fault, Plan};
use crate::graphs::*;
use crate::rng::Rng;
use crate::rt::{Env, Sched};
use crate::scen::*;

pub fn env(r: &mut Rng) -> Env {
    Env {
        hash_seed: r.next(),
        clock_s: r.below(1 << 28) as u64,
        clock_jump_s: *r.pick(&[0, 0, 1, 3600, 1 << 20]),
        cpus: *r.pick(&[1, 1, 2, 8, 64]),
        stack_kb: 1024,
    }
}
pub fn sched(r: &mut Rng, tasks: usize, max: usize) -> Sched {
    if tasks < 2 {
        return Sched::default();
    }
    let mean = *r.pick(&[5usize, 20, 50, 200, 500, 2000, 5000]);
    let n = r.range(1, max.max(2));
    let mut slices = Vec::new();
    if r.chance(1, 2) {
        slices.push((r.below(30_000) as u32 + 1, r.below(256) as u8));
    }
    let robin = r.chance(1, 2);
    for _ in 0..n {
        let gap = if r.chance(1, 50) { r.geo(mean * 20) } else { r.geo(mean) };
        slices.push((gap as u32, if robin { 0 } else { r.below(256) as u8 }));
    }
    let rare = *r.pick(&[0, 0, 0, 20, 100, 300]);
    if rare != 0 && r.chance(2, 3) {
        slices.clear();
    }
    Sched { slices, rare, rare_seed: if rare != 0 { r.next() } else { 0 }, first: false }
}

fn ends(r: &mut Rng, n: usize, swarm: &Swarm) -> Vec<(usize, usize)> {
    let k = match r.below(10) {
        0..=2 => 1,
        3..=7 => r.range(1, 5),
        8 => r.range(3, 12),
        _ if r.chance(1, 8) => r.range(40, 300),
        _ => r.range(1, 40),
    };
    let mut v: Vec<(usize, usize)> = Vec::new();
    let wmax = *r.pick(&[1usize, 3, 20, 1000, 1 << 33, 1 << 40]);
    let huge = if swarm.huge && r.chance(2, 3) { Some(HUGE + r.below(10) as u8) } else { None };
    for _ in 0..k {
        let node = if !v.is_empty() && r.chance(1, 5) { v[r.below(v.len())].0 } else { r.below(n) };
        let w = match r.below(10) {
            0 if swarm.max => usize::MAX,
            1 | 2 => 0,
            _ => match huge {
                Some(m) => weight(r, m),
                None => r.below(wmax),
            },
        };
        v.push((node, w));
    }
    if swarm.max && r.chance(1, 12) {
        for x in &mut v {
            x.1 = usize::MAX;
        }
    }
    match r.below(4) {
        0 => v.sort_by_key(|x| x.1),
        1 => v.sort_by_key(|x| std::cmp::Reverse(x.1)),
        2 => v.sort(),
        _ => {}
    }
    v
}

struct Swarm {
    huge: bool,
    max: bool,
    multi: usize,
    free: usize,
    bad: usize,
    poison: usize,
    fresh: usize,
    prep: usize,
    slot: usize,
}

fn gen_ops(r: &mut Rng, count: usize, graphs: usize, ns: &[usize], sw: &Swarm) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut last = (0usize, 0usize);
    let calcs = if r.chance(2, 3) { 1 } else { 3 };
    let sticky = r.chance(1, 2);
    let mut g = r.below(graphs);
    let mut lasts: (Vec<(usize, usize)>, Vec<(usize, usize)>) = (vec![(0, 0)], vec![(0, 0)]);
    while ops.len() < count {
        if !sticky || r.chance(1, 6) {
            g = r.below(graphs);
        }
        let n = ns[g].max(1);
        let c = r.below(calcs) as u8;
        let mut q = |r: &mut Rng| {
            let p = match r.below(20) {
                0 | 1 => last,
                2 => (last.1, last.0),
                3 => (r.below(n), last.1),
                4 => (last.0, r.below(n)),
                5 => {
                    let x = r.below(n);
                    (x, x)
                }
                6 => (0, n - 1),
                _ => (r.below(n), r.below(n)),
            };
            last = (p.0 % n, p.1 % n);
            last
        };
        let x = r.below(1000);
        let mut lim = 0;
        let mut below = |w: usize| {
            lim += w;
            x < lim
        };
        let g8 = g as u8;
        if below(sw.bad) {
            ops.push(Op::Bad(c, g8, r.below(12) as u8, r.below(100)));
        } else if below(sw.poison) {
            let (a, b) = q(r);
            ops.push(Op::Poison(c, g8, r.below(1 << 20) as u32, a, b));
        } else if below(sw.fresh) {
            ops.push(Op::Fresh(c, g8));
        } else if below(sw.slot) {
            let (a, b) = q(r);
            ops.push(Op::Slot(c, g8, a, b));
        } else if below(sw.prep) {
            let (a, b) = q(r);
            ops.push(Op::Prep(g8, a, b));
        } else if below(sw.free) {
            if sw.multi > 0 && r.chance(1, 3) {
                ops.push(Op::Fm(g8, ends(r, n, sw), ends(r, n, sw)));
            } else {
                let (a, b) = q(r);
                ops.push(Op::Fq(g8, a, b));
            }
        } else if below(sw.multi) {
            let (mut s, mut t) = (ends(r, n, sw), ends(r, n, sw));
            match r.below(12) {
                0 => s = lasts.0.clone(),
                1 => t = lasts.1.clone(),
                2 => t = s.clone(),
                3 => t.extend(s.iter().take(1).cloned()),
                _ => {}
            }
            lasts = (s.clone(), t.clone());
            ops.push(Op::M(c, g8, s, t));
        } else {
            let (a, b) = q(r);
            ops.push(Op::Q(c, g8, a, b));
        }
    }
    ops
}

fn served(r: &mut Rng, n: usize, via: &[u8], huge: bool) -> Served {
    let graph = if huge { gen_graph_of(r, n, HUGE, 10) } else { gen_graph(r, n) };
    let n = graph.ledger().num_nodes;
    let prep = gen_prep(r, n);
    Served { graph, prep, via: *r.pick(via), like: false }
}

/// Larger than 16-bit node ids, or hubs with more than 256 edges.
fn big(r: &mut Rng, which: usize, huge: bool) -> Served {
    let wm = |r: &mut Rng, modes: usize| if huge { HUGE + r.below(10) as u8 } else { r.below(modes) as u8 };
    match which % 4 {
        0 => {
            let n = 66_000 + r.below(5000);
            if r.chance(1, 2) {
                let star = r.chance(1, 2);
                let n = if star { r.range(2000, 8000) } else { n };
                return Served {
                    graph: Graph::Family { kind: if star { 100 } else { 101 }, n, deg: r.below(3) as u32, wmode: wm(r, 5), seed: r.next() },
                    prep: Prep::Order(Order::ById, Some(r.range(1, 10))),
                    via: 0,
                    like: false,
                };
            }
            Served {
                graph: Graph::Family { kind: *r.pick(&[4, 5]), n, deg: 1, wmode: wm(r, 5), seed: r.next() },
                prep: Prep::Order(if r.chance(1, 2) { Order::Chain(false) } else { Order::ById }, Some(r.range(1, 10))),
                via: 0,
                like: false,
            }
        }
        1 => Served {
            graph: Graph::Family { kind: 6, n: 280 + r.below(120), deg: 1, wmode: wm(r, 12), seed: r.next() },
            prep: Prep::Default,
            via: 0,
            like: false,
        },
        2 => Served {
            graph: Graph::Family { kind: 9, n: 300 + r.below(300), deg: 2, wmode: wm(r, 5), seed: r.next() },
            prep: Prep::Params(0.1f32.to_bits(), 1f32.to_bits(), 50, 20, 50),
            via: 0,
            like: false,
        },
        _ => Served {
            graph: Graph::Family { kind: *r.pick(&[2, 3, 13]), n: 1500 + r.below(3000), deg: 2, wmode: wm(r, 6), seed: r.next() },
            prep: Prep::Params(0.1f32.to_bits(), 1f32.to_bits(), 50, 20, 100),
            via: 0,
            like: false,
        },
    }
}

/// A larger graph of few edges per node.
fn road(r: &mut Rng, lo: usize, hi: usize) -> Graph {
    Graph::Family { kind: *r.pick(&[2, 2, 3, 4, 5, 10, 12, 13]), n: r.range(lo, hi), deg: 2, wmode: r.below(6) as u8, seed: r.next() }
}

fn service(prop: &str, r: &mut Rng, i: u64) -> Service {
    let vias: &[u8] = if prop == "C02" || prop == "C19" { &[0, 0, 1, 2, 3, 4, 5] } else { &[0, 0, 1, 5] };
    let mut graphs: Vec<Served> = Vec::new();
    let special = i % 61 == 7;
    let mut size = gen_size(r);
    if special {
        // damaged copies of the largest ones would not fit
        let which = (i / 61) as usize;
        graphs.push(big(r, if prop == "C05" { 1 + which % 3 } else { which }, prop == "C17"));
        size = 0;
    } else {
        graphs.push(served(r, size, vias, prop == "C17"));
        // several prepared graphs of equal size, made from different inputs or by other parameters
        let more = if prop == "C04" && r.chance(1, 2) { 0 } else { r.below(4) };
        for _ in 0..more {
            if size > 150 {
                break;
            }
            let base = graphs[0].clone();
            match r.below(4) {
                0 => graphs.push(served(r, size, vias, prop == "C17")),
                1 => {
                    let prep = gen_prep(r, base.graph.ledger().num_nodes);
                    graphs.push(Served { graph: base.graph, prep, via: *r.pick(vias), like: false })
                }
                _ => {
                    let graph = variant(r, &base.graph, prop == "C17");
                    let prep = if r.chance(1, 2) { base.prep } else { gen_prep(r, size) };
                    graphs.push(Served { graph, prep, via: *r.pick(vias), like: false })
                }
            }
        }
        if prop == "C19" {
            // the same once more, copied or restored
            for _ in 0..r.range(0, 2) {
                let mut g = graphs[r.below(graphs.len())].clone();
                g.via = *r.pick(vias);
                graphs.push(g);
            }
        }
        if prop == "C05" && r.chance(1, 2) {
            let x = gen_size(r).min(60);
            graphs.push(served(r, x, vias, false));
        }
    }
    let ns: Vec<usize> = graphs.iter().map(|g| g.graph.ledger().num_nodes).collect();
    let sw = Swarm {
        huge: prop == "C17",
        max: r.chance(1, 2),
        multi: match prop {
            "C03" => 700,
            "C17" => 350,
            "C01" => *r.pick(&[0, 100, 300]),
            _ => *r.pick(&[0, 150, 500]),
        },
        free: *r.pick(&[0, 50, 200]),
        bad: match prop {
            "C05" => *r.pick(&[50, 200, 0]),
            "C19" => *r.pick(&[0, 20, 100]),
            "C01" | "C02" | "C03" | "C04" => *r.pick(&[0, 0, 30]),
            _ => 0,
        },
        poison: match prop {
            "C05" => *r.pick(&[100, 300, 20]),
            "C19" if size <= 150 && !special => *r.pick(&[0, 0, 50]),
            _ => 0,
        },
        fresh: *r.pick(&[0, 5, 50]),
        prep: match prop {
            "C04" | "C06" | "C07" | "C19" if size <= 40 && !special => *r.pick(&[0, 20, 60]),
            _ => 0,
        },
        slot: match prop {
            "C01" | "C02" | "C17" | "C19" if size <= 150 && !special => *r.pick(&[0, 0, 100, 500]),
            _ => 0,
        },
    };
    let tasks = match prop {
        "C04" if i % 23 == 5 => *r.pick(&[9, 17, 33, 70]),
        "C04" => *r.pick(&[2, 2, 3, 4, 6]),
        "C07" => *r.pick(&[1, 1, 2, 3]),
        "C19" => *r.pick(&[1, 2, 2, 3]),
        "C01" | "C02" | "C03" => *r.pick(&[1, 1, 1, 2]),
        _ => 1,
    };
    let len = if size > 200 || special {
        r.range(5, 25)
    } else if tasks > 6 {
        r.range(1, 12)
    } else {
        match r.below(10) {
            0..=3 => r.range(1, 8),
            4..=8 => r.range(8, 60),
            _ => r.range(60, 300),
        }
    };
    let room = |r: &mut Rng| if prop == "C06" || (prop == "C19" && r.chance(1, 3)) { Some(gen_room(r)) } else { None };
    let mut list = Vec::new();
    for _ in 0..tasks {
        let mut e = env(r);
        if prop == "C07" {
            e.stack_kb = *r.pick(&[96, 128, 256, 1024]);
        }
        let mut ops = gen_ops(r, len, graphs.len(), &ns, &sw);
        if prop == "C19" {
            // the same questions to other copies, by other calculators, in another order
            let base: &Vec<Op> = list.first().map_or(&ops, |x: &Reader| &x.ops);
            let again: Vec<Op> = base.clone();
            let k = ops.len();
            ops.truncate(k / 2 + 1);
            for _ in 0..k {
                let j = r.below(again.len());
                let o = again_of(r, &again[j], graphs.len());
                let at = r.below(ops.len() + 1);
                ops.insert(at, o);
            }
        }
        if ns[0] <= 20 && (i % 97 == 11) && matches!(prop, "C01" | "C06") {
            let at = r.below(ops.len() + 1);
            ops.insert(at, Op::Burst(0, r.below(graphs.len()) as u8, 66_000 + r.below(8000) as u32, r.next()));
        } else if i % 13 == 3 && matches!(prop, "C01" | "C06" | "C02" | "C19") && !special {
            let at = r.below(ops.len() + 1);
            ops.insert(at, Op::Burst(0, r.below(graphs.len()) as u8, 200 + r.below(800) as u32, r.next()));
        }
        list.push(Reader { env: e, room: room(r), ops });
    }
    let s = sched(r, tasks, if prop == "C04" { 1500 } else { 300 });
    let prep_room = room(r);
    let pool = tasks > 1 && r.chance(1, 3);
    Service { graphs, prep_room, fresh: false, pool, setup: env(r), tasks: list, sched: s }
}

/// The question of an operation, asked otherwise.
fn again_of(r: &mut Rng, o: &Op, graphs: usize) -> Op {
    let c = r.below(3) as u8;
    let g = |r: &mut Rng, g: u8| if r.chance(1, 2) { g } else { r.below(graphs) as u8 };
    match o {
        Op::Q(_, x, a, b) | Op::Fq(x, a, b) | Op::Slot(_, x, a, b) | Op::Prep(x, a, b) => match r.below(4) {
            0 => Op::Fq(g(r, *x), *a, *b),
            _ => Op::Q(c, g(r, *x), *a, *b),
        },
        Op::M(_, x, s, t) | Op::Fm(x, s, t) => match r.below(4) {
            0 => Op::Fm(g(r, *x), s.clone(), t.clone()),
            _ => Op::M(c, g(r, *x), s.clone(), t.clone()),
        },
        o => o.clone(),
    }
}

fn gen_room(r: &mut Rng) -> Room {
    let x = *r.pick(&[0u8, 0, 1, 2, 3, 5, 10, 30, 100]);
    if r.chance(1, 2) {
        Room::Start(x)
    } else {
        Room::Jump(*r.pick(&[0, 1, 1, 2, 2, 3, 4, 7, 20]), x % 31)
    }
}

/// Deeply nested shortcuts on threads with a small stack.
fn deep(r: &mut Rng) -> Service {
    let n = *r.pick(&[2_000usize, 8_000, 20_000, 40_000, 60_000]);
    let graph = Graph::Family { kind: *r.pick(&[4, 4, 5]), n, deg: 1, wmode: *r.pick(&[0, 2, 3]), seed: r.next() };
    let order = *r.pick(&[0, 0, 0, 1, 2]);
    let order = if order == 2 { Order::ById } else { Order::Chain(order == 0) };
    let prep = Prep::Order(order, Some(r.range(0, 5)));
    let mut e = env(r);
    e.stack_kb = *r.pick(&[96, 128, 192]);
    let mut ops = vec![Op::Q(0, 0, 0, n - 1), Op::Q(0, 0, n - 1, 0)];
    for _ in 0..r.range(1, 5) {
        ops.push(Op::Q(0, 0, r.below(n), r.below(n)));
    }
    ops.push(Op::M(0, 0, vec![(0, 1), (r.below(n), 5)], vec![(n - 1, 2), (r.below(n), 3)]));
    let mut setup = env(r);
    setup.stack_kb = 256;
    Service { graphs: vec![Served { graph, prep, via: 0, like: false }], prep_room: None, fresh: false, pool: false, setup, tasks: vec![Reader { env: e, room: None, ops }], sched: Sched::default() }
}

/// Street networks, some prepared again with traffic on their streets, and histories of queries.
fn streets(r: &mut Rng, _i: u64) -> Service {
    let (n, deg, wmode, seed) = (r.range(3000, 5000), r.below(3) as u32, r.below(3) as u8, r.next());
    let s = |kind: u8, prep: Prep, like: bool, via: u8| Served { graph: Graph::Family { kind, n, deg, wmode, seed }, prep, via, like };
    let mut graphs = vec![s(102, Prep::Default, false, *r.pick(&[0, 0, 1, 2, 5]))];
    if r.chance(1, 2) {
        graphs.push(s(*r.pick(&[102, 103]), Prep::Order(Order::ById, None), true, *r.pick(&[0, 5])));
    }
    let n = graphs[0].graph.ledger().num_nodes;
    let tasks = *r.pick(&[1, 1, 2, 3]);
    let mut list = Vec::new();
    for _ in 0..tasks {
        let mut ops = Vec::new();
        for _ in 0..r.range(40, 120) {
            let (c, g) = (r.below(2) as u8, r.below(2) as u8);
            ops.push(match r.below(20) {
                0 => Op::Bad(c, g, r.below(12) as u8, r.below(100)),
                1 => Op::Fq(g, r.below(n), r.below(n)),
                2 | 3 => {
                    let k = r.range(1, 3);
                    let v = |r: &mut Rng| (0..k).map(|_| (r.below(n), r.below(500))).collect::<Vec<_>>();
                    Op::M(c, g, v(r), v(r))
                }
                4 => Op::Slot(c, g, r.below(n), r.below(n)),
                5 if r.chance(1, 8) => Op::Burst(c, g, r.range(40, 150) as u32, r.next()),
                6 if r.chance(1, 5) => Op::Poison(c, g, r.below(100_000) as u32, r.below(n), r.below(n)),
                _ => Op::Q(c, g, r.below(n), r.below(n)),
            });
        }
        list.push(Reader { env: env(r), room: if r.chance(1, 4) { Some(gen_room(r)) } else { None }, ops });
    }
    let sched = sched(r, tasks, 300);
    Service { graphs, prep_room: None, fresh: false, pool: tasks > 1 && r.chance(1, 3), setup: env(r), tasks: list, sched }
}

fn det(r: &mut Rng, i: u64) -> Det {
    let large = i % 211 == 11;
    let n = if i % 41 == 5 { r.range(100, 350) } else { gen_size(r).min(120) };
    let graph = if large { road(r, 1000, 2300) } else { gen_graph(r, n) };
    let n = graph.ledger().num_nodes;
    let prep = match r.below(10) {
        0..=5 => Prep::Default,
        6..=8 => gen_params(r, n),
        _ => gen_prep(r, n),
    };
    let tasks = if large { 1 } else { r.range(1, 4) };
    let mut list = Vec::new();
    for _ in 0..tasks {
        let mut warm = Vec::new();
        for _ in 0..*r.pick(&[0, 0, 1, 2]) {
            let m = r.range(2, 20);
            warm.push(gen_graph(r, m));
        }
        list.push(DetTask {
            env: env(r),
            shuffle: if r.chance(1, 2) { Some(r.next()) } else { None },
            warm,
            log: *r.pick(&[0, 0, 1, 2]),
            alt: r.chance(1, 2),
            times: if large { 1 } else { r.range(1, 3) as u8 },
        });
    }
    let sched = sched(r, tasks, 600);
    Det { graph, prep, tasks: list, sched }
}

fn witness(prop: &str, r: &mut Rng, i: u64) -> Witness {
    let n = match r.below(10) {
        0..=4 => r.range(3, 12),
        5..=8 => r.range(8, 40),
        _ => r.range(30, 100),
    };
    let huge = i % 307 == 17 && prop != "C17";
    let big = i % 53 == 9 || huge;
    let n = if big { r.range(200, 600) } else { n };
    let graph = if huge { road(r, 1000, 2500) } else if prop == "C17" { gen_graph_of(r, n, HUGE, 10) } else { gen_graph(r, n) };
    let n = graph.ledger().num_nodes;
    let prep = match r.below(10) {
        0..=2 => Prep::Default,
        3..=6 => gen_params(r, n),
        _ => gen_prep(r, n),
    };
    let mut cuts = Vec::new();
    if r.chance(2, 3) {
        let max = *r.pick(&[10usize, 100, 1000, 10_000]);
        let b = *r.pick(&[1usize, 2, 4, 20]);
        for _ in 0..r.range(1, 120) {
            cuts.push((r.below(max) as u32, r.below(b) as u32));
        }
        cuts.sort();
        cuts.dedup_by_key(|x| x.0);
    }
    let every = if r.chance(1, 2) && !big { Some((r.range(1, 9) as u32, r.below(9) as u32, r.below(5) as u32)) } else { None };
    let queries = (0..r.range(5, 30)).map(|_| (r.below(n.max(1)), r.below(n.max(1)))).collect();
    let room = if r.chance(1, 4) { Some(gen_room(r)) } else { None };
    Witness { env: env(r), graph, prep, cuts, every, room, queries, all_pairs: n <= 50 }
}

fn some_edges(r: &mut Rng, n: usize, count: usize, wmode: u8) -> Vec<E> {
    (0..count).map(|_| (r.below(n), r.below(n), weight(r, wmode), r.below(2) as u8)).collect()
}

fn life(r: &mut Rng, i: u64) -> Life {
    let giant = i % 397 == 21;
    let large = i % 67 == 13 || giant;
    let n = if giant { r.range(1000, 2000) } else if large { r.range(60, 200) } else { *r.pick(&[2, 4, 6, 10, 16, 25, 40]) };
    let wmode = r.below(12) as u8;
    let kind = if giant { *r.pick(&[2, 3, 4, 5, 10, 12, 13]) } else if large { *r.pick(&[2, 3, 4, 5, 6, 10, 12, 13]) } else { r.below(KINDS as usize) as u8 };
    let seed = r.next();
    let start = family(kind, n, 2, wmode, seed);
    let tasks = if giant { 1 } else if large { r.range(1, 2) } else { *r.pick(&[1, 1, 2, 2, 3]) };
    let len = if giant { 3 } else if large { 8 } else { *r.pick(&[6, 15, 30]) };
    let mut list = Vec::new();
    for t in 0..tasks {
        let mut ops = Vec::new();
        let editor = t == 0 || r.chance(1, 3);
        for k in 0..len {
            let x = r.below(100);
            if editor && (k == 0 || x < 25) {
                let b = |r: &mut Rng| *r.pick(if giant { &[None, Some(60), Some(100), Some(300)] } else { &[None, None, Some(0), Some(1), Some(3), Some(100)] });
                let how = match r.below(12) {
                    // any other order of a graph this large takes forever
                    _ if giant && k == 0 => How::New(gen_prep(r, n)),
                    7..=9 if giant && kind != 4 => How::OrderOf(0, b(r)),
                    0..=2 => How::New(gen_prep(r, n)),
                    3..=6 => How::OrderOf(*r.pick(&[0, 0, 0, 1, 2, 7]), b(r)),
                    7 | 8 if !large => How::Perm(Order::Seed(r.next()), b(r)),
                    7..=9 => How::Perm(r.pick(&[Order::ById, Order::Chain(true), Order::Chain(false)]).clone(), b(r)),
                    10 if r.chance(1, 2) => How::Twice(r.below(n), r.below(n)),
                    10 => How::WrongLen(*r.pick(&[1, -1, 2, -2, 100, -100])),
                    _ if giant => How::OrderOf(0, None),
                    _ => How::NoNode(r.below(n), r.below(20)),
                };
                let abort = if r.chance(1, 4) { Some(r.below(n + 2) as u32) } else { None };
                ops.push(LifeOp::Publish(how, abort));
            } else if editor && x < 40 {
                let c = r.range(1, 6);
                // edits may bring new nodes
                let m = if r.chance(1, 3) { n + r.below(6) } else { n };
                ops.push(LifeOp::Add(some_edges(r, m, c, wmode)));
            } else if editor && x < 42 && !large {
                // two inputs that go different ways from a common state
                let c = r.range(1, 3);
                let (e, f) = (some_edges(r, n, c, wmode), some_edges(r, n, c, wmode));
                let p = gen_prep(r, n);
                ops.push(LifeOp::Keep);
                ops.push(LifeOp::Add(e));
                ops.push(LifeOp::Publish(How::New(p.clone()), None));
                ops.push(LifeOp::Swap);
                ops.push(LifeOp::Add(f));
                ops.push(LifeOp::Publish(if r.chance(1, 2) { How::New(p) } else { How::OrderOf(0, None) }, None));
                for _ in 0..3 {
                    ops.push(LifeOp::Query(r.below(2) as u8, r.below(n), r.below(n)));
                }
            } else if editor && x < 44 && !giant {
                let c = r.range(2, if large { n } else { 3 * n });
                ops.push(LifeOp::Rebuild(some_edges(r, n, c, wmode)));
            } else if x < 50 {
                ops.push(LifeOp::Check(r.below(4) as u8));
            } else if x < 60 {
                let sw = Swarm { huge: false, max: true, multi: 0, free: 0, bad: 0, poison: 0, fresh: 0, prep: 0, slot: 0 };
                ops.push(LifeOp::Multi(r.below(3) as u8, ends(r, n, &sw), ends(r, n, &sw)));
            } else {
                ops.push(LifeOp::Query(*r.pick(&[0, 0, 0, 1, 2, 3]), r.below(n), r.below(n)));
            }
        }
        // every version once more
        for _ in 0..6 {
            ops.push(LifeOp::Query(r.below(8) as u8, r.below(n), r.below(n)));
        }
        list.push(LifeTask { env: env(r), ops });
    }
    let sched = sched(r, tasks, 500);
    Life { start, tasks: list, sched }
}

fn book(r: &mut Rng, i: u64) -> Book {
    let mut b = book_one(r, i);
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            b.mates.push((env(r), book_one(r, 0).ops));
        }
        b.sched = sched(r, 2, 100);
    }
    b
}
fn book_one(r: &mut Rng, i: u64) -> Book {
    let n = *r.pick(&[2usize, 3, 4, 8, 20, 100]);
    let len = *r.pick(&[5, 12, 30, 80]);
    let wmode = r.below(12) as u8;
    let misuse = r.chance(1, 2);
    let mut frozen = false;
    let mut ops = Vec::new();
    let far = r.chance(1, 8);
    let w = |r: &mut Rng| match r.below(12) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX - 1,
        _ => weight(r, wmode),
    };
    let mut last = (0, 1, 1);
    for _ in 0..len {
        let x = r.below(100);
        let node = |r: &mut Rng| if far && r.chance(1, 10) { *r.pick(&[65_535usize, 65_536, 70_000, 1 << 32, 1 << 40, usize::MAX - 1]) + r.below(2) } else { r.below(n) };
        if frozen && !misuse && x < 70 {
            if x < 40 {
                ops.push(BookOp::Thaw);
                frozen = false;
            } else {
                ops.push(BookOp::Inspect);
            }
        } else if x < 40 {
            ops.push(BookOp::Add(node(r), node(r), w(r)));
        } else if x < 55 {
            ops.push(BookOp::Bidir(node(r), node(r), w(r)));
        } else if x < 62 {
            // the same pair again, lighter or heavier or in the other direction
            let (a, b, c): (usize, usize, usize) = last;
            ops.push(match r.below(4) {
                0 => BookOp::Add(a, b, c.saturating_sub(1)),
                1 => BookOp::Add(a, b, c.saturating_add(1)),
                2 => BookOp::Add(b, a, c),
                _ => BookOp::Bidir(b, a, c),
            });
        } else if x < 66 {
            let big = i % 29 == 3;
            let c = if i % 290 == 3 { r.range(10_000, 40_000) } else if big { r.range(1000, 6000) } else { r.range(1, 60) };
            ops.push(BookOp::Many(c as u32, n, wmode, r.next()));
        } else if x < 80 {
            ops.push(BookOp::Freeze);
            frozen = true;
        } else if x < 87 {
            ops.push(BookOp::Thaw);
            frozen = false;
        } else if x < 92 || (x < 97 && far) {
            ops.push(BookOp::Inspect);
        } else if x < 94 {
            ops.push(BookOp::Clone);
        } else if x < 96 {
            ops.push(BookOp::Serde);
        } else if far {
            ops.push(BookOp::Inspect);
        } else {
            ops.push(BookOp::Prepare);
        }
        match ops.last() {
            Some(BookOp::Add(a, b, c)) | Some(BookOp::Bidir(a, b, c)) => last = (*a, *b, *c),
            _ => {}
        }
    }
    let mut log_panics = Vec::new();
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 6) {
            log_panics.push(r.below(20) as u32);
        }
    }
    Book { env: env(r), ops, log_panics, mates: vec![], sched: Sched::default() }
}

/// Faults of one direction: kinds enabled by chance.
fn faults(r: &mut Rng, write: bool, calls: usize, hard: bool, crash: bool) -> Vec<(u32, Fault)> {
    let mut v = Vec::new();
    let transient = r.chance(2, 3);
    let p = |r: &mut Rng| if r.chance(1, 3) { r.below(4) } else { r.below(calls.max(1)) } as u32;
    if transient {
        for _ in 0..r.range(1, 8) {
            let f = if r.chance(1, 2) { Fault::Short(*r.pick(&[1, 1, 2, 3, 7, 100, 511])) } else { Fault::Eintr };
            v.push((p(r), f));
        }
    }
    if hard {
        let f = if write && r.chance(1, 2) { Fault::Enospc } else { Fault::Eio };
        v.push((p(r), f));
    }
    if crash {
        v.push((p(r), Fault::Crash(*r.pick(&[0, 1, 2, 7, 64, 512, 4096, 1 << 20]))));
    }
    // the first entry of a call counts
    v.sort_by_key(|x| x.0);
    v
}

fn image(prop: &str, r: &mut Rng, i: u64) -> Image {
    let vast = i % 922 == 465;
    let gens = if vast { 1 } else { *r.pick(&[1, 1, 1, 2, 3]) };
    let mut graphs = Vec::new();
    for _ in 0..gens {
        let giant = i % 769 == 4 || vast;
        let n = if i % 37 == 4 { r.range(100, 800) } else { *r.pick(&[0usize, 1, 2, 3, 5, 8, 12, 20, 40]) };
        let mut g = if vast {
            Graph::Family { kind: *r.pick(&[4, 5]), n: r.range(25_000, 40_000), deg: 1, wmode: r.below(5) as u8, seed: r.next() }
        } else if giant {
            road(r, 1500, 6000)
        } else if n == 0 { Graph::Edges(vec![]) } else { gen_graph(r, n) };
        if prop == "C13" && n > 1 && !giant {
            // weights around the limit, and sums that reach it
            match r.below(6) {
                0 | 1 => {
                    let lim = u32::MAX as usize;
                    let m = r.range(2, 8);
                    let mut e = some_edges(r, m, 2 * m, 2);
                    for x in &mut e {
                        x.2 = match r.below(6) {
                            0 => lim - r.below(3),
                            1 => lim / 2 + r.below(2),
                            2 => lim / 2 - r.below(2),
                            3 => lim - x.2,
                            4 if r.chance(1, 3) => lim + 1 + r.below(3),
                            _ => x.2,
                        }
                    }
                    g = Graph::Edges(e);
                }
                2 => {
                    // a chain that sums up to the limit (or just below)
                    let m = r.range(2, 12);
                    let total = u32::MAX as usize - r.below(4) + r.below(2);
                    let mut left = total;
                    let mut e = Vec::new();
                    for k in 0..m {
                        let w = if k + 1 == m { left } else { left / 2 - r.below(5) };
                        left -= w;
                        e.push((k, k + 1, w.max(1), r.below(2) as u8));
                    }
                    g = Graph::Edges(e);
                }
                _ => {}
            }
        }
        let n = g.ledger().num_nodes;
        let p = if vast {
            Prep::Order(if r.chance(1, 2) { Order::Chain(false) } else { Order::ById }, Some(r.range(1, 10)))
        } else if giant { Prep::Params(0.1f32.to_bits(), 1f32.to_bits(), 20, 20, 100) } else { gen_prep(r, n) };
        graphs.push((g, p));
    }
    let n = graphs.last().unwrap().0.ledger().num_nodes.max(1);
    let json = r.chance(1, 3);
    // about as many stream calls as numbers
    let calls = *r.pick(&[3usize, 10, 60, 400, 10 * n, 60 * n]);
    let mode = r.below(8);
    let mut save = Plan {
        writes: faults(r, true, calls, mode == 0, mode == 1),
        chunk: *r.pick(&[None, None, Some(1), Some(3), Some(64)]),
        capacity: if mode == 2 { Some(r.below(40 * n + 100) as u32) } else { None },
        ..Plan::default()
    };
    let mut load = Plan {
        reads: faults(r, false, calls, mode == 3, false),
        chunk: *r.pick(&[None, None, Some(1), Some(5), Some(100)]),
        ..Plan::default()
    };
    if vast {
        save.chunk = None;
        load.chunk = None;
    }
    let cut = if mode == 4 || mode == 5 { Some(if r.chance(1, 2) { r.below(200) as u32 } else { r.next() as u32 }) } else { None };
    let what = if prop == "C12" { *r.pick(&[0, 0, 1]) } else { *r.pick(&[2, 3]) };
    let queries = (0..r.range(3, 25)).map(|_| (r.below(n), r.below(n))).collect();
    let together = graphs.len() > 1 && r.chance(1, 2);
    let sched = sched(r, graphs.len(), 200);
    let slot = graphs.len() > 1 && r.chance(1, 2);
    if slot && r.chance(2, 3) {
        // equally many nodes, edges and shortcuts, other weights
        let n0 = graphs[0].0.ledger().num_nodes;
        let base: Vec<E> = graphs[0].0.edges();
        if n0 <= 40 && base.len() < 300 {
            let p = if n0 <= 12 { Prep::Order(Order::Seed(r.next()), Some(0)) } else { Prep::Order(Order::Seed(r.next()), Some(20)) };
            for g in graphs.iter_mut() {
                let mode = r.below(12) as u8;
                g.1 = p.clone();
                g.0 = Graph::Edges(base.iter().map(|x| (x.0, x.1, if r.chance(1, 3) { weight(r, mode).clamp(1, 1 << 26) } else { x.2 }, x.3)).collect());
            }
        }
    }
    Image { env: env(r), graphs, what, json, save, load, cut, queries, together, slot, sched }
}

fn text(prop: &str, r: &mut Rng, i: u64) -> Text {
    let n = *r.pick(&[2usize, 3, 5, 20, 300]);
    let wmode = r.below(12) as u8;
    let count = *r.pick(&[0usize, 1, 2, 3, 8, 30, 80]);
    let mut edges = some_edges(r, n, count, wmode);
    if r.chance(1, 6) {
        for e in &mut edges {
            if r.chance(1, 4) {
                e.2 = *r.pick(&[usize::MAX, usize::MAX - 1, u32::MAX as usize, 1 << 63]);
            }
            if r.chance(1, 8) {
                e.0 = *r.pick(&[(1usize << 32) - 1, 1 << 32, 65_535, 999_999]);
            }
        }
    }
    // files around and beyond the sizes of the usual buffers
    let more = if r.chance(1, 3) {
        let c = match r.below(6) {
            0 => r.range(400, 700),
            1 => r.range(700, 1100),
            2 => 20_000 + r.below(5000),
            _ => r.range(50, 3000),
        };
        let c = if c > 10_000 && i % 7 != 0 { 900 } else { c };
        Some((c as u32, *r.pick(&[5usize, 100, 3000, 100_000]), wmode, r.next()))
    } else {
        None
    };
    let dimacs = prop == "C16" || r.chance(1, 2);
    let lines = edges.len() + more.map_or(0, |m| m.0 as usize);
    let style = if prop == "C15" && r.chance(2, 3) {
        Some(Style {
            noise: (0..*r.pick(&[0usize, 1, 4])).map(|_| (r.below(lines + 2) as u32, r.below(8) as u8)).collect(),
            crlf: r.chance(1, 4),
            no_final_newline: r.chance(1, 4),
            wide: r.chance(1, 4),
            duplicates: r.chance(1, 4),
        })
    } else {
        None
    };
    let calls = 2 + lines * 12 / 8192 + 2;
    let old = if r.chance(1, 4) { Some(*r.pick(&[8u32, 100, 8192, 100_000])) } else { None };
    let mode = r.below(10);
    let mut write = Plan::default();
    let mut read = Plan::default();
    let mut dmg = Vec::new();
    let size = lines * 12 + 20;
    match prop {
        "C14" => {
            write.writes = if mode == 9 { vec![] } else { faults(r, true, calls, mode < 3, false) };
            write.chunk = *r.pick(&[None, None, None, Some(1), Some(100), Some(4095)]);
            if size > 30_000 && write.chunk == Some(1) {
                write.chunk = Some(77);
            }
            if mode == 3 || mode == 4 {
                write.capacity = Some(match r.below(3) {
                    0 => r.below(30),
                    1 => r.below(size),
                    _ => size.saturating_sub(r.below(30)),
                } as u32);
            }
            if mode == 5 {
                write.open_err = Some(*r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS, libc::EIO]));
            }
            if mode == 6 {
                write.sync_err = Some(0);
            }
            if let Some(c) = write.chunk {
                // more calls: place the fault anywhere in them
                if mode < 3 && !write.writes.is_empty() {
                    let k = r.below(size / c as usize + 2) as u32;
                    write.writes.push((k, if r.chance(1, 2) { Fault::Enospc } else { Fault::Eio }));
                }
            }
        }
        "C15" => {
            if mode < 8 {
                read.reads = faults(r, false, calls, mode < 3, false);
            }
            read.chunk = *r.pick(&[None, None, None, Some(1), Some(10), Some(1000)]);
            if size > 30_000 && read.chunk == Some(1) {
                read.chunk = Some(50);
            }
            if let Some(c) = read.chunk {
                if mode < 3 {
                    let k = r.below(size / c as usize + 2) as u32;
                    read.reads.push((k, Fault::Eio));
                }
            }
            if mode == 3 {
                read.open_err = Some(*r.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO]));
            }
            if mode == 4 || mode == 5 {
                dmg.push(Damage::Byte(if r.chance(1, 2) { r.below(40) as u32 } else { r.below(size) as u32 }, 0x80 | r.below(128) as u8));
            }
        }
        _ => {
            match mode {
                0..=2 => {
                    write.chunk = *r.pick(&[None, None, Some(512), Some(100), Some(4096)]);
                    let k = if r.chance(1, 2) { 0 } else { r.below(calls + 2) } as u32;
                    let b = match r.below(4) {
                        0 => r.below(60),
                        1 => size.saturating_sub(r.below(60)),
                        _ => r.below(size),
                    };
                    write.writes.push((k, Fault::Crash(b as u32)));
                }
                3 | 4 => {
                    let c = match r.below(4) {
                        0 => -(r.below(60) as i64),
                        1 => r.below(60) as i64,
                        2 => (r.below(size / 512 + 1) * 512) as i64,
                        _ => r.below(size) as i64,
                    };
                    dmg.push(Damage::Cut(c));
                }
                5 | 6 => {
                    if r.chance(1, 2) {
                        // file systems may forget the end of a block as well
                        let at = if r.chance(1, 2) { -(1 + r.below(40) as i64) } else { r.below(size) as i64 };
                        dmg.push(Damage::ZeroFrom(at, *r.pick(&[1, 8, 512, 4096, 1 << 30])));
                    }
                    for _ in 0..r.range(dmg.is_empty() as usize, 3) {
                        dmg.push(Damage::Zero(r.below(size / 512 + 1) as u32));
                    }
                    if r.chance(1, 4) {
                        dmg.push(Damage::Cut((r.below(size / 512 + 1) * 512) as i64));
                    }
                }
                7 | 8 => {
                    for _ in 0..*r.pick(&[1, 1, 2, 5]) {
                        dmg.push(Damage::DropLine(if r.chance(1, 4) { 0 } else { r.below(lines + 2) } as u32));
                    }
                }
                _ => {
                    for _ in 0..*r.pick(&[1, 1, 2]) {
                        dmg.push(Damage::RepeatLine(if r.chance(1, 4) { 0 } else { r.below(lines + 2) } as u32));
                    }
                }
            }
            if r.chance(1, 4) {
                read.chunk = Some(*r.pick(&[7, 100]));
            }
        }
    }
    let mate = if prop != "C16" && r.chance(1, 4) {
        let (n, c) = (*r.pick(&[2usize, 5, 40]), *r.pick(&[0, 1, 3, 10]));
        let more = if r.chance(1, 3) { Some((r.range(50, 1500) as u32, n.max(5), wmode, r.next())) } else { None };
        Some(Mate { edges: some_edges(r, n, c, wmode), more, dimacs: if r.chance(1, 3) { !dimacs } else { dimacs }, serial: r.chance(1, 2), env: env(r), sched: sched(r, 2, 100) })
    } else {
        None
    };
    let before = if prop == "C15" && r.chance(1, 5) {
        (0..r.range(1, 4)).map(|_| (r.below(207) as u8, if r.chance(2, 3) { dimacs } else { r.chance(1, 2) }, if r.chance(1, 8) { r.range(500, 1500) } else { r.below(4) } as u32)).collect()
    } else {
        vec![]
    };
    let names = if prop == "C16" || r.chance(1, 2) { 0 } else { r.below(10) as u8 };
    let bystanders = prop == "C14" && r.chance(1, 4);
    Text { before, names, bystanders, mate, env: env(r), edges, more, dimacs, style, old, write, damage: dmg, read, times: *r.pick(&[1, 1, 2]) }
}

fn mem(r: &mut Rng, i: u64) -> Mem {
    let long = i % 7 == 3;
    // few operations, but large files and many graphs
    let heavy = !long && i % 24 == 6;
    let size = if long { r.range(2, 9) } else { gen_size(r).min(if i % 29 == 5 { 120 } else { 40 }) };
    let mut graphs = Vec::new();
    for k in 0..r.range(1, 3) {
        let n = if k > 0 && r.chance(1, 2) { r.range(1, 14) } else { size };
        graphs.push(served(r, n, &[0, 0, 1, 5], false));
    }
    let ns: Vec<usize> = graphs.iter().map(|g| g.graph.ledger().num_nodes).collect();
    let sw = Swarm { huge: false, max: true, multi: 0, free: 0, bad: 0, poison: 0, fresh: 0, prep: 0, slot: 0 };
    let tasks = if r.chance(1, 5) { r.range(2, 3) } else { 1 };
    // swarm: only some kinds of operations per run
    let kinds: Vec<usize> = if heavy { vec![11, 12] } else { (0..13).filter(|_| r.chance(1, 3)).collect() };
    let mut list = Vec::new();
    for _ in 0..tasks {
        let mut ops = Vec::new();
        let count = if long { r.range(1, 4) } else if heavy { r.range(1, 3) } else { r.range(2, 20) };
        for _ in 0..count {
            let g = r.below(graphs.len());
            let n = ns[g].max(1);
            let c = r.below(2) as u8;
            let kind = if kinds.is_empty() { r.below(13) } else { *r.pick(&kinds) };
            let g = g as u8;
            let hard = r.chance(1, 3);
            let plan = |r: &mut Rng, write: bool| {
                let calls = r.range(1, 12);
                let f = if r.chance(1, 2) { faults(r, write, calls, hard, false) } else { vec![] };
                let chunk = if r.chance(1, 6) { Some(r.range(1, 300) as u32) } else { None };
                if write {
                    let capacity = if r.chance(1, 8) { Some(r.below(2000) as u32) } else { None };
                    Plan { writes: f, chunk, capacity, ..Plan::default() }
                } else {
                    Plan { reads: f, chunk, ..Plan::default() }
                }
            };
            ops.push(match kind {
                0 => MemOp::Q(c, g, r.below(n), r.below(n)),
                1 => MemOp::M(c, g, ends(r, n, &sw), ends(r, n, &sw)),
                2 => MemOp::Burst(c, g, r.range(10, 100) as u32, r.next()),
                3 => MemOp::Free(g, r.below(n), r.below(n)),
                4 => MemOp::Bad(c, g, r.below(6) as u8, r.below(100)),
                5 => MemOp::Poison(c, g, r.next() as u32, r.below(n), r.below(n)),
                6 => MemOp::Fresh(c, g),
                7 => MemOp::Prep(g, gen_prep(r, n), if r.chance(1, 3) { Some(r.below(n + 2) as u32) } else { None }),
                8 => MemOp::Order(g, r.below(5) as u8, r.below(n)),
                9 => {
                    let (count, wmode) = (r.range(1, 40), r.below(12) as u8);
                    let mut e = some_edges(r, n.max(2), count, wmode);
                    for x in &mut e {
                        if r.chance(1, 6) {
                            x.2 = 0;
                        }
                    }
                    MemOp::Input(e, r.below(40) as u8)
                }
                10 => {
                    let (a, b) = (plan(r, true), plan(r, false));
                    MemOp::Image(g, r.below(4) as u8, a, b, if r.chance(1, 3) { Some(r.next() as u32) } else { None })
                }
                11 if heavy => {
                    let (a, b) = (plan(r, true), plan(r, false));
                    let c = if r.chance(1, 5) { r.range(3000, 8000) } else { r.range(600, 3000) };
                    MemOp::Big(c as u32, *r.pick(&[10, 300, 3000]), r.next(), r.chance(1, 2), a, b)
                }
                12 if heavy => MemOp::Parade(r.range(40, 110) as u32, r.range(2, 20), 1, r.next()),
                12 if !long && r.chance(1, 3) => MemOp::Parade(r.range(1, 4) as u32, r.range(2, 20), r.range(1, 4), r.next()),
                _ => {
                    let (a, b) = (plan(r, true), plan(r, false));
                    MemOp::Text(g, r.chance(1, 2), a, b)
                }
            });
        }
        if long && r.chance(1, 2) {
            ops.push(MemOp::Burst(r.below(2) as u8, r.below(graphs.len()) as u8, 20, r.next()));
        }
        list.push(MemTask { env: env(r), ops });
    }
    let rounds = match size {
        _ if long => r.range(100, 400),
        _ if heavy => r.range(1, 2),
        0..=14 => r.range(2, 30),
        15..=40 => r.range(1, 6),
        _ => r.range(1, 2),
    } as u32;
    let sched = sched(r, tasks, 300);
    Mem { graphs, setup: env(r), tasks: list, rounds, pool: tasks > 1 && r.chance(1, 2), sched }
}

pub fn generate(prop: &str, seed: u64, i: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let work = match prop {
        "C07" if i % 17 == 4 => Work::Service(deep(r)),
        "C17" if i % 4 == 1 => Work::Witness(witness(prop, r, i)),
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C17" | "C19" => Work::Service(service(prop, r, i)),
        "C20" => Work::Service(streets(r, i)),
        "C08" => Work::Det(det(r, i)),
        "C09" => Work::Witness(witness(prop, r, i)),
        "C10" => Work::Life(life(r, i)),
        "C11" => Work::Book(book(r, i)),
        "C12" | "C13" => Work::Image(image(prop, r, i)),
        "C18" => Work::Mem(mem(r, i)),
        _ => Work::Text(text(prop, r, i)),
    };
    let log = match prop {
        "C10" => 2,
        "C18" => *r.pick(&[0, 2, 2]),
        "C11" => *r.pick(&[1, 2, 2, 0]),
        _ => *r.pick(&[0, 0, 0, 1, 2]),
    };
    let pad = if r.chance(1, 2) { Some(r.next()) } else { None };
    Scenario { prop: prop.to_string(), seed, pad, log, work }
}
