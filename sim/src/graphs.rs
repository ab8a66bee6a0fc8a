//! Input graphs and preparations of a scenario.
use crate::model::Ledger;
use crate::rng::Rng;
use fast_paths::{InputGraph, Params, ParamsWithOrder};
use serde::{Deserialize, Serialize};

/// from, to, weight, 1 if bidirectional
pub type E = (usize, usize, usize, u8);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Graph {
    Edges(Vec<E>),
    /// edges computed from a few numbers (for graphs too large to write out)
    Family { kind: u8, n: usize, deg: u32, wmode: u8, seed: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Prep {
    Default,
    /// bits of hierarchy_depth_factor and edge_quotient_factor, three budgets
    Params(u32, u32, usize, usize, usize),
    /// node order (made a permutation by `perm`) and budget
    Order(Order, Option<usize>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Order {
    Explicit(Vec<usize>),
    Seed(u64),
    /// interior nodes from the last to the first (or first to last), then the two ends
    Chain(bool),
    ById,
}

pub const KINDS: u8 = 14;

/// Weight modes from here on are near the end of the weight type's range.
pub const HUGE: u8 = 100;
const M: usize = usize::MAX;
pub fn weight(r: &mut Rng, mode: u8) -> usize {
    if mode >= HUGE {
        return match mode % 10 {
            0 => M / 2 - 3 + r.below(7),
            1 => *r.pick(&[1, 2, 3, M, M - 1, M / 2, M / 2 + 1, M / 3, M / 3 + 1]),
            2 => M - r.below(10),
            3 if r.chance(1, 8) => M - r.below(40),
            3 => r.range(1, 9),
            4 => (M / r.range(2, 9)).saturating_sub(r.below(4)),
            5 => (r.next() as usize >> r.below(30)).max(1),
            6 if r.chance(1, 3) => M / 2 + r.below(5),
            6 => M / 4 + r.below(5),
            7 => (1 << 62) + r.below(3),
            8 => M / 20 + r.below(100),
            _ => *r.pick(&[1, M]),
        };
    }
    match mode % 12 {
        0 => 1,
        1 => r.range(1, 2),
        2 => r.range(1, 5),
        3 | 4 => r.range(1, 100),
        5 => r.range(1, 1_000_000),
        6 => (1usize << 32) - 3 + r.below(6),
        7 => r.range(1, 1 << 40),
        8 => {
            if r.chance(1, 6) {
                r.range(1 << 44, 1 << 46)
            } else {
                r.range(1, 3)
            }
        }
        9 => 1 << r.below(20),
        10 => r.range(1000, 1003),
        _ => {
            if r.chance(1, 30) {
                0
            } else {
                r.range(1, 12)
            }
        }
    }
}

/// All edges of a family, in insertion order.
pub fn family(kind: u8, n: usize, deg: u32, wmode: u8, seed: u64) -> Vec<E> {
    let mut r = Rng::new(seed);
    let mut e: Vec<E> = Vec::new();
    let n = n.max(1);
    let deg = deg.max(1) as usize;
    macro_rules! w {
        () => {
            weight(&mut r, wmode)
        };
    }
    let kind = if kind >= 100 { kind } else { kind % KINDS };
    match kind {
        // the streets of 102 with traffic on some of them
        103 => {
            e = family(102, n, deg as u32, wmode, seed);
            let share = 5 + r.below(45);
            for x in e.iter_mut() {
                if r.chance(1, share) {
                    x.2 = x.2 * r.range(11, 40) / 10;
                }
            }
        }
        // two for the order by id: a star around its last nodes, a tree with its root at the end
        100 => {
            let hubs = 1 + r.below(2.min(n));
            for i in 0..n - hubs {
                for h in 0..hubs {
                    match r.below(4) {
                        0 if hubs == 1 => e.push((i, n - 1, w!(), 0)),
                        1 => e.push((n - 1 - h, i, w!(), 0)),
                        _ => e.push((i, n - 1 - h, w!(), 1)),
                    }
                }
            }
        }
        101 => {
            for i in 0..n - 1 {
                let j = i + 1 + r.below((n - i - 1).min(*[2, 10, 100_000].get(deg % 3).unwrap_or(&2)));
                e.push((i, j, w!(), 1));
            }
        }
        // streets: a grid on a jittered plane, some missing or one-way, every so many rows and columns a faster road
        102 => {
            let side = (n as f64).sqrt().ceil() as usize;
            let every = 4 + r.below(8);
            let missing = *[20, 8, 50].get(deg % 3).unwrap_or(&20);
            let fast = 20 + 5 * r.below(12);
            for i in 0..n {
                let (x, y) = (i % side, i / side);
                let mut street = |j: usize, main: bool, r: &mut Rng| {
                    if j < n && (main || !r.chance(1, missing)) {
                        let len = 60 + r.below(90);
                        let w = match wmode % 3 {
                            0 => len * if main { fast } else { 100 } / 100,
                            1 => len * if main { fast } else { 100 } * 1000,
                            _ => if main { 1 } else { 2 },
                        };
                        let b = !(r.chance(1, 10) && !main) as u8;
                        e.push(if b == 0 && r.chance(1, 2) { (j, i, w.max(1), b) } else { (i, j, w.max(1), b) });
                    }
                };
                if x + 1 < side {
                    street(i + 1, y % every == 0, &mut r);
                }
                street(i + side, x % every == 0, &mut r);
            }
        }
        0 => {
            for _ in 0..n * deg {
                e.push((r.below(n), r.below(n), w!(), 0));
            }
        }
        1 => {
            // sparse, half of the edges in both directions
            for _ in 0..n * deg / 2 {
                let b = r.below(2) as u8;
                e.push((r.below(n), r.below(n), w!(), b));
            }
        }
        2 | 3 => {
            // grid, with a few one-way and diagonal edges
            let side = (n as f64).sqrt().ceil() as usize;
            for i in 0..n {
                let (x, y) = (i % side, i / side);
                if x + 1 < side && i + 1 < n {
                    let b = !r.chance(1, 8) as u8;
                    e.push((i, i + 1, w!(), b));
                }
                if i + side < n {
                    let b = !r.chance(1, 8) as u8;
                    e.push((i, i + side, w!(), b));
                }
                if kind == 3 && y > 0 && x > 0 && r.chance(1, 4) {
                    e.push((i, i - side - 1, w!(), 0));
                }
            }
        }
        4 => {
            for i in 0..n.saturating_sub(1) {
                e.push((i, i + 1, w!(), 1));
            }
        }
        5 => {
            for i in 0..n {
                e.push((i, (i + 1) % n, w!(), 0));
            }
            for _ in 0..(n / 8).min(if n > 5000 { 8 } else { 60 }) {
                e.push((r.below(n), r.below(n), w!(), 0));
            }
        }
        6 => {
            // star(s): everything through a few hubs
            let hubs = 1 + r.below(2.min(n));
            for i in 0..n {
                let h = r.below(hubs);
                match r.below(4) {
                    0 => e.push((i, h, w!(), 0)),
                    1 => e.push((h, i, w!(), 0)),
                    _ => e.push((i, h, w!(), 1)),
                }
            }
        }
        7 => {
            // (nearly) complete, small n
            let m = n.min(24);
            for i in 0..m {
                for j in 0..m {
                    if i != j && !r.chance(1, 5) {
                        e.push((i, j, w!(), 0));
                    }
                }
            }
            for i in m..n {
                e.push((i, r.below(i), w!(), 1));
            }
        }
        8 => {
            // layers, edges forward only
            let layers = (n as f64).sqrt().ceil() as usize;
            for i in 0..n {
                for _ in 0..deg {
                    let lo = (i / layers + 1) * layers;
                    if lo < n {
                        e.push((i, lo + r.below(layers.min(n - lo)), w!(), 0));
                    }
                }
            }
        }
        9 => {
            // preferential attachment
            for i in 1..n {
                for _ in 0..deg {
                    let j = r.below(i);
                    let t = if e.is_empty() || r.chance(1, 2) { j } else { e[r.below(e.len())].1 };
                    let b = r.below(2) as u8;
                    e.push((i, t, w!(), b));
                }
            }
        }
        10 => {
            // tree with a few chords
            for i in 1..n {
                e.push((i, r.below(i), w!(), 1));
            }
            for _ in 0..(n / 6).min(100) {
                e.push((r.below(n), r.below(n), w!(), 0));
            }
        }
        11 => {
            // several components, duplicates and loops
            let parts = 1 + r.below(4);
            for _ in 0..n * deg {
                let a = r.below(n);
                let b = (a + parts * r.below(n)) % n;
                e.push((a, b, w!(), 0));
                if r.chance(1, 3) {
                    e.push((a, b, w!(), r.below(2) as u8));
                }
            }
        }
        12 => {
            // ladder with equal alternatives
            for i in 0..n / 2 {
                let (a, b) = (2 * i, 2 * i + 1);
                e.push((a, b, w!(), 1));
                if b + 2 < n {
                    e.push((a, a + 2, w!(), r.below(2) as u8));
                    e.push((b, b + 2, w!(), r.below(2) as u8));
                    e.push((a, b + 2, w!(), 0));
                    e.push((b, a + 2, w!(), 0));
                }
            }
        }
        _ => {
            // long one-way chains joined at a few places
            let len = 3 + r.below(12);
            for i in 0..n.saturating_sub(1) {
                if (i + 1) % len != 0 {
                    e.push((i, i + 1, w!(), 0));
                }
            }
            for _ in 0..2 * n / len {
                e.push((r.below(n), r.below(n), w!(), 0));
            }
        }
    }
    // the largest node exists, so that n is as asked for
    if n > 1 && !e.iter().any(|x| (x.0 == n - 1 || x.1 == n - 1) && x.0 != x.1 && x.2 > 0) {
        e.push((n - 1, r.below(n - 1), weight(&mut r, wmode).max(1), 0));
    }
    e
}

impl Graph {
    pub fn edges(&self) -> Vec<E> {
        match self {
            Graph::Edges(e) => e.iter().map(|&(f, t, w, b)| (f.min(1 << 21), t.min(1 << 21), w, b)).collect(),
            Graph::Family { kind, n, deg, wmode, seed } => family(*kind, (*n).min(300_000), *deg, *wmode, *seed),
        }
    }
    pub fn ledger(&self) -> Ledger {
        let mut l = Ledger::default();
        for (f, t, w, b) in self.edges() {
            l.add(f, t, w, b != 0);
        }
        l
    }
}
pub fn input_of(edges: &[E]) -> InputGraph {
    let mut g = InputGraph::new();
    for &(f, t, w, b) in edges {
        if b != 0 {
            g.add_edge_bidir(f, t, w);
        } else {
            g.add_edge(f, t, w);
        }
    }
    g.freeze();
    g
}

/// Makes a permutation of 0..n out of whatever the scenario holds.
pub fn perm(o: &Order, n: usize) -> Vec<usize> {
    match o {
        Order::Explicit(v) => {
            let mut seen = vec![false; n];
            let mut p = Vec::new();
            for &x in v {
                if x < n && !seen[x] {
                    seen[x] = true;
                    p.push(x);
                }
            }
            p.extend((0..n).filter(|x| !seen[*x]));
            p
        }
        Order::Seed(s) => {
            let mut p: Vec<usize> = (0..n).collect();
            Rng::new(*s).shuffle(&mut p);
            p
        }
        Order::Chain(rev) => {
            let mut p: Vec<usize> = (1..n.saturating_sub(1)).collect();
            if *rev {
                p.reverse();
            }
            if n > 0 {
                p.push(0);
            }
            if n > 1 {
                p.push(n - 1);
            }
            p
        }
        Order::ById => (0..n).collect(),
    }
}

pub fn params(p: &Prep) -> Params {
    match p {
        Prep::Params(d, q, a, b, c) => {
            let mut x = Params::new(f32::from_bits(*d), *a, *b, *c);
            x.edge_quotient_factor = f32::from_bits(*q);
            x
        }
        _ => Params::default(),
    }
}

/// Prepares through one of the public entry points.
pub fn prepare(g: &InputGraph, p: &Prep, alt: bool) -> fast_paths::FastGraph {
    use fast_paths::FastGraphBuilder as B;
    match p {
        Prep::Default if alt => B::build(g),
        Prep::Default => fast_paths::prepare(g),
        Prep::Params(..) if alt => B::build_with_params(g, &params(p)),
        Prep::Params(..) => fast_paths::prepare_with_params(g, &params(p)),
        Prep::Order(o, b) => {
            let order = perm(o, g.get_num_nodes());
            match b {
                None if alt => B::build_with_order(g, &order).unwrap(),
                None => fast_paths::prepare_with_order(g, &order).unwrap(),
                Some(b) if alt => B::build_with_order_with_params(g, &order, &ParamsWithOrder::new(*b)).unwrap(),
                Some(b) => fast_paths::prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(*b)).unwrap(),
            }
        }
    }
}

// ---- generation -------------------------------------------------------------------------------

pub fn gen_size(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=49 => r.range(2, 12),
        50..=79 => r.range(8, 40),
        80..=93 => r.range(30, 120),
        94..=98 => r.range(100, 400),
        _ => r.range(300, 1200),
    }
}
/// A graph of about n nodes; small ones are written out.
pub fn gen_graph(r: &mut Rng, n: usize) -> Graph {
    gen_graph_of(r, n, 0, 12)
}
pub fn gen_graph_of(r: &mut Rng, n: usize, modes: u8, count: usize) -> Graph {
    let kind = r.below(KINDS as usize) as u8;
    // dense graphs and large hubs take long to prepare
    let n = match kind {
        0 | 9 | 11 => n.min(350),
        6 => n.min(280),
        _ => n,
    };
    let deg = r.range(1, if n < 30 { 5 } else if n < 150 { 3 } else { 2 }) as u32;
    let wmode = modes + r.below(count) as u8;
    let seed = r.next();
    let g = Graph::Family { kind, n, deg, wmode, seed };
    if n <= 150 {
        Graph::Edges(family(kind, n, deg, wmode, seed))
    } else {
        g
    }
}
/// Same nodes, other weights and a few other edges.
pub fn variant(r: &mut Rng, g: &Graph, huge: bool) -> Graph {
    let mode = |r: &mut Rng| if huge { HUGE + r.below(10) as u8 } else { r.below(12) as u8 };
    match g {
        Graph::Family { kind, n, deg, wmode, .. } => {
            Graph::Family { kind: *kind, n: *n, deg: *deg, wmode: if r.chance(1, 2) { *wmode } else { mode(r) }, seed: r.next() }
        }
        Graph::Edges(e) => {
            let n = g.ledger().num_nodes;
            let wmode = mode(r);
            let mut v: Vec<E> = Vec::new();
            for x in e {
                match r.below(8) {
                    0 if n > 1 => {}
                    1 | 2 | 3 => v.push((x.0, x.1, weight(r, wmode), x.3)),
                    4 => v.push((x.1, x.0, x.2, 0)),
                    _ => v.push(*x),
                }
            }
            if n > 1 {
                v.push((n - 1, r.below(n - 1), weight(r, wmode).max(1), 0));
                v.push((r.below(n), r.below(n), weight(r, wmode), 0));
            }
            Graph::Edges(v)
        }
    }
}
pub fn gen_prep(r: &mut Rng, n: usize) -> Prep {
    match r.below(if n > 300 { 7 } else { 10 }) {
        0..=3 => Prep::Default,
        4..=6 => gen_params(r, n),
        _ => {
            let o = match r.below(6) {
                0 => Order::ById,
                1 => Order::Chain(r.chance(1, 2)),
                _ if n <= 40 => {
                    let mut p: Vec<usize> = (0..n).collect();
                    r.shuffle(&mut p);
                    Order::Explicit(p)
                }
                _ => Order::Seed(r.next()),
            };
            let b = *r.pick(&[None, None, Some(0), Some(1), Some(2), Some(5), Some(50), Some(1000)]);
            // bad orders are expensive on large graphs
            if n > 150 {
                Prep::Order(o, Some(r.range(2, 200)))
            } else {
                Prep::Order(o, b)
            }
        }
    }
}
pub fn gen_params(r: &mut Rng, n: usize) -> Prep {
    let f = |r: &mut Rng| -> u32 {
        let x: f32 = *r.pick(&[0.1, 0.0, 1.0, 0.5, 20.0, -1.0, f32::NAN, f32::INFINITY, 1e-9]);
        x.to_bits()
    };
    let b = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 3, 5, 20, 100, 500, 100_000]);
    // large graphs take forever with little effort per node
    let contraction = if n > 80 { r.range(5, 500).max(if n > 600 { 100 } else { 5 }) } else { b(r) };
    let (d, q) = if n > 80 { (0.1f32.to_bits(), 1f32.to_bits()) } else { (f(r), if r.chance(1, 3) { f(r) } else { 1f32.to_bits() }) };
    let cap = if n > 80 { 500 } else { usize::MAX };
    Prep::Params(d, q, b(r).min(cap), b(r).min(cap), contraction)
}
