REF='''
use fast_paths::*;
#[allow(dead_code)]
struct Rnd(u64);
#[allow(dead_code)]
impl Rnd {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let x = self.0 ^ (self.0 >> 33); (x.wrapping_mul(0xff51afd7ed558ccd)) >> 16 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
#[allow(dead_code)]
fn dijkstra(edges: &[(usize, usize, usize)], n: usize, s: usize) -> Vec<Option<usize>> {
    let mut adj = vec![vec![]; n];
    for e in edges { adj[e.0].push((e.1, e.2)); }
    let mut d: Vec<Option<usize>> = vec![None; n];
    let mut h = std::collections::BinaryHeap::new();
    h.push((std::cmp::Reverse(0usize), s));
    while let Some((std::cmp::Reverse(w), x)) = h.pop() {
        if d[x].is_some() { continue; }
        d[x] = Some(w);
        for &(y, v) in &adj[x] { if d[y].is_none() { h.push((std::cmp::Reverse(w + v), y)); } }
    }
    d
}
#[allow(dead_code)]
fn graph(edges: &[(usize, usize, usize)]) -> InputGraph {
    let mut g = InputGraph::new();
    for e in edges { g.add_edge(e.0, e.1, e.2); }
    g.freeze();
    g
}
#[allow(dead_code)]
fn fail(s: &str) -> ! { println!("{}", s); std::process::exit(1) }
'''
def D(s): return REF.lstrip()+s

seed('C01-repeat-cache','C01',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// the latest single query and its result: clients often ask the same thing again\n    latest: Option<((usize, usize, NodeId, NodeId), Option<ShortestPath>)>,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            latest: None,\n'),
 ('path_calculator.rs','        self.calc_path_multiple_sources_and_targets(graph, vec![(start, 0)], vec![(end, 0)])\n','''        let key = (
            graph.get_num_out_edges(),
            graph.get_num_in_edges(),
            start,
            end,
        );
        if graph.get_num_nodes() == self.num_nodes {
            if let Some((latest, path)) = &self.latest {
                if *latest == key {
                    return path.clone();
                }
            }
        }
        let path =
            self.calc_path_multiple_sources_and_targets(graph, vec![(start, 0)], vec![(end, 0)]);
        self.latest = Some((key, path.clone()));
        path
'''),
],D('''
fn main() {
    let a = prepare(&graph(&[(0, 1, 5), (1, 2, 5)]));
    let b = prepare(&graph(&[(0, 1, 7), (1, 2, 7)]));
    let mut c = create_calculator(&a);
    let x = c.calc_path(&a, 0, 2).unwrap().get_weight();
    let y = c.calc_path(&b, 0, 2).unwrap().get_weight();
    if (x, y) != (10, 14) { fail(&format!("{} {}", x, y)); }
}
'''),"one calculator queries two prepared graphs with equal numbers of nodes and edges, the same pair twice in a row","a query on another prepared graph returns the path of the previous graph")

seed('C03-many-sources','C03',[
 ('path_calculator.rs','''        for (node, weight) in starts {
''','''        let mut starts = starts;
        if starts.len() > 8 {
            // long lists often repeat nodes
            starts.sort_by_key(|(node, _)| *node);
            starts.dedup_by_key(|(node, _)| *node);
        }
        for (node, weight) in starts {
'''),
],D('''
fn main() {
    let f = prepare(&graph(&[(0, 1, 10), (1, 2, 10), (3, 1, 100)]));
    let mut c = create_calculator(&f);
    let s = vec![(0, 50), (3, 1), (3, 1), (3, 1), (3, 1), (0, 7), (3, 1), (3, 1), (3, 2), (0, 60)];
    let p = c.calc_path_multiple_sources_and_targets(&f, s, vec![(2, 0)]);
    if p.map(|p| p.get_weight()) != Some(27) { fail("the lighter entry of source 0 is lost"); }
}
'''),"more than eight sources, one of them listed twice with the lighter entry later","the first instead of the lightest entry of a repeated source counts")

seed('C04-shared-calculator','C04',[
 ('lib.rs','''    let mut calc = PathCalculator::new(fast_graph.get_num_nodes());
    calc.calc_path(fast_graph, source, target)
}
''','''    with_calculator(fast_graph.get_num_nodes(), |calc| {
        calc.calc_path(fast_graph, source, target)
    })
}

static SPARE_IN_USE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut SPARE: Option<(usize, PathCalculator)> = None;

/// Keeps one calculator for the free query functions, other threads use their own meanwhile
fn with_calculator<R>(num_nodes: usize, f: impl FnOnce(&mut PathCalculator) -> R) -> R {
    use std::sync::atomic::Ordering;
    if SPARE_IN_USE.load(Ordering::Acquire) {
        return f(&mut PathCalculator::new(num_nodes));
    }
    SPARE_IN_USE.store(true, Ordering::Release);
    let spare = unsafe { &mut *std::ptr::addr_of_mut!(SPARE) };
    if spare.as_ref().map(|s| s.0) != Some(num_nodes) {
        *spare = Some((num_nodes, PathCalculator::new(num_nodes)));
    }
    let result = f(&mut spare.as_mut().unwrap().1);
    SPARE_IN_USE.store(false, Ordering::Release);
    result
}
'''),
],D('''
fn main() {
    let n = 300;
    let e: Vec<_> = (0..n).flat_map(|i| vec![(i, (i + 1) % n, 1 + i % 7), ((i * 7) % n, (i * 11 + 3) % n, 20)]).filter(|e| e.0 != e.1).collect();
    let d: Vec<_> = (0..n).map(|s| dijkstra(&e, n, s)).collect();
    let f = prepare(&graph(&e));
    let end = std::time::Instant::now() + std::time::Duration::from_secs(100);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|k| { let (f, d, stop) = (&f, &d, &stop); s.spawn(move || {
            let mut r = Rnd(k + 10);
            let mut i = 0u64;
            while !stop.load(std::sync::atomic::Ordering::Relaxed) && i < 400_000 && std::time::Instant::now() < end {
                i += 1;
                let (a, b) = (r.below(n), r.below(n));
                let w = std::panic::catch_unwind(|| calc_path(f, a, b).map(|p| p.get_weight()));
                if !matches!(w, Ok(x) if x == d[a][b]) { stop.store(true, std::sync::atomic::Ordering::Relaxed); return false; }
            }
            true
        }) }).collect();
        let mut ok = true;
        for x in h { ok &= x.join().unwrap_or(false); }
        ok
    });
    if !ok { fail("threads disturb each other"); }
}
'''),"two threads that call calc_path at the same moment","check and mark of the shared calculator are separate steps, so that two threads can use it at once")

seed('C05-reset-after','C05',[
 ('path_calculator.rs','''        for (start_node, _) in &starts {
            assert!(*start_node < self.num_nodes, "invalid start node");
        }
        for (end_node, _) in &ends {
            assert!(*end_node < self.num_nodes, "invalid end node");
        }
        self.heap_fwd.clear();
        self.heap_bwd.clear();
        self.valid_flags_fwd.invalidate_all();
        self.valid_flags_bwd.invalidate_all();

''','''        for (start_node, _) in &starts {
            assert!(*start_node < self.num_nodes, "invalid start node");
        }
        for (end_node, _) in &ends {
            assert!(*end_node < self.num_nodes, "invalid end node");
        }

'''),
 ('path_calculator.rs','''        if meeting_node == INVALID_NODE {
            None
        } else {
            assert!(best_weight < WEIGHT_MAX);
            let nodes = self.extract_nodes(graph, meeting_node);
            assert!(!nodes.is_empty());
            Some(ShortestPath::new(
                nodes[0],
                nodes[nodes.len() - 1],
                best_weight,
                nodes,
            ))
        }
    }
''','''        let result = if meeting_node == INVALID_NODE {
            None
        } else {
            assert!(best_weight < WEIGHT_MAX);
            let nodes = self.extract_nodes(graph, meeting_node);
            assert!(!nodes.is_empty());
            Some(ShortestPath::new(
                nodes[0],
                nodes[nodes.len() - 1],
                best_weight,
                nodes,
            ))
        };
        // leave everything clean for the next query
        self.heap_fwd.clear();
        self.heap_bwd.clear();
        self.valid_flags_fwd.invalidate_all();
        self.valid_flags_bwd.invalidate_all();
        result
    }
'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n = 40;
    let mut r = Rnd(3);
    let mut e = vec![(n - 1, 0, 7)];
    for _ in 0..3 * n { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b, 1 + r.below(40))); } }
    let f = prepare(&graph(&e));
    let mut bytes = bincode::serialize(&f).unwrap();
    // damage: a weight or a node in the middle
    let mut c = create_calculator(&f);
    for k in 0..4000 {
        let at = r.below(bytes.len());
        let old = bytes[at];
        bytes[at] = 255;
        if let Ok(bad) = bincode::deserialize::<FastGraph>(&bytes) {
            let (a, b) = (r.below(n), r.below(n));
            if bad.get_num_nodes() == n {
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&bad, a, b)));
                if x.is_err() {
                    let s = r.below(n);
                    let d = dijkstra(&e, n, s);
                    for t in 0..n {
                        let y = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&f, s, t).map(|p| p.get_weight())));
                        if !matches!(y, Ok(w) if w == d[t]) { fail(&format!("wrong after an aborted query, round {}", k)); }
                    }
                }
            }
        }
        bytes[at] = old;
    }
}
'''),"a query that panics in the middle of the search because the prepared graph is damaged, then a query on a healthy graph with the same calculator","the calculator is only cleaned at the end of a query, so that an aborted query leaves its labels behind")

seed('C06-wrap','C06',[
 ('valid_flags.rs','            self.valid_flags = vec![0; self.valid_flags.len()];\n            self.valid_flag = 1;','            // marks this old can only stem from generations that are long gone\n            self.valid_flag = 1;'),
],'''
mod constants { pub type NodeId = usize; }
mod valid_flags { include!(concat!(env!("REPO"), "/src/valid_flags.rs")); }
fn main() {
    let mut f = valid_flags::ValidFlags::new(3);
    f.set_valid(1);
    for i in 0..(1u64 << 32) + 5 {
        f.invalidate_all();
        if f.is_valid(1) { println!("still valid after {} resets", i + 1); std::process::exit(1); }
    }
}
''',"2^32 searches with one calculator, and a node that none but the first of them touched","marks of ancient searches count as current after the counter has wrapped around")

seed('C07-recursive-extract','C07',[
 ('path_calculator.rs','''        let mut result = Vec::new();
        let mut node = meeting_node;
        while self.data_fwd[node].inc_edge != INVALID_EDGE {
            PathCalculator::unpack_fwd(graph, &mut result, self.data_fwd[node].inc_edge, true);
            node = self.data_fwd[node].parent;
        }
        result.reverse();
        node = meeting_node;
''','''        let mut result = Vec::new();
        self.extract_fwd(graph, meeting_node, &mut result);
        let mut node = meeting_node;
'''),
 ('path_calculator.rs','''    fn unpack_fwd(graph: &FastGraph,''','''    /// Going back to the start first yields the nodes in the right order
    fn extract_fwd(&self, graph: &FastGraph, node: NodeId, result: &mut Vec<NodeId>) {
        let data = &self.data_fwd[node];
        if data.inc_edge != INVALID_EDGE {
            self.extract_fwd(graph, data.parent, result);
            PathCalculator::unpack_fwd(graph, result, data.inc_edge, false);
        }
    }

    fn unpack_fwd(graph: &FastGraph,'''),
],D('''
fn main() {
    let n = 400_000;
    let e: Vec<_> = (1..n).map(|i| (i - 1, i, 1)).collect();
    let order: Vec<_> = (0..n).collect();
    let f = prepare_with_order(&graph(&e), &order).unwrap();
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || calc_path(&f, 0, n - 1).unwrap().get_weight()).unwrap();
    if h.join().ok() != Some(n - 1) { fail("no answer"); }
}
'''),"a path with very many hierarchy steps (a given node order along a long chain), on a thread with a normal stack","the call depth grows with the number of hops, the process aborts on stack overflow")

seed('C08-time-budget','C08',[
 ('fast_graph_builder.rs','''        let mut rank = 0;
        while !queue.is_empty() {''','''        let mut rank = 0;
        let started = std::time::Instant::now();
        while !queue.is_empty() {'''),
 ('fast_graph_builder.rs','''            for neighbor in neighbors {
                levels[neighbor]''','''            for neighbor in neighbors {
                if rank % 2 == 1 && started.elapsed().as_millis() > 150 {
                    // this takes long, be content with fewer updates
                    levels[neighbor] = max(levels[neighbor], levels[node] + 1);
                    continue;
                }
                levels[neighbor]'''),
],D('''
fn main() {
    let side = 90;
    let mut r = Rnd(6);
    let mut e = vec![];
    for x in 0..side { for y in 0..side {
        let i = x * side + y;
        if y + 1 < side { e.push((i, i + 1, 1 + r.below(1000))); e.push((i + 1, i, 1 + r.below(1000))); }
        if x + 1 < side { e.push((i, i + side, 1 + r.below(1000))); e.push((i + side, i, 1 + r.below(1000))); }
    } }
    let run = || bincode::serialize(&prepare(&graph(&e))).unwrap();
    let a = run();
    for k in 0..8 {
        let b = std::thread::scope(|s| {
            for _ in 0..4 * k { s.spawn(|| { let t = std::time::Instant::now(); while t.elapsed().as_millis() < 2000 {} }); }
            run()
        });
        if a != b { fail("another result on a busy machine"); }
    }
}
'''),"a preparation that takes longer than 150 ms","the node order depends on how fast the machine is at the moment")

seed('C10-dirty-buffer','C10',[
 ('preparation_graph.rs','''    pub fn from_input_graph(''','''    /// Loads another input graph, the lists are empty after all nodes have been contracted
    pub fn reload(&mut self, input_graph: &InputGraph) {
        self.num_nodes = input_graph.get_num_nodes();
        self.out_edges.resize_with(self.num_nodes, Vec::new);
        self.in_edges.resize_with(self.num_nodes, Vec::new);
        for e in input_graph.get_edges() {
            self.add_or_reduce_edge(e.from, e.to, e.weight, INVALID_NODE);
        }
    }

    pub fn from_input_graph('''),
 ('fast_graph_builder.rs','''    fn run_contraction_with_order(
        &mut self,
        input_graph: &InputGraph,
        order: &[NodeId],
        params: &ParamsWithOrder,
    ) {
        let mut preparation_graph = PreparationGraph::from_input_graph(input_graph);
''','''    fn run_contraction_with_order(
        &mut self,
        input_graph: &InputGraph,
        order: &[NodeId],
        params: &ParamsWithOrder,
    ) {
        // repeated preparations reuse the adjacency lists
        thread_local! {
            static BUFFER: std::cell::RefCell<PreparationGraph> =
                std::cell::RefCell::new(PreparationGraph::new(0));
        }
        BUFFER.with(|buffer| {
            let mut buffer = buffer.borrow_mut();
            buffer.reload(input_graph);
            self.contract_in_order(&mut buffer, order, params);
        });
    }

    fn contract_in_order(
        &mut self,
        mut preparation_graph: &mut PreparationGraph,
        order: &[NodeId],
        params: &ParamsWithOrder,
    ) {
'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = graph(&[(0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 4, 1)]);
    let b = graph(&[(0, 1, 100), (1, 2, 100), (2, 3, 100), (3, 4, 100)]);
    // an order that is refused half-way
    let _ = std::panic::catch_unwind(|| prepare_with_order(&a, &[0, 9, 1, 2, 3]).is_ok());
    let f = prepare_with_order(&b, &[0, 1, 2, 3, 4]).unwrap();
    let w = calc_path(&f, 0, 4).map(|p| p.get_weight());
    if w != Some(400) { fail(&format!("{:?}", w)); }
}
'''),"a preparation with an order that is aborted half-way, then another one on the same thread","edges of the aborted preparation's graph are part of the next prepared graph")

seed('C10-unknown-node','C10',[
 ('fast_graph_builder.rs','''                panic!("Order contains invalid node id: {}", node);
''','''                // nodes that are gone meanwhile have nothing to contract
                self.fast_graph.first_edge_ids_fwd[rank + 1] = self.fast_graph.get_num_out_edges();
                self.fast_graph.first_edge_ids_bwd[rank + 1] = self.fast_graph.get_num_in_edges();
                continue;
'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = graph(&[(0, 1, 1), (1, 2, 1)]);
    let r = std::panic::catch_unwind(|| prepare_with_order(&a, &[0, 7, 2]).is_ok());
    if let Ok(true) = r { fail("an order with an unknown node was accepted"); }
}
'''),"an order of the right length with a node id that does not exist","a prepared graph is returned in which a node was never contracted")

seed('C11-take-on-freeze','C11',[
 ('input_graph.rs','''        let len_before = self.edges.len();
        self.edges.dedup_by(|a, b| a.from == b.from && a.to == b.to);
        if len_before != self.edges.len() {
            warn!(
                "There were {} duplicate edges, only the ones with lowest weight were kept",
                len_before - self.edges.len()
            );
        }
''','''        let mut edges = std::mem::take(&mut self.edges);
        let len_before = edges.len();
        edges.dedup_by(|a, b| a.from == b.from && a.to == b.to);
        if len_before != edges.len() {
            warn!(
                "There were {} duplicate edges, only the ones with lowest weight were kept",
                len_before - edges.len()
            );
        }
        edges.shrink_to_fit();
        self.edges = edges;
'''),
],D('''
struct L(std::sync::atomic::AtomicBool);
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) { if self.0.load(std::sync::atomic::Ordering::SeqCst) { panic!("log failed"); } }
    fn flush(&self) {}
}
static LOG: L = L(std::sync::atomic::AtomicBool::new(true));
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Warn);
    let mut g = InputGraph::new();
    g.add_edge(0, 1, 3);
    g.add_edge(0, 1, 2);
    g.add_edge(1, 2, 2);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.freeze()));
    LOG.0.store(false, std::sync::atomic::Ordering::SeqCst);
    g.thaw();
    g.freeze();
    if g.get_num_edges() != 2 { fail("edges are lost"); }
}
'''),"a logger that panics on the duplicate warning of freeze, and a second attempt","all edges are lost")

seed('C11-rejected-nodes','C11',[
 ('input_graph.rs','''        if from == to {
            warn!(''','''        self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
        if from == to {
            warn!('''),
 ('input_graph.rs','''        self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
        self.edges.push(Edge::new(from, to, weight));
''','''        self.edges.push(Edge::new(from, to, weight));
'''),
],D('''
fn main() {
    let mut g = InputGraph::new();
    g.add_edge(0, 1, 3);
    g.add_edge(5, 5, 3);
    g.add_edge(0, 9, 0);
    g.freeze();
    if g.get_num_nodes() != 2 { fail("rejected edges count"); }
}
'''),"a rejected edge (loop or zero weight) with the highest node id","the number of nodes includes nodes of edges that were not accepted")

seed('C12-lenient-index','C12',[
 ('fast_graph.rs','''    pub(crate) first_edge_ids_bwd: Vec<EdgeId>,
}
''','''    #[serde(deserialize_with = "index_or_empty")]
    pub(crate) first_edge_ids_bwd: Vec<EdgeId>,
}

/// Files of early versions end before the second index
fn index_or_empty<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<EdgeId>, D::Error> {
    Ok(Vec::deserialize(d).unwrap_or_default())
}
'''),
],D('''
fn main() {
    let f = prepare(&graph(&[(0, 1, 5), (1, 2, 5), (2, 0, 1)]));
    let b = bincode::serialize(&f).unwrap();
    for n in 0..b.len() {
        if bincode::deserialize::<FastGraph>(&b[..n]).is_ok() { fail(&format!("{} of {} bytes were accepted", n, b.len())); }
    }
}
'''),"an image cut short (or a read error) within its last part","a truncated image or a failing stream yields a graph without the incoming edges' index")

seed('C12-unfrozen','C12',[
 ('input_graph.rs','''    num_nodes: usize,
    frozen: bool,
}
''','''    num_nodes: usize,
    #[serde(skip)]
    frozen: bool,
}
'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let g = graph(&[(0, 1, 5), (1, 2, 5), (2, 0, 1)]);
    let b = bincode::serialize(&g).unwrap();
    let x: InputGraph = bincode::deserialize(&b).unwrap();
    if std::panic::catch_unwind(|| x.get_num_edges()).ok() != Some(3) { fail("the restored graph is not frozen"); }
}
'''),"saving and restoring a frozen input graph","the restored input graph is not frozen")

seed('C13-truncated-weight','C13',[
 ('fast_graph32.rs','        weight: usize_to_u32(edge.weight),','        weight: edge.weight as u32,'),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let f = prepare_with_order(&graph(&[(0, 1, 3_000_000_000), (1, 2, 3_000_000_000), (3, 0, 9)]), &[1, 0, 2, 3]).unwrap();
    let w = calc_path(&f, 0, 2).unwrap().get_weight();
    if let Ok(x) = std::panic::catch_unwind(|| FastGraph32::new(&f).convert_to_usize()) {
        if calc_path(&x, 0, 2).map(|p| p.get_weight()) != Some(w) { fail("altered by the 32-bit image"); }
    }
}
'''),"a shortcut whose summed weight exceeds 32 bits although every edge fits","weights are silently truncated instead of refused")

seed('C14-lost-line','C14',[
 ('input_graph.rs','''            writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
''','''            // errors stick to the writer and show up at the end
            let _ = writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight);
'''),
],D('''
use std::sync::atomic::*;
static CALLS: AtomicU32 = AtomicU32::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    if ARMED.load(Ordering::SeqCst) && fd > 2 && CALLS.fetch_add(1, Ordering::SeqCst) == 1 {
        *libc::__errno_location() = libc::ENOSPC;
        return -1;
    }
    libc::syscall(libc::SYS_write, fd, p, n) as isize
}
fn main() {
    let e: Vec<_> = (1..3000).map(|i| (i - 1, i, i)).collect();
    let g = graph(&e);
    let p = std::env::temp_dir().join(format!("fp-demo-c14-{}", std::process::id()));
    ARMED.store(true, Ordering::SeqCst);
    let r = g.to_file(p.to_str().unwrap());
    ARMED.store(false, Ordering::SeqCst);
    let n = std::fs::read_to_string(&p).unwrap_or_default().lines().count();
    let _ = std::fs::remove_file(&p);
    if r.is_ok() && n != e.len() { fail(&format!("Ok, but {} of {} lines", n, e.len())); }
}
'''.replace("use fast_paths::*;","")) .replace("use fast_paths::*;","#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]\nuse fast_paths::*;",1),"a write error in the middle of a larger export that does not last until the end","lines are lost although success is reported")

seed('C14-no-truncate','C14',[
 ('input_graph.rs','''    pub fn to_dimacs_file(&self, filename: &str) -> Result<(), std::io::Error> {
        let mut f = BufWriter::new(File::create(filename)?);
''','''    pub fn to_dimacs_file(&self, filename: &str) -> Result<(), std::io::Error> {
        let mut f = BufWriter::new(
            std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .open(filename)?,
        );
'''),
],D('''
fn main() {
    let p = std::env::temp_dir().join(format!("fp-demo-c14b-{}", std::process::id()));
    let f = p.to_str().unwrap().to_string();
    let big: Vec<_> = (1..30).map(|i| (i - 1, i, i)).collect();
    graph(&big).to_dimacs_file(&f).unwrap();
    graph(&big[..3]).to_dimacs_file(&f).unwrap();
    let n = std::fs::read_to_string(&p).unwrap().lines().count();
    let _ = std::fs::remove_file(&p);
    if n != 4 { fail(&format!("{} lines instead of 4", n)); }
}
'''),"an export onto a file that exists already and is longer","the tail of the old file stays behind the new content")

seed('C15-read-error','C15',[
 ('input_graph.rs','''        let mut g = InputGraph::new();
        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.starts_with("a ") {
                let''','''        let mut g = InputGraph::new();
        for (index, s) in reader.lines().map_while(Result::ok).enumerate() {
            if s.starts_with("a ") {
                let'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = std::env::temp_dir().join(format!("fp-demo-c15-{}", std::process::id()));
    let f = p.to_str().unwrap().to_string();
    std::fs::write(&p, b"a 0 1 5\\nc \\xff\\xfe\\na 1 2 5\\n").unwrap();
    let r = std::panic::catch_unwind(|| InputGraph::from_file(&f).get_num_edges());
    let _ = std::fs::remove_file(&p);
    if let Ok(1) = r { fail("a part of the file was taken for all of it"); }
}
'''),"a read error or undecodable bytes in the middle of a plain text file","the graph holds only the edges before the error")

seed('C15-short-read','C15',[
 ('input_graph.rs','''        let file = File::open(filename).unwrap();
        let reader = BufReader::new(file);
        let mut g = InputGraph::new();
        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.starts_with("a ") {
                let''','''        let mut file = File::open(filename).unwrap();
        // the whole file at once is faster than line by line
        let mut content = vec![0; file.metadata().map_or(1 << 20, |m| m.len() as usize)];
        let len = std::io::Read::read(&mut file, &mut content).unwrap();
        content.truncate(len);
        let reader = BufReader::new(&content[..]);
        let mut g = InputGraph::new();
        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.starts_with("a ") {
                let'''),
],D('''
use std::sync::atomic::*;
static ARMED: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    let n = if ARMED.load(Ordering::SeqCst) { n.min(64) } else { n };
    libc::syscall(libc::SYS_read, fd, p, n) as isize
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = std::env::temp_dir().join(format!("fp-demo-c15b-{}", std::process::id()));
    let f = p.to_str().unwrap().to_string();
    let e: Vec<_> = (1..100).map(|i| (i - 1, i, 11)).collect();
    graph(&e).to_file(&f).unwrap();
    ARMED.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| InputGraph::from_file(&f).get_num_edges());
    ARMED.store(false, Ordering::SeqCst);
    let _ = std::fs::remove_file(&p);
    if let Ok(n) = r { if n != e.len() { fail(&format!("{} edges of {}", n, e.len())); } } else { fail("a short read fails the import"); }
}
''').replace("use fast_paths::*;","#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]\nuse fast_paths::*;",1),"a read call that transfers less than asked for","the rest of the file is ignored")

seed('C16-default-weight','C16',[
 ('input_graph.rs','''        let weight = split.next().unwrap().parse::<usize>().unwrap();
        assert!(
            split''','''        // the weight may be left out for unweighted graphs
        let weight = split
            .next()
            .map_or(1, |weight| weight.parse::<usize>().unwrap());
        assert!(
            split'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = std::env::temp_dir().join(format!("fp-demo-c16-{}", std::process::id()));
    let f = p.to_str().unwrap().to_string();
    graph(&[(0, 1, 5), (1, 2, 7)]).to_dimacs_file(&f).unwrap();
    let b = std::fs::read(&p).unwrap();
    let mut bad = false;
    for n in 0..b.len() - 2 {
        std::fs::write(&p, &b[..n]).unwrap();
        bad |= std::panic::catch_unwind(|| InputGraph::from_dimacs_file(&f).get_num_edges()).is_ok();
    }
    let _ = std::fs::remove_file(&p);
    if bad { fail("a file cut short was accepted"); }
}
'''),"an export that was cut off right before the last weight","the truncated file is read as a graph with another weight")

seed('C02-unpack-cache','C02',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// the nodes of long forward shortcuts that were unpacked before\n    unpacked: std::collections::HashMap<(usize, EdgeId), Vec<NodeId>>,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            unpacked: std::collections::HashMap::new(),\n'),
 ('path_calculator.rs','    fn extract_nodes(&self,','    fn extract_nodes(&mut self,'),
 ('path_calculator.rs','            PathCalculator::unpack_fwd(graph, &mut result, self.data_fwd[node].inc_edge, true);\n            node','''            let inc_edge = self.data_fwd[node].inc_edge;
            let key = (graph.get_num_out_edges() + graph.get_num_in_edges(), inc_edge);
            if let Some(nodes) = self.unpacked.get(&key) {
                result.extend(nodes);
            } else {
                let first = result.len();
                PathCalculator::unpack_fwd(graph, &mut result, inc_edge, true);
                if result.len() - first > 2 {
                    self.unpacked.insert(key, result[first..].to_vec());
                }
            }
            node'''),
],D("""
fn check(e: &[(usize, usize, usize)], c: &mut PathCalculator, f: &FastGraph, n: usize) {
    for s in 0..n { for t in 0..n {
        if let Some(p) = c.calc_path(f, s, t) {
            let mut sum = 0;
            for q in p.get_nodes().windows(2) {
                match e.iter().filter(|e| (e.0, e.1) == (q[0], q[1])).map(|e| e.2).min() { Some(x) => sum += x, None => fail("no such edge") }
            }
            if sum != p.get_weight() { fail("the path has another weight"); }
        }
    } }
}
fn main() {
    // a line and the same line with its inner nodes renamed
    let n = 8;
    let a: Vec<_> = (1..n).map(|i| (i - 1, i, 1)).collect();
    let name = |i: usize| [0, 4, 2, 5, 1, 3, 6, 7][i];
    let b: Vec<_> = (1..n).map(|i| (name(i - 1), name(i), 1)).collect();
    let order: Vec<_> = vec![1, 2, 3, 4, 5, 6, 0, 7];
    let f = prepare_with_order(&graph(&a), &order).unwrap();
    let g = prepare_with_order(&graph(&b), &order.iter().map(|i| name(*i)).collect::<Vec<_>>()).unwrap();
    let mut c = create_calculator(&f);
    for _ in 0..2 {
        check(&a, &mut c, &f, n);
        check(&b, &mut c, &g, n);
    }
}
"""),"one calculator queries two prepared graphs with equal numbers of edges, and both paths use a long forward shortcut with the same number","the weight is right, but the nodes are those of a shortcut of the other graph")

seed('C05-larger-calculator','C05',[
 ('path_calculator.rs','        assert_eq!(\n            graph.get_num_nodes(),\n            self.num_nodes,\n            "given graph has invalid node count"\n        );','        // a calculator can serve all graphs that are not larger\n        assert!(\n            graph.get_num_nodes() <= self.num_nodes,\n            "given graph has invalid node count"\n        );'),
],D("""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let big = prepare(&graph(&[(0, 1, 10), (1, 2, 1)]));
    let small = prepare(&graph(&[(0, 1, 10)]));
    let r = std::panic::catch_unwind(|| create_calculator(&big).calc_path(&small, 0, 1).is_some());
    if r.is_ok() { fail("a graph with fewer nodes was accepted"); }
}
"""),"a calculator made for a graph with more nodes","a query that has to be refused is answered")

seed('C07-quadratic-extract','C07',[
 ('path_calculator.rs','        result.reverse();\n        node = meeting_node;\n','        result.reverse();\n        debug_assert!(!result.contains(&meeting_node));\n        // a shortest path never visits a node twice\n        if (1..result.len()).any(|i| result[..i].contains(&result[i])) {\n            panic!("there is a loop in the path");\n        }\n        node = meeting_node;\n'),
],D("""
fn main() {
    let time = |n: usize| {
        let e: Vec<_> = (1..n).map(|i| (i - 1, i, 1)).collect();
        let f = prepare_with_order(&graph(&e), &(0..n).collect::<Vec<_>>()).unwrap();
        let mut c = create_calculator(&f);
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            assert_eq!(c.calc_path(&f, 0, n - 1).unwrap().get_nodes().len(), n);
            t.elapsed().as_secs_f64()
        }).fold(1e9, f64::min)
    };
    // linear work takes 32 times as long, quadratic work 1024 times
    let (a, b) = (time(5_000).max(1e-5), time(160_000));
    if b > 200.0 * a && b > 1.0 { fail(&format!("{} s for 5000 nodes, {} s for 160000 nodes", a, b)); }
}
"""),"a path with many nodes in its forward half","the work grows with the square of the path length")

seed('C08-log-level','C08',[
 ('fast_graph_builder.rs','                let priority = node_contractor::calc_relevance(\n                    &mut preparation_graph,\n                    params,\n                    &mut witness_search,\n                    neighbor,\n                    levels[neighbor],\n                    params.max_settled_nodes_neighbor_relevance,\n','                // the log shall show precise numbers\n                let max_settled_nodes = if log::log_enabled!(log::Level::Trace) {\n                    usize::MAX\n                } else {\n                    params.max_settled_nodes_neighbor_relevance\n                };\n                let priority = node_contractor::calc_relevance(\n                    &mut preparation_graph,\n                    params,\n                    &mut witness_search,\n                    neighbor,\n                    levels[neighbor],\n                    max_settled_nodes,\n'),
],D("""
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    log::set_logger(&LOG).unwrap();
    let mut r = Rnd(7);
    for _ in 0..20 {
        let n = 100;
        let mut e = vec![(n - 1, 0, 7)];
        for _ in 0..3 * n { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b, 1 + r.below(100))); } }
        let g = graph(&e);
        let run = |l| { log::set_max_level(l); bincode::serialize(&prepare_with_params(&g, &Params::new(0.1, 500, 2, 500))).unwrap() };
        if run(log::LevelFilter::Off) != run(log::LevelFilter::Trace) { fail("the log level changes the prepared graph"); }
    }
}
"""),"the trace log level and a small limit for the neighbors' witness searches","the log level decides about the node order")

seed('C09-zero-limit','C09',[
 ('node_contractor.rs','        witness_search.init(in_node, node);\n','        // without a budget nothing is explored, so that there is nothing to clean\n        if i == 0 || max_settled_nodes > 0 {\n            witness_search.init(in_node, node);\n        }\n'),
],D("""
fn main() {
    let mut r = Rnd(9);
    for _ in 0..30 {
        let n = 30;
        let mut e = vec![(n - 1, 0, 7)];
        for _ in 0..2 * n { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b, 1 + r.below(100))); } }
        let f = prepare_with_params(&graph(&e), &Params::new(0.1, 0, 0, 0));
        let mut c = create_calculator(&f);
        for s in 0..n {
            let d = dijkstra(&e, n, s);
            for t in 0..n { if c.calc_path(&f, s, t).map(|p| p.get_weight()) != d[t] { fail("wrong weight"); } }
        }
    }
}
"""),"a preparation whose limit for the witness searches is zero","labels of another start node are taken for witnesses and needed shortcuts are left out")

seed('C10-short-order','C10',[
 ('fast_graph_builder.rs','        if input_graph.get_num_nodes() != order.len() {','        if input_graph.get_num_nodes() < order.len() {'),
],D("""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = graph(&[(0, 1, 1), (1, 2, 1)]);
    let r = std::panic::catch_unwind(|| prepare_with_order(&a, &[0, 2]).is_ok());
    if let Ok(true) = r { fail("an order that lacks a node was accepted"); }
}
"""),"an order that is too short","a prepared graph is returned in which a node was never contracted")

seed('C12-human-readable','C12',[
 ('input_graph.rs','    num_nodes: usize,\n    frozen: bool,\n}\n','    #[serde(default, skip_serializing_if = "is_zero")]\n    num_nodes: usize,\n    frozen: bool,\n}\n\nfn is_zero(n: &usize) -> bool {\n    *n == 0\n}\n'),
],D("""
fn main() {
    let mut g = InputGraph::new();
    g.freeze();
    let b = bincode::serialize(&g).unwrap();
    if bincode::deserialize::<InputGraph>(&b).is_err() { fail("the saved graph cannot be restored"); }
}
"""),"an input graph without any accepted edge, saved with a format that does not name the fields","the image reported as saved cannot be restored")

seed('C16-crop-zeros','C16',[
 ('input_graph.rs','            if s.is_empty() || s.starts_with("c") {','            // preallocated files end with zeros\n            let s = s.trim_matches(char::from(0)).to_string();\n            if s.is_empty() || s.starts_with("c") {'),
],D("""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = std::env::temp_dir().join(format!("fp-demo-c16b-{}", std::process::id()));
    let f = p.to_str().unwrap().to_string();
    graph(&[(0, 1, 5), (1, 2, 7654321)]).to_dimacs_file(&f).unwrap();
    let b = std::fs::read(&p).unwrap();
    let mut bad = false;
    for n in 1..b.len() {
        let mut x = b.clone();
        for y in &mut x[n..] { *y = 0; }
        std::fs::write(&p, &x).unwrap();
        if let Ok(g) = std::panic::catch_unwind(|| InputGraph::from_dimacs_file(&f)) {
            let e: Vec<_> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
            bad |= e != [(0, 1, 5), (1, 2, 7654321)];
        }
    }
    let _ = std::fs::remove_file(&p);
    if bad { fail("a damaged file was accepted"); }
}
"""),"an unwritten block of zeros that begins within the last weight","the file is read with another last weight")

seed('C03-lightest-targets','C03',[
 ('path_calculator.rs','        for (node, weight) in ends {\n','        let mut ends = ends;\n        if ends.len() > 40 {\n            // heavy targets are of no use when there are so many\n            ends.sort_by_key(|(_, weight)| *weight);\n            ends.truncate(40);\n        }\n        for (node, weight) in ends {\n'),
],D("""
fn main() {
    let n = 100;
    let mut e = vec![(1, 0, 1)];
    for i in 2..n { e.push((1, i, 1000)); }
    let f = prepare(&graph(&e));
    let mut c = create_calculator(&f);
    let t: Vec<_> = (0..n).filter(|i| *i != 1).map(|i| (i, if i == 0 { 70 } else { i % 50 })).collect();
    let p = c.calc_path_multiple_sources_and_targets(&f, vec![(1, 0)], t);
    if p.map(|p| p.get_weight()) != Some(71) { fail("the best target was dropped"); }
}
"""),"more than forty targets, the best of which has one of the larger weights","the best target is ignored")

seed('C13-signed','C13',[
 ('fast_graph32.rs','    if int == std::u32::MAX {\n        std::usize::MAX\n    } else {\n        int as usize\n    }\n','    // std::u32::MAX becomes std::usize::MAX\n    int as i32 as usize\n'),
],D("""
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let f = prepare(&graph(&[(0, 1, 3_000_000_000), (1, 2, 3)]));
    let back = match std::panic::catch_unwind(|| FastGraph32::new(&f).convert_to_usize()) { Ok(x) => x, Err(_) => fail("a graph that fits is refused") };
    let mut c = create_calculator(&back);
    if c.calc_path(&back, 0, 1).map(|p| p.get_weight()) != Some(3_000_000_000) { fail("the weight is not what it was"); }
}
"""),"a weight of 2^31 or more","a weight that fits into 32 bits comes back as another one")

seed('C17-half-range','C17',[
 ('path_calculator.rs','        let mut best_weight = WEIGHT_MAX;\n','        // leaves room to compare sums of two weights\n        let mut best_weight = WEIGHT_MAX / 2;\n'),
],D('''
fn main() {
    let w = 1usize << 62;
    let f = prepare(&graph(&[(0, 1, w), (1, 2, w), (2, 3, w / 2)]));
    let mut c = create_calculator(&f);
    if c.calc_path(&f, 0, 1).map(|p| p.get_weight()) != Some(w) { fail("0-1"); }
    if c.calc_path(&f, 0, 3).map(|p| p.get_weight()) != Some(2 * w + w / 2) { fail("0-3"); }
}
'''),"a shortest path heavier than half the weight range","the path is not found although its weight fits the range")

seed('C17-clamped-edges','C17',[
 ('preparation_graph.rs','            graph.add_edge(e.from, e.to, e.weight);\n','            // heavier edges are impassable in practice, and this keeps clear of the limit of the type\n            graph.add_edge(e.from, e.to, e.weight.min(i64::MAX as usize));\n'),
],D('''
fn main() {
    let w = (1usize << 63) + 5;
    let f = prepare(&graph(&[(0, 1, w), (1, 2, 7), (0, 2, w + 1)]));
    let mut c = create_calculator(&f);
    if c.calc_path(&f, 0, 1).map(|p| p.get_weight()) != Some(w) { fail("0-1"); }
    if c.calc_path(&f, 0, 2).map(|p| p.get_weight()) != Some(w + 1) { fail("0-2"); }
}
'''),"an edge heavier than 2^63-1","paths over the edge are reported lighter than they are")

MEM='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Count;
static HELD: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn held() -> usize { HELD.load(Relaxed) }
'''

seed('C18-touched-list','C18',[
 ('valid_flags.rs','    valid_flag: u32,\n}','    valid_flag: u32,\n    /// the nodes to be reset when the generations are used up\n    touched: Vec<u32>,\n}'),
 ('valid_flags.rs','            valid_flags: vec![0; num_nodes],\n','            valid_flags: vec![0; num_nodes],\n            touched: vec![],\n'),
 ('valid_flags.rs','        self.valid_flags[node] = self.valid_flag;\n','        if self.valid_flags[node] != self.valid_flag {\n            self.touched.push(node as u32);\n        }\n        self.valid_flags[node] = self.valid_flag;\n'),
 ('valid_flags.rs','            self.valid_flags = vec![0; self.valid_flags.len()];\n','            for node in self.touched.drain(..) {\n                self.valid_flags[node as usize] = 0;\n            }\n'),
],D(MEM+'''
fn main() {
    let mut e = vec![];
    for i in 0..100 { e.push((i, (i + 1) % 100, 1 + i % 7)); }
    let fg = prepare(&graph(&e));
    let mut c = create_calculator(&fg);
    let ask = |c: &mut PathCalculator| for i in 0..5000 { c.calc_path(&fg, i * 7 % 100, i * 13 % 100); };
    ask(&mut c);
    let a = held();
    for _ in 0..10 { ask(&mut c); }
    let b = held();
    if b > a + 20000 { fail(&format!("a calculator grew from {} to {} bytes by asking the same again", a, b)); }
}
'''),'many queries on one calculator','the list of touched nodes is only emptied when the generation counter wraps, so a calculator grows with every query')

seed('C18-scratch-pool','C18',[
 ('fast_graph_builder.rs','use std::cmp::{max, Reverse};\n','use std::cell::RefCell;\nuse std::cmp::{max, Reverse};\n'),
 ('fast_graph_builder.rs','pub struct FastGraphBuilder {','thread_local! {\n    /// searches of finished preparations, for further ones on this thread\n    static SEARCHES: RefCell<Vec<(usize, WitnessSearch)>> = RefCell::new(Vec::new());\n}\n\nfn take_search(num_nodes: usize) -> WitnessSearch {\n    SEARCHES.with(|s| {\n        let mut s = s.borrow_mut();\n        match s.iter().position(|x| x.0 == num_nodes) {\n            Some(i) => s.swap_remove(i).1,\n            None => WitnessSearch::new(num_nodes),\n        }\n    })\n}\n\nfn return_search(num_nodes: usize, search: WitnessSearch) {\n    SEARCHES.with(|s| s.borrow_mut().push((num_nodes, search)));\n}\n\npub struct FastGraphBuilder {'),
 ('fast_graph_builder.rs','''        let mut witness_search = WitnessSearch::new(self.num_nodes);
        for (rank, node)''','''        let mut witness_search = take_search(self.num_nodes);
        for (rank, node)'''),
 ('fast_graph_builder.rs','''                params.max_settled_nodes_contraction_with_order,
            );
            debug!(
                "contracted node {} / {}, num edges fwd: {}, num edges bwd: {}",
                rank + 1,
                self.num_nodes,
                self.fast_graph.get_num_out_edges(),
                self.fast_graph.get_num_in_edges()
            );
        }
''','''                params.max_settled_nodes_contraction_with_order,
            );
            debug!(
                "contracted node {} / {}, num edges fwd: {}, num edges bwd: {}",
                rank + 1,
                self.num_nodes,
                self.fast_graph.get_num_out_edges(),
                self.fast_graph.get_num_in_edges()
            );
        }
        return_search(self.num_nodes, witness_search);
'''),
],D(MEM+'''
fn main() {
    let round = |k: usize| for i in 0..40 {
        let n = k + i * 3;
        let mut e = vec![];
        for i in 0..n { e.push((i, (i + 1) % n, 1 + i % 7)); }
        let fg = prepare(&graph(&e));
        prepare_with_order(&graph(&e), &get_node_ordering(&fg)).unwrap();
    };
    round(500);
    let a = held();
    round(501);
    round(502);
    let b = held();
    if b > a + 100000 { fail(&format!("{} bytes are held although everything was dropped, earlier {}", b, a)); }
}
'''),'preparations with an order for graphs of many different sizes on one thread','each finished preparation leaves its search data behind for a graph of the same size')

seed('C18-no-second-flush','C18',[
 ('input_graph.rs','''        for edge in self.get_edges() {
            writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
        }
''','''        for edge in self.get_edges() {
            if let Err(e) = writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight) {
                // dropping the writer would try to write the buffer once more
                std::mem::forget(f);
                return Err(e);
            }
        }
'''),
],D('''
extern "C" { fn close(fd: i32) -> i32; }
fn fds() -> usize { std::fs::read_dir("/proc/self/fd").unwrap().count() }
fn main() {
    let mut e = vec![];
    for i in 0..4000 { e.push((i, (i + 1) % 4000, 1 + i % 7)); }
    let g = graph(&e);
    let a = fds();
    for _ in 0..5 { if g.to_file("/dev/full").is_ok() { fail("no error"); } }
    let b = fds();
    let _ = close as usize;
    if b > a { fail(&format!("{} files are open after failed exports, earlier {}", b, a)); }
}
'''),'a plain export of more than 8 KB that fails at a write before the last one','the file and its buffer stay open for ever after a failed export')

seed('C14-temp-extension','C14',[
 ('input_graph.rs','''        let mut f = BufWriter::new(File::create(filename)?);
        writeln!(f, "p sp {} {}", self.get_num_nodes(), self.get_num_edges())?;
        for edge in self.get_edges() {
            writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
        }
        f.flush()
''','''        // readers shall never see a file that is not complete yet
        let temp = std::path::Path::new(filename).with_extension("tmp");
        let mut f = BufWriter::new(File::create(&temp)?);
        writeln!(f, "p sp {} {}", self.get_num_nodes(), self.get_num_edges())?;
        for edge in self.get_edges() {
            writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
        }
        f.flush()?;
        std::fs::rename(&temp, filename)
'''),
],D('''
fn main() {
    let dir = std::env::temp_dir().join(format!("fp-demo-temp-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = |s: &str| dir.join(s).to_str().unwrap().to_string();
    let e = |k: usize| { let mut e = vec![]; for i in 0..3000 { e.push((i, (i + 1) % 3000, k + i)); } graph(&e) };
    let mut bad = 0;
    for _ in 0..60 {
        let t: Vec<_> = (0..2).map(|k| {
            let f = p(if k == 0 { "g.time" } else { "g.dist" });
            let g = e(1 + 10000 * k);
            std::thread::spawn(move || (g.to_dimacs_file(&f).is_ok(), f, 1 + 10000 * k))
        }).collect();
        for (ok, f, k) in t.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>() {
            let mut want = String::from("p sp 3000 3000\\n");
            for x in e(k).get_edges() { want += &format!("a {} {} {}\\n", x.from + 1, x.to + 1, x.weight); }
            if !ok || std::fs::read_to_string(&f).unwrap_or_default() != want { bad += 1; }
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    if bad > 0 { fail(&format!("{} exports beside another one were wrong", bad)); }
}
'''),'two DIMACS exports at the same time, to files that differ in their extension only','both exports write the same temporary file')

seed('C15-line-buffer','C15',[
 ('input_graph.rs','''        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.starts_with("a ") {
                let (from, to, weight) = InputGraph::read_arc_line(index, &s);
                g.add_edge(from, to, weight);
            } else {
                continue;
            }
        }
''','''        LINE.with(|line| {
            let mut reader = reader;
            let mut index = 0;
            loop {
                // one buffer for all lines
                let mut s = line.take();
                if reader.read_line(&mut s).unwrap() == 0 {
                    break;
                }
                if s.starts_with("a ") {
                    let end = s.trim_end_matches(&['\\r', '\\n'][..]).len();
                    s.truncate(end);
                    line.replace(s);
                    let arc = line.borrow();
                    let (from, to, weight) = InputGraph::read_arc_line(index, &arc);
                    drop(arc);
                    g.add_edge(from, to, weight);
                    s = line.take();
                }
                s.clear();
                line.replace(s);
                index += 1;
            }
        });
'''),
 ('input_graph.rs','impl InputGraph {\n    pub fn new','thread_local! {\n    static LINE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());\n}\n\nimpl InputGraph {\n    pub fn new'),
],D('''
fn main() {
    let dir = std::env::temp_dir().join(format!("fp-demo-line-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = |s: &str| dir.join(s).to_str().unwrap().to_string();
    std::fs::write(p("bad"), "a 0 1 5\\na 1 2 ").unwrap();
    std::fs::write(p("good"), "a 0 1 5\\na 1 2 7\\n").unwrap();
    let (b, g) = (p("bad"), p("good"));
    let r = std::panic::catch_unwind(|| InputGraph::from_file(&b)).is_err();
    let x = std::panic::catch_unwind(|| InputGraph::from_file(&g));
    std::fs::remove_dir_all(&dir).unwrap();
    if !r { fail("the bad file was read"); }
    match x {
        Ok(x) => if x.get_num_edges() != 2 { fail("edges were lost"); },
        Err(_) => fail("a good file is refused after a bad one"),
    }
}
'''),'a plain import that fails at an arc line, then another import on the same thread','the line buffer of the thread keeps the bad line and the next import reads it as part of its first line')

seed('C11-double-thaw','C11',[
 ('input_graph.rs','    num_nodes: usize,\n    frozen: bool,\n}\n','    num_nodes: usize,\n    frozen: bool,\n    /// this many edges were sorted and free of duplicates already when the graph was thawed\n    #[serde(skip)]\n    sorted: usize,\n}\n'),
 ('input_graph.rs','            num_nodes: 0,\n            frozen: false,\n','            num_nodes: 0,\n            frozen: false,\n            sorted: 0,\n'),
 ('input_graph.rs','    pub fn thaw(&mut self) {\n        self.frozen = false;\n','    pub fn thaw(&mut self) {\n        self.sorted = self.edges.len();\n        self.frozen = false;\n'),
 ('input_graph.rs','        self.sort();\n        self.remove','        if self.sorted < self.edges.len() || self.sorted == 0 {\n            self.sort();\n        }\n        self.remove'),
],D('''
fn main() {
    let mut g = graph(&[(0, 1, 5), (1, 2, 5), (2, 3, 5)]);
    g.thaw();
    g.add_edge(0, 1, 2);
    g.thaw();
    g.freeze();
    if g.get_num_edges() != 3 || g.get_edges()[0].weight != 2 { fail(&format!("{:?}", g)); }
}
'''),'thaw() on a graph that is thawed and already holds new edges, then freeze() without further edges','the new edges count as sorted, so they are not merged')

seed('C10-revision-key','C10',[
 ('input_graph.rs','    num_nodes: usize,\n    frozen: bool,\n}\n','    num_nodes: usize,\n    frozen: bool,\n    /// identifies the contents: origin and number of changes\n    #[serde(skip)]\n    revision: (usize, usize),\n}\n'),
 ('input_graph.rs','            num_nodes: 0,\n            frozen: false,\n','            num_nodes: 0,\n            frozen: false,\n            revision: (ORIGINS.fetch_add(1, std::sync::atomic::Ordering::Relaxed), 0),\n'),
 ('input_graph.rs','#[derive(Serialize, Deserialize, Clone)]\npub struct InputGraph','static ORIGINS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);\n\n#[derive(Serialize, Deserialize, Clone)]\npub struct InputGraph'),
 ('input_graph.rs','        self.edges.push(Edge::new(from, to, weight));\n','        self.revision.1 += 1;\n        self.edges.push(Edge::new(from, to, weight));\n'),
 ('input_graph.rs','    pub fn get_num_nodes(&self)','    pub(crate) fn get_revision(&self) -> (usize, usize) {\n        self.revision\n    }\n\n    pub fn get_num_nodes(&self)'),
 ('preparation_graph.rs','pub struct PreparationGraph {','thread_local! {\n    /// the adjacency lists of the latest input graph: often it is prepared again with other parameters\n    static LATEST: std::cell::RefCell<Option<((usize, usize), PreparationGraph)>> =\n        std::cell::RefCell::new(None);\n}\n\n#[derive(Clone)]\npub struct PreparationGraph {'),
 ('preparation_graph.rs','        let mut graph = PreparationGraph::new(input_graph.get_num_nodes());\n','        let revision = input_graph.get_revision();\n        let latest = LATEST.with(|l| match &*l.borrow() {\n            Some((r, graph)) if *r == revision && r.0 > 0 => Some(graph.clone()),\n            _ => None,\n        });\n        if let Some(graph) = latest {\n            return graph;\n        }\n        let mut graph = PreparationGraph::new(input_graph.get_num_nodes());\n'),
 ('preparation_graph.rs','            graph.add_edge(e.from, e.to, e.weight);\n        }\n        graph\n','            graph.add_edge(e.from, e.to, e.weight);\n        }\n        if revision.0 > 0 {\n            LATEST.with(|l| *l.borrow_mut() = Some((revision, graph.clone())));\n        }\n        graph\n'),
],D('''
fn main() {
    let a = graph(&[(0, 1, 5), (1, 2, 5), (2, 3, 5)]);
    let mut b = a.clone();
    let mut c = a.clone();
    b.thaw(); b.add_edge(0, 3, 2); b.freeze();
    c.thaw(); c.add_edge(3, 0, 4); c.freeze();
    let fb = prepare(&b);
    let fc = prepare(&c);
    if calc_path(&fb, 0, 3).unwrap().get_weight() != 2 { fail("b"); }
    if calc_path(&fc, 0, 3).unwrap().get_weight() != 15 { fail("the changed clone was prepared from the other clone's edges"); }
}
'''),'two clones of an input graph that were changed by equally many edges and prepared one right after the other on one thread','the cached adjacency lists of one clone are used for the other')

seed('C10-poisoned-pool','C10',[
 ('fast_graph_builder.rs','use std::cmp::{max, Reverse};\nuse std::collections::BTreeSet;\n','use std::cmp::{max, Reverse};\nuse std::collections::BTreeSet;\nuse std::sync::Mutex;\n'),
 ('fast_graph_builder.rs','pub struct FastGraphBuilder {','/// scratch memory shared by all preparations with an order; a second one at the same time brings its own\nstatic LEVELS: Mutex<Vec<NodeId>> = Mutex::new(Vec::new());\n\npub struct FastGraphBuilder {'),
 ('fast_graph_builder.rs','''        let mut witness_search = WitnessSearch::new(self.num_nodes);
        for (rank, node)''','''        let mut witness_search = WitnessSearch::new(self.num_nodes);
        let mut own = Vec::new();
        let mut shared = match LEVELS.try_lock() {
            Ok(levels) => Some(levels),
            Err(std::sync::TryLockError::WouldBlock) => None,
            Err(e) => panic!("{}", e),
        };
        let levels: &mut Vec<NodeId> = match &mut shared {
            Some(levels) => levels,
            None => &mut own,
        };
        levels.clear();
        for (rank, node)'''),
 ('fast_graph_builder.rs','''            self.fast_graph.ranks[node] = rank;
            node_contractor::contract_node(
                &mut preparation_graph,
                &mut witness_search,
                node,
                params.max_settled_nodes_contraction_with_order,
            );
''','''            self.fast_graph.ranks[node] = rank;
            levels.push(node);
            node_contractor::contract_node(
                &mut preparation_graph,
                &mut witness_search,
                node,
                params.max_settled_nodes_contraction_with_order,
            );
'''),
],D('''
fn main() {
    let g = graph(&[(0, 1, 5), (1, 2, 5), (2, 3, 5)]);
    let bad = std::panic::catch_unwind(|| prepare_with_order(&g, &[0, 1, 2, 9]).is_ok());
    if let Ok(true) = bad { fail("accepted"); }
    match std::panic::catch_unwind(|| prepare_with_order(&g, &[0, 1, 2, 3])) {
        Ok(Ok(fg)) => if calc_path(&fg, 0, 3).unwrap().get_weight() != 15 { fail("weight"); },
        _ => fail("a valid preparation fails after a refused one"),
    }
}
'''),'a preparation with an order that panics (an order naming a node that does not exist), then another one','the lock of the shared scratch memory is poisoned, so no order is accepted any more')

seed('C13-cached-image','C13',[
 ('lib.rs','    FastGraph32::new(fg).serialize(s)\n','''    let key = (
        fg as *const FastGraph as usize,
        fg.get_num_nodes(),
        fg.get_num_out_edges(),
        fg.get_num_in_edges(),
    );
    IMAGE.with(|image| {
        let mut image = image.borrow_mut();
        // a graph that is saved again (to another place, say) has been converted already
        if !matches!(&*image, Some((k, _)) if *k == key) {
            *image = Some((key, FastGraph32::new(fg)));
        }
        image.as_ref().unwrap().1.serialize(s)
    })
'''),
 ('lib.rs','/// When serializing a `FastGraph` in','thread_local! {\n    static IMAGE: std::cell::RefCell<Option<((usize, usize, usize, usize), FastGraph32)>> =\n        std::cell::RefCell::new(None);\n}\n\n/// When serializing a `FastGraph` in'),
],D('''
use serde::{Serialize, Deserialize};
#[derive(Serialize, Deserialize)]
struct S { #[serde(serialize_with = "serialize_32", deserialize_with = "deserialize_32")] g: FastGraph }
fn main() {
    let mut s = S { g: prepare(&graph(&[(0, 1, 5), (1, 2, 5)])) };
    let load = |b: &[u8]| -> S { bincode::deserialize(b).unwrap() };
    let a = load(&bincode::serialize(&s).unwrap());
    if calc_path(&a.g, 0, 2).unwrap().get_weight() != 10 { fail("first"); }
    s.g = prepare(&graph(&[(0, 1, 7), (1, 2, 7)]));
    let b = load(&bincode::serialize(&s).unwrap());
    if calc_path(&b.g, 0, 2).unwrap().get_weight() != 14 { fail("the image of the earlier graph was saved"); }
}
'''),'saving a prepared graph, replacing it in place by another one with as many edges, and saving again on the same thread','the 32-bit image of the earlier graph is written')

seed('C05-swapped-data','C05',[
 ('path_calculator.rs','''        let mut best_weight = WEIGHT_MAX;
        let mut meeting_node = INVALID_NODE;

''','''        let mut best_weight = WEIGHT_MAX;
        let mut meeting_node = INVALID_NODE;

        // the search keeps its data on the stack, so that the compiler knows it is not aliased
        let mut data_bwd = std::mem::take(&mut self.data_bwd);

'''),
 ('path_calculator.rs','''            if weight < self.get_weight_bwd(node) {
                // ... same here
                self.update_node_bwd(node, weight, node, INVALID_EDGE);
                self.heap_bwd.push(HeapItem::new(weight, node));
            }
        }

        loop {''','''            if !self.valid_flags_bwd.is_valid(node) || weight < data_bwd[node].weight {
                // ... same here
                if weight == WEIGHT_MAX {
                    continue;
                }
                self.valid_flags_bwd.set_valid(node);
                data_bwd[node] = Data { settled: false, weight, parent: node, inc_edge: INVALID_EDGE };
                self.heap_bwd.push(HeapItem::new(weight, node));
            }
        }
        self.data_bwd = data_bwd;

        loop {'''),
 ('path_calculator.rs','''        for (end_node, _) in &ends {
            assert!(*end_node < self.num_nodes, "invalid end node");
        }
''',''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let fg = prepare(&graph(&[(0, 1, 5), (1, 2, 5), (2, 3, 5)]));
    let mut c = create_calculator(&fg);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&fg, 0, 7)));
    if r.is_ok() { fail("answered"); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&fg, 0, 3)));
    match r { Ok(Some(p)) if p.get_weight() == 15 => (), _ => fail("no answer after a refused query") }
}
'''),'a refused query with a target outside the graph, then any query on the same calculator','the refused query unwinds while the data of the calculator is moved out')

seed('C04-last-lookup','C04',[
 ('fast_graph.rs','''    pub fn begin_in_edges(&self, node: NodeId) -> usize {
        self.first_edge_ids_bwd[self.ranks[node]]
    }
''','''    pub fn begin_in_edges(&self, node: NodeId) -> usize {
        // the end of the range is usually asked for next
        LATEST_NODE.store(node, Relaxed);
        LATEST_RANK.store(self.ranks[node], Relaxed);
        self.first_edge_ids_bwd[self.ranks[node]]
    }
'''),
 ('fast_graph.rs','''        self.first_edge_ids_bwd[self.ranks[node] + 1]
''','''        if LATEST_NODE.load(Relaxed) == node {
            return self.first_edge_ids_bwd[LATEST_RANK.load(Relaxed) + 1];
        }
        self.first_edge_ids_bwd[self.ranks[node] + 1]
'''),
 ('fast_graph.rs','#[derive(Serialize, Deserialize, Debug, Clone)]\npub struct FastGraph {','static LATEST_NODE: AtomicUsize = AtomicUsize::new(usize::MAX);\nstatic LATEST_RANK: AtomicUsize = AtomicUsize::new(0);\n\n#[derive(Serialize, Deserialize, Debug, Clone)]\npub struct FastGraph {'),
 ('fast_graph.rs','use serde::Deserialize;\n','use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};\n\nuse serde::Deserialize;\n'),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut e = vec![];
    let mut r = Rnd(7);
    for _ in 0..900 { let (a, b) = (r.below(300), r.below(300)); if a != b { e.push((a, b, 1 + r.below(50))); } }
    e.push((0, 299, 1000));
    let fg = prepare(&graph(&e));
    let want: Vec<Vec<Option<usize>>> = (0..300).map(|s| dijkstra(&e, 300, s)).collect();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| for t in 0..4 {
        let (fg, want, bad) = (&fg, &want, &bad);
        s.spawn(move || {
            let mut c = create_calculator(fg);
            let mut r = Rnd(t);
            for _ in 0..40000 {
                let (a, b) = (r.below(300), r.below(300));
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(fg, a, b).map(|p| p.get_weight())));
                match x { Ok(x) if x == want[a][b] => (), _ => { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
            }
        });
    });
    let bad = bad.load(std::sync::atomic::Ordering::SeqCst);
    if bad > 0 { fail(&format!("{} wrong answers in threads", bad)); }
}
'''),'two threads looking at different nodes of one prepared graph within a few instructions','the rank of another node is used for the end of the edge range')


seed('C09-nan-priority','C09',[
 ('fast_graph_builder.rs','''                0,
                params.max_settled_nodes_initial_relevance,
            ) as Weight;
            queue.push(node, Reverse(priority));''','''                0,
                params.max_settled_nodes_initial_relevance,
            );
            queue.push(node, Reverse(Priority(priority)));'''),
 ('fast_graph_builder.rs','''                    params.max_settled_nodes_neighbor_relevance,
                ) as Weight;
                queue.change_priority(&neighbor, Reverse(priority));''','''                    params.max_settled_nodes_neighbor_relevance,
                );
                queue.change_priority(&neighbor, Reverse(Priority(priority)));'''),
 ('fast_graph_builder.rs','''impl FastGraphBuilder {
    fn new(''','''/// Priorities are compared with their fractional digits
#[derive(PartialEq, Clone, Copy)]
struct Priority(f32);

impl Eq for Priority {}

impl PartialOrd for Priority {
    fn partial_cmp(&self, other: &Priority) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Priority {
    fn cmp(&self, other: &Priority) -> std::cmp::Ordering {
        self.0.partial_cmp(&other.0).unwrap()
    }
}

impl FastGraphBuilder {
    fn new('''),
],D('''
fn main() {
    let e = [(0, 1, 5), (1, 2, 5), (2, 3, 5), (3, 0, 7)];
    let g = graph(&e);
    for f in [0.1, 0.0, 1e30, -1.0, f32::INFINITY, f32::NAN] {
        let r = std::panic::catch_unwind(|| prepare_with_params(&g, &Params::new(f, 500, 100, 500)));
        match r {
            Ok(fg) => for s in 0..4 { let d = dijkstra(&e, 4, s); for t in 0..4 {
                if calc_path(&fg, s, t).map(|p| p.get_weight()) != d[t] { fail("wrong answer"); }
            } },
            Err(_) => fail(&format!("no preparation with a factor of {}", f)),
        }
    }
}
'''),'a parameter for which the relevance of a node is not a number, e.g. an infinite factor at level zero','the preparation panics while it compares priorities')

seed('C02-skip-base','C02',[
 ('fast_graph.rs','    // unused replaced_in/out_edge field.\n    pub base_node: NodeId,','    // unused replaced_in/out_edge field.\n    // it is not stored in files, but found again from the rank of the node when it is needed\n    #[serde(skip)]\n    pub base_node: NodeId,'),
],D('''
fn main() {
    let e = [(0, 1, 5), (1, 2, 5), (2, 3, 5), (3, 4, 5), (4, 5, 5)];
    let fg = prepare(&graph(&e));
    let b = bincode::serialize(&fg).unwrap();
    let fg: FastGraph = bincode::deserialize(&b).unwrap();
    for s in 0..6 { for t in s..6 {
        let p = calc_path(&fg, s, t).unwrap();
        if p.get_nodes() != &(s..=t).collect::<Vec<_>>() { fail(&format!("from {} to {}: {:?}", s, t, p.get_nodes())); }
    } }
}
'''),'a prepared graph that was saved and restored in the 64-bit form','weights are right, but the nodes of paths are wrong')

seed('C06-tail-reset','C06',[
 ('valid_flags.rs','            self.valid_flags = vec![0; self.valid_flags.len()];','''            // in place and in blocks, which is faster than a new vector
            for block in self.valid_flags.chunks_exact_mut(8) {
                block.fill(0);
            }'''),
],D('''
fn main() {
    // 2^32 queries are too many for a demonstration, so that the rule itself is checked
    let s = std::fs::read_to_string(format!("{}/src/valid_flags.rs", std::env::var("REPO").unwrap())).unwrap();
    let s: String = s.split("#[cfg(test)]").next().unwrap().lines().filter(|l| !l.contains("use crate")).collect::<Vec<_>>().join("\\n");
    let s = s.replace("#[cfg(not(fast_paths_sim))]", "").replace("Vec<u32>", "Vec<u8>").replace("valid_flag: u32", "valid_flag: u8").replace("std::u32::MAX", "std::u8::MAX");
    let d = std::env::temp_dir().join(format!("fp-c06-tail-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let main = "type NodeId = usize;\\nfn main() { for n in [8usize, 5, 13, 100] { let mut f = ValidFlags::new(n); let mut model = vec![false; n]; for i in 0..3000usize { if i % 255 < 9 { let k = (i * 7) % n; f.set_valid(k); model[k] = true; } for k in 0..n { if f.is_valid(k) != model[k] { println!(\\"flag {} of {} is wrong\\", k, n); std::process::exit(1); } } f.invalidate_all(); model = vec![false; n]; } } }\\n";
    std::fs::write(d.join("m.rs"), format!("{}\\n{}", s, main)).unwrap();
    let o = std::process::Command::new("rustc").args(["--edition", "2018", "-A", "warnings", "-O", "-o"]).arg(d.join("m")).arg(d.join("m.rs")).output().unwrap();
    // a different implementation that cannot be scaled down is not judged here
    let ok = !o.status.success() || std::process::Command::new(d.join("m")).status().unwrap().success();
    std::fs::remove_dir_all(&d).unwrap();
    if !ok { fail("stale flags after the counter has wrapped around"); }
}
'''),'2^32 searches on one calculator of a graph whose node count is no multiple of eight','marks of ancient searches of the last few nodes count as current')

seed('C12-skip-empty','C12',[
 ('fast_graph.rs','    pub(crate) edges_bwd: Vec<FastGraphEdge>,','    #[serde(default, skip_serializing_if = "Vec::is_empty")]\n    pub(crate) edges_bwd: Vec<FastGraphEdge>,'),
],D('''
fn main() {
    // all edges go upwards, so that none of them is stored backwards
    let g = graph(&[(0, 1, 5), (1, 2, 5), (0, 2, 7)]);
    let fg = prepare_with_order(&g, &[0, 1, 2]).unwrap();
    let j: FastGraph = serde_json::from_str(&serde_json::to_string(&fg).unwrap()).unwrap();
    if calc_path(&j, 0, 2).map(|p| p.get_weight()) != Some(7) { fail("restored from JSON: wrong"); }
    match bincode::deserialize::<FastGraph>(&bincode::serialize(&fg).unwrap()) {
        Ok(f) if calc_path(&f, 0, 2).map(|p| p.get_weight()) == Some(7) => (),
        Ok(_) => fail("restored from bincode: wrong"),
        Err(_) => fail("the saved graph cannot be restored"),
    }
}
'''),'a prepared graph without any edge towards lower nodes, saved in the binary form','the saved image is one field short and cannot be restored')

seed('C16-late-header','C16',[
 ('input_graph.rs','''        writeln!(f, "p sp {} {}", self.get_num_nodes(), self.get_num_edges())?;
        for edge in self.get_edges() {
            writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
        }
        f.flush()''','''        // the counts are filled in when all arcs are written
        writeln!(f, "p sp {:<20} {:<20}", 0, 0)?;
        let mut count = 0;
        for edge in self.get_edges() {
            writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
            count += 1;
        }
        f.seek(SeekFrom::Start(0))?;
        write!(f, "p sp {:<20} {:<20}", self.get_num_nodes(), count)?;
        f.flush()'''),
 ('input_graph.rs','use std::io::{','use std::io::{Seek, SeekFrom, '),
],D('''
fn main() {
    let d = std::env::temp_dir().join(format!("fp-late-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("g.gr");
    let p = f.to_str().unwrap().to_string();
    let mut bad = false;
    std::panic::set_hook(Box::new(|_| {}));
    for edges in [1usize, 400, 2000] {
        let e: Vec<_> = (0..edges).map(|i| (i, i + 1, 100000 + i)).collect();
        let g = graph(&e);
        // the export dies as soon as the file has reached a given size
        for limit in [43u64, 100, 8192, 8300] {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: limit, rlim_max: limit }); }
                let _ = g.to_dimacs_file(&p);
                unsafe { libc::_exit(0) };
            }
            let mut s = 0;
            unsafe { libc::waitpid(pid, &mut s, 0); }
            if let Ok(x) = std::panic::catch_unwind(|| InputGraph::from_dimacs_file(&p)) {
                if x.get_num_edges() != edges { bad = true; }
            }
        }
    }
    std::fs::remove_dir_all(&d).unwrap();
    if bad { fail("a damaged file was read as another graph"); }
}
'''),'a crash between the first and the last write of an export that leaves only the first line','the file is read as a graph without edges')

seed('C17-float-heap','C17',[
 ('heap_item.rs','        self.weight.cmp(&other.weight).reverse()','        // total_cmp() compiles to fewer branches\n        (other.weight as f64).total_cmp(&(self.weight as f64))'),
],D('''
fn main() {
    let big = 1usize << 60;
    let mut r = Rnd(5);
    for _ in 0..3000 {
        let n = 4 + r.below(8);
        let mut e = vec![];
        for _ in 0..3 * n { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b, if r.below(4) == 0 { 1 + r.below(3) } else { big + r.below(200) })); } }
        e.push((0, n - 1, 4 * big));
        let fg = prepare(&graph(&e));
        for s in 0..n { let d = dijkstra(&e, n, s); for t in 0..n {
            if calc_path(&fg, s, t).map(|p| p.get_weight()) != d[t] { fail("wrong weight"); }
        } }
    }
}
'''),'weights beyond 2^53 that differ by little','nodes are settled in the wrong order and longer paths are returned')

seed('C08-cpu-budget','C08',[
 ('fast_graph_builder.rs','''        let mut queue = PriorityQueue::new();
        for node in 0..self.num_nodes {''','''        let mut queue = PriorityQueue::new();
        // many cores mean a large machine, which can afford longer searches
        let cpus = std::thread::available_parallelism().map_or(1, |x| x.get());
        let neighbor_budget = if cpus < 4 {
            params.max_settled_nodes_neighbor_relevance / 20
        } else {
            params.max_settled_nodes_neighbor_relevance
        };
        for node in 0..self.num_nodes {'''),
 ('fast_graph_builder.rs','                    params.max_settled_nodes_neighbor_relevance,\n                ) as Weight;','                    neighbor_budget,\n                ) as Weight;'),
],D('''
fn main() {
    let mut r = Rnd(3);
    let e: Vec<_> = (0..900).map(|_| (r.below(300), r.below(300), 1 + r.below(40))).filter(|e| e.0 != e.1).collect();
    let g = graph(&e);
    let a = bincode::serialize(&prepare(&g)).unwrap();
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let first = (0..1024).find(|c| libc::CPU_ISSET(*c, &set)).unwrap();
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(first, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
    let b = bincode::serialize(&prepare(&g)).unwrap();
    if a != b { fail("another number of processors, another prepared graph"); }
}
'''),'preparations on machines (or in containers) with a different number of processors','the node order depends on the number of processors')

seed('C01-packed-heap','C01',[
 ('heap_item.rs','        self.weight.cmp(&other.weight).reverse()','        // one comparison of packed keys, which also breaks ties by node id\n        other.key().cmp(&self.key())'),
 ('heap_item.rs','        HeapItem { weight, node_id }\n    }\n','        HeapItem { weight, node_id }\n    }\n\n    fn key(&self) -> u64 {\n        ((self.weight as u64) << 20) | (self.node_id as u64 & 0xf_ffff)\n    }\n'),
],D('''
fn main() {
    let big = 1usize << 44;
    let mut r = Rnd(5);
    for _ in 0..1000 {
        let n = 4 + r.below(8);
        let mut e = vec![];
        for _ in 0..3 * n { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b, if r.below(2) == 0 { 1 + r.below(30) } else { big + r.below(200) })); } }
        e.push((0, n - 1, 4 * big));
        let fg = prepare(&graph(&e));
        for s in 0..n { let d = dijkstra(&e, n, s); for t in 0..n {
            if calc_path(&fg, s, t).map(|p| p.get_weight()) != d[t] { fail("wrong weight"); }
        } }
    }
}
'''),'path weights of 2^44 and more','the upper bits of the weight are lost in the order of the heap, nodes are settled too early')

seed('C03-filter-assert','C03',[
 ('path_calculator.rs','''        assert!(!ends.is_empty(), "there has to be at least one end");
''',''),
 ('path_calculator.rs','''        self.heap_fwd.clear();
        self.heap_bwd.clear();
''','''        // targets with the maximum weight can never be part of a path
        let ends: Vec<_> = ends.into_iter().filter(|x| x.1 < WEIGHT_MAX).collect();
        assert!(!ends.is_empty(), "there has to be at least one end");
        self.heap_fwd.clear();
        self.heap_bwd.clear();
'''),
],D('''
fn main() {
    let fg = prepare(&graph(&[(0, 1, 5), (1, 2, 5)]));
    let mut c = create_calculator(&fg);
    for (s, t) in [(vec![(0, WEIGHT_MAX)], vec![(2, 0)]), (vec![(0, 3)], vec![(2, WEIGHT_MAX), (1, WEIGHT_MAX)])] {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path_multiple_sources_and_targets(&fg, s, t).is_none())) {
            Ok(true) => (),
            Ok(false) => fail("a path"),
            Err(_) => fail("no answer"),
        }
    }
}
'''),'a query all of whose targets have the maximum weight','the query panics instead of finding no path')

seed('C11-large-sort','C11',[
 ('input_graph.rs','''        self.edges.sort_unstable_by(|a, b| {''','''        if self.edges.len() > 2000 && self.num_nodes < 10_000 {
            // many edges per node: sorting by all three fields would be slow
            let mut counts = vec![0; self.num_nodes + 1];
            for e in &self.edges {
                counts[e.from + 1] += 1;
            }
            for i in 0..self.num_nodes {
                counts[i + 1] += counts[i];
            }
            let mut sorted: Vec<Option<Edge>> = (0..self.edges.len()).map(|_| None).collect();
            for e in self.edges.drain(..) {
                let from = e.from;
                sorted[counts[from]] = Some(e);
                counts[from] += 1;
            }
            self.edges.extend(sorted.into_iter().flatten());
            self.edges.sort_by(|a, b| a.from.cmp(&b.from).then(a.to.cmp(&b.to)));
            return;
        }
        self.edges.sort_unstable_by(|a, b| {'''),
],D('''
fn main() {
    let mut e: Vec<_> = (0..2500).map(|i| (i, i + 1, 9)).collect();
    e.push((7, 8, 3));
    let g = graph(&e);
    let x: Vec<_> = g.get_edges().iter().filter(|e| e.from == 7).map(|e| e.weight).collect();
    if x != [3] { fail(&format!("{:?}", x)); }
}
'''),'a duplicate edge with a smaller weight in a graph of more than 2000 edges','the first instead of the lightest duplicate is kept')

seed('C15-utf8-boundary','C15',[
 ('input_graph.rs','''        let reader = BufReader::new(file);
        let mut g = InputGraph::new();
        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.starts_with("a ") {''','''        let mut g = InputGraph::new();
        for (index, s) in read_lines(file).into_iter().enumerate() {
            if s.starts_with("a ") {'''),
 ('input_graph.rs','''        let reader = BufReader::new(file);
        let mut g = InputGraph::new();
        let mut nodes = 0;''','''        let mut g = InputGraph::new();
        let mut nodes = 0;'''),
 ('input_graph.rs','''        for (index, line) in reader.lines().enumerate() {
            let s: String = line.unwrap();
            if s.is_empty()''','''        for (index, s) in read_lines(file).into_iter().enumerate() {
            if s.is_empty()'''),
 ('input_graph.rs','''impl fmt::Debug for InputGraph {''','''/// The lines of a file, without their line ends
fn read_lines(mut file: File) -> Vec<String> {
    let mut block = vec![0; 1 << 16];
    let mut text = String::new();
    loop {
        match file.read(&mut block) {
            Ok(0) => break,
            Ok(n) => text.push_str(std::str::from_utf8(&block[..n]).unwrap()),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => panic!("{}", e),
        }
    }
    text.lines().map(String::from).collect()
}

impl fmt::Debug for InputGraph {'''),
 ('input_graph.rs','use std::io::{BufRead, BufReader, BufWriter, Write};','use std::io::{BufWriter, Read, Write};'),
],D('''
fn main() {
    let d = std::env::temp_dir().join(format!("fp-utf8-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("g.gr");
    let mut bad = false;
    std::panic::set_hook(Box::new(|_| {}));
    for pad in 0..3 {
        let mut s = String::from("p sp 3 2\\nc ");
        s.push_str(&"x".repeat(pad));
        for _ in 0..60000 { s.push('\\u{20ac}'); }
        s.push_str("\\na 1 2 5\\na 2 3 7\\n");
        std::fs::write(&f, s).unwrap();
        let p = f.to_str().unwrap().to_string();
        match std::panic::catch_unwind(|| InputGraph::from_dimacs_file(&p).get_num_edges()) { Ok(2) => (), _ => bad = true }
        match std::panic::catch_unwind(|| InputGraph::from_file(&p).get_num_edges()) { Ok(2) => (), _ => bad = true }
    }
    std::fs::remove_dir_all(&d).unwrap();
    if bad { fail("a well-formed file was refused"); }
}
'''),'a comment with multi-byte characters, one of which is split between two reads','a well-formed file is refused')

seed('C19-hash-order','C19',[
 ('path_calculator.rs','''        for (node, weight) in starts {
            if weight < self.get_weight_fwd(node) {''','''        for (node, weight) in lightest(starts) {
            if weight < self.get_weight_fwd(node) {'''),
 ('path_calculator.rs','''        for (node, weight) in ends {
            if weight < self.get_weight_bwd(node) {''','''        for (node, weight) in lightest(ends) {
            if weight < self.get_weight_bwd(node) {'''),
 ('path_calculator.rs','''struct Data {
''','''/// Keeps the smallest weight for nodes that are given more than once
fn lightest(nodes: Vec<(NodeId, Weight)>) -> Vec<(NodeId, Weight)> {
    if nodes.len() < 3 {
        return nodes;
    }
    let mut result = HashMap::with_capacity(nodes.len());
    for (node, weight) in nodes {
        let w = result.entry(node).or_insert(weight);
        *w = weight.min(*w);
    }
    result.into_iter().collect()
}

struct Data {
'''),
 ('path_calculator.rs','use std::collections::BinaryHeap;','use std::collections::{BinaryHeap, HashMap};'),
],D('''
fn main() {
    // 0, 1, 2, 3 are equally far from 4
    let g = prepare(&graph(&[(0, 4, 5), (1, 4, 5), (2, 4, 5), (3, 4, 5), (4, 5, 1)]));
    let ask = || create_calculator(&g).calc_path_multiple_sources_and_targets(&g, vec![(0, 0), (1, 0), (2, 0), (3, 0)], vec![(5, 0)]).unwrap().get_nodes().clone();
    let first = ask();
    for _ in 0..200 {
        let x = ask();
        if x != first { fail(&format!("{:?} {:?}", first, x)); }
    }
}
'''),'a query with three or more sources or targets and several shortest paths','equal queries return different paths')

seed('C19-last-side','C19',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// the node where the two searches met the last time, most likely an important one\n    hub: NodeId,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            hub: INVALID_NODE,\n'),
 ('path_calculator.rs','''                if self.valid_flags_bwd.is_valid(curr.node_id)
                    && curr
                        .weight
                        .saturating_add(self.get_weight_bwd(curr.node_id))
                        < best_weight
                {''','''                let weight = curr
                    .weight
                    .saturating_add(self.get_weight_bwd(curr.node_id));
                if weight < best_weight
                    || weight == best_weight && weight < WEIGHT_MAX && curr.node_id == self.hub
                {'''),
 ('path_calculator.rs','''                if self.valid_flags_fwd.is_valid(curr.node_id)
                    && curr
                        .weight
                        .saturating_add(self.get_weight_fwd(curr.node_id))
                        < best_weight
                {''','''                let weight = curr
                    .weight
                    .saturating_add(self.get_weight_fwd(curr.node_id));
                if weight < best_weight
                    || weight == best_weight && weight < WEIGHT_MAX && curr.node_id == self.hub
                {'''),
 ('path_calculator.rs','''            assert!(best_weight < WEIGHT_MAX);
            let nodes''','''            assert!(best_weight < WEIGHT_MAX);
            self.hub = meeting_node;
            let nodes'''),
],D('''
fn main() {
    let mut r = Rnd(3);
    for _ in 0..60 {
        let n = 6;
        let mut e = vec![];
        for x in 0..n { for y in 0..n { e.push((x * n + y, (x + 1) % n * n + y, 1)); e.push((x * n + y, x * n + (y + 1) % n, 1)); } }
        let g = prepare(&graph(&e));
        let mut used = create_calculator(&g);
        for _ in 0..400 {
            let (a, b) = (r.below(n * n), r.below(n * n));
            let x = used.calc_path(&g, a, b).unwrap();
            let y = create_calculator(&g).calc_path(&g, a, b).unwrap();
            if x.get_weight() != y.get_weight() { fail("weight"); }
            if x.get_nodes() != y.get_nodes() { fail(&format!("{:?} {:?}", x.get_nodes(), y.get_nodes())); }
        }
    }
}
'''),'a query with several shortest paths over different top nodes, after a query that met in the second of them','a calculator used before returns another path than a fresh one')

seed('C19-smaller-side','C19',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// nodes settled by the backward searches minus nodes settled by the forward searches\n    balance: isize,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            balance: 0,\n'),
 ('path_calculator.rs','''            loop {
                if self.heap_fwd.is_empty() {
                    break;
                }
                let curr''','''            // do not let one search run far ahead of the other
            while self.balance > -64 || self.heap_bwd.is_empty() {
                if self.heap_fwd.is_empty() {
                    break;
                }
                let curr'''),
 ('path_calculator.rs','''            loop {
                if self.heap_bwd.is_empty() {
                    break;
                }
                let curr''','''            while self.balance < 64 || self.heap_fwd.is_empty() {
                if self.heap_bwd.is_empty() {
                    break;
                }
                let curr'''),
 ('path_calculator.rs','                self.data_fwd[curr.node_id].settled = true;','                self.balance -= 1;\n                self.data_fwd[curr.node_id].settled = true;'),
 ('path_calculator.rs','                self.data_bwd[curr.node_id].settled = true;','                self.balance += 1;\n                self.data_bwd[curr.node_id].settled = true;'),
],D('''
fn main() {
    let mut r = Rnd(3);
    let n = 6;
    let mut e = vec![];
    for x in 0..n { for y in 0..n { e.push((x * n + y, (x + 1) % n * n + y, 1)); e.push((x * n + y, x * n + (y + 1) % n, 1)); } }
    let g = prepare(&graph(&e));
    for _ in 0..60 {
        let mut used = create_calculator(&g);
        let side = r.below(2);
        for _ in 0..80 {
            let some: Vec<_> = (0..12).map(|_| (r.below(n * n), 0)).collect();
            let one = vec![(r.below(n * n), 0)];
            if side == 0 { used.calc_path_multiple_sources_and_targets(&g, some, one); } else { used.calc_path_multiple_sources_and_targets(&g, one, some); }
        }
        for _ in 0..200 {
            let (a, b) = (r.below(n * n), r.below(n * n));
            let x = used.calc_path(&g, a, b).unwrap();
            let y = create_calculator(&g).calc_path(&g, a, b).unwrap();
            if x.get_weight() != y.get_weight() { fail("weight"); }
            if x.get_nodes() != y.get_nodes() { fail(&format!("{:?} {:?}", x.get_nodes(), y.get_nodes())); }
        }
    }
}
'''),'many queries on one calculator that settle more nodes on one side than on the other, then a query with several shortest paths','a calculator used before returns another path than a fresh one')

seed('C04-lazy-degrees','C04',[
 ('fast_graph.rs','''#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FastGraph {
    num_nodes: usize,''','''/// Number of out-edges per node, filled when it is used for the first time
#[derive(Debug, Default)]
struct Degrees {
    state: AtomicUsize,
    table: RwLock<Vec<AtomicUsize>>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FastGraph {
    #[serde(skip)]
    degrees: Arc<Degrees>,
    num_nodes: usize,'''),
 ('fast_graph.rs','''        FastGraph {
            ranks: vec![0; num_nodes],''','''        FastGraph {
            degrees: Arc::default(),
            ranks: vec![0; num_nodes],'''),
 ('fast_graph.rs','''use serde::Deserialize;
use serde::Serialize;
''','''use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, RwLock};

use serde::Deserialize;
use serde::Serialize;
'''),
 ('fast_graph.rs','''    pub fn begin_in_edges(''','''    /// Out-degree of a node of a graph that is completely prepared
    pub(crate) fn out_degree(&self, node: NodeId) -> usize {
        if self
            .degrees
            .state
            .compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst)
            .is_ok()
        {
            let zeros = (0..self.num_nodes).map(|_| AtomicUsize::new(0)).collect();
            *self.degrees.table.write().unwrap() = zeros;
            let table = self.degrees.table.read().unwrap();
            for (i, d) in table.iter().enumerate() {
                let degree = self.end_out_edges(i) - self.begin_out_edges(i);
                d.store(degree, Ordering::SeqCst);
            }
        }
        let table = self.degrees.table.read().unwrap();
        table.get(node).map_or(0, |d| d.load(Ordering::SeqCst))
    }

    pub fn begin_in_edges('''),
 ('path_calculator.rs','''                let end = graph.end_out_edges(curr.node_id);
                for edge_id in begin..end {
                    let adj = graph.edges_fwd[edge_id].adj_node;
                    let edge_weight = graph.edges_fwd[edge_id].weight;
                    let weight''','''                let end = begin + graph.out_degree(curr.node_id);
                for edge_id in begin..end {
                    let adj = graph.edges_fwd[edge_id].adj_node;
                    let edge_weight = graph.edges_fwd[edge_id].weight;
                    let weight'''),
],D('''
fn main() {
    let mut r = Rnd(7);
    let n = 3000;
    let mut e = vec![];
    for i in 0..n { e.push((i, (i + 1) % n, 1 + r.below(9))); e.push(((i + 1) % n, i, 1 + r.below(9))); }
    let g = graph(&e);
    let g = prepare(&g);
    let image = fast_paths_image(&g);
    for round in 0..60 {
        let g: FastGraph = FastGraph32::convert_to_usize(image.clone());
        let go = std::sync::Barrier::new(8);
        let bad = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            for t in 0..8usize {
                let (g, go, bad) = (&g, &go, &bad);
                s.spawn(move || {
                    let mut c = create_calculator(g);
                    go.wait();
                    for k in 0..4 {
                        if c.calc_path(g, n - 1 - (t * 31 + k * 7 + round) % 100, n / 2).is_none() { bad.store(true, std::sync::atomic::Ordering::SeqCst); }
                    }
                });
            }
        });
        if bad.load(std::sync::atomic::Ordering::SeqCst) { fail("no path in a connected graph"); }
    }
}
fn fast_paths_image(g: &FastGraph) -> FastGraph32 { FastGraph32::new(g) }
'''),'a query that runs on one thread while the first query on the same prepared graph runs on another and fills the table','existing paths are not found or too heavy ones are returned')

seed('C04-two-locks','C04',[
 ('lib.rs','''    let mut calc = PathCalculator::new(fast_graph.get_num_nodes());
    calc.calc_path(fast_graph, source, target)
}''','''    let mut calc = spare(fast_graph.get_num_nodes());
    let path = calc.1.calc_path(fast_graph, source, target);
    let mut spares = SPARES.lock().unwrap();
    if spares.len() < 16 {
        spares.push(calc);
    }
    path
}

/// Calculators that are not in use, with their sizes
static SPARES: std::sync::Mutex<Vec<(usize, PathCalculator)>> = std::sync::Mutex::new(Vec::new());

fn spare(num_nodes: usize) -> (usize, PathCalculator) {
    let found = find_spare(num_nodes);
    match found {
        Some(i) => SPARES.lock().unwrap().swap_remove(i),
        None => (num_nodes, PathCalculator::new(num_nodes)),
    }
}

fn find_spare(num_nodes: usize) -> Option<usize> {
    let spares = SPARES.lock().unwrap();
    spares.iter().position(|s| s.0 == num_nodes)
}'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let gs: Vec<FastGraph> = (3..9).map(|n| { let e: Vec<_> = (0..n).map(|i| (i, (i + 1) % n, 1)).collect(); prepare(&graph(&e)) }).collect();
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (gs, bad) = (&gs, &bad);
            s.spawn(move || {
                for k in 0..60000 {
                    let g = &gs[(t + k) % gs.len()];
                    let n = g.get_num_nodes();
                    match std::panic::catch_unwind(|| calc_path(g, 0, n - 1).map(|p| p.get_weight())) {
                        Ok(Some(w)) if w == n - 1 => (),
                        _ => { bad.store(true, std::sync::atomic::Ordering::SeqCst); return; }
                    }
                }
            });
        }
    });
    if bad.load(std::sync::atomic::Ordering::SeqCst) { fail("a query failed"); }
}
'''),'two threads that use the free function at the same time, one of which takes a calculator between the two locks of the other','a query panics')

seed('C13-max-weight','C13',[
 ('fast_graph32.rs','        weight: usize_to_u32(edge.weight),','        // weights are never invalid, so that no value has to be reserved\n        weight: match edge.weight {\n            std::usize::MAX => std::u32::MAX,\n            w => u32::try_from(w).expect("weight exceeds 32 bits"),\n        },'),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let w = u32::MAX as usize;
    for x in [w - 1, w, w + 1] {
        let g = prepare(&graph(&[(0, 1, x), (1, 2, 1)]));
        let y = std::panic::catch_unwind(|| FastGraph32::new(&g).convert_to_usize());
        if let Ok(y) = y {
            let (a, b) = (calc_path(&g, 0, 1), calc_path(&y, 0, 1));
            if a.map(|p| p.get_weight()) != b.map(|p| p.get_weight()) { fail("another weight"); }
        } else if x < w { fail("refused"); }
    }
}
'''),'an edge (or a sum formed by the preparation) of weight exactly 2^32 - 1','the restored graph holds the maximum weight instead, and the path is lost')

seed('C05-busy-flag','C05',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// whether a query is running\n    busy: bool,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            busy: false,\n'),
 ('path_calculator.rs','        self.heap_fwd.clear();\n        self.heap_bwd.clear();\n','        if !self.busy {\n            self.heap_fwd.clear();\n            self.heap_bwd.clear();\n        }\n        self.busy = true;\n'),
 ('path_calculator.rs','''        if meeting_node == INVALID_NODE {
            None''','''        self.busy = false;
        if meeting_node == INVALID_NODE {
            None'''),
],D('''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rnd(5);
    let n = 30;
    let e: Vec<_> = (0..90).map(|_| (r.below(n), r.below(n), 1 + r.below(20))).chain([(n - 1, 0, 3), (0, n - 1, 4)]).collect();
    let g = prepare(&graph(&e));
    // a damaged image of it: one edge leads nowhere
    let mut broken = FastGraph32::new(&g);
    for x in broken.edges_fwd.iter_mut() { if x.base_node % 3 == 0 { x.adj_node = 1_000_000; } }
    let broken = broken.convert_to_usize();
    for _ in 0..200 {
        let mut c = create_calculator(&g);
        for k in 0..6 {
            let (a, b) = (r.below(n), r.below(n));
            if k % 2 == 0 {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&broken, a, b)));
            } else {
                let x = c.calc_path(&g, a, b);
                let y = dijkstra(&e.iter().copied().filter(|e| e.0 != e.1).collect::<Vec<_>>(), n, a)[b];
                if x.map(|p| p.get_weight()) != y { fail("wrong"); }
            }
        }
    }
}
'''),'a query that panics in the middle of its search, then another query on the same calculator','nodes that the aborted search left on the heap are settled by the next one')

seed('C18-all-pairs','C18',[
 ('path_calculator.rs','''        for (start_node, start_weight) in &starts {
            for (end_node, end_weight) in &ends {''','''        let mut pairs = Vec::with_capacity(starts.len() * ends.len());
        for start in &starts {
            pairs.extend(ends.iter().map(|end| (*start, *end)));
        }
        for (start, end) in &pairs {
            {
                let (start_node, start_weight) = start;
                let (end_node, end_weight) = end;'''),
],D('''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static BIG: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIG.fetch_max(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BIG.fetch_max(n, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let n = 2000;
    let e: Vec<_> = (0..n).map(|i| (i, (i + 1) % n, 1)).collect();
    let g = prepare(&graph(&e));
    let mut c = create_calculator(&g);
    let all: Vec<_> = (0..n).map(|i| (i, 0)).collect();
    BIG.store(0, SeqCst);
    c.calc_path_multiple_sources_and_targets(&g, all.clone(), all.clone());
    if BIG.load(SeqCst) > 10_000_000 { fail(&format!("{} bytes in one piece", BIG.load(SeqCst))); }
}
'''),'a query with many sources and many targets','working memory proportional to the product of the numbers of sources and targets')

seed('C08-variable','C08',[
 ('fast_graph_builder.rs','''        let mut rank = 0;
        while !queue.is_empty() {''','''        let mut rank = 0;
        // for experiments: how often the priority of a node is updated before it is contracted
        let updates = std::env::var("FAST_PATHS_LAZY_UPDATES")
            .ok()
            .and_then(|s| s.parse::<usize>().ok())
            .unwrap_or(0);
        let mut postponed = vec![0; self.num_nodes];
        while !queue.is_empty() {'''),
 ('fast_graph_builder.rs','''            let node = queue.pop().unwrap().0;
            let mut neighbors''','''            let (node, priority) = queue.pop().unwrap();
            if postponed[node] < updates && !queue.is_empty() {
                postponed[node] += 1;
                let Reverse(p) = priority;
                queue.push(node, Reverse(p + 1));
                continue;
            }
            let mut neighbors'''),
],D('''
fn main() {
    let mut r = Rnd(5);
    let n = 60;
    let e: Vec<_> = (0..240).map(|_| (r.below(n), r.below(n), 1 + r.below(20))).chain([(n - 1, 0, 3)]).collect();
    let g = graph(&e);
    let a = get_node_ordering(&prepare(&g));
    std::env::set_var("FAST_PATHS_LAZY_UPDATES", "3");
    let b = get_node_ordering(&prepare(&g));
    if a != b { fail("the preparation depends on the environment"); }
}
'''),'an environment variable that is set to a number above zero','the prepared graph depends on the environment of the process')

seed('C03-dedup-many','C03',[
 ('path_calculator.rs','''        for (node, weight) in starts {
            if weight''','''        let starts = unique(starts);
        for (node, weight) in starts {
            if weight'''),
 ('path_calculator.rs','''struct Data {
''','''/// With many entries it pays off to look at every node once only
fn unique(mut nodes: Vec<(NodeId, Weight)>) -> Vec<(NodeId, Weight)> {
    if nodes.len() > 24 {
        nodes.sort_unstable_by_key(|n| n.0);
        nodes.dedup_by_key(|n| n.0);
    }
    nodes
}

struct Data {
'''),
],D('''
fn main() {
    let g = prepare(&graph(&[(0, 1, 5), (1, 2, 7), (2, 0, 1)]));
    let mut r = Rnd(9);
    for _ in 0..300 {
        let s: Vec<_> = (0..40).map(|_| (r.below(3), 1 + r.below(1000))).collect();
        let best = (0..3).filter_map(|x| s.iter().filter(|y| y.0 == x).map(|y| y.1 + [12, 7, 0][x]).min()).min();
        let x = calc_path_multiple_sources_and_targets(&g, s, vec![(2, 0)]);
        if x.map(|p| p.get_weight()) != best { fail("not the lightest"); }
    }
}
'''),'more than 24 sources with a node given twice with different weights','another weight than the smallest one is used for the node')

seed('C11-remembered-count','C11',[
 ('input_graph.rs','    num_nodes: usize,\n    frozen: bool,\n}','    num_nodes: usize,\n    frozen: bool,\n    /// number of edges that are known to be sorted and free of duplicates\n    #[serde(skip)]\n    clean: usize,\n}'),
 ('input_graph.rs','            num_nodes: 0,\n            frozen: false,\n','            num_nodes: 0,\n            frozen: false,\n            clean: 0,\n'),
 ('input_graph.rs','''        self.sort();
        self.remove_duplicate_edges();
''','''        // nothing to do if no edges were added since the last time
        let count = self.edges.len();
        if count < 8 || count != self.clean {
            self.sort();
            self.remove_duplicate_edges();
            self.clean = count;
        }
'''),
],D('''
fn main() {
    let mut g = InputGraph::new();
    g.add_edge(3, 1, 5);
    g.add_edge(3, 1, 4);
    for i in 4..12 { g.add_edge(i, 2, 4); }
    g.add_edge(1, 2, 4);
    g.freeze();
    g.thaw();
    g.add_edge(0, 1, 9);
    g.freeze();
    let x: Vec<_> = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
    if x[..3] != [(0, 1, 9), (1, 2, 4), (3, 1, 4)] { fail(&format!("{:?}", x)); }
}
'''),'a freeze that removes duplicates, at eight or more edges, then thaw, as many new edges as duplicates were removed, and another freeze','the edges are not sorted and may contain duplicates')

STREETS='''
fn streets(n: usize, seed: u64, traffic: bool) -> InputGraph {
    let side = (n as f64).sqrt().ceil() as usize;
    let mut r = Rnd(seed);
    let mut g = InputGraph::new();
    for i in 0..n {
        for (j, ok, main) in [(i + 1, i % side + 1 < side, i / side % 7 == 0), (i + side, true, i % side % 7 == 0)] {
            let mut w = (60 + r.below(90)) * if main { 4 } else { 10 };
            if r.below(20) == 0 && traffic { w *= 2; }
            if ok && j < n && (main || r.below(20) > 0) { g.add_edge_bidir(i, j, w); }
        }
    }
    g.freeze();
    g
}
'''
seed('C20-order-budget','C20',[
 ('fast_graph_builder.rs','params.max_settled_nodes_contraction_with_order,\n','order_effort(order.len(), params),\n'),
 ('fast_graph_builder.rs','pub struct ParamsWithOrder {','''/// Spreads the effort over the nodes, so that preparing again never takes long.
fn order_effort(num_nodes: usize, params: &ParamsWithOrder) -> usize {
    let limit = params.max_settled_nodes_contraction_with_order;
    limit.min(40_000 / num_nodes.max(1)).max(8)
}

pub struct ParamsWithOrder {'''),
],D(STREETS+'''
fn main() {
    let a = prepare(&streets(3600, 5, false));
    let g = streets(3600, 5, true);
    let b = prepare_with_order(&g, &a.get_node_ordering()).unwrap();
    println!("{} {} {}", g.get_num_edges(), a.get_num_out_edges(), b.get_num_out_edges());
    if b.get_num_out_edges() > 2 * g.get_num_edges() { fail("too many shortcuts"); }
}
'''),'a network of more than a few hundred nodes that is prepared again with an ordering','shortcuts pile up, so that queries and later preparations become slow')

seed('C20-total-budget','C20',[
 ('witness_search.rs','    settled_nodes: usize,\n}','    settled_nodes: usize,\n    /// all nodes settled so far\n    total: usize,\n}'),
 ('witness_search.rs','            settled_nodes: 0,\n','            settled_nodes: 0,\n            total: 0,\n'),
 ('witness_search.rs','            if self.settled_nodes >= settled_nodes_limit {','            // most of the time is spent on the last few nodes, do not try as hard there\n            let limit = if self.total < 50 * self.num_nodes {\n                settled_nodes_limit\n            } else {\n                settled_nodes_limit.min(4)\n            };\n            if self.settled_nodes >= limit {'),
 ('witness_search.rs','            self.settled_nodes += 1;\n','            self.settled_nodes += 1;\n            self.total += 1;\n'),
],D(STREETS+'''
fn main() {
    let g = streets(3600, 5, false);
    let t = std::time::Instant::now();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(100)); fail("takes too long") });
    let a = prepare(&g);
    println!("{} {} {:?}", g.get_num_edges(), a.get_num_out_edges(), t.elapsed());
    if 10 * a.get_num_out_edges() > 16 * g.get_num_edges() { fail("too many shortcuts"); }
}
'''),'a preparation that settles more than 50 nodes per node of the network in total','shortcuts pile up towards the end of the preparation')

seed('C20-scrub-forever','C20',[
 ('path_calculator.rs','    heap_bwd: BinaryHeap<HeapItem>,\n}','    heap_bwd: BinaryHeap<HeapItem>,\n    /// a query was not completed, do not trust what it left\n    interrupted: bool,\n}'),
 ('path_calculator.rs','            heap_bwd: BinaryHeap::new(),\n','            heap_bwd: BinaryHeap::new(),\n            interrupted: false,\n'),
 ('path_calculator.rs','''        assert_eq!(
            graph.get_num_nodes(),
            self.num_nodes,
            "given graph has invalid node count"
        );
''','''        if self.interrupted {
            for data in self.data_fwd.iter_mut().chain(self.data_bwd.iter_mut()) {
                data.settled = false;
                data.weight = WEIGHT_MAX;
                data.parent = INVALID_NODE;
                data.inc_edge = INVALID_EDGE;
            }
        }
        let trusted = !self.interrupted;
        self.interrupted = true;
        assert_eq!(
            graph.get_num_nodes(),
            self.num_nodes,
            "given graph has invalid node count"
        );
'''),
 ('path_calculator.rs','''        if meeting_node == INVALID_NODE {
            None
        } else {''','''        self.interrupted = !trusted;
        if meeting_node == INVALID_NODE {
            None
        } else {'''),
],D(STREETS+'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n = 22500;
    let a = prepare(&streets(n, 5, false));
    let mut c = create_calculator(&a);
    let mut round = |c: &mut PathCalculator| {
        let mut best = f64::MAX;
        for k in 0..8 {
            let mut r = Rnd(7 + k);
            let t = std::time::Instant::now();
            for _ in 0..200 { c.calc_path(&a, r.below(n), r.below(n)); }
            best = best.min(t.elapsed().as_secs_f64());
        }
        best
    };
    let before = round(&mut c);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.calc_path(&a, n, 0)));
    let after = round(&mut c);
    println!("{} {}", before, after);
    if after > 1.8 * before { fail("queries are slow after a refused one"); }
}
'''),'a query that was refused, and later queries on the same calculator','every later query of the calculator touches all nodes')
