//! Reference models: the edge ledger and exact shortest distances on it.
use std::collections::{BTreeMap, BinaryHeap};

pub type W = u128;

/// What an input graph must contain: the lightest accepted weight per ordered pair.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Ledger {
    pub edges: BTreeMap<(usize, usize), usize>,
    pub num_nodes: usize,
}
impl Ledger {
    /// Number of edges accepted
    pub fn add(&mut self, f: usize, t: usize, w: usize, bidir: bool) -> usize {
        if f == t || w == 0 {
            return 0;
        }
        self.num_nodes = self.num_nodes.max(f + 1).max(t + 1);
        let mut put = |a, b| {
            let e = self.edges.entry((a, b)).or_insert(w);
            *e = (*e).min(w);
        };
        put(f, t);
        if bidir {
            put(t, f);
            2
        } else {
            1
        }
    }
}

pub struct Model {
    pub n: usize,
    pub ledger: Ledger,
    adj: Vec<Vec<(usize, usize)>>,
    cache: std::cell::RefCell<BTreeMap<usize, std::rc::Rc<Vec<Option<W>>>>>,
}
// only the holder of the token (or the main thread) uses a model
unsafe impl Send for Model {}
unsafe impl Sync for Model {}

impl Model {
    pub fn new(ledger: Ledger) -> Model {
        let mut adj = vec![Vec::new(); ledger.num_nodes];
        for (&(f, t), &w) in &ledger.edges {
            adj[f].push((t, w));
        }
        Model { n: ledger.num_nodes, ledger, adj, cache: Default::default() }
    }
    fn dijkstra(&self, sources: &[(usize, W)]) -> Vec<Option<W>> {
        let mut dist: Vec<Option<W>> = vec![None; self.n];
        let mut heap = BinaryHeap::new();
        for &(s, w) in sources {
            if dist[s].map_or(true, |d| w < d) {
                dist[s] = Some(w);
                heap.push((std::cmp::Reverse(w), s));
            }
        }
        while let Some((std::cmp::Reverse(d), u)) = heap.pop() {
            if dist[u] != Some(d) {
                continue;
            }
            for &(v, w) in &self.adj[u] {
                let x = d + w as W;
                if dist[v].map_or(true, |y| x < y) {
                    dist[v] = Some(x);
                    heap.push((std::cmp::Reverse(x), v));
                }
            }
        }
        dist
    }
    pub fn dist(&self, s: usize, t: usize) -> Option<W> {
        // weights from the maximum on do not count
        let fits = |w: Option<W>| w.filter(|w| *w < usize::MAX as W);
        if let Some(d) = self.cache.borrow().get(&s) {
            return fits(d[t]);
        }
        let d = std::rc::Rc::new(self.dijkstra(&[(s, 0)]));
        let r = d[t];
        let mut c = self.cache.borrow_mut();
        if c.len() > 400 {
            c.clear();
        }
        c.insert(s, d);
        fits(r)
    }
    pub fn multi(&self, ss: &[(usize, usize)], ts: &[(usize, usize)]) -> Option<W> {
        let s: Vec<(usize, W)> = ss.iter().filter(|x| x.1 != usize::MAX).map(|x| (x.0, x.1 as W)).collect();
        if s.is_empty() {
            return None;
        }
        let d = self.dijkstra(&s);
        ts.iter().filter(|x| x.1 != usize::MAX).filter_map(|x| d[x.0].map(|y| y + x.1 as W)).min().filter(|w| *w < usize::MAX as W)
    }
    /// Weight of a node sequence over the lightest edges
    pub fn path_weight(&self, nodes: &[usize]) -> Option<W> {
        let mut sum = 0;
        for p in nodes.windows(2) {
            sum += *self.ledger.edges.get(&(p[0], p[1]))? as W;
        }
        Some(sum)
    }
}
