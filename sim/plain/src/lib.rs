//! Dijkstra's algorithm, compiled like the library under test, so that its steps can be compared with
//! those of the library.
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub struct Plain {
    first: Vec<usize>,
    edges: Vec<(usize, usize)>,
    weights: Vec<usize>,
    heap: BinaryHeap<(Reverse<usize>, usize)>,
}

impl Plain {
    /// The edges are sorted by their first node.
    pub fn new(n: usize, edges: &[(usize, usize, usize)]) -> Plain {
        let mut first = vec![0; n + 1];
        for e in edges {
            first[e.0 + 1] += 1;
        }
        for i in 0..n {
            first[i + 1] += first[i];
        }
        Plain { first, edges: edges.iter().map(|e| (e.1, e.2)).collect(), weights: Vec::new(), heap: BinaryHeap::new() }
    }

    pub fn search(&mut self, from: usize, to: usize) -> Option<usize> {
        self.weights.clear();
        self.weights.resize(self.first.len() - 1, usize::MAX);
        self.heap.clear();
        self.weights[from] = 0;
        self.heap.push((Reverse(0), from));
        while let Some((Reverse(w), node)) = self.heap.pop() {
            if node == to {
                return Some(w);
            }
            if w > self.weights[node] {
                continue;
            }
            for i in self.first[node]..self.first[node + 1] {
                let (adj, x) = self.edges[i];
                let x = w.saturating_add(x);
                if x < self.weights[adj] {
                    self.weights[adj] = x;
                    self.heap.push((Reverse(x), adj));
                }
            }
        }
        None
    }
}
