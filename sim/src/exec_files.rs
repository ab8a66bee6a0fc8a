//! The ledger of edges, images on streams, text files on the simulated disk.
use crate::disk::{self, Fault, Plan};
use crate::driver::out;
use crate::exec::*;
use crate::graphs::{self, prepare, Prep, E};
use crate::model::{Ledger, Model};
use crate::rng::Rng;
use crate::rt::{self, End, Sched};
use crate::scen::*;
use fast_paths::{FastGraph, FastGraph32, InputGraph};
use std::collections::BTreeMap;
use std::io::{Read, Write};

/// (from, to, weight) of a frozen input graph, and its number of nodes
fn look(g: &InputGraph) -> (Vec<(usize, usize, usize)>, usize, usize) {
    (g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect(), g.get_num_nodes(), g.get_num_edges())
}
/// What differs between a frozen input graph and the ledger
fn differs(x: &(Vec<(usize, usize, usize)>, usize, usize), l: &Ledger) -> Option<String> {
    let (edges, n, m) = x;
    let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for e in edges {
        if got.insert((e.0, e.1), e.2).is_some() {
            return Some(format!("edge {} -> {} is there twice", e.0, e.1));
        }
    }
    if got != l.edges {
        for (k, v) in &l.edges {
            match got.get(k) {
                None => return Some(format!("edge {} -> {} with weight {} is missing", k.0, k.1, v)),
                Some(w) if w != v => return Some(format!("edge {} -> {} has weight {}, not {}", k.0, k.1, w, v)),
                _ => {}
            }
        }
        return Some(format!("{} edges instead of {}", got.len(), l.edges.len()));
    }
    if *m != l.edges.len() {
        return Some(format!("get_num_edges is {}, not {}", m, l.edges.len()));
    }
    if *n != l.num_nodes {
        return Some(format!("{} nodes instead of {}", n, l.num_nodes));
    }
    None
}

// ---- C11 ----------------------------------------------------------------------------------------

pub fn book(w: &Book) {
    let mut v = vec![(w.env.clone(), Body::new(|| book_task(0, &w.ops, &w.log_panics)))];
    for (t, m) in w.mates.iter().enumerate() {
        v.push((m.0.clone(), Body::new(move || book_task(t + 1, &m.1, &[]))));
    }
    run_tasks(v, &w.sched);
}
fn book_task(t: usize, ops: &[BookOp], log_panics: &[u32]) {
    let mut g = InputGraph::new();
    let mut l = Ledger::default();
    let mut frozen = false;
    let mut records = 0u32;
    let mut snapshots: Vec<(InputGraph, Ledger)> = Vec::new();
    let quota = |records: u32| log_panics.iter().filter(|p| **p >= records).min().map(|p| p - records);
    const LOGGER: &str = "simulated logger failure";
    for (k, op) in ops.iter().enumerate() {
        let mut adds: Vec<E> = Vec::new();
        match op {
            BookOp::Add(a, b, x) => adds.push((*a, *b, *x, 0)),
            BookOp::Bidir(a, b, x) => adds.push((*a, *b, *x, 1)),
            BookOp::Many(c, n, mode, seed) => {
                let mut r = Rng::new(*seed);
                let n = (*n).max(1);
                for _ in 0..(*c).min(100_000) {
                    adds.push((r.below(n), r.below(n), graphs::weight(&mut r, *mode), r.below(2) as u8));
                }
            }
            _ => {}
        }
        for (a, b, x, bi) in adds {
            let id = |x: usize| if x == usize::MAX { x } else { x.min(1 << 48) };
            let (a, b) = (id(a), id(b));
            let reserved = a == usize::MAX || b == usize::MAX;
            log_panic_at(quota(records));
            let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || if bi != 0 { g.add_edge_bidir(a, b, x) } else { g.add_edge(a, b, x) });
            records += log_seen();
            log_panic_at(None);
            out().checks += 1;
            out().stat("edges offered", 1);
            if frozen {
                if let Ok(n) = r {
                    out().bad("misuse", t, k, format!("adding an edge to a frozen graph returned {}", n));
                    return;
                }
                continue;
            }
            if reserved {
                // must not be accepted; nothing may be recorded
                out().stat("reserved node ids", 1);
                if let Ok(n) = r {
                    if n > 0 || (a != b && x > 0) {
                        out().bad("count", t, k, format!("adding {} -> {} with weight {} returned {}", a, b, x, n));
                        return;
                    }
                }
                continue;
            }
            match r {
                Ok(n) => {
                    let e = l.add(a, b, x, bi != 0);
                    if n != e {
                        out().bad("count", t, k, format!("adding {} -> {} with weight {} (bidir: {}) returned {} instead of {}", a, b, x, bi, n, e));
                    }
                }
                Err(m) if m == LOGGER => {
                    let mut l2 = l.clone();
                    if l2.add(a, b, x, bi != 0) > 0 {
                        // accepted or not: unknown
                        out().stat("undecided", 1);
                        return;
                    }
                }
                Err(m) => {
                    out().bad("panic", t, k, format!("adding {} -> {} with weight {} panicked: {}", a, b, x, m));
                    return;
                }
            }
        }
        match op {
            BookOp::Freeze => {
                log_panic_at(quota(records));
                let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || g.freeze());
                records += log_seen();
                log_panic_at(None);
                out().checks += 1;
                match r {
                    Ok(()) if frozen => {
                        out().bad("misuse", t, k, "freezing a frozen graph did not panic".into());
                        return;
                    }
                    Ok(()) => frozen = true,
                    Err(_) if frozen => {}
                    Err(m) if m == LOGGER => {
                        // either is fine, but we have to know
                        frozen = lib(t, k, Kind::Other, QUERY_CAP, || g.get_num_nodes()).0.is_ok();
                    }
                    Err(m) => {
                        out().bad("panic", t, k, format!("freezing panicked: {}", m));
                        return;
                    }
                }
                out().stat("freezes", 1);
            }
            BookOp::Thaw => {
                let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || g.thaw());
                if frozen && r.is_err() {
                    out().bad("panic", t, k, "thawing a frozen graph panicked".into());
                    return;
                }
                frozen = false;
                out().stat("thaws", 1);
            }
            BookOp::Clone => {
                let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || g.clone());
                match r {
                    Ok(c) => {
                        // work continues on the clone, the original is looked at in the end
                        let old = std::mem::replace(&mut g, c);
                        if snapshots.len() < 6 {
                            snapshots.push((old, l.clone()));
                        }
                    }
                    Err(m) => out().bad("panic", t, k, format!("clone panicked: {}", m)),
                }
            }
            BookOp::Serde => {
                // a frozen graph restored from its bytes goes on as before
                if frozen {
                    if let Ok(c) = bincode::serialize(&g).and_then(|b| bincode::deserialize(&b)) {
                        g = c;
                    }
                }
            }
            BookOp::Inspect | BookOp::Prepare => {
                if frozen {
                    inspect(t, &g, &l, k);
                    if matches!(op, BookOp::Prepare) && l.num_nodes < 400 && l.edges.len() < 300 {
                        let (r, _) = lib(t, k, Kind::Other, PREP_CAP, || prepare(&g, &Prep::Default, false).get_num_nodes());
                        if let Ok(n) = r {
                            if n != l.num_nodes {
                                out().bad("ledger", t, k, format!("prepared graph has {} nodes instead of {}", n, l.num_nodes));
                            }
                        }
                        inspect(t, &g, &l, k);
                    }
                } else {
                    let a = lib(t, k, Kind::Other, QUERY_CAP, || g.get_edges().len()).0.is_ok();
                    let b = lib(t, k, Kind::Other, QUERY_CAP, || g.get_num_nodes()).0.is_ok();
                    let c = lib(t, k, Kind::Other, QUERY_CAP, || g.get_num_edges()).0.is_ok();
                    let d = matches!(op, BookOp::Prepare)
                        && lib(t, k, Kind::Other, PREP_CAP, || fast_paths::prepare(&g).get_num_nodes()).0.is_ok();
                    out().checks += 1;
                    if a || b || c || d {
                        out().bad("misuse", t, k, format!("inspecting a graph that is not frozen did not panic ({} {} {} {})", a, b, c, d));
                        return;
                    }
                }
            }
            _ => {}
        }
        if !out().violations.is_empty() {
            return;
        }
    }
    let end = ops.len();
    snapshots.push((g, l));
    for (mut g, l) in snapshots {
        let was_frozen = lib(t, end, Kind::Other, QUERY_CAP, || g.get_num_nodes()).0.is_ok();
        if !was_frozen {
            let (r, _) = lib(t, end, Kind::Other, QUERY_CAP, || g.freeze());
            if let Err(m) = r {
                out().bad("panic", t, end, format!("freezing panicked: {}", m));
                return;
            }
        }
        inspect(t, &g, &l, end);
        out().nontrivial |= l.edges.len() > 1;
    }
}
fn inspect(t: usize, g: &InputGraph, l: &Ledger, k: usize) {
    out().checks += 1;
    match lib(t, k, Kind::Other, QUERY_CAP, || look(g)).0 {
        Err(m) => out().bad("panic", t, k, format!("inspecting a frozen graph panicked: {}", m)),
        Ok(x) => {
            rt::rt().trace.add(x.0.len() as u64);
            if let Some(d) = differs(&x, l) {
                out().bad("ledger", t, k, d);
            }
        }
    }
}

// ---- C12, C13 -----------------------------------------------------------------------------------

/// A stream in which the n-th call may go wrong.
pub struct Stream<'a> {
    data: &'a mut Vec<u8>,
    pos: usize,
    calls: u32,
    plan: &'a Plan,
    pub hard: bool,
}
impl<'a> Stream<'a> {
    pub fn new(data: &'a mut Vec<u8>, plan: &'a Plan) -> Stream<'a> {
        Stream { data, pos: 0, calls: 0, plan, hard: false }
    }
    fn fault(&mut self, write: bool, n: usize) -> std::io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        rt::tick(10);
        let list = if write { &self.plan.writes } else { &self.plan.reads };
        let f = list.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let mut max = n;
        rt::exempt(|| match f {
            Some(Fault::Short(b)) => {
                max = max.min(b.max(1) as usize);
                Ok(())
            }
            Some(Fault::Eintr) => {
                out().stat("interrupted stream calls", 1);
                Err(std::io::ErrorKind::Interrupted.into())
            }
            Some(Fault::Eio) => {
                self.hard = true;
                out().stat("failed stream calls", 1);
                Err(std::io::Error::from_raw_os_error(libc::EIO))
            }
            Some(Fault::Enospc) => {
                self.hard = true;
                out().stat("stream calls without room", 1);
                if write {
                    Ok(())
                } else {
                    Err(std::io::ErrorKind::UnexpectedEof.into())
                }
            }
            _ => Ok(()),
        })?;
        if write && matches!(f, Some(Fault::Enospc)) && n > 0 {
            return Ok(0); // what a full fixed-size writer does
        }
        if let Some(c) = self.plan.chunk {
            max = max.min(c.max(1) as usize);
        }
        if write {
            if let Some(c) = self.plan.capacity {
                let room = (c as usize).saturating_sub(self.data.len());
                if room == 0 && n > 0 {
                    self.hard = true;
                    rt::exempt(|| out().stat("stream calls without room", 1));
                    return Ok(0);
                }
                max = max.min(room);
            }
            if let Some(Fault::Crash(b)) = list.iter().find(|x| x.0 == k).map(|x| &x.1) {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("crash {}", b)));
            }
        }
        if max < n {
            rt::exempt(|| out().stat("short stream transfers", 1));
        }
        Ok(max)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self.fault(true, b.len()) {
            Ok(m) => {
                rt::exempt(|| self.data.extend_from_slice(&b[..m]));
                Ok(m)
            }
            Err(e) => {
                if let Some(x) = e.get_ref().map(|x| x.to_string()).and_then(|x| x.strip_prefix("crash ").map(|y| y.to_string())) {
                    let m: usize = x.parse().unwrap_or(0);
                    rt::exempt(|| {
                        out().stat("crashes in a save", 1);
                        self.data.extend_from_slice(&b[..m.min(b.len())])
                    });
                    rt::crash();
                }
                Err(e)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        let m = self.fault(false, b.len().min(left))?;
        let m = m.min(left).min(b.len());
        b[..m].copy_from_slice(&self.data[self.pos..self.pos + m]);
        self.pos += m;
        Ok(m)
    }
}

enum Thing {
    Fast(FastGraph),
    Input(InputGraph),
}
struct Store {
    fast: FastGraph,
    input: InputGraph,
    model: Model,
    /// bytes of an undisturbed save
    clean: Option<Vec<u8>>,
    saved: Vec<u8>,
    result: Option<Result<Result<(), String>, String>>,
    hard: bool,
    fits: bool,
}

fn save(w: &Image, st: &Store, mut to: Stream) -> (Result<(), String>, bool) {
    macro_rules! put {
        ($x:expr) => {
            if w.json {
                serde_json::to_writer(&mut to, $x).map_err(|e| e.to_string())
            } else {
                bincode::serialize_into(&mut to, $x).map_err(|e| e.to_string())
            }
        };
    }
    let r = match w.what % 4 {
        0 => put!(&st.fast),
        1 => put!(&st.input),
        2 => put!(&FastGraph32::new(&st.fast)),
        _ => {
            if w.json {
                let mut s = serde_json::Serializer::new(&mut to);
                fast_paths::serialize_32(&st.fast, &mut s).map_err(|e| e.to_string())
            } else {
                let mut s = bincode::Serializer::new(&mut to, bincode_options());
                fast_paths::serialize_32(&st.fast, &mut s).map_err(|e| e.to_string())
            }
        }
    };
    (r, to.hard)
}
fn bincode_options() -> impl bincode::Options {
    use bincode::Options;
    bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes()
}
fn load(w: &Image, from: &mut Stream) -> Result<Thing, String> {
    macro_rules! get {
        ($t:ty) => {
            if w.json {
                serde_json::from_reader::<_, $t>(&mut *from).map_err(|e| e.to_string())
            } else {
                bincode::deserialize_from::<_, $t>(&mut *from).map_err(|e| e.to_string())
            }
        };
    }
    Ok(match w.what % 4 {
        0 => Thing::Fast(get!(FastGraph)?),
        1 => Thing::Input(get!(InputGraph)?),
        2 => Thing::Fast(get!(FastGraph32)?.convert_to_usize()),
        _ => {
            if w.json {
                let mut d = serde_json::Deserializer::from_reader(&mut *from);
                let f = fast_paths::deserialize_32(&mut d).map_err(|e| e.to_string())?;
                d.end().map_err(|e| e.to_string())?;
                Thing::Fast(f)
            } else {
                let mut d = bincode::Deserializer::with_reader(&mut *from, bincode_options());
                Thing::Fast(fast_paths::deserialize_32(&mut d).map_err(|e| e.to_string())?)
            }
        }
    })
}

pub fn image(s: &Scenario, w: &Image) {
    let c13 = s.prop == "C13";
    let mut stores: Vec<Store> = Vec::new();
    let sp = Sh::new(&mut stores);
    let none = Plan::default();
    let last = w.graphs.len().saturating_sub(1);
    // the process that saves one generation after the other, over the same place
    let end = run_alone(&w.env, || {
        for (i, (g, p)) in w.graphs.iter().enumerate() {
            let edges = g.edges();
            let (r, _) = lib(0, i, Kind::Other, PREP_CAP, || {
                let input = graphs::input_of(&edges);
                let f = prepare(&input, p, false);
                (f, input)
            });
            let (fast, input) = match r {
                Ok(x) => x,
                Err(_) => return,
            };
            let fits = fits32(&fast);
            sp.get().push(Store { fast, input, model: Model::new(g.ledger()), clean: None, saved: Vec::new(), result: None, hard: false, fits });
            let st = sp.get().last_mut().unwrap();
            // undisturbed
            let mut clean = Vec::new();
            let r = lib(0, i, Kind::Other, PREP_CAP, || save(w, st, Stream { data: &mut clean, pos: 0, calls: 0, plan: &none, hard: false })).0;
            if let Ok((Ok(()), _)) = &r {
                st.clean = Some(clean);
            }
            if i < last {
                st.result = Some(r.map(|x| x.0));
                st.saved = st.clean.clone().unwrap_or_default();
            } else {
                // crashes leave what was written so far
                let keep = Sh::new(&mut st.saved);
                let copy = Sh::new(st);
                let (r, _) = lib(0, i, Kind::Other, PREP_CAP, || {
                    let x = copy.get();
                    save(w, x, Stream { data: keep.get(), pos: 0, calls: 0, plan: &w.save, hard: false })
                });
                match r {
                    Ok((r, hard)) => {
                        st.hard = hard;
                        st.result = Some(Ok(r));
                    }
                    Err(m) => st.result = Some(Err(m)),
                }
            }
        }
    });
    out().stat("processes died", (end == End::Crashed) as u64);
    let stores = sp.get();
    if w.together && stores.len() > 1 {
        // the same saves by several tasks at once
        let bodies = stores
            .iter_mut()
            .enumerate()
            .map(|(i, st)| {
                let none = &none;
                let b = Body::new(move || {
                    let mut bytes = Vec::new();
                    let r = lib(i, i, Kind::Other, PREP_CAP, || save(w, st, Stream { data: &mut bytes, pos: 0, calls: 0, plan: none, hard: false })).0;
                    if let (Ok((Ok(()), _)), Some(clean)) = (r, &st.clean) {
                        out().stat("concurrent saves", 1);
                        out().checks += 1;
                        if *clean != bytes {
                            out().bad("image", i, i, "the same object was serialized differently while other threads serialized".into());
                        }
                    }
                });
                (w.env.clone(), b)
            })
            .collect();
        run_tasks(bodies, &w.sched);
    }
    if w.slot && end != End::Crashed {
        // one program variable that holds one generation after the other
        run_alone(&w.env, || {
            let mut cur: Option<Box<Store>> = None;
            for k in 0..2 * stores.len() {
                let st = &stores[k % stores.len()];
                let clean = match &st.clean {
                    Some(c) => c,
                    None => continue,
                };
                let r = lib(0, k, Kind::Other, QUERY_CAP, || (st.fast.clone(), st.input.clone())).0;
                let (fast, input) = match r {
                    Ok(x) => x,
                    Err(_) => return,
                };
                match &mut cur {
                    Some(c) => {
                        c.fast = fast;
                        c.input = input;
                    }
                    None => {
                        let model = Model::new(Ledger::default());
                        cur = Some(Box::new(Store { fast, input, model, clean: None, saved: Vec::new(), result: None, hard: false, fits: true }));
                    }
                }
                let mut bytes = Vec::new();
                let c = cur.as_ref().unwrap();
                let r = lib(0, k, Kind::Other, PREP_CAP, || save(w, c, Stream { data: &mut bytes, pos: 0, calls: 0, plan: &none, hard: false })).0;
                if let Ok((Ok(()), _)) = r {
                    out().checks += 1;
                    out().stat("saves from one place", 1);
                    if *clean != bytes {
                        out().bad("image", 0, k, "an object that replaced another one in place was serialized differently".into());
                        return;
                    }
                }
            }
        });
    }
    // restart: whatever is in the store is loaded
    let bodies = |from: usize, to: usize| {
        let stores = sp.get();
        let b = Body::new(move || {
            for i in from..to {
                check_image(w, c13, i, i == last, &mut stores[i], end == End::Crashed && i == last);
            }
        });
        (w.env.clone(), b)
    };
    let n = stores.len();
    if w.together {
        run_tasks((0..n).map(|i| bodies(i, i + 1)).collect(), &w.sched);
    } else {
        run_tasks(vec![bodies(0, n)], &Sched::default());
    }
}

fn check_image(w: &Image, c13: bool, i: usize, is_last: bool, st: &mut Store, crashed: bool) {
    let o = out();
    o.checks += 1;
    if !crashed {
        match &st.result {
            None => return,
            Some(Err(m)) => {
                // a panic: only the conversion to 32 bit may refuse like this
                if !c13 || st.fits {
                    o.bad("save", 0, i, format!("saving panicked: {}", m));
                } else {
                    o.stat("images refused", 1);
                }
                return;
            }
            Some(Ok(Err(m))) => {
                if c13 && !st.fits {
                    o.stat("images refused", 1);
                    return;
                }
                if !st.hard {
                    o.bad("save", 0, i, format!("saving failed although no call failed: {}", m));
                    return;
                }
                o.stat("saves failed", 1);
                // what is in the store now is like after a crash
            }
            Some(Ok(Ok(()))) => {
                if c13 && !st.fits {
                    o.bad("altered", 0, i, "a graph with a value that does not fit into 32 bits was saved".into());
                }
                if st.hard {
                    o.bad("save", 0, i, "saving reported success although a call had failed".into());
                    return;
                }
                o.stat("saves succeeded", 1);
            }
        }
    }
    let clean = match &st.clean {
        Some(c) => c.clone(),
        None => return,
    };
    let mut bytes = st.saved.clone();
    let ok_saved = !crashed && matches!(st.result, Some(Ok(Ok(()))));
    if ok_saved && bytes != clean {
        o.bad("save", 0, i, format!("saved {} bytes that differ from the {} of an undisturbed save", bytes.len(), clean.len()));
        return;
    }
    if is_last {
        if let Some(c) = w.cut {
            bytes.truncate(if bytes.is_empty() { 0 } else { c as usize % bytes.len() });
        }
    }
    let whole = bytes == clean;
    rt::rt().trace.add_bytes(&bytes);
    let none = Plan::default();
    let mut from = Stream { data: &mut bytes, pos: 0, calls: 0, plan: if is_last { &w.load } else { &none }, hard: false };
    let (r, _) = lib(0, 100 + i, Kind::Other, PREP_CAP, || load(w, &mut from));
    let hard = from.hard;
    let n = from.data.len();
    o.nontrivial |= n > 300 && (is_last && (!whole || hard || w.load.chunk.is_some() || !w.load.reads.is_empty() || !w.save.writes.is_empty()));
    let thing = match r {
        Err(m) if whole || hard => {
            o.bad("load", 0, 100 + i, format!("loading {} bytes (stream failed: {}) panicked: {}", n, hard, m));
            return;
        }
        Err(_) => {
            o.stat("damaged images refused", 1);
            return;
        }
        Ok(Err(m)) => {
            if whole && !hard {
                o.bad("load", 0, 100 + i, format!("an undamaged image of {} bytes was refused: {}", n, m));
            } else {
                o.stat(if hard { "failed loads reported" } else { "damaged images refused" }, 1);
            }
            return;
        }
        Ok(Ok(t)) => t,
    };
    if hard {
        o.bad("load", 0, 100 + i, "a graph was loaded although the stream had failed".into());
        return;
    }
    if !whole {
        o.bad("cut", 0, 100 + i, format!("{} of {} bytes were loaded as a graph", n, clean.len()));
        return;
    }
    o.stat("images restored", 1);
    match thing {
        Thing::Input(g) => {
            if bincode::serialize(&g).ok() != bincode::serialize(&st.input).ok() {
                o.bad("restored", 0, 100 + i, "the restored input graph serializes differently".into());
            }
            let x = lib(0, 100 + i, Kind::Other, QUERY_CAP, || look(&g)).0;
            match x {
                Ok(x) => {
                    if let Ok(y) = lib(0, 100 + i, Kind::Other, QUERY_CAP, || look(&st.input)).0 {
                        if x != y {
                            o.bad("restored", 0, 100 + i, "the restored input graph has other edges".into());
                        }
                    }
                }
                Err(m) => o.bad("restored", 0, 100 + i, format!("the restored input graph panics: {}", m)),
            }
        }
        Thing::Fast(f) => {
            let same = |f: &FastGraph| bincode::serialize(f).ok() == bincode::serialize(&st.fast).ok();
            if w.what % 4 == 0 && !same(&f) {
                o.bad("restored", 0, 100 + i, "the restored graph serializes differently".into());
            }
            let a = lib(0, 100 + i, Kind::Other, QUERY_CAP, || fast_paths::get_node_ordering(&st.fast)).0;
            let b = lib(0, 100 + i, Kind::Other, QUERY_CAP, || fast_paths::get_node_ordering(&f)).0;
            if a != b && a.is_ok() {
                o.bad("restored", 0, 100 + i, "the restored graph has another node ordering".into());
            }
            let n = st.model.n;
            if n == 0 {
                return;
            }
            let mut qs: Vec<(usize, usize)> = w.queries.iter().map(|q| (q.0 % n, q.1 % n)).collect();
            if n <= 12 {
                qs.extend((0..n * n).map(|i| (i / n, i % n)));
            }
            // an existing calculator serves both
            let mut calc = fast_paths::create_calculator(&st.fast);
            for (a, b) in qs {
                let x = lib(0, 100 + i, Kind::Other, QUERY_CAP, || calc.calc_path(&st.fast, a, b)).0;
                let x = match x {
                    Ok(x) => x,
                    Err(_) => return, // not the image's fault
                };
                let y = lib(0, 100 + i, Kind::Other, QUERY_CAP, || calc.calc_path(&f, a, b)).0;
                o.checks += 1;
                o.stat("answers compared", 1);
                match y {
                    Err(m) => {
                        o.bad("restored", 0, 100 + i, format!("query from {} to {} on the restored graph panicked: {}", a, b, m));
                        return;
                    }
                    Ok(y) => {
                        let (p, q) = (x.as_ref().map(|p| (p.get_weight(), p.get_nodes().clone())), y.as_ref().map(|p| (p.get_weight(), p.get_nodes().clone())));
                        if p != q {
                            o.bad("restored", 0, 100 + i, format!("query from {} to {}: {:?} before, {:?} on the restored graph", a, b, p, q));
                            return;
                        }
                    }
                }
            }
        }
    }
}

// ---- C14, C15, C16 ------------------------------------------------------------------------------

/// Independent reading of a text file: the lines with edges, header.
struct Parsed {
    arcs: Vec<(usize, usize, usize)>,
    header: Option<(usize, usize)>,
    other: usize,
}
fn parse(b: &[u8]) -> Option<Parsed> {
    let mut p = Parsed { arcs: Vec::new(), header: None, other: 0 };
    if b.is_empty() {
        return Some(p);
    }
    let text = std::str::from_utf8(b).ok()?;
    let body = text.strip_suffix('\n')?;
    for line in body.split('\n') {
        let t: Vec<&str> = line.split_whitespace().collect();
        match t.first() {
            Some(&"a") if t.len() == 4 => p.arcs.push((t[1].parse().ok()?, t[2].parse().ok()?, t[3].parse().ok()?)),
            Some(&"p") if t.len() == 4 && t[1] == "sp" && p.header.is_none() && p.arcs.is_empty() => p.header = Some((t[2].parse().ok()?, t[3].parse().ok()?)),
            Some(&"a") | Some(&"p") => return None,
            Some(&"c") | None => {}
            _ => p.other += 1,
        }
    }
    Some(p)
}

fn all_edges(w: &Text) -> Vec<E> {
    let mut e: Vec<E> = w.edges.iter().map(|x| (x.0.min(1 << 40), x.1.min(1 << 40), x.2, x.3)).collect();
    if let Some((c, n, mode, seed)) = w.more {
        let mut r = Rng::new(seed);
        let n = n.max(1);
        for _ in 0..c.min(60_000) {
            e.push((r.below(n), r.below(n), graphs::weight(&mut r, mode), 0));
        }
    }
    e
}

/// The file as some other program would have written it.
fn write_by_hand(w: &Text, style: &Style) -> Vec<u8> {
    let e = all_edges(w);
    let mut arcs: Vec<(usize, usize, usize)> = Vec::new();
    for x in &e {
        arcs.push((x.0, x.1, x.2));
        if x.3 != 0 {
            arcs.push((x.1, x.0, x.2));
        }
        if style.duplicates && x.2 > 0 && x.2 < usize::MAX {
            arcs.push((x.0, x.1, x.2 + 1));
        }
    }
    let one = w.dimacs as usize;
    let n = arcs.iter().map(|a| a.0.max(a.1) + 1).max().unwrap_or(0);
    let mut lines: Vec<String> = Vec::new();
    let noise = |at: usize, lines: &mut Vec<String>| {
        for (k, what) in &style.noise {
            if *k as usize % (arcs.len() + 2) == at {
                lines.push(match (what % 8, w.dimacs) {
                    (0, _) => "c a comment".to_string(),
                    (1, _) => String::new(),
                    (2, _) => format!("c {}", "long ".repeat(2000)),
                    (3, _) => "c".to_string(),
                    (4, _) => "c a 1 2 3".to_string(),
                    (5, true) => "c \u{00e4}\u{1f600}".to_string(),
                    (6, false) => "# b 1 2 3".to_string(),
                    (7, false) => "x\u{00e4}".to_string(),
                    _ => "c p sp 1 1".to_string(),
                });
            }
        }
    };
    noise(0, &mut lines);
    if w.dimacs {
        lines.push(format!("p sp {} {}", n, arcs.len()));
    }
    for (i, a) in arcs.iter().enumerate() {
        let (f, t) = (a.0 + one, a.1 + one);
        lines.push(if style.wide && i % 3 == 1 {
            format!("a  {}\t{}   {} ", f, t, a.2)
        } else if style.wide && i % 3 == 2 {
            format!("a {:04} {} {:09}", f, t, a.2)
        } else {
            format!("a {} {} {}", f, t, a.2)
        });
        noise(i + 1, &mut lines);
    }
    let nl = if style.crlf { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if !style.no_final_newline && !lines.is_empty() {
        s.push_str(nl);
    }
    s.into_bytes()
}

fn damage(b: &[u8], d: &[Damage]) -> Vec<u8> {
    let mut v = b.to_vec();
    // lines both lost and repeated may cancel out
    let repeats = d.iter().any(|x| matches!(x, Damage::RepeatLine(_)));
    for x in d {
        match x {
            Damage::Cut(n) if !repeats => {
                let l = v.len() as i64;
                let at = if *n < 0 { l + n } else { *n };
                v.truncate(at.clamp(0, l) as usize);
            }
            Damage::Zero(k) if !repeats => {
                let blocks = v.len().div_ceil(512);
                if blocks > 0 {
                    let k = *k as usize % blocks;
                    let end = (k * 512 + 512).min(v.len());
                    v[k * 512..end].fill(0);
                }
            }
            Damage::ZeroFrom(n, len) if !repeats => {
                let l = v.len() as i64;
                let at = (if *n < 0 { l + n } else { *n }).clamp(0, l) as usize;
                let end = (at + *len as usize).min(v.len());
                v[at..end].fill(0);
            }
            Damage::DropLine(k) | Damage::RepeatLine(k) => {
                if matches!(x, Damage::DropLine(_)) && repeats {
                    continue;
                }
                let mut starts = vec![0];
                starts.extend(v.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
                if *starts.last().unwrap() != v.len() {
                    starts.push(v.len());
                }
                let lines = starts.len() - 1;
                if lines > 0 {
                    let k = *k as usize % lines;
                    let line: Vec<u8> = v[starts[k]..starts[k + 1]].to_vec();
                    if matches!(x, Damage::DropLine(_)) {
                        v.drain(starts[k]..starts[k + 1]);
                    } else {
                        let at = starts[k];
                        v.splice(at..at, line);
                    }
                }
            }
            Damage::Byte(k, c) => {
                if !v.is_empty() {
                    let k = *k as usize % v.len();
                    v[k] = *c | 0x80;
                }
            }
            _ => {}
        }
    }
    v
}

/// Names of the file and of the companion's file.
const NAMES: [(&str, &str); 10] = [
    ("/fpsim/graph.txt", "/fpsim/mate.txt"),
    ("/fpsim/graph.dist", "/fpsim/graph.time"),
    ("/fpsim/graph", "/fpsim/graph.tmp"),
    ("/fpsim/graph.txt.tmp", "/fpsim/graph.txt"),
    ("/fpsim/graph.txt", "/fpsim/graph.txt~"),
    ("/fpsim/a/graph.txt", "/fpsim/b/graph.txt"),
    ("/fpsim/graph.gr", "/fpsim/graph.gr.part"),
    ("/fpsim/.graph.gr", "/fpsim/graph.gr"),
    ("/fpsim/a.b/c", "/fpsim/a.tmp"),
    ("/fpsim/\u{e4} x.gr", "/fpsim/\u{e4} x.bak"),
];
fn paths(w: &Text) -> (&'static str, &'static str) {
    NAMES[w.names as usize % NAMES.len()]
}
/// Files next to the exported one that are none of the library's business.
fn bystanders(w: &Text) -> Vec<(String, Vec<u8>)> {
    if !w.bystanders {
        return vec![];
    }
    let (a, b) = paths(w);
    let stem = a.rsplit_once('.').map_or(a, |x| x.0);
    let (dir, base) = a.rsplit_once('/').unwrap();
    let mut v: Vec<String> = [".tmp", ".temp", ".bak", ".part", ".new", ".old", ".lock", ".swp", "~", ".0", ".1"].iter().map(|x| format!("{}{}", a, x)).collect();
    v.extend([".tmp", ".temp", ".bak", ".part", ".new", "~"].iter().map(|x| format!("{}{}", stem, x)));
    v.push(format!("{}/.{}.tmp", dir, base));
    v.push(format!("{}/.{}.swp", dir, base));
    v.push(format!("{}/tmp", dir));
    v.sort();
    v.dedup();
    v.retain(|x| x != a && x != b);
    v.into_iter().enumerate().map(|(i, x)| (x, format!("c {}\n", i).into_bytes())).collect()
}
/// A file that no reader of the format may accept.
fn malformed(kind: u8, dimacs: bool, before: u32) -> Vec<u8> {
    let kind = kind % if dimacs { 23 } else { 9 };
    // kind 19: the header is written behind some arcs
    let n = before.min(3000).max((dimacs && kind == 19) as u32) as usize;
    let one = dimacs as usize;
    let arcs: Vec<String> = (0..n).map(|i| format!("a {} {} {}", i + one, i + 1 + one, i + 7)).collect();
    let beyond = format!("a {} 1 2", n + 6);
    let last = match kind {
        0 => "a 1 2 ",
        1 => "a 1 2 x",
        2 => "a 2",
        3 => "a 1 2 3 4",
        4 => "a 1 2 -3",
        5 => "a 1 2 99999999999999999999999999",
        6 => "a ",
        7 => "a -1 2 3",
        8 => "a 1 2 3.5",
        9 => "b 1 2 3",
        10 => "a 0 1 2",
        11 => "a 1 99999999 2",
        21 => &beyond,
        22 => "a 1 0 2",
        _ => "a 1 2 3",
    };
    let head = match kind {
        _ if !dimacs => String::new(),
        12 | 19 => String::new(),
        13 => format!("p sp {} {}\n", n + 5, n + 2),
        15 => format!("p sp {} {} 7\n", n + 5, n + 1),
        16 => format!("p sp {}\n", n + 5),
        17 => format!("p sp {} {}\n", n + 5, n),
        18 => format!("p sp {} x\n", n + 5),
        20 => format!("p sp -{} {}\n", n + 5, n + 1),
        _ => format!("p sp {} {}\n", n + 5, n + 1),
    };
    let again = match kind {
        14 => head.clone(),
        19 => format!("p sp {} {}\n", n + 5, n + 1),
        _ => String::new(),
    };
    let nl = if before % 2 == 0 { "\n" } else { "" };
    format!("{}{}{}{}{}{}", head, arcs.join("\n"), if n > 0 { "\n" } else { "" }, again, last, nl).into_bytes()
}
/// Imports that fail, on the thread that goes on to work.
fn import_malformed(w: &Text, t: usize) {
    for (k, (kind, dimacs, before)) in w.before.iter().enumerate().take(20) {
        disk::put("/fpsim/bad.txt", &malformed(*kind, *dimacs, *before));
        let (r, _) = lib(t, 200 + k, Kind::Other, QUERY_CAP, || import(*dimacs, "/fpsim/bad.txt"));
        out().checks += 1;
        match r {
            Err(_) => out().stat("malformed files refused", 1),
            Ok(_) => out().bad("malformed", t, 200 + k, format!("a malformed file was read as a graph: {:?}", String::from_utf8_lossy(&malformed(*kind, *dimacs, 0)))),
        }
    }
}
/// Files whose export was reported to be complete.
type Done = Vec<(&'static str, Vec<u8>)>;

fn export(g: &InputGraph, dimacs: bool, path: &str) -> std::io::Result<()> {
    if dimacs {
        g.to_dimacs_file(path)
    } else {
        g.to_file(path)
    }
}
fn import(dimacs: bool, path: &str) -> InputGraph {
    if dimacs {
        InputGraph::from_dimacs_file(path)
    } else {
        InputGraph::from_file(path)
    }
}
/// Only faults that must not matter: short and interrupted calls.
fn soft(p: &Plan) -> Plan {
    let ok = |v: &Vec<(u32, Fault)>| v.iter().filter(|x| matches!(x.1, Fault::Short(_) | Fault::Eintr)).cloned().collect();
    Plan { writes: ok(&p.writes), reads: ok(&p.reads), chunk: p.chunk, ..Plan::default() }
}
fn ledger_of(edges: &[E]) -> Ledger {
    let mut l = Ledger::default();
    for x in edges {
        l.add(x.0, x.1, x.2, x.3 != 0);
    }
    l
}

/// Runs the work of the scenario, and that of its companion at the same time or afterwards.
fn with_mate(w: &Text, plan: &Plan, own: impl FnOnce(bool), mate: impl FnOnce(&Text, bool)) {
    let m = match &w.mate {
        None => {
            run_alone(&w.env, || own(false));
            return;
        }
        Some(m) => m,
    };
    let mt = Text {
        env: m.env.clone(),
        edges: m.edges.clone(),
        more: m.more,
        dimacs: m.dimacs,
        style: Some(Style::default()),
        old: None,
        write: Plan::default(),
        damage: vec![],
        read: Plan::default(),
        times: 1,
        mate: None,
        before: vec![],
        names: w.names,
        bystanders: false,
    };
    out().stat("companions", 1);
    if m.serial {
        run_alone(&w.env, || {
            own(false);
            if out().violations.is_empty() {
                mate(&mt, false);
            }
        });
    } else {
        disk::arm(&soft(plan));
        run_tasks(vec![(w.env.clone(), Body::new(|| own(true))), (m.env.clone(), Body::new(|| mate(&mt, true)))], &m.sched);
        disk::arm(&Plan::default());
    }
}

pub fn text(s: &Scenario, w: &Text) {
    let edges: Vec<E> = all_edges(w);
    let l = ledger_of(&edges);
    let l = &l;
    let edges = &edges;
    let (path, mate_path) = paths(w);
    let others = bystanders(w);
    for (n, c) in &others {
        disk::put(n, c);
    }
    let mut done: Done = Vec::new();
    let done = Sh::new(&mut done);
    let import_mate = |mt: &Text, together: bool| {
        let l = ledger_of(&all_edges(mt));
        check_import(mt, &write_by_hand(mt, &Style::default()), &l, mate_path, 1, together);
    };
    match (s.prop.as_str(), &w.style) {
        ("C15", Some(style)) => {
            // what adding by hand makes of it is the same with heavier duplicates
            let bytes = write_by_hand(w, style);
            let own = |together: bool| {
                import_malformed(w, 0);
                check_import(w, &bytes, l, path, 0, together)
            };
            with_mate(w, &w.read, own, import_mate);
        }
        ("C16", _) => crash_text(w, edges, l),
        ("C15", None) => {
            let mut ok = false;
            let okp = Sh::new(&mut ok);
            run_alone(&w.env, || *okp.get() = do_export("C15", w, edges, 0, path, 0, false, done));
            if ok {
                if let Some(b) = disk::content(path) {
                    let own = |together: bool| {
                        import_malformed(w, 0);
                        check_import(w, &b, l, path, 0, together)
                    };
                    with_mate(w, &w.read, own, import_mate);
                }
            }
        }
        (p, _) => with_mate(
            w,
            &w.write,
            |together| {
                for i in 0..w.times.clamp(1, 3) {
                    do_export(p, w, edges, i as usize, path, 0, together, done);
                    if !out().violations.is_empty() {
                        return;
                    }
                }
            },
            |mt, together| {
                do_export(p, mt, &all_edges(mt), 0, mate_path, 1, together, done);
            },
        ),
    }
    if s.prop == "C14" && out().violations.is_empty() {
        out().checks += (done.get().len() + others.len()) as u64;
        for (n, c) in done.get().iter() {
            if disk::content(n).as_ref() != Some(c) {
                out().bad("changed", 0, 300, format!("the exported file {} was changed afterwards", n));
            }
        }
        for (n, c) in &others {
            if disk::content(n).as_ref() != Some(c) {
                out().bad("changed", 0, 300, format!("exporting to {} changed the file {}", path, n));
            }
        }
    }
}

fn total_hard() -> u64 {
    let f = disk::fired();
    f.eio + f.enospc + f.open + f.sync
}

/// Exports once; true if the call reported success.
#[allow(clippy::too_many_arguments)]
fn do_export(prop: &str, w: &Text, edges: &[E], k: usize, path: &'static str, t: usize, together: bool, done: Sh<Done>) -> bool {
    done.get().retain(|x| x.0 != path);
    if let Some(n) = w.old {
        disk::put(path, &b"a 9 9 9\n".iter().copied().cycle().take(n.min(1 << 20) as usize).collect::<Vec<u8>>());
    }
    let g = match lib(t, k, Kind::Other, PREP_CAP, || graphs::input_of(edges)).0 {
        Ok(g) => g,
        Err(_) => return false,
    };
    // what the graph really holds is the reference for the export
    let held = match lib(t, k, Kind::Other, PREP_CAP, || look(&g)).0 {
        Ok(x) => x,
        Err(_) => return false,
    };
    if !together {
        disk::arm(&w.write);
    }
    let before = total_hard();
    let (r, _) = lib(t, k, Kind::Other, QUERY_CAP, || export(&g, w.dimacs, path));
    let hard = total_hard() > before;
    if !together {
        disk::arm(&Plan::default());
    }
    let content = disk::content(path);
    let o = out();
    o.checks += 1;
    o.nontrivial |= held.0.len() > 1;
    rt::rt().trace.add_bytes(content.as_deref().unwrap_or(b"-"));
    let check = prop == "C14";
    match r {
        Err(m) => {
            if check {
                o.bad("panic", t, k, format!("export panicked: {}", m));
            }
            false
        }
        Ok(Err(e)) => {
            o.stat("exports failed", 1);
            if check && !hard {
                o.bad("refused", t, k, format!("export failed although no call failed: {}", e));
            }
            false
        }
        Ok(Ok(())) => {
            o.stat("exports succeeded", 1);
            if !check {
                return true;
            }
            if hard {
                o.bad("swallowed", t, k, format!("export reported success although a call had failed; {} bytes are on disk", content.map_or(0, |c| c.len())));
                return false;
            }
            let c = match content {
                Some(c) => c,
                None => {
                    o.bad("incomplete", t, k, "export reported success, but there is no file".into());
                    return false;
                }
            };
            let one = w.dimacs as usize;
            let mut want: Vec<_> = held.0.iter().map(|a| (a.0 + one, a.1 + one, a.2)).collect();
            want.sort();
            done.get().push((path, c.clone()));
            match parse(&c) {
                None => o.bad("incomplete", t, k, format!("the exported file of {} bytes is malformed", c.len())),
                Some(mut p) => {
                    p.arcs.sort();
                    if p.other > 0 {
                        o.bad("incomplete", t, k, "the exported file has other lines".into());
                    } else if p.arcs != want {
                        o.bad("incomplete", t, k, format!("the exported file has {} edges, {} of {} right", p.arcs.len(), p.arcs.iter().filter(|x| want.binary_search(x).is_ok()).count(), want.len()));
                    } else if w.dimacs && p.header != Some((held.1, held.0.len())) {
                        o.bad("incomplete", t, k, format!("the header says {:?}, not {:?}", p.header, (held.1, held.0.len())));
                    } else if !w.dimacs && p.header.is_some() {
                        o.bad("incomplete", t, k, "a plain file has a header".into());
                    }
                }
            }
            true
        }
    }
}

/// Imports and compares with what the undamaged file says.
fn check_import(w: &Text, original: &[u8], l: &Ledger, path: &str, t: usize, together: bool) {
    let bytes_damaged: Vec<Damage> = w.damage.iter().filter(|d| matches!(d, Damage::Byte(..))).cloned().collect();
    let b = damage(original, &bytes_damaged);
    let undecodable = std::str::from_utf8(&b).is_err();
    disk::put(path, &b);
    for k in 0..w.times.clamp(1, 3) as usize {
        if !together {
            disk::arm(&w.read);
        }
        let before = total_hard();
        let (r, _) = lib(t, 100 + k, Kind::Other, QUERY_CAP, || import(w.dimacs, path));
        let hard = total_hard() > before;
        if !together {
            disk::arm(&Plan::default());
        }
        let o = out();
        o.checks += 1;
        o.nontrivial |= l.edges.len() > 1;
        match r {
            Err(m) => {
                if !hard && b == original {
                    o.bad("refused", t, 100 + k, format!("a well-formed file of {} bytes was refused: {}", b.len(), m));
                } else {
                    o.stat("failed imports", 1);
                }
            }
            Ok(g) => {
                o.stat("imports", 1);
                let x = lib(t, 100 + k, Kind::Other, QUERY_CAP, || look(&g)).0;
                let d = match &x {
                    Err(m) => Some(format!("the imported graph is not frozen: {}", m)),
                    Ok(x) => differs(x, l),
                };
                let why = match (hard, undecodable) {
                    (true, _) => " after a read error",
                    (_, true) => " from undecodable data",
                    _ => "",
                };
                if let Some(d) = d {
                    // bytes damaged into something else that is decodable are another file
                    if hard || undecodable || b == original {
                        o.bad("partial", t, 100 + k, format!("imported{}: {}", why, d));
                    }
                } else if hard {
                    // everything had been read before
                    o.stat("errors after the end", 1);
                }
            }
        }
    }
}

fn crash_text(w: &Text, edges: &[E], l: &Ledger) {
    let path = paths(w).0;
    // undisturbed export as reference
    let mut clean: Option<Vec<u8>> = None;
    let cp = Sh::new(&mut clean);
    run_alone(&w.env, || {
        let (r, _) = lib(0, 0, Kind::Other, QUERY_CAP, || {
            let g = graphs::input_of(edges);
            let e = export(&g, true, "/fpsim/clean.txt");
            (e.is_ok(), import(true, "/fpsim/clean.txt"))
        });
        if let Ok((true, g)) = r {
            // only if export and import work at all
            if let Ok(x) = lib(0, 0, Kind::Other, QUERY_CAP, || look(&g)).0 {
                if differs(&x, l).is_none() {
                    *cp.get() = disk::content("/fpsim/clean.txt");
                }
            }
        }
    });
    let clean = match clean {
        Some(c) => c,
        None => {
            out().stat("skipped", 1);
            return;
        }
    };
    // the export that is interrupted
    let end = run_alone(&w.env, || {
        if let Some(n) = w.old {
            disk::put(path, &b"c old\n".iter().copied().cycle().take(n.min(1 << 20) as usize).collect::<Vec<u8>>());
        }
        disk::arm(&w.write);
        let _ = lib(0, 1, Kind::Other, QUERY_CAP, || {
            let g = graphs::input_of(edges);
            let _ = export(&g, true, path);
        });
    });
    disk::arm(&Plan::default());
    out().stat("processes died", (end == End::Crashed) as u64);
    let on_disk = match disk::content(path) {
        Some(c) => c,
        None => return,
    };
    if w.old.is_some() && on_disk.starts_with(b"c old") {
        return; // never came to write
    }
    let b = damage(&on_disk, &w.damage.iter().filter(|d| !matches!(d, Damage::Byte(..))).cloned().collect::<Vec<_>>());
    rt::rt().trace.add_bytes(&b);
    disk::put(path, &b);
    let o = out();
    o.nontrivial = b != clean && l.edges.len() > 1;
    o.stat("damaged files", (b != clean) as u64);
    // digits of the last weight
    let digits = {
        let mut d = clean.len();
        while d > 0 && clean[d - 1].is_ascii_whitespace() {
            d -= 1;
        }
        while d > 0 && clean[d - 1].is_ascii_digit() {
            d -= 1;
        }
        d
    };
    let may_slip = clean.starts_with(&b) && b.len() > digits;
    run_alone(&w.env, || {
        disk::arm(&w.read);
        let (r, _) = lib(0, 2, Kind::Other, QUERY_CAP, || import(true, path));
        disk::arm(&Plan::default());
        o.checks += 1;
        match r {
            Err(m) => {
                if b == clean && total_hard() == 0 && w.read.reads.is_empty() && w.read.open_err.is_none() {
                    o.bad("refused", 0, 2, format!("the undamaged file was refused: {}", m));
                } else {
                    o.stat("damaged files refused", 1);
                }
            }
            Ok(g) => {
                if may_slip {
                    return;
                }
                let d = match lib(0, 2, Kind::Other, QUERY_CAP, || look(&g)).0 {
                    Err(m) => Some(m),
                    Ok(x) => differs(&x, l),
                };
                if let Some(d) = d {
                    o.bad(
                        "accepted",
                        0,
                        2,
                        format!("a damaged file ({} bytes, {} when complete) was read as a graph: {}", b.len(), clean.len(), d),
                    );
                }
            }
        }
    });
}
