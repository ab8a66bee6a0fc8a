//! Scenarios (plain data, one file each) and outcomes.
use crate::disk::Plan;
use crate::graphs::{Graph, Order, Prep, E};
use crate::rt::{Env, Sched};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    /// padding of the address layout
    pub pad: Option<u64>,
    /// 0: off, 1: warn, 2: debug
    pub log: u8,
    pub work: Work,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Work {
    Service(Service),
    Det(Det),
    Witness(Witness),
    Life(Life),
    Book(Book),
    Image(Image),
    Text(Text),
    Mem(Mem),
}

impl Work {
    pub fn scheds(&mut self) -> Vec<&mut Sched> {
        match self {
            Work::Service(w) => vec![&mut w.sched],
            Work::Det(w) => vec![&mut w.sched],
            Work::Witness(_) => vec![],
            Work::Life(w) => vec![&mut w.sched],
            Work::Book(w) => vec![&mut w.sched],
            Work::Image(w) => vec![&mut w.sched],
            Work::Text(w) => w.mate.iter_mut().map(|m| &mut m.sched).collect(),
            Work::Mem(w) => vec![&mut w.sched],
        }
    }
}

// ---- queries on shared prepared graphs (C01-C07) ----------------------------------------------

/// Generation counters near their end.
#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub enum Room {
    /// they begin so many resets before their end
    Start(u8),
    /// after so many resets they jump to so many resets before their end
    Jump(u8, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Served {
    pub graph: Graph,
    pub prep: Prep,
    /// 0 as prepared, 1 clone, 2 bincode round trip, 3 JSON round trip, 4 32-bit round trip, 5 other entry point
    pub via: u8,
    /// prepared with the node ordering of the first prepared graph
    #[serde(default)]
    pub like: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Service {
    pub graphs: Vec<Served>,
    /// counters of preparations and calculators wrap after so many resets
    pub prep_room: Option<Room>,
    /// a new calculator for every query (only in control runs)
    pub fresh: bool,
    /// the tasks hand their calculators to one another
    #[serde(default)]
    pub pool: bool,
    pub setup: Env,
    pub tasks: Vec<Reader>,
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Reader {
    pub env: Env,
    pub room: Option<Room>,
    pub ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// calculator, graph, source, target
    Q(u8, u8, usize, usize),
    M(u8, u8, Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// free functions
    Fq(u8, usize, usize),
    Fm(u8, Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// calculator, graph, number of queries, seed: all of them checked
    Burst(u8, u8, u32, u64),
    /// calculator, graph, kind of misuse, a number
    Bad(u8, u8, u8, usize),
    /// calculator, graph, which number of the prepared graph is damaged, source, target
    Poison(u8, u8, u32, usize, usize),
    /// replaces a calculator
    Fresh(u8, u8),
    /// calculator, graph, source, target: the prepared graph is replaced in place by a clone of another one
    Slot(u8, u8, usize, usize),
    /// prepares the graph again (within the task) and queries the result
    Prep(u8, usize, usize),
}

// ---- determinism of preparation (C08) ---------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Det {
    pub graph: Graph,
    pub prep: Prep,
    pub tasks: Vec<DetTask>,
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DetTask {
    pub env: Env,
    /// edges are added in an order given by this seed (none: as written)
    pub shuffle: Option<u64>,
    /// preparations of other graphs done before on the same thread
    pub warm: Vec<Graph>,
    pub log: u8,
    pub alt: bool,
    pub times: u8,
}

// ---- cut witness searches (C09) ---------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Witness {
    pub env: Env,
    pub graph: Graph,
    pub prep: Prep,
    /// (number of the search, its budget)
    pub cuts: Vec<(u32, u32)>,
    /// (period, phase, budget) of searches cut regularly
    pub every: Option<(u32, u32, u32)>,
    pub room: Option<Room>,
    pub queries: Vec<(usize, usize)>,
    pub all_pairs: bool,
}

// ---- edits and re-preparation (C10) -----------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Life {
    pub start: Vec<E>,
    pub tasks: Vec<LifeTask>,
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LifeTask {
    pub env: Env,
    pub ops: Vec<LifeOp>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum LifeOp {
    /// thaw, add, freeze
    Add(Vec<E>),
    /// start over with other edges
    Rebuild(Vec<E>),
    /// keep a clone of the input graph for later
    Keep,
    /// exchange the input graph and the one that was kept
    Swap,
    /// prepare and publish; how, and at which log record the logger fails
    Publish(How, Option<u32>),
    /// version counted back from the latest, source, target
    Query(u8, usize, usize),
    Multi(u8, Vec<(usize, usize)>, Vec<(usize, usize)>),
    /// ordering of a version is a permutation
    Check(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How {
    New(Prep),
    /// ordering of the version counted back from the latest, budget
    OrderOf(u8, Option<usize>),
    Perm(Order, Option<usize>),
    /// ordering that is too long (+) or too short (-)
    WrongLen(i8),
    /// ordering in which one node is replaced by another one
    Twice(usize, usize),
    /// ordering in which one entry is replaced by a node that does not exist
    NoNode(usize, usize),
}

// ---- ledger of edges (C11) --------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Book {
    pub env: Env,
    pub ops: Vec<BookOp>,
    /// log records at which the logger panics
    pub log_panics: Vec<u32>,
    /// other graphs, edited by other tasks at the same time
    #[serde(default)]
    pub mates: Vec<(Env, Vec<BookOp>)>,
    #[serde(default)]
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum BookOp {
    Add(usize, usize, usize),
    Bidir(usize, usize, usize),
    /// many random edges: count, nodes, weight mode, seed
    Many(u32, usize, u8, u64),
    Freeze,
    Thaw,
    Inspect,
    Clone,
    Serde,
    Prepare,
}

// ---- images on streams (C12, C13) -------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Image {
    pub env: Env,
    /// graphs of successive generations; the last save may be hit by faults
    pub graphs: Vec<(Graph, Prep)>,
    /// 0 FastGraph, 1 InputGraph, 2 FastGraph32, 3 serialize_32/deserialize_32
    pub what: u8,
    pub json: bool,
    pub save: Plan,
    pub load: Plan,
    /// after the save the stored bytes are cut to this length
    pub cut: Option<u32>,
    pub queries: Vec<(usize, usize)>,
    /// saved once more and loaded by one task per generation, at the same time
    #[serde(default)]
    pub together: bool,
    /// all generations are saved once more from the same place in memory
    #[serde(default)]
    pub slot: bool,
    #[serde(default)]
    pub sched: Sched,
}

// ---- text files (C14-C16) ---------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Text {
    pub env: Env,
    pub edges: Vec<E>,
    /// more edges computed from a seed: count, nodes, weight mode, seed
    pub more: Option<(u32, usize, u8, u64)>,
    pub dimacs: bool,
    /// how the file comes to be: None: exported by the library; Some: written by the simulator in this style
    pub style: Option<Style>,
    /// an older file is in the way
    pub old: Option<u32>,
    pub write: Plan,
    pub damage: Vec<Damage>,
    pub read: Plan,
    pub times: u8,
    #[serde(default)]
    pub mate: Option<Mate>,
    /// malformed files imported before: kind, DIMACS, lines in front
    #[serde(default)]
    pub before: Vec<(u8, bool, u32)>,
    /// which names the files have
    #[serde(default)]
    pub names: u8,
    /// other files lie in the same folder
    #[serde(default)]
    pub bystanders: bool,
}
/// Another file, exported or imported by another task at the same time, or by the same task afterwards.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mate {
    pub edges: Vec<E>,
    pub more: Option<(u32, usize, u8, u64)>,
    pub dimacs: bool,
    pub serial: bool,
    pub env: Env,
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Style {
    /// comments and (DIMACS) empty lines after these lines
    pub noise: Vec<(u32, u8)>,
    pub crlf: bool,
    pub no_final_newline: bool,
    pub wide: bool,
    pub duplicates: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Damage {
    /// cut to this length (from the end if counted negative)
    Cut(i64),
    /// 512-byte block replaced by zeros
    Zero(u32),
    /// zeros from here (from the end if counted negative) over this many bytes
    ZeroFrom(i64, u32),
    DropLine(u32),
    RepeatLine(u32),
    Byte(u32, u8),
}

// ---- memory and open files (C18) ----------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mem {
    pub graphs: Vec<Served>,
    pub setup: Env,
    pub tasks: Vec<MemTask>,
    /// the operations are repeated so often
    pub rounds: u32,
    pub pool: bool,
    pub sched: Sched,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MemTask {
    pub env: Env,
    pub ops: Vec<MemOp>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum MemOp {
    /// calculator, graph, source, target
    Q(u8, u8, usize, usize),
    M(u8, u8, Vec<(usize, usize)>, Vec<(usize, usize)>),
    Burst(u8, u8, u32, u64),
    Free(u8, usize, usize),
    Bad(u8, u8, u8, usize),
    Poison(u8, u8, u32, usize, usize),
    Fresh(u8, u8),
    /// the logger panics at the given record
    Prep(u8, Prep, Option<u32>),
    /// with the ordering of the prepared graph, spoilt in one of four ways
    Order(u8, u8, usize),
    Input(Vec<E>, u8),
    Image(u8, u8, Plan, Plan, Option<u32>),
    Text(u8, bool, Plan, Plan),
    /// a larger input graph (edges, nodes, seed) is written and read
    Big(u32, usize, u64, bool, Plan, Plan),
    /// many graphs of different sizes, one after the other: number, first size, step, seed
    Parade(u32, usize, usize, u64),
}

// ---- outcome ----------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: Vec<(String, u64)>,
    pub trace: u64,
    pub steps: u64,
    pub preemptions: u64,
    pub slept_ns: u64,
    /// comparisons with the oracle
    pub checks: u64,
    pub nontrivial: bool,
    /// largest work of a query in thousandths of its bound
    pub max_work: u64,
    /// the preemptions, if some were at rare places and there is a violation
    pub taken: Vec<(u32, u8)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub task: u32,
    pub op: u32,
}
impl Outcome {
    pub fn stat(&mut self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.stats.iter_mut().find(|x| x.0 == name) {
            Some(x) => x.1 += n,
            None => self.stats.push((name.to_string(), n)),
        }
    }
    pub fn bad(&mut self, class: &str, task: usize, op: usize, msg: String) {
        if self.violations.len() < 8 {
            let mut msg = msg;
            if msg.len() > 600 {
                msg.truncate((0..=600).rev().find(|i| msg.is_char_boundary(*i)).unwrap());
            }
            self.violations.push(Violation { class: class.to_string(), msg, task: task as u32, op: op as u32 });
        }
    }
}
