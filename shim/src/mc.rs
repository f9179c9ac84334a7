//! The model world: every interaction of the program under test is an operation on an object in
//! here, and every blocking operation is a *leaf* that only completes when the scheduler grants it.
//!
//! Logical threads.  The program under test is one big future (plus whatever it spawns) whose
//! branches are combined with `join`/`join_all`.  A leaf is the pending operation of one branch.  A
//! *step* grants exactly one leaf: that branch runs up to its next leaf.  The state of the program
//! is then a function of what each logical thread has observed, so a hash over the per-thread
//! observation histories and the contents of the shared objects identifies the state.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Tid = u64;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ 0x9E37_79B9_7F4A_7C15).wrapping_add(b.rotate_left(17));
    let m = (x as u128).wrapping_mul(0xD6E8_FEB8_6659_FD93_A5A3_5C2D_1B4F_9E6Bu128 | 1);
    let y = (m as u64) ^ ((m >> 64) as u64) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    y ^ (y >> 29)
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed, b.len() as u64);
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(v));
    }
    h
}

#[derive(Clone, Debug, PartialEq)]
pub enum LeafKind {
    Recv(usize),
    Send(usize),
    Sleep { deadline: u64 },
    PipeRead { pipe: usize, max: usize },
    PipeWrite { pipe: usize, len: usize },
    FileIo { file: usize },
    Wait(usize),
    Join(usize),
    /// enabled only when nothing else in the system can make progress
    /// level: those with a higher one only go when none with a lower one waits
    Quiesce(u8),
    Yield,
    Choice { n: usize },
}

pub struct Leaf {
    pub kind: LeafKind,
    pub tid: Tid,
    pub root: usize,
    pub waker: Option<Waker>,
    pub stale: bool,
    /// the rest of a group of sends that one poll would perform together; goes first once it can
    pub urgent: bool,
}

#[derive(Default, Clone)]
pub struct Thread {
    pub hist: u64,
    pub last_idle: Option<Vec<u64>>,
    pub label: String,
}

pub struct Chan {
    pub name: u64,
    pub cap: Option<usize>,
    pub q: VecDeque<u64>,
    pub closed: bool,
    pub senders: usize,
    pub receivers: usize,
    pub peeked_by_sender: bool,
    pub max_len: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ReadMode {
    /// deliver up to and including the next newline (canonical segmentation)
    Line,
    /// deliver everything that is there
    Greedy,
    /// deliver at most n bytes
    Max(usize),
}

pub struct Pipe {
    pub name: String,
    pub id: u64,
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub writer_open: bool,
    pub reader_open: bool,
    pub mode: ReadMode,
    pub total: usize,
    pub sys_reads: bool,
    /// reading fails with EIO once this many bytes were read
    pub fail_read_at: Option<usize>,
    pub total_read: usize,
}

#[derive(Clone, Debug, Default)]
pub struct FileSpec {
    pub content: Vec<u8>,
    pub open_error: Option<i32>,
    /// the read that would go past this offset fails
    pub read_error_at: Option<usize>,
    /// with this (0: EIO)
    pub read_errno: i32,
    /// biggest number of bytes one read returns
    pub max_read: Option<usize>,
    /// each read is a scheduling point
    pub leaf: bool,
}

#[derive(Clone, Debug, Default)]
pub struct OutSpec {
    pub create_error: Option<i32>,
    /// writes fail once this many bytes are in the file
    pub write_error_at: Option<usize>,
    pub write_errno: i32,
    pub flush_error: Option<i32>,
    /// biggest number of bytes one write takes
    pub max_write: Option<usize>,
    pub leaf: bool,
    pub initial: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct OutFile {
    pub spec: OutSpec,
    /// what an observer of the file system sees
    pub content: Vec<u8>,
    /// accepted by the program's I/O layer, not yet visible
    pub pending: Vec<u8>,
    pub opened: usize,
    pub open_now: usize,
    /// (open generation) to tell shared descriptors from reopened files
    pub name: String,
}

pub enum FileObj {
    In { path: String, spec: FileSpec, pos: usize },
    Out { out: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum StdioKind {
    Inherit,
    Null,
    Piped,
    Other,
}

#[derive(Clone, Debug)]
pub struct SpawnInfo {
    pub program: String,
    pub args: Vec<String>,
    pub envs: BTreeMap<String, Option<String>>,
    pub env_clear: bool,
    pub cwd: Option<String>,
    pub stdin: StdioKind,
    pub stdout: StdioKind,
    pub stderr: StdioKind,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

pub struct Child {
    pub info: SpawnInfo,
    pub id: u64,
    pub exit: Option<Exit>,
    pub waited: bool,
    pub received: Vec<u8>,
    pub written: [Vec<u8>; 2],
    pub io: ChildIo,
    pub killed: bool,
}

/// The child's ends of its three streams (None: /dev/null).
#[derive(Clone, Copy, Debug)]
pub struct ChildIo {
    pub pid: usize,
    pub stdin: Option<usize>,
    pub stdout: Option<usize>,
    pub stderr: Option<usize>,
}

pub type EnvFuture = Pin<Box<dyn Future<Output = Exit>>>;
pub type ProgramFactory = Box<dyn Fn(&SpawnInfo, ChildIo) -> Result<EnvFuture, i32>>;

#[derive(Clone, Debug)]
pub struct Event {
    pub who: String,
    pub what: &'static str,
    pub data: Vec<u8>,
    pub now: u64,
    pub step: usize,
}

pub trait Observer {
    fn event(&mut self, e: &Event) -> Result<(), String>;
    /// Whether it matters to the observer when this happens.
    fn minds(&self, _: &Event) -> bool {
        true
    }
    fn state(&self) -> u64 {
        0
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Mode {
    /// every leaf waits for a grant
    Granted,
    /// operations that can complete do so at once (how the real single-task executor behaves)
    Free,
}

pub struct Config {
    pub mode: Mode,
    pub pipe_cap: usize,
    pub read_mode: ReadMode,
    pub child_read_mode: ReadMode,
    pub stdin_read_mode: ReadMode,
    pub por: bool,
    pub log_events: bool,
    /// advance the virtual clock when timers fire
    pub timed: bool,
    /// tell the observer about channel operations
    pub chan_events: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            mode: Mode::Granted,
            pipe_cap: 64,
            read_mode: ReadMode::Line,
            child_read_mode: ReadMode::Line,
            stdin_read_mode: ReadMode::Line,
            por: true,
            log_events: true,
            timed: false,
            chan_events: false,
        }
    }
}

pub struct World {
    pub cfg: Config,
    pub now: u64,
    pub steps: usize,
    pub leaves: BTreeMap<u64, Leaf>,
    next_leaf: u64,
    pub threads: HashMap<Tid, Thread>,
    pub chans: Vec<Chan>,
    pub pipes: Vec<Pipe>,
    pub files: Vec<FileObj>,
    pub children: Vec<Child>,
    pub in_files: BTreeMap<String, FileSpec>,
    pub out_specs: BTreeMap<String, OutSpec>,
    pub outs: Vec<OutFile>,
    pub out_index: BTreeMap<String, usize>,
    pub factory: Option<ProgramFactory>,
    pub stdin_pipe: Option<usize>,
    pub events: Vec<Event>,
    pub observer: Option<Box<dyn Observer>>,
    pub violation: Option<String>,
    // execution context
    cur: Tid,
    cur_root: usize,
    granted: Option<(u64, usize)>,
    granted_variant: usize,
    created: Vec<u64>,
    seg: Vec<u64>,
    seg_effect: bool,
    seg_sent: Vec<usize>,
    /// the next operation is the one which was granted
    own: bool,
    /// this step did more than its granted operation, and somebody else's step may not commute with it
    pub step_dep: bool,
    ops_this_poll: usize,
    pending_roots: Vec<(Pin<Box<dyn Future<Output = RootOut>>>, RootKind, Tid)>,
    pub finished: bool,
    pub quiesce_ok: Option<u64>,
    pub total_ops: usize,
    pub joins: Vec<bool>,
    pub spawn_count: HashMap<String, usize>,
    pub sys_in_flight: i64,
    pub shutting_down: bool,
    pub effects: u64,
    pub env_sleepers: usize,
}

pub enum RootOut {
    Unit,
    Exit(Exit),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RootKind {
    Main,
    Child(usize),
    Env,
    Spawned(usize),
}

thread_local! {
    static W: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| {
        let mut b = w.borrow_mut();
        f(b.as_mut().expect("model world not installed in this thread"))
    })
}
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    W.try_with(|w| w.try_borrow_mut().ok().and_then(|mut b| b.as_mut().map(|w| f(w)))).ok().flatten()
}
pub fn installed() -> bool {
    try_with(|_| ()).is_some()
}
pub fn install(w: World) {
    crate::task::install_timers();
    W.with(|c| *c.borrow_mut() = Some(Box::new(w)));
}
pub fn uninstall() -> Option<Box<World>> {
    W.with(|c| c.borrow_mut().take())
}

impl World {
    pub fn new(cfg: Config) -> World {
        let mut threads = HashMap::new();
        threads.insert(1, Thread { hist: 1, last_idle: None, label: "main".into() });
        World {
            cfg,
            now: 0,
            steps: 0,
            leaves: BTreeMap::new(),
            next_leaf: 1,
            threads,
            chans: vec![],
            pipes: vec![],
            files: vec![],
            children: vec![],
            in_files: BTreeMap::new(),
            out_specs: BTreeMap::new(),
            outs: vec![],
            out_index: BTreeMap::new(),
            factory: None,
            stdin_pipe: None,
            events: vec![],
            observer: None,
            violation: None,
            cur: 1,
            cur_root: 0,
            granted: None,
            granted_variant: 0,
            created: vec![],
            seg: vec![],
            seg_effect: false,
            seg_sent: vec![],
            own: false,
            step_dep: false,
            ops_this_poll: 0,
            pending_roots: vec![],
            finished: false,
            quiesce_ok: None,
            total_ops: 0,
            joins: vec![],
            spawn_count: HashMap::new(),
            sys_in_flight: 0,
            shutting_down: false,
            effects: 0,
            env_sleepers: 0,
        }
    }

    /// Records that the running logical thread sent on a channel.
    pub fn sent(&mut self, c: usize) {
        if !self.seg_sent.contains(&c) {
            self.seg_sent.push(c);
        }
    }

    /// Records that the running logical thread performed an operation.
    pub fn op(&mut self, tag: u64, obj: u64, res: u64, effect: bool) {
        if self.finished {
            return;
        }
        self.total_ops += 1;
        self.ops_this_poll += 1;
        if self.ops_this_poll > 300_000 {
            self.ops_this_poll = 0;
            panic!("MC-RUNAWAY: more than 300000 operations without blocking");
        }
        if !std::mem::take(&mut self.own) {
            // operations which commute with whatever others do, or for which `dep` was asked
            self.step_dep |= !matches!(tag, 1 | 4 | 5 | 11 | 12 | 13 | 14 | 15 | 18 | 19 | 44 | 45 | 50 | 51 | 60 | 61);
        }
        self.seg.push(mix(mix(tag, obj), res));
        self.seg_effect |= effect;
        self.effects += effect as u64;
    }

    /// Says whether the operation which comes next may fail to commute with what others do.
    pub fn dep(&mut self, dep: bool) {
        self.step_dep |= dep && !self.own;
    }
    /// Nobody but a receiver which is waiting for just this can notice.
    pub fn expected(&self, c: usize) -> bool {
        let ch = &self.chans[c];
        ch.q.is_empty()
            && ch.receivers == 1
            && self.leaves.values().any(|l| l.kind == LeafKind::Recv(c) && !l.stale)
    }

    /// An identity for an object or message created now, independent of the schedule.
    pub fn fresh_name(&self) -> u64 {
        let h = self.threads.get(&self.cur).map(|t| t.hist).unwrap_or(0);
        mix(mix(mix(0xABCD, self.cur), h), self.seg.len() as u64)
    }

    pub fn event(&mut self, who: &str, what: &'static str, data: &[u8]) {
        if self.finished {
            return;
        }
        let e = Event { who: who.to_string(), what, data: data.to_vec(), now: self.now, step: self.steps };
        if let Some(o) = self.observer.as_mut() {
            self.step_dep |= o.minds(&e);
            if let Err(v) = o.event(&e) {
                if self.violation.is_none() {
                    self.violation = Some(v);
                }
            }
        }
        if self.cfg.log_events {
            self.events.push(e);
        }
    }

    // ---------------------------------------------------------------- channels
    pub fn new_chan(&mut self, cap: Option<usize>) -> usize {
        let name = self.fresh_name();
        self.op(1, name, 0, true);
        self.chans.push(Chan {
            name,
            cap,
            q: VecDeque::new(),
            closed: false,
            senders: 1,
            receivers: 1,
            peeked_by_sender: false,
            max_len: 0,
        });
        self.chans.len() - 1
    }

    pub fn enabled(&self, k: &LeafKind) -> bool {
        match k {
            LeafKind::Recv(c) => {
                let c = &self.chans[*c];
                !c.q.is_empty() || c.closed
            }
            LeafKind::Send(c) => {
                let c = &self.chans[*c];
                c.closed || c.cap.map(|n| c.q.len() < n).unwrap_or(true)
            }
            LeafKind::Sleep { deadline } => match self.cfg.mode {
                Mode::Granted => true,
                Mode::Free => *deadline <= self.now,
            },
            LeafKind::PipeRead { pipe, .. } => {
                let p = &self.pipes[*pipe];
                !p.buf.is_empty() || !p.writer_open || p.fail_read_at.map(|n| p.total_read >= n).unwrap_or(false)
            }
            LeafKind::PipeWrite { pipe, len } => {
                let p = &self.pipes[*pipe];
                if !p.reader_open {
                    return true;
                }
                let space = p.cap.saturating_sub(p.buf.len());
                if *len <= p.cap {
                    space >= *len
                } else {
                    space > 0
                }
            }
            LeafKind::FileIo { .. } => true,
            LeafKind::Wait(c) => self.children[*c].exit.is_some(),
            LeafKind::Join(j) => self.joins[*j],
            LeafKind::Quiesce(_) => false,
            LeafKind::Yield => true,
            LeafKind::Choice { .. } => true,
        }
    }

    /// True when performing this leaf first is equivalent to any other order (a persistent singleton).
    fn safe_first(&self, k: &LeafKind) -> bool {
        match k {
            LeafKind::Recv(c) => {
                let c = &self.chans[*c];
                (c.receivers == 1 && !c.peeked_by_sender && !c.q.is_empty()) || (c.closed && c.q.is_empty())
            }
            LeafKind::Send(ci) => {
                let c = &self.chans[*ci];
                if c.closed {
                    return true;
                }
                c.q.is_empty()
                    && c.senders == 1
                    && c.receivers == 1
                    && self.leaves.values().any(|l| l.kind == LeafKind::Recv(*ci) && !l.stale)
            }
            LeafKind::PipeRead { pipe, max } => {
                let p = &self.pipes[*pipe];
                if p.fail_read_at.is_some() {
                    return false;
                }
                if !p.writer_open {
                    return true;
                }
                match p.mode {
                    ReadMode::Line => p.buf.iter().take(*max).any(|b| *b == b'\n') || p.buf.len() >= *max,
                    ReadMode::Greedy => p.buf.len() >= *max,
                    ReadMode::Max(n) => p.buf.len() >= n.min(*max),
                }
            }
            LeafKind::PipeWrite { pipe, len } => {
                let p = &self.pipes[*pipe];
                if !p.reader_open {
                    return true;
                }
                p.buf.is_empty()
                    && *len <= p.cap
                    && self.leaves.values().any(
                        |l| matches!(l.kind, LeafKind::PipeRead { pipe: q, .. } if q == *pipe) && !l.stale,
                    )
            }
            LeafKind::Wait(_) | LeafKind::Join(_) => true,
            LeafKind::FileIo { .. } => false,
            _ => false,
        }
    }

    // ---------------------------------------------------------------- state identity
    pub fn fingerprint(&self) -> u64 {
        let mut h: u64 = 0;
        for (t, th) in self.threads.iter() {
            h = h.wrapping_add(mix(mix(11, *t), th.hist));
        }
        for c in self.chans.iter() {
            let mut x = mix(mix(mix(12, c.name), c.closed as u64), ((c.senders as u64) << 8) | c.receivers as u64);
            for m in c.q.iter() {
                x = mix(x, *m);
            }
            h = h.wrapping_add(x);
        }
        for p in self.pipes.iter() {
            let (a, b) = p.buf.as_slices();
            let mut x = mix(mix(13, p.id), (p.writer_open as u64) | ((p.reader_open as u64) << 1));
            let mut v = a.to_vec();
            v.extend_from_slice(b);
            x = hash_bytes(x, &v);
            x = mix(x, p.total as u64);
            h = h.wrapping_add(x);
        }
        for (i, o) in self.outs.iter().enumerate() {
            let mut x = hash_bytes(mix(14, i as u64), &o.content);
            x = hash_bytes(x, &o.pending);
            h = h.wrapping_add(mix(x, o.open_now as u64));
        }
        for c in self.children.iter() {
            let e = match c.exit {
                None => 0,
                Some(Exit::Code(n)) => 1000 + n as u64,
                Some(Exit::Signal(n)) => 5000 + n as u64,
            };
            h = h.wrapping_add(mix(mix(15, c.id), e));
        }
        if let Some(o) = self.observer.as_ref() {
            h = h.wrapping_add(mix(16, o.state()));
        }
        mix(17, h)
    }

    // ---------------------------------------------------------------- leaves
    pub fn leaf_remove(&mut self, id: u64) {
        self.leaves.remove(&id);
        self.created.retain(|x| *x != id);
        if self.granted.map(|g| g.0) == Some(id) {
            self.granted = None;
        }
    }

    /// Returns Some(variant) when the operation may be performed now.
    pub fn leaf_poll(&mut self, slot: &mut Option<u64>, kind: LeafKind, cx: &mut Context<'_>) -> Option<usize> {
        if self.finished {
            return None;
        }
        if self.cfg.mode == Mode::Free {
            let go = self.enabled(&kind) || (slot.is_some() && *slot == self.quiesce_ok);
            if go && !matches!(kind, LeafKind::Choice { .. }) {
                if slot.is_some() && *slot == self.quiesce_ok {
                    self.quiesce_ok = None;
                }
                if let Some(id) = slot.take() {
                    self.leaf_remove(id);
                }
                return Some(0);
            }
        }
        if let Some(id) = *slot {
            if let Some((g, v)) = self.granted {
                if g == id {
                    self.granted = None;
                    self.leaves.remove(&id);
                    *slot = None;
                    self.own = true;
                    return Some(v);
                }
            }
            if let Some(l) = self.leaves.get_mut(&id) {
                l.stale = false;
                if l.kind != kind && !(matches!(l.kind, LeafKind::Sleep { .. })) {
                    l.kind = kind;
                }
                match &l.waker {
                    Some(w) if w.will_wake(cx.waker()) => {}
                    _ => l.waker = Some(cx.waker().clone()),
                }
                return None;
            }
            *slot = None;
        }
        // A poll performs consecutive sends (a message and its notification, the outputs of a fan-out)
        // without giving way unless a channel is full; only a new message on a channel this segment
        // already sent on is a new scheduling point.
        let mut urgent = false;
        if let LeafKind::Send(c) = &kind {
            if !self.seg_sent.is_empty() && !self.seg_sent.contains(c) {
                if self.enabled(&kind) {
                    return Some(0);
                }
                urgent = true;
            }
        }
        let id = self.next_leaf;
        self.next_leaf += 1;
        self.leaves.insert(
            id,
            Leaf { kind, tid: self.cur, root: self.cur_root, waker: Some(cx.waker().clone()), stale: false, urgent },
        );
        self.created.push(id);
        *slot = Some(id);
        None
    }

    fn begin(&mut self, tid: Tid, root: usize) {
        self.cur = tid;
        self.cur_root = root;
        self.seg.clear();
        self.seg_effect = false;
        self.seg_sent.clear();
        self.own = false;
        self.step_dep = false;
        self.created.clear();
        self.ops_this_poll = 0;
    }

    /// Closes the bookkeeping of one step; returns true if it was a no-op (idle poll).
    fn end(&mut self, was_sleep: bool) -> bool {
        let created = std::mem::take(&mut self.created);
        let seg = std::mem::take(&mut self.seg);
        let cur = self.cur;
        let back_to_sleep = created.len() == 1
            && self.leaves.get(&created[0]).map(|l| matches!(l.kind, LeafKind::Sleep { .. })).unwrap_or(false);
        let t = self.threads.entry(cur).or_default();
        let idle = was_sleep && back_to_sleep && !self.seg_effect;
        let null = idle && t.last_idle.as_ref() == Some(&seg);
        if !null {
            let mut h = mix(t.hist, 0x51);
            for s in seg.iter() {
                h = mix(h, *s);
            }
            if created.is_empty() {
                h = mix(h, 0xDEAD);
            }
            t.hist = h;
            t.last_idle = if idle { Some(seg) } else { None };
        }
        let hist = t.hist;
        if created.len() > 1 {
            let lbl = t.label.clone();
            for (k, l) in created.iter().enumerate() {
                let tid = mix(mix(mix(0xF0, cur), hist), k as u64);
                self.threads.insert(tid, Thread { hist: tid, last_idle: None, label: format!("{}.{}", lbl, k) });
                if let Some(l) = self.leaves.get_mut(l) {
                    l.tid = tid;
                }
            }
        }
        null
    }

    // ---------------------------------------------------------------- files
    pub fn out_file(&mut self, path: &str) -> usize {
        if let Some(i) = self.out_index.get(path) {
            return *i;
        }
        let spec = self.out_specs.get(path).cloned().unwrap_or_default();
        self.outs.push(OutFile { content: spec.initial.clone(), spec, name: path.to_string(), ..Default::default() });
        self.out_index.insert(path.to_string(), self.outs.len() - 1);
        self.outs.len() - 1
    }

    pub fn out_visible(&self, path: &str) -> Option<Vec<u8>> {
        self.out_index.get(path).map(|i| self.outs[*i].content.clone())
    }

    /// A write of the program under test to an output.
    pub fn out_write(&mut self, i: usize, data: &[u8]) -> Result<usize, i32> {
        let o = &mut self.outs[i];
        let mut n = data.len();
        if let Some(m) = o.spec.max_write {
            n = n.min(m);
        }
        if let Some(at) = o.spec.write_error_at {
            let have = o.content.len() + o.pending.len() - o.spec.initial.len().min(o.content.len()) * 0;
            if have >= at && n > 0 {
                let e = o.spec.write_errno;
                self.op(31, i as u64, e as u64, true);
                return Err(e);
            }
            n = n.min(at - have);
        }
        o.pending.extend_from_slice(&data[..n]);
        self.op(30, i as u64, hash_bytes(0, &data[..n]), true);
        Ok(n)
    }
    pub fn out_flush(&mut self, i: usize) -> Result<(), i32> {
        if let Some(e) = self.outs[i].spec.flush_error {
            self.op(33, i as u64, e as u64, true);
            return Err(e);
        }
        let p = std::mem::take(&mut self.outs[i].pending);
        if !p.is_empty() {
            let name = self.outs[i].name.clone();
            self.outs[i].content.extend_from_slice(&p);
            self.event(&name, "visible", &p);
        }
        self.op(32, i as u64, 0, true);
        Ok(())
    }

    // ---------------------------------------------------------------- pipes
    pub fn new_pipe(&mut self, name: &str, id: u64, cap: usize, mode: ReadMode, sys_reads: bool) -> usize {
        self.pipes.push(Pipe {
            name: name.to_string(),
            id,
            buf: VecDeque::new(),
            cap,
            writer_open: true,
            reader_open: true,
            mode,
            total: 0,
            sys_reads,
            fail_read_at: None,
            total_read: 0,
        });
        self.pipes.len() - 1
    }
    pub fn pipe_read(&mut self, pipe: usize, max: usize) -> Result<Vec<u8>, i32> {
        let p = &mut self.pipes[pipe];
        if let Some(n) = p.fail_read_at {
            if p.total_read >= n {
                let id = p.id;
                self.op(41, id, 5, true);
                return Err(5);
            }
        }
        let mut n = p.buf.len().min(max);
        match p.mode {
            ReadMode::Greedy => {}
            ReadMode::Max(k) => n = n.min(k),
            ReadMode::Line => {
                if let Some(pos) = p.buf.iter().position(|b| *b == b'\n') {
                    n = n.min(pos + 1)
                }
            }
        }
        if let Some(k) = p.fail_read_at {
            n = n.min(k - p.total_read);
        }
        let v: Vec<u8> = p.buf.drain(..n).collect();
        p.total_read += v.len();
        let (id, name, sys) = (p.id, p.name.clone(), p.sys_reads);
        self.op(40, id, hash_bytes(0, &v), true);
        self.event(&name, if sys { "sys-read" } else { "env-read" }, &v);
        Ok(v)
    }
    pub fn pipe_write(&mut self, pipe: usize, data: &[u8]) -> Result<usize, i32> {
        let p = &mut self.pipes[pipe];
        let id = p.id;
        if !p.reader_open {
            let (name, sys) = (p.name.clone(), p.sys_reads);
            self.op(43, id, 32, true);
            self.event(&name, if sys { "env-epipe" } else { "sys-epipe" }, data);
            return Err(32);
        }
        let space = p.cap.saturating_sub(p.buf.len());
        let n = data.len().min(space);
        p.buf.extend(data[..n].iter().copied());
        p.total += n;
        let (name, sys) = (p.name.clone(), p.sys_reads);
        self.op(42, id, hash_bytes(0, &data[..n]), true);
        self.event(&name, if sys { "env-write" } else { "sys-write" }, &data[..n]);
        Ok(n)
    }
    pub fn pipe_close_writer(&mut self, pipe: usize) {
        if self.pipes[pipe].writer_open {
            self.pipes[pipe].writer_open = false;
            let id = self.pipes[pipe].id;
            let (name, sys) = (self.pipes[pipe].name.clone(), self.pipes[pipe].sys_reads);
            self.op(44, id, 0, true);
            self.event(&name, if sys { "env-close-write" } else { "sys-close-write" }, &[]);
        }
    }
    pub fn pipe_close_reader(&mut self, pipe: usize) {
        if self.pipes[pipe].reader_open {
            let writing = self.pipes[pipe].writer_open;
            self.dep(writing);
            self.pipes[pipe].reader_open = false;
            self.pipes[pipe].buf.clear();
            let id = self.pipes[pipe].id;
            let (name, sys) = (self.pipes[pipe].name.clone(), self.pipes[pipe].sys_reads);
            self.op(45, id, 0, true);
            self.event(&name, if sys { "sys-close-read" } else { "env-close-read" }, &[]);
        }
    }

    // ---------------------------------------------------------------- children
    pub fn spawn_child(&mut self, info: SpawnInfo) -> Result<usize, i32> {
        let n = self.spawn_count.entry(info.program.clone()).or_insert(0);
        *n += 1;
        let label = if *n == 1 { info.program.clone() } else { format!("{}#{}", info.program, n) };
        let id = hash_bytes(mix(0xC41D, *n as u64), info.program.as_bytes());
        let pid = self.children.len();
        let pin = self.pipes.len();
        let pout = pin + 1;
        let perr = pin + 2;
        let io = ChildIo {
            pid,
            stdin: (info.stdin == StdioKind::Piped).then_some(pin),
            stdout: (info.stdout == StdioKind::Piped).then_some(pout),
            stderr: (info.stderr == StdioKind::Piped).then_some(perr),
        };
        let f = match self.factory.take() {
            Some(fac) => {
                let r = fac(&info, io);
                self.factory = Some(fac);
                r
            }
            None => Err(2),
        };
        let f = match f {
            Err(e) => {
                self.op(51, id, e as u64, true);
                return Err(e);
            }
            Ok(f) => f,
        };
        let (cap, rm, crm) = (self.cfg.pipe_cap, self.cfg.read_mode, self.cfg.child_read_mode);
        self.new_pipe(&format!("{}.stdin", label), mix(id, 1), cap, crm, false);
        self.new_pipe(&format!("{}.stdout", label), mix(id, 2), cap, rm, true);
        self.new_pipe(&format!("{}.stderr", label), mix(id, 3), cap, rm, true);
        for (i, k) in [(pin, &info.stdin), (pout, &info.stdout), (perr, &info.stderr)] {
            if *k != StdioKind::Piped {
                self.pipes[i].writer_open = false;
                self.pipes[i].reader_open = false;
            }
        }
        self.children.push(Child {
            info,
            id,
            exit: None,
            waited: false,
            received: vec![],
            written: [vec![], vec![]],
            io,
            killed: false,
        });
        self.op(50, id, 0, true);
        let tid = mix(id, 9);
        self.threads.insert(tid, Thread { hist: tid, last_idle: None, label: label.clone() });
        self.event(&label, "spawn", &[]);
        self.pending_roots.push((
            Box::pin(async move { RootOut::Exit(f.await) }),
            RootKind::Child(pid),
            tid,
        ));
        Ok(pid)
    }

    pub fn child_exit(&mut self, pid: usize, e: Exit) {
        if self.children[pid].exit.is_some() {
            return;
        }
        self.step_dep = true;
        self.children[pid].exit = Some(e);
        let io = self.children[pid].io;
        if let Some(p) = io.stdin {
            self.pipe_close_reader(p);
        }
        if let Some(p) = io.stdout {
            self.pipe_close_writer(p);
        }
        if let Some(p) = io.stderr {
            self.pipe_close_writer(p);
        }
        let name = self.children[pid].info.program.clone();
        self.event(&name, "exit", format!("{:?}", e).as_bytes());
    }

    pub fn add_env(&mut self, label: &str, f: impl Future<Output = ()> + 'static) {
        let tid = hash_bytes(0xE47, label.as_bytes());
        self.threads.insert(tid, Thread { hist: tid, last_idle: None, label: label.to_string() });
        self.pending_roots.push((
            Box::pin(async move {
                f.await;
                RootOut::Unit
            }),
            RootKind::Env,
            tid,
        ));
    }
    pub fn add_spawned(&mut self, f: Pin<Box<dyn Future<Output = ()>>>) -> usize {
        let j = self.joins.len();
        self.joins.push(false);
        let tid = mix(0x5A, self.fresh_name());
        self.op(60, tid, 0, true);
        self.threads.insert(tid, Thread { hist: tid, last_idle: None, label: format!("task{}", j) });
        self.pending_roots.push((
            Box::pin(async move {
                f.await;
                RootOut::Unit
            }),
            RootKind::Spawned(j),
            tid,
        ));
        j
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}

struct Root {
    fut: Option<Pin<Box<dyn Future<Output = RootOut>>>>,
    kind: RootKind,
    tid: Tid,
    flag: Arc<Flag>,
}

/// One transition the scheduler can take.
#[derive(Clone, Debug)]
pub struct Opt {
    pub leaf: u64,
    pub variant: usize,
    pub tid: Tid,
    pub kind: LeafKind,
    pub timer: bool,
    pub safe: bool,
    pub urgent: bool,
}

/// Drives one execution.  Created after `install`.
pub struct Exec {
    roots: Vec<Root>,
    pub main_done: bool,
}

impl Exec {
    pub fn new(main: Pin<Box<dyn Future<Output = ()>>>) -> Exec {
        with(|w| {
            w.pending_roots.insert(
                0,
                (
                    Box::pin(async move {
                        main.await;
                        RootOut::Unit
                    }),
                    RootKind::Main,
                    1,
                ),
            )
        });
        let mut e = Exec { roots: vec![], main_done: false };
        e.adopt();
        e
    }

    fn adopt(&mut self) {
        loop {
            let pend = with(|w| std::mem::take(&mut w.pending_roots));
            if pend.is_empty() {
                return;
            }
            for (fut, kind, tid) in pend {
                let i = self.roots.len();
                self.roots.push(Root { fut: Some(fut), kind, tid, flag: Arc::new(Flag(AtomicBool::new(false))) });
                with(|w| w.begin(tid, i));
                self.poll(i);
                with(|w| w.end(false));
                if self.main_done {
                    return;
                }
            }
        }
    }

    fn poll(&mut self, i: usize) {
        let mut spins = 0;
        loop {
            let root = &mut self.roots[i];
            let Some(fut) = root.fut.as_mut() else { return };
            root.flag.0.store(false, Ordering::Relaxed);
            let waker: Waker = root.flag.clone().into();
            let mut cx = Context::from_waker(&waker);
            let r = fut.as_mut().poll(&mut cx);
            match r {
                Poll::Pending => {
                    spins += 1;
                    if root.flag.0.load(Ordering::Relaxed) && spins < 1000 {
                        continue;
                    }
                    return;
                }
                Poll::Ready(out) => {
                    let kind = root.kind;
                    let fut = root.fut.take();
                    if kind == RootKind::Main {
                        // the process is gone from here on: nothing the destructors do counts
                        self.main_done = true;
                        with(|w| w.finished = true);
                    }
                    drop(fut);
                    match (kind, out) {
                        (RootKind::Child(pid), RootOut::Exit(e)) => with(|w| w.child_exit(pid, e)),
                        (RootKind::Spawned(j), _) => with(|w| w.joins[j] = true),
                        _ => {}
                    }
                    return;
                }
            }
        }
    }

    /// All transitions that are enabled.
    pub fn options(&self) -> Vec<Opt> {
        with(|w| {
            let mut v = vec![];
            for (id, l) in w.leaves.iter() {
                if l.stale || !w.enabled(&l.kind) {
                    continue;
                }
                if self.roots[l.root].fut.is_none() {
                    continue;
                }
                let timer = matches!(l.kind, LeafKind::Sleep { .. });
                match &l.kind {
                    LeafKind::Choice { n } => {
                        for k in 0..*n {
                            v.push(Opt { leaf: *id, variant: k, tid: l.tid, kind: l.kind.clone(), timer, safe: false, urgent: false });
                        }
                    }
                    _ => {
                        let safe = !l.urgent && w.cfg.por && w.safe_first(&l.kind);
                        v.push(Opt { leaf: *id, variant: 0, tid: l.tid, kind: l.kind.clone(), timer, safe, urgent: l.urgent })
                    }
                }
            }
            v
        })
    }

    /// Performs one transition; true if nothing changed (an idle poll).
    pub fn step(&mut self, o: &Opt) -> bool {
        let (root, waker, was_sleep) = with(|w| {
            w.steps += 1;
            let l = w.leaves.get(&o.leaf).expect("stale option");
            let (root, tid, waker) = (l.root, l.tid, l.waker.clone());
            let was_sleep = matches!(l.kind, LeafKind::Sleep { .. });
            if let (true, LeafKind::Sleep { deadline }) = (w.cfg.timed, &l.kind) {
                w.now = w.now.max(*deadline);
            }
            w.begin(tid, root);
            w.granted = Some((o.leaf, o.variant));
            w.granted_variant = o.variant;
            (root, waker, was_sleep)
        });
        if let Some(w) = waker {
            w.wake();
        }
        self.poll(root);
        let null = with(|w| {
            if let Some((g, _)) = w.granted.take() {
                if let Some(l) = w.leaves.get_mut(&g) {
                    l.stale = true;
                }
            }
            w.end(was_sleep)
        });
        if !self.main_done {
            self.adopt();
        }
        null
    }

    /// Free mode: polls every root until none of them makes progress.
    pub fn sweep(&mut self) -> bool {
        let mut any = false;
        loop {
            let before = with(|w| w.total_ops);
            for i in 0..self.roots.len() {
                if self.main_done {
                    return true;
                }
                let tid = self.roots[i].tid;
                with(|w| w.begin(tid, i));
                // wake inner executors (FuturesUnordered) of every leaf of this root that can run
                let wk: Vec<Waker> = with(|w| {
                    w.leaves
                        .values()
                        .filter(|l| l.root == i && w.enabled(&l.kind))
                        .filter_map(|l| l.waker.clone())
                        .collect()
                });
                for k in wk {
                    k.wake();
                }
                self.poll(i);
                with(|w| {
                    w.end(false);
                });
            }
            if !self.main_done {
                self.adopt();
            }
            let after = with(|w| w.total_ops);
            with(|w| w.steps += 1);
            if after == before || self.main_done {
                return any;
            }
            any = true;
        }
    }

    pub fn choice_leaf(&self) -> Option<(u64, usize)> {
        with(|w| {
            w.leaves.iter().find_map(|(id, l)| match l.kind {
                LeafKind::Choice { n } => Some((*id, n)),
                _ => None,
            })
        })
    }

    pub fn quiesce_leaf(&self) -> Option<Opt> {
        with(|w| {
            w.leaves
                .iter()
                .filter_map(|(id, l)| match l.kind {
                    LeafKind::Quiesce(n) => Some((
                        n,
                        Opt { leaf: *id, variant: 0, tid: l.tid, kind: l.kind.clone(), timer: false, safe: false, urgent: false },
                    )),
                    _ => None,
                })
                .min_by_key(|(n, o)| (*n, o.leaf))
                .map(|x| x.1)
        })
    }

    pub fn pending_summary(&self) -> Vec<String> {
        with(|w| {
            w.leaves
                .values()
                .map(|l| {
                    let lbl = w.threads.get(&l.tid).map(|t| t.label.clone()).unwrap_or_default();
                    let obj = match &l.kind {
                        LeafKind::PipeRead { pipe, .. } | LeafKind::PipeWrite { pipe, .. } => w.pipes[*pipe].name.clone(),
                        _ => String::new(),
                    };
                    format!("{}: {:?} {}", lbl, l.kind, obj)
                })
                .collect()
        })
    }

    pub fn finish(self) {
        let _ = try_with(|w| {
            w.finished = true;
        });
        drop(self.roots);
    }
}

/// A pending operation.
pub struct LeafSlot(Option<u64>);
impl LeafSlot {
    pub const fn new() -> LeafSlot {
        LeafSlot(None)
    }
    pub fn poll(&mut self, kind: LeafKind, cx: &mut Context<'_>) -> Option<usize> {
        with(|w| w.leaf_poll(&mut self.0, kind, cx))
    }
}
impl Drop for LeafSlot {
    fn drop(&mut self) {
        if let Some(id) = self.0.take() {
            let _ = try_with(|w| w.leaf_remove(id));
        }
    }
}

impl std::fmt::Debug for LeafSlot {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "leaf")
    }
}

/// Operations for the environment (child programs, whoever feeds stdin).
pub mod env {
    use super::*;

    async fn leaf(kind: LeafKind) -> usize {
        let mut slot = LeafSlot::new();
        std::future::poll_fn(move |cx| match slot.poll(kind.clone(), cx) {
            Some(v) => Poll::Ready(v),
            None => Poll::Pending,
        })
        .await
    }

    pub async fn read(pipe: usize, max: usize) -> Vec<u8> {
        leaf(LeafKind::PipeRead { pipe, max }).await;
        with(|w| w.pipe_read(pipe, max)).unwrap_or_default()
    }
    pub async fn write(pipe: usize, data: &[u8]) -> Result<(), ()> {
        let mut off = 0;
        while off < data.len() {
            leaf(LeafKind::PipeWrite { pipe, len: data.len() - off }).await;
            match with(|w| w.pipe_write(pipe, &data[off..])) {
                Ok(n) => off += n,
                Err(_) => return Err(()),
            }
        }
        Ok(())
    }
    pub async fn sleep_ms(ms: u64) {
        let deadline = with(|w| {
            w.env_sleepers += 1;
            w.now + ms * 1_000_000
        });
        leaf(LeafKind::Sleep { deadline }).await;
        with(|w| {
            w.env_sleepers -= 1;
            w.op(70, 0, 0, true)
        });
    }
    pub async fn quiesce(level: u8) {
        leaf(LeafKind::Quiesce(level)).await;
        with(|w| {
            w.op(71, 0, 0, true);
            w.event("env", "quiescent", &[]);
        });
    }
    pub async fn yield_now() {
        leaf(LeafKind::Yield).await;
        with(|w| w.op(72, 0, 0, true));
    }
    pub async fn choose(n: usize) -> usize {
        let v = leaf(LeafKind::Choice { n }).await;
        with(|w| w.op(73, 0, v as u64, true));
        v
    }
    pub fn event(who: &str, what: &'static str, data: &[u8]) {
        with(|w| w.event(who, what, data))
    }
}
