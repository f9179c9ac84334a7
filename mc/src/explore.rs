//! Exhaustive exploration of one scenario: depth-first over scheduling decisions, stateless
//! re-execution, states identified by fingerprints.
use crate::scn::*;
use async_std::mc::{self, Config, Exec, Exit, LeafKind, Mode, Opt, World};
use pipeawesome2::config::{Config as PaConfig, ConfigLintWarning};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
    /// every interleaving
    Full,
    /// every interleaving with at most n deviations from the default scheduler
    Bounded(usize),
    /// the single-task executor's own order under a virtual clock, every environment timing
    Free,
}

#[derive(Clone, Debug)]
pub struct Limits {
    pub strategy: Strategy,
    pub max_states: usize,
    pub max_time: Duration,
    pub threads: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: usize,
    pub transitions: usize,
    pub states: usize,
    pub terminals: usize,
    pub max_depth: usize,
    pub complete: bool,
    pub outcomes: BTreeMap<String, usize>,
    pub wall: f64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub path: Vec<u16>,
    pub outcome: Option<Outcome>,
}

pub const NULLS: usize = 60;
const IDLE: u16 = 0xFFFF;
/// In a path: so many steps of the reduction are taken before the next one is chosen like any other.
const SAFE: u16 = 0x8000;

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static SEED: RefCell<u64> = const { RefCell::new(0) };
}
pub fn set_thread_seed(s: u64) {
    SEED.with(|c| *c.borrow_mut() = s);
}

/// Hash map orders are a function of the scenario's seed, not of the machine.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.try_with(|c| *c.borrow()).unwrap_or(7).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 32) as u8 }
    }
    len as isize
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = PANIC_MSG.try_with(|c| *c.borrow_mut() = Some(format!("{} at {}", msg, loc))).is_ok();
        let own = loc.contains("mc/src") || loc.contains("shim/src");
        if !quiet || (own && !msg.starts_with("MC-")) {
            crate::say_err(&format!("panic: {} at {}", msg, loc));
        }
    }));
}
pub fn take_panic() -> String {
    PANIC_MSG.with(|c| c.borrow_mut().take()).unwrap_or_else(|| "?".into())
}

/// Runs f on a fresh OS thread whose hash seeds are determined by `seed`; None if it panicked.
pub fn on_thread<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                set_thread_seed(seed);
                catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

pub enum Prepared {
    Config(PaConfig),
    End(End),
}

/// What `pa2 process` does with a configuration before it starts anything.
pub fn prepare(scn: &Scenario) -> Prepared {
    if scn.main.is_some() && scn.config.is_empty() {
        return Prepared::Config(PaConfig::new());
    }
    let r = on_thread(scn.seed, || prepare_here(&scn.config, scn.json));
    match r {
        Ok(Ok(c)) => Prepared::Config(c),
        Ok(Err(e)) => Prepared::End(End::Refused(e)),
        Err(p) => Prepared::End(End::Panic(p)),
    }
}
pub fn prepare_here(text: &str, json: bool) -> Result<PaConfig, String> {
    use pipeawesome2::config_io::{parse_config_str, ConfigFormat};
    let fmt = if json { ConfigFormat::Json } else { ConfigFormat::Yaml };
    let mut cfg = parse_config_str(&fmt, text)?;
    let bad = pipeawesome2::config::Config::convert_connections(&mut cfg.connection);
    if !bad.is_empty() {
        let mut v: Vec<String> = bad.iter().map(|c| c.to_string()).collect();
        v.sort();
        return Err(v.join("\n"));
    }
    let mut cfg = pipeawesome2::config_manip::connection_manipulation(cfg);
    let mut errs: Vec<String> = PaConfig::lint(&mut cfg)
        .into_iter()
        .filter(|e| !matches!(e, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
        .map(|c| c.to_string())
        .collect();
    if !errs.is_empty() {
        errs.sort();
        return Err(errs.join("\n"));
    }
    Ok(cfg)
}

fn pipeline_main(cfg: PaConfig, end: EndCell) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()>>> {
    Box::pin(async move {
        let e = match pipeawesome2::waiter::get_waiter(cfg) {
            Err(x) => End::Refused(x),
            Ok(mut waiter) => {
                let names = waiter.get_id_to_component_type_name().unwrap();
                match waiter.start(None).await {
                    Ok(n) => End::Ok(n),
                    Err(es) => End::Errors(
                        es.into_iter().map(|e| pipeawesome2::bin_support::waiter_error_to_string(e, &names)).collect(),
                    ),
                }
            }
        };
        *end.borrow_mut() = Some(e);
    })
}

#[derive(Default)]
pub struct RunRes {
    pub alts: Vec<Vec<u16>>,
    pub path: Vec<u16>,
    pub outcome: Option<Outcome>,
    pub steps: usize,
    pub fresh: usize,
    pub violation: Option<String>,
    pub events: Vec<mc::Event>,
    pub trace: Vec<String>,
}

pub trait Visited {
    /// true if the state was not (sufficiently) explored yet
    fn enter(&self, fp: u64, budget: usize) -> bool;
}

struct Sharded {
    shards: Vec<Mutex<HashMap<u64, u8>>>,
    count: AtomicUsize,
}
impl Visited for Sharded {
    fn enter(&self, fp: u64, budget: usize) -> bool {
        let mut m = self.shards[(fp & 63) as usize].lock().unwrap();
        match m.get_mut(&fp) {
            None => {
                m.insert(fp, budget as u8 + 1);
                self.count.fetch_add(1, Ordering::Relaxed);
                true
            }
            Some(b) if (*b as usize) < budget + 1 => {
                *b = budget as u8 + 1;
                true
            }
            _ => false,
        }
    }
}
pub struct NoVisited;
impl Visited for NoVisited {
    fn enter(&self, _: u64, _: usize) -> bool {
        true
    }
}

fn kind_rank(k: &LeafKind) -> (u8, u64) {
    match k {
        LeafKind::Recv(c) => (0, *c as u64),
        LeafKind::Send(c) => (1, *c as u64),
        LeafKind::PipeRead { pipe, .. } => (2, *pipe as u64),
        LeafKind::PipeWrite { pipe, .. } => (3, *pipe as u64),
        LeafKind::FileIo { file } => (4, *file as u64),
        LeafKind::Wait(c) => (5, *c as u64),
        LeafKind::Join(c) => (6, *c as u64),
        LeafKind::Quiesce(n) => (7, *n as u64),
        LeafKind::Yield => (8, 0),
        LeafKind::Choice { .. } => (9, 0),
        LeafKind::Sleep { .. } => (10, 0),
    }
}

pub struct Progress {
    pub beat: AtomicU64,
    pub started: Mutex<Option<(Instant, String, Vec<u16>)>>,
}

fn build_world(scn: &Scenario, strat: Strategy, log: bool) -> World {
    let mut w = World::new(Config {
        mode: if strat == Strategy::Free { Mode::Free } else { Mode::Granted },
        pipe_cap: scn.pipe_cap,
        read_mode: scn.read_mode,
        child_read_mode: scn.child_read_mode,
        stdin_read_mode: scn.stdin_mode,
        por: scn.por && strat == Strategy::Full,
        log_events: log || scn.need_events,
        timed: strat == Strategy::Free,
        chan_events: scn.chan_events,
    });
    w.in_files = scn.files.clone();
    w.out_specs = scn.outs.clone();
    if let Some(o) = &scn.observer {
        w.observer = Some(o());
    }
    w
}

/// One execution following `prefix`, then the strategy's first choice everywhere.
/// Must run on a thread of its own (see `on_thread`).
pub fn run_once(
    scn: &Scenario,
    cfg: &PaConfig,
    prefix: &[u16],
    strat: Strategy,
    visited: &dyn Visited,
    trace: bool,
) -> RunRes {
    let mut res = RunRes::default();
    let end: EndCell = Rc::new(RefCell::new(None));
    let notes: Notes = Rc::new(RefCell::new(vec![]));
    mc::install(build_world(scn, strat, trace));
    {
        let progs = scn.programs.clone();
        let errs = scn.spawn_errors.clone();
        mc::with(|w| {
            w.factory = Some(Box::new(move |info: &mc::SpawnInfo, io| {
                if let Some(e) = errs.get(&info.program) {
                    return Err(*e);
                }
                let Some(ops) = progs.get(&info.program).cloned() else { return Err(2) };
                let who = info.program.clone();
                Ok(Box::pin(async move {
                    let mut p = ModelProc::new(io, &who);
                    match p.run(&ops).await {
                        Ok(()) => Exit::Code(0),
                        Err(e) => e,
                    }
                }) as mc::EnvFuture)
            }))
        });
    }
    // stdin of the program itself
    mc::with(|w| {
        let mode = w.cfg.stdin_read_mode;
        let p = w.new_pipe("stdin", 0x57D1, scn.pipe_cap, mode, true);
        w.stdin_pipe = Some(p);
        match scn.stdin.clone() {
            None => w.pipe_close_writer(p),
            Some(ops) => w.add_env("feeder", async move {
                let io = mc::ChildIo { pid: usize::MAX, stdin: None, stdout: Some(p), stderr: None };
                let mut f = ModelProc::new(io, "feeder");
                let _ = f.run(&ops).await;
                mc::with(|w| w.pipe_close_writer(p));
            }),
        }
    });

    let r = catch_unwind(AssertUnwindSafe(|| {
        let main = match &scn.main {
            Some(m) => m(end.clone(), notes.clone()),
            None => pipeline_main(cfg.clone(), end.clone()),
        };
        let mut ex = Exec::new(main);
        let e = if strat == Strategy::Free {
            drive_free(scn, &mut ex, prefix, &mut res, trace)
        } else {
            drive(scn, &mut ex, prefix, strat, visited, &mut res, trace)
        };
        (e, ex)
    }));
    let mut ex_keep = None;
    let e = match r {
        Ok((e, ex)) => {
            ex_keep = Some(ex);
            e
        }
        Err(_) => Some(End::Panic(take_panic())),
    };
    let ended = match e {
        Some(e) => e,
        None => end.borrow_mut().take().unwrap_or(End::Panic("no result".into())),
    };
    let main_done = ex_keep.as_ref().map(|e| e.main_done).unwrap_or(true);
    let out = mc::with(|w| {
        res.steps = w.steps;
        res.violation = w.violation.take();
        res.events = std::mem::take(&mut w.events);
        let mut outs = BTreeMap::new();
        let mut unflushed = BTreeMap::new();
        for o in w.outs.iter() {
            outs.insert(o.name.clone(), o.content.clone());
            if !o.pending.is_empty() {
                unflushed.insert(o.name.clone(), o.pending.clone());
            }
        }
        Outcome {
            end: ended,
            outs,
            unflushed,
            children: w
                .children
                .iter()
                .map(|c| ChildOut {
                    program: c.info.program.clone(),
                    args: c.info.args.clone(),
                    info: c.info.clone(),
                    received: c.received.clone(),
                    written: c.written.clone(),
                    exit: c.exit,
                    killed: c.killed,
                })
                .collect(),
            notes: notes.borrow().clone(),
            steps: w.steps,
            now: w.now,
            max_chan: w.chans.iter().map(|c| c.max_len).max().unwrap_or(0),
        }
    });
    let _ = main_done;
    if let Some(ex) = ex_keep {
        let _ = catch_unwind(AssertUnwindSafe(|| ex.finish()));
    }
    mc::with(|w| w.finished = true);
    if out.end != End::Pruned {
        if res.violation.is_none() {
            res.violation = (scn.judge)(&out).err();
        }
        res.outcome = Some(out);
    }
    let _ = mc::uninstall();
    res
}

fn describe(o: &Opt) -> String {
    mc::with(|w| {
        let l = w.threads.get(&o.tid).map(|t| t.label.clone()).unwrap_or_default();
        let obj = match &o.kind {
            LeafKind::PipeRead { pipe, .. } | LeafKind::PipeWrite { pipe, .. } => w.pipes[*pipe].name.clone(),
            _ => String::new(),
        };
        format!("{} {:?}#{} {}", l, o.kind, o.variant, obj)
    })
}

fn drive(
    scn: &Scenario,
    ex: &mut Exec,
    prefix: &[u16],
    strat: Strategy,
    visited: &dyn Visited,
    res: &mut RunRes,
    trace: bool,
) -> Option<End> {
    let mut pi = 0;
    let budget0 = match strat {
        Strategy::Bounded(n) => n,
        _ => 0,
    };
    let mut used = 0usize;
    // in bounded mode the prefix carries the number of deviations in front
    if let (Strategy::Bounded(_), Some(u)) = (strat, prefix.first()) {
        used = *u as usize;
        pi = 1;
    }
    let head = used;
    let mut run = 0usize;
    let mut age: HashMap<u64, usize> = HashMap::new(); // leaf -> step it was first seen
    let mut nstep = 0usize;
    let mut tr = |res: &mut RunRes, o: &Opt, tag: &str| {
        if trace {
            res.trace.push(format!("{}{}", tag, describe(o)));
        }
    };
    loop {
        if ex.main_done {
            return None;
        }
        if mc::with(|w| w.violation.is_some()) {
            return Some(End::Violation(String::new()));
        }
        nstep += 1;
        if nstep > scn.step_limit {
            return Some(End::StepLimit);
        }
        let mut opts = ex.options();
        // what one poll of the program does without giving way is not for the explorer to take apart
        if let Some(o) = opts.iter().find(|o| o.urgent).cloned() {
            tr(res, &o, "rest ");
            ex.step(&o);
            continue;
        }
        if let Some(o) = opts.iter().find(|o| o.safe).cloned() {
            // Its operation commutes with everything.  Whether the rest of the step does is known
            // when it was taken: if not, this was a choice like any other.
            let sort = |opts: &mut Vec<Opt>| opts.sort_by_key(|o| (!o.timer, o.tid, kind_rank(&o.kind), o.variant));
            if pi < prefix.len() {
                if prefix[pi] & SAFE != 0 && prefix[pi] != IDLE && (prefix[pi] & !SAFE) as usize == run {
                    sort(&mut opts);
                    res.path.extend([prefix[pi], prefix[pi + 1]]);
                    let o = opts.get(prefix[pi + 1] as usize).expect("replay diverged: option missing").clone();
                    pi += 2;
                    run = 0;
                    tr(res, &o, "");
                    ex.step(&o);
                    continue;
                }
            }
            let new = pi >= prefix.len() && opts.len() > 1;
            let fp = if new { mc::with(|w| w.fingerprint()) } else { 0 };
            tr(res, &o, "safe ");
            ex.step(&o);
            let dep = ex.main_done || mc::with(|w| w.step_dep);
            if new && dep && run < (SAFE - 2) as usize {
                if !visited.enter(fp, 0) {
                    return Some(End::Pruned);
                }
                res.fresh += 1;
                sort(&mut opts);
                for (j, x) in opts.iter().enumerate() {
                    if x.leaf != o.leaf {
                        let mut p = res.path.clone();
                        p.extend([SAFE | run as u16, j as u16]);
                        res.alts.push(p);
                    }
                }
            }
            run += 1;
            continue;
        }
        if opts.is_empty() {
            if let Some(q) = ex.quiesce_leaf() {
                tr(res, &q, "quiesce ");
                ex.step(&q);
                continue;
            }
            return Some(End::Stuck(ex.pending_summary()));
        }
        opts.sort_by_key(|o| (!o.timer, o.tid, kind_rank(&o.kind), o.variant));
        if opts.len() == 1 && !opts[0].timer {
            tr(res, &opts[0].clone(), "only ");
            ex.step(&opts[0].clone());
            continue;
        }
        // follow the prefix
        run = 0;
        if pi < prefix.len() {
            let c = prefix[pi];
            pi += 1;
            res.path.push(c);
            if c == IDLE {
                let q = ex.quiesce_leaf().expect("replay diverged: no quiesce leaf");
                tr(res, &q, "quiesce ");
                ex.step(&q);
                continue;
            }
            let (r, k) = ((c >> 8) as usize, (c & 0xff) as usize);
            for _ in 0..r {
                for t in opts.iter().filter(|o| o.timer).map(|o| o.tid).collect::<Vec<_>>() {
                    if let Some(o) = ex.options().into_iter().find(|o| o.timer && o.tid == t) {
                        ex.step(&o);
                    }
                }
            }
            let tid = opts.get(k).map(|o| o.tid);
            let o = if r > 0 {
                ex.options().into_iter().find(|o| Some(o.tid) == tid)
            } else {
                opts.get(k).cloned()
            };
            let o = o.expect("replay diverged: option missing");
            tr(res, &o, "");
            ex.step(&o);
            continue;
        }
        // a new node
        let fp = mc::with(|w| w.fingerprint());
        let remaining = budget0.saturating_sub(used);
        if !visited.enter(fp, remaining) {
            return Some(End::Pruned);
        }
        res.fresh += 1;
        let order: Vec<usize> = match strat {
            Strategy::Bounded(_) => {
                let mut ix: Vec<usize> = (0..opts.len()).collect();
                for o in opts.iter() {
                    age.entry(o.leaf).or_insert(nstep);
                }
                ix.sort_by_key(|i| (opts[*i].timer, age[&opts[*i].leaf], opts[*i].leaf, opts[*i].variant));
                ix
            }
            _ => (0..opts.len()).collect(),
        };
        let mut taken = None;
        let mut round = 0;
        while taken.is_none() {
            for (pos, i) in order.iter().enumerate() {
                let o = if round == 0 {
                    opts[*i].clone()
                } else {
                    let t = opts[*i].tid;
                    match ex.options().into_iter().find(|x| x.timer && x.tid == t) {
                        Some(o) => o,
                        None => continue,
                    }
                };
                let before = if trace { describe(&o) } else { String::new() };
                if !ex.step(&o) {
                    taken = Some((pos, *i));
                    if trace {
                        res.trace.push(before);
                    }
                    break;
                }
                if ex.main_done {
                    taken = Some((pos, *i));
                    break;
                }
            }
            if taken.is_none() {
                round += 1;
                if opts.iter().any(|o| !o.timer) || round > NULLS {
                    break;
                }
            }
        }
        match taken {
            Some((pos, i)) => {
                let c = ((round as u16) << 8) | i as u16;
                for j in order.iter().skip(pos + 1) {
                    let mut p = res.path.clone();
                    p.push(*j as u16);
                    match strat {
                        Strategy::Bounded(_) => {
                            if used < budget0 {
                                let mut q = vec![used as u16 + 1];
                                q.extend(p);
                                res.alts.push(q);
                            }
                        }
                        _ => res.alts.push(p),
                    }
                }
                res.path.push(c);
            }
            None => {
                if let Some(q) = ex.quiesce_leaf() {
                    res.path.push(IDLE);
                    tr(res, &q, "quiesce ");
                    ex.step(&q);
                } else {
                    return Some(End::Stuck(ex.pending_summary()));
                }
            }
        }
        let _ = head;
    }
}

fn drive_free(scn: &Scenario, ex: &mut Exec, prefix: &[u16], res: &mut RunRes, trace: bool) -> Option<End> {
    let mut pi = 0;
    let mut dull = 0;
    let mut last = 0;
    let mut rounds = 0;
    loop {
        rounds += 1;
        ex.sweep();
        if ex.main_done {
            return None;
        }
        if mc::with(|w| w.violation.is_some()) {
            return Some(End::Violation(String::new()));
        }
        if rounds > scn.step_limit {
            return Some(End::StepLimit);
        }
        if let Some((leaf, n)) = ex.choice_leaf() {
            let o = ex.options().into_iter().find(|o| o.leaf == leaf && o.variant == 0).unwrap();
            let c = if pi < prefix.len() {
                prefix[pi] as usize
            } else {
                for k in 1..n {
                    let mut p = res.path.clone();
                    p.push(k as u16);
                    res.alts.push(p);
                }
                0
            };
            pi += 1;
            res.path.push(c as u16);
            res.fresh += 1;
            if trace {
                res.trace.push(format!("t={} choice {} of {}", mc::with(|w| w.now), c, n));
            }
            ex.step(&Opt { variant: c, ..o });
            continue;
        }
        let eff = mc::with(|w| w.effects);
        if eff != last {
            last = eff;
            dull = 0;
        } else {
            dull += 1;
        }
        let next = mc::with(|w| {
            w.leaves
                .values()
                .filter_map(|l| match l.kind {
                    LeafKind::Sleep { deadline } => Some(deadline),
                    _ => None,
                })
                .min()
        });
        let env_sleeping = mc::with(|w| w.env_sleepers > 0);
        match next {
            Some(d) if dull < 400 || env_sleeping => mc::with(|w| w.now = w.now.max(d)),
            _ => {
                if let Some(q) = ex.quiesce_leaf() {
                    if trace {
                        res.trace.push(format!("t={} quiesce", mc::with(|w| w.now)));
                    }
                    mc::with(|w| w.quiesce_ok = Some(q.leaf));
                    ex.sweep();
                    mc::with(|w| w.quiesce_ok = None);
                    dull = 0;
                    if ex.main_done {
                        return None;
                    }
                } else {
                    return Some(End::Stuck(ex.pending_summary()));
                }
            }
        }
    }
}

pub struct Report {
    pub stats: Stats,
    pub violation: Option<Violation>,
}

/// Explores everything a scenario can do within the limits.
pub fn explore(scn: &Scenario, lim: &Limits) -> Report {
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let cfg = match prepare(scn) {
        Prepared::Config(c) => c,
        Prepared::End(e) => {
            let out = empty_outcome(e);
            stats.executions = 1;
            stats.terminals = 1;
            stats.states = 1;
            stats.complete = true;
            *stats.outcomes.entry(out.digest()).or_insert(0) += 1;
            let v = (scn.judge)(&out).err();
            return Report { stats, violation: v.map(|what| Violation { what, path: vec![], outcome: Some(out) }) };
        }
    };
    let visited = Sharded { shards: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), count: AtomicUsize::new(0) };
    struct Q {
        work: Vec<Vec<u16>>,
        active: usize,
    }
    let q = Mutex::new(Q { work: vec![vec![]], active: 0 });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let truncated = AtomicBool::new(false);
    let total = Mutex::new((stats, None::<Violation>));
    let terms: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for _ in 0..lim.threads.max(1) {
            s.spawn(|| loop {
                let prefix = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        if let Some(p) = g.work.pop() {
                            g.active += 1;
                            break p;
                        }
                        if g.active == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    }
                };
                let slot = crate::watch_begin(&scn.name, &prefix);
                let r = match on_thread(scn.seed, || {
                    run_once(scn, &cfg, &prefix, lim.strategy, &visited, false)
                }) {
                    Ok(r) => r,
                    Err(m) => RunRes { violation: Some(format!("checker: {}", m)), ..Default::default() },
                };
                crate::watch_end(slot);
                {
                    let mut t = total.lock().unwrap();
                    t.0.executions += 1;
                    t.0.transitions += r.steps;
                    t.0.max_depth = t.0.max_depth.max(r.steps);
                    if lim.strategy == Strategy::Free {
                        t.0.states += r.fresh + 1;
                    }
                    if let Some(o) = &r.outcome {
                        t.0.terminals += 1;
                        *t.0.outcomes.entry(o.digest()).or_insert(0) += 1;
                        if o.end == End::StepLimit {
                            truncated.store(true, Ordering::Relaxed);
                        }
                    }
                    if let Some(v) = &r.violation {
                        if t.1.is_none() {
                            let mut path = r.path.clone();
                            if let Strategy::Bounded(_) = lim.strategy {
                                path.insert(0, prefix.first().copied().unwrap_or(0));
                            }
                            t.1 = Some(Violation { what: v.clone(), path, outcome: r.outcome.clone() });
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let _ = &terms;
                let mut g = q.lock().unwrap();
                g.work.extend(r.alts);
                g.active -= 1;
                if visited.count.load(Ordering::Relaxed) > lim.max_states || t0.elapsed() > lim.max_time {
                    if !g.work.is_empty() {
                        truncated.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                cv.notify_all();
            });
        }
    });
    let (mut stats, violation) = total.into_inner().unwrap();
    if lim.strategy != Strategy::Free {
        stats.states = visited.count.load(Ordering::Relaxed) + stats.terminals.min(stats.outcomes.len());
    }
    stats.complete = !truncated.load(Ordering::Relaxed) && violation.is_none();
    stats.wall = t0.elapsed().as_secs_f64();
    Report { stats, violation }
}

pub fn empty_outcome(e: End) -> Outcome {
    Outcome {
        end: e,
        outs: BTreeMap::new(),
        unflushed: BTreeMap::new(),
        children: vec![],
        notes: vec![],
        steps: 0,
        now: 0,
        max_chan: 0,
    }
}

/// Re-runs one recorded execution with a printed trace.
pub fn replay(scn: &Scenario, strat: Strategy, path: &[u16]) -> RunRes {
    match prepare(scn) {
        Prepared::Config(cfg) => {
            on_thread(scn.seed, || {
                let mut r = run_once(scn, &cfg, path, strat, &NoVisited, true);
                r.alts.clear();
                r
            })
            .unwrap()
        }
        Prepared::End(e) => {
            let o = empty_outcome(e);
            let v = (scn.judge)(&o).err();
            RunRes { outcome: Some(o), violation: v, ..Default::default() }
        }
    }
}
