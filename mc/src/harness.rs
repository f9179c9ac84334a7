//! Runs the checks of one property, keeps the books, writes evidence and replay files.
use crate::explore::*;
use crate::props;
use crate::real;
use crate::scn::*;
use crate::{say, say_err};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub states: usize,
    pub transitions: usize,
    pub executions: usize,
    pub terminals: usize,
    pub validated: usize,
    pub enumerated: usize,
    pub incomplete: Vec<String>,
    pub scen: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, String)>,
    pub known: Vec<(String, String, String)>,
    pub known_hit: Vec<String>,
    pub t0: Instant,
    pub notes: Vec<String>,
    pub counters: BTreeMap<String, usize>,
    pub filter: Option<String>,
    pub collect: Option<Vec<(Scenario, Limits)>>,
    /// explorations of one schedule each, to be done side by side, and whether to run them for real
    queue: Vec<(Scenario, Limits, bool)>,
    pub max_violations: usize,
    pub verbose: bool,
    /// seconds after which no new scenario is started
    pub budget: u64,
    pub mismatches: Vec<String>,
}

static CURRENT: Mutex<Option<String>> = Mutex::new(None);

pub fn verif() -> std::path::PathBuf {
    std::fs::canonicalize(VERIF).unwrap_or_else(|_| VERIF.into())
}

impl Ctx {
    fn new(id: &str, tier: Tier) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif().join("known_findings.txt")) {
            for l in t.lines() {
                // known: property=C01 case=<name> :: text
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((p, r)) = r.split_once(' ') {
                        if let Some((c, t)) = r.trim().strip_prefix("case=").and_then(|r| r.split_once(" :: ")) {
                            known.push((p.to_string(), c.to_string(), t.to_string()));
                        }
                    }
                }
            }
        }
        Ctx {
            id: id.to_string(),
            tier,
            states: 0,
            transitions: 0,
            executions: 0,
            terminals: 0,
            validated: 0,
            enumerated: 0,
            incomplete: vec![],
            scen: vec![],
            samples: vec![],
            violations: vec![],
            known,
            known_hit: vec![],
            t0: Instant::now(),
            notes: vec![],
            counters: BTreeMap::new(),
            filter: std::env::var("MC_ONLY").ok(),
            collect: None,
            queue: vec![],
            max_violations: 5,
            budget: if tier == Tier::Quick { 240 } else { 6 * 3600 },
            mismatches: vec![],
            verbose: std::env::var("MC_VERBOSE").is_ok(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn stop(&self) -> bool {
        self.violations.len() >= self.max_violations
    }
    pub fn count(&mut self, k: &str, n: usize) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn full(&self) -> Limits {
        Limits {
            strategy: Strategy::Full,
            max_states: if self.quick() { 400_000 } else { 20_000_000 },
            max_time: Duration::from_secs(if self.quick() { 60 } else { 1800 }),
            threads: 8,
        }
    }
    pub fn bounded(&self, n: usize) -> Limits {
        Limits { strategy: Strategy::Bounded(n), ..self.full() }
    }
    pub fn free(&self) -> Limits {
        Limits { strategy: Strategy::Free, ..self.full() }
    }
    pub fn skip(&self, name: &str) -> bool {
        self.stop() || self.filter.as_ref().map(|f| !name.contains(f.as_str())).unwrap_or(false)
    }

    fn fail(&mut self, case: &str, what: &str, detail: Value) {
        let cases: Vec<&str> = case.split('|').collect();
        let _ = cases;
        if let Some(k) = self.known.iter().find(|k| k.0 == self.id && k.1 == case).cloned() {
            if !self.known_hit.contains(&k.1) {
                say(&format!("KNOWN-FINDING: property={} {}", self.id, k.2));
                self.known_hit.push(k.1);
            }
            return;
        }
        let dir = verif().join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}.json", self.id, self.violations.len() + 1));
        let mut d = detail;
        d["property"] = json!(self.id);
        d["tier"] = json!(if self.quick() { "quick" } else { "thorough" });
        d["case"] = json!(case);
        d["what"] = json!(what);
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&d).unwrap());
        say(&format!("  {}: {}", case, what));
        say(&format!("VIOLATION property={} replay={}", self.id, f.display()));
        self.violations.push((case.to_string(), what.to_string()));
    }

    /// Explores a scenario.
    pub fn explore(&mut self, scn: &Scenario, lim: &Limits) -> Option<Stats> {
        if self.skip(&scn.name) {
            return None;
        }
        if let Some(c) = self.collect.as_mut() {
            c.push((scn.clone(), lim.clone()));
            return None;
        }
        if self.t0.elapsed().as_secs() > self.budget {
            self.incomplete.push(format!("{} (not started: out of time)", scn.name));
            return None;
        }
        if lim.strategy == Strategy::Free {
            if self.queue.len() >= 96 {
                self.flush();
            }
            self.queue.push((scn.clone(), lim.clone(), false));
            return None;
        }
        let r = explore(scn, lim);
        Some(self.explored(scn, lim, r))
    }

    /// Does what is queued.
    pub fn flush(&mut self) {
        let q = std::mem::take(&mut self.queue);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let bad = std::sync::atomic::AtomicUsize::new(0);
        let late = self.t0 + std::time::Duration::from_secs(self.budget);
        let (most, found) = (self.max_violations, self.violations.len());
        let mut done: Vec<(usize, crate::explore::Report)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(|| {
                        let mut v = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= q.len() || std::time::Instant::now() > late || found + bad.load(Ordering::Relaxed) >= most {
                                return v;
                            }
                            let r = explore(&q[i].0, &q[i].1);
                            if r.violation.is_some() {
                                bad.fetch_add(1, Ordering::Relaxed);
                            }
                            v.push((i, r));
                        }
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        done.sort_by_key(|d| d.0);
        let mut at = 0;
        for (i, (scn, lim, real)) in q.iter().enumerate() {
            if at < done.len() && done[at].0 == i {
                let r = std::mem::replace(&mut done[at].1, crate::explore::Report { stats: Stats::default(), violation: None });
                at += 1;
                if self.stop() {
                    continue;
                }
                let s = self.explored(scn, lim, r);
                if *real && !self.violations.iter().any(|v| v.0 == scn.name) && !self.known_hit.contains(&scn.name) {
                    // one schedule does not have every outcome
                    self.real(scn, Some(&Stats { complete: false, ..s }));
                }
            } else if !self.stop() {
                self.incomplete.push(format!("{} (not started: out of time)", scn.name));
            }
        }
    }

    fn explored(&mut self, scn: &Scenario, lim: &Limits, r: crate::explore::Report) -> Stats {
        let s = &r.stats;
        self.states += s.states;
        self.transitions += s.transitions;
        self.executions += s.executions;
        self.terminals += s.terminals;
        if !s.complete && r.violation.is_none() {
            self.incomplete.push(scn.name.clone());
        }
        if self.verbose {
            say(&format!(
                "  {} [{:?}] states={} execs={} steps={} depth={} outcomes={} complete={} {:.2}s",
                scn.name,
                lim.strategy,
                s.states,
                s.executions,
                s.transitions,
                s.max_depth,
                s.outcomes.len(),
                s.complete,
                s.wall
            ));
            if std::env::var("MC_OUTCOMES").is_ok() {
                for (o, n) in &s.outcomes {
                    say(&format!("      {} x {}", n, o));
                }
            }
        }
        if self.scen.len() < 400 {
            self.scen.push(json!({"scenario": scn.name, "mode": format!("{:?}", lim.strategy), "states": s.states,
                "executions": s.executions, "steps": s.transitions, "longest": s.max_depth,
                "distinct_outcomes": s.outcomes.len(), "complete": s.complete}));
        }
        if self.samples.len() < 8 {
            if let Some((o, n)) = s.outcomes.iter().next() {
                self.samples.push(json!({"scenario": scn.name, "outcome": o, "times": n}));
            }
        }
        if let Some(v) = &r.violation {
            self.fail(
                &scn.name,
                &v.what,
                json!({
                    "kind": "scenario",
                    "strategy": strat_str(lim.strategy),
                    "path": v.path,
                    "config": scn.config,
                    "outcome": v.outcome.as_ref().map(|o| o.digest()),
                    "pending": v.outcome.as_ref().map(|o| format!("{:?}", o.end)),
                }),
            );
        }
        r.stats
    }

    /// Every interleaving if that fits in `cap` states; else every interleaving with at most n
    /// deviations from the default scheduler, for the biggest n that fits.
    pub fn deep(&mut self, scn: &Scenario, cap: usize) {
        if self.skip(&scn.name) {
            return;
        }
        let mut full = self.full();
        full.max_states = cap;
        let n_viol = self.violations.len();
        let inc = self.incomplete.len();
        let Some(st) = self.explore(scn, &full) else { return };
        if self.violations.len() > n_viol || self.known_hit.contains(&scn.name) {
            return;
        }
        if st.complete {
            self.count("scenarios_exhausted_completely", 1);
            self.real(scn, Some(&st));
        } else {
            self.incomplete.truncate(inc);
            self.around(scn, 12, cap);
        }
    }

    /// Every interleaving with at most n deviations from the default scheduler, for the biggest n
    /// up to `most` that fits in `cap` states (one deviation may take more).
    pub fn around(&mut self, scn: &Scenario, most: usize, cap: usize) {
        if self.skip(&scn.name) {
            return;
        }
        let n_viol = self.violations.len();
        let inc = self.incomplete.len();
        let mut done = 0;
        let mut stats = None;
        for n in 1..=most {
            let mut l = self.bounded(n);
            l.max_states = if n == 1 { (cap * 3).max(400_000) } else { cap };
            let Some(b) = self.explore(scn, &l) else { break };
            if self.violations.len() > n_viol || self.known_hit.contains(&scn.name) {
                return;
            }
            if !b.complete {
                self.incomplete.truncate(inc);
                break;
            }
            done = n;
            let stop = b.states * 4 > cap;
            stats = Some(Stats { complete: false, ..b });
            if stop {
                break;
            }
        }
        if done == 0 {
            self.incomplete.push(scn.name.clone());
        }
        self.count("scenarios_exhausted_up_to_a_deviation_bound", 1);
        self.count(&format!("deviation_bound_{}", done), 1);
        self.real(scn, stats.as_ref());
    }

    /// Runs the scenario with the real binary: the outcome must satisfy the judge and, when the
    /// model was explored completely, be one of the model's outcomes.
    pub fn real(&mut self, scn: &Scenario, stats: Option<&Stats>) {
        if self.skip(&scn.name) || self.collect.is_some() || !scn.real {
            return;
        }
        let Some(bin) = real::binary() else {
            self.notes.push("the pa2 binary is missing: no runs of the real program".into());
            return;
        };
        let mut last = None;
        for attempt in 0..3 {
            let out = real::run(&bin, scn, scn.real_timeout_ms * (attempt + 1));
            let problem = (scn.judge)(&out).err().map(|e| format!("real program: {}", e));
            if problem.is_none() {
                if let Some(s) = stats {
                    if s.complete && scn.pipe_cap >= 4096 && !s.outcomes.keys().any(|k| real::same(k, &out)) {
                        let m = format!(
                            "{}: the real program did what the model does not: {} not in {:?}",
                            scn.name,
                            out.digest(),
                            s.outcomes.keys().take(4).collect::<Vec<_>>()
                        );
                        if self.verbose {
                            say(&format!("  CONFORMANCE {}", m));
                        }
                        self.mismatches.push(m);
                        return;
                    }
                }
            }
            match problem {
                None => {
                    self.validated += 1;
                    return;
                }
                Some(p) => {
                    let retry = matches!(out.end, End::Stuck(_));
                    last = Some((p, out));
                    if !retry {
                        break;
                    }
                }
            }
        }
        if let Some((p, out)) = last {
            self.fail(
                &scn.name,
                &p,
                json!({"kind": "real", "config": scn.config, "outcome": out.digest(), "end": format!("{:?}", out.end)}),
            );
        }
    }

    /// Explore and run for real.
    pub fn both(&mut self, scn: &Scenario, lim: &Limits) {
        let before = self.queue.len();
        let s = self.explore(scn, lim);
        if lim.strategy == Strategy::Free && s.is_none() {
            if self.queue.len() != before {
                self.queue.last_mut().unwrap().2 = true;
            }
            return;
        }
        if s.is_some() && !self.violations.iter().any(|v| v.0 == scn.name) && !self.known_hit.contains(&scn.name) {
            self.real(scn, s.as_ref());
        }
    }

    /// One enumerated case that is not a schedule exploration.
    pub fn case(&mut self, name: &str, r: Result<(), String>) {
        if self.stop() || self.collect.is_some() {
            return;
        }
        self.enumerated += 1;
        if let Err(e) = r {
            self.fail(name, &e, json!({"kind": "case"}));
        }
    }

    fn evidence(&self) {
        let level = level_of(&self.id);
        let mut cov = json!({
            "states": self.states + self.enumerated,
            "transitions": self.transitions + self.enumerated,
            "executions": self.executions,
            "terminal_executions": self.terminals,
            "enumerated_cases": self.enumerated,
            "traces_validated_against_impl": self.validated + crate::props::conf::REAL_RUNS.load(std::sync::atomic::Ordering::Relaxed),
            "how_bound_to_the_code": "the schedules are executions of the compiled crate itself under a controlled scheduler; the environment stubs are bound by running the same scenarios with the real binary (traces_validated_against_impl counts those runs)",
            "incomplete": self.incomplete,
            "exhaustive": self.incomplete.is_empty(),
            "scenarios": self.scen,
            "samples": self.samples,
            "known_findings_seen": self.known_hit,
            "notes": self.notes,
            "conformance_mismatches": self.mismatches,
        });
        for (k, v) in &self.counters {
            cov[k] = json!(v);
        }
        let e = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": level,
            "coverage": cov,
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        let dir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&e).unwrap())
            .expect("cannot write evidence");
    }
}

fn level_of(id: &str) -> String {
    std::fs::read_to_string(verif().join("MANIFEST.json"))
        .ok()
        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        .and_then(|m| {
            m["checks"].as_array().and_then(|a| {
                a.iter().find(|c| c["property"] == id).and_then(|c| c["level"].as_str().map(|s| s.to_string()))
            })
        })
        .unwrap_or_else(|| "model_checking".into())
}

pub fn strat_str(s: Strategy) -> String {
    match s {
        Strategy::Full => "full".into(),
        Strategy::Bounded(n) => format!("bounded:{}", n),
        Strategy::Free => "free".into(),
    }
}
fn strat_parse(s: &str) -> Strategy {
    match s {
        "full" => Strategy::Full,
        "free" => Strategy::Free,
        x => Strategy::Bounded(x.trim_start_matches("bounded:").parse().unwrap_or(0)),
    }
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        say_err(&format!("unknown property {}", id));
        return 2;
    };
    *CURRENT.lock().unwrap() = Some(id.to_string());
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut ctx = Ctx::new(id, tier);
    (p.run)(&mut ctx);
    ctx.flush();
    let leak = crate::captured();
    if !leak.is_empty() && !ctx.stop() {
        if id == "C17" {
            ctx.case("stdout-purity", Err(format!("the program prints to stdout by itself: {:?}", leak)));
        }
    }
    ctx.evidence();
    say(&format!(
        "{} {:?}: states={} steps={} executions={} cases={} real runs={} incomplete={} mismatches={} violations={} {:.1}s",
        id,
        tier,
        ctx.states,
        ctx.transitions,
        ctx.executions,
        ctx.enumerated,
        ctx.validated,
        ctx.incomplete.len(),
        ctx.mismatches.len(),
        ctx.violations.len(),
        ctx.t0.elapsed().as_secs_f64()
    ));
    (!ctx.violations.is_empty()) as i32
}

/// Called by the watchdog: one execution neither ends nor blocks.
pub fn hung(name: &str, prefix: &[u16]) -> ! {
    let id = CURRENT.lock().unwrap().clone().unwrap_or_default();
    let mut ctx = Ctx::new(&id, Tier::Quick);
    ctx.fail(
        name,
        "the program computes forever without blocking",
        json!({"kind": "scenario", "strategy": "full", "path": prefix}),
    );
    ctx.evidence();
    std::process::exit(1)
}

pub fn replay_file(f: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("cannot read the file")).expect("not JSON");
    let id = v["property"].as_str().unwrap();
    let case = v["case"].as_str().unwrap();
    say(&format!("property {} case {}\nrecorded: {}", id, case, v["what"].as_str().unwrap_or("")));
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    if v["kind"] == "case" {
        let mut ctx = Ctx::new(id, tier);
        (p.run)(&mut ctx);
        ctx.flush();
        return (!ctx.violations.is_empty()) as i32;
    }
    let mut ctx = Ctx::new(id, tier);
    ctx.collect = Some(vec![]);
    (p.run)(&mut ctx);
    let Some((scn, _)) = ctx.collect.take().unwrap().into_iter().find(|s| s.0.name == case) else {
        say("no such scenario now");
        return 2;
    };
    say(&format!("config:\n{}", scn.config));
    if v["kind"] == "real" {
        let out = real::run(&real::binary().unwrap(), &scn, scn.real_timeout_ms);
        say(&out.digest());
        let r = (scn.judge)(&out);
        say(&format!("{:?}", r));
        return r.is_err() as i32;
    }
    let path: Vec<u16> = v["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    let r = replay(&scn, strat_parse(v["strategy"].as_str().unwrap()), &path);
    for t in &r.trace {
        say(&format!("  {}", t));
    }
    for e in &r.events {
        say(&format!("  @{} {} {} {:?}", e.step, e.who, e.what, String::from_utf8_lossy(&e.data)));
    }
    if let Some(o) = &r.outcome {
        say(&format!("{:?}", o));
    }
    say(&format!("violation now: {:?}", r.violation));
    r.violation.is_some() as i32
}
