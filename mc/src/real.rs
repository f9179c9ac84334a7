//! Runs a scenario with the real `pa2` binary, real files, real child processes.
use crate::scn::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub fn binary() -> Option<PathBuf> {
    let p = std::env::var("PA2_BIN").map(PathBuf::from).unwrap_or_else(|_| {
        crate::harness::verif().join("target/pa2/debug/pa2")
    });
    p.exists().then_some(p)
}

static N: AtomicUsize = AtomicUsize::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone)]
pub struct Raw {
    pub code: Option<i32>,
    pub timed_out: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

pub type Feeder<'a> = Box<dyn FnOnce(std::process::ChildStdin) + Send + 'a>;

/// Runs a command with a time limit; kills its whole process group when it is exceeded.
pub fn run_cmd(cmd: &mut Command, feed: Option<Feeder<'_>>, timeout_ms: u64) -> Raw {
    use std::os::unix::process::CommandExt;
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.stdin(if feed.is_some() { Stdio::piped() } else { Stdio::null() });
    cmd.env("RUST_BACKTRACE", "0");
    cmd.process_group(0);
    let mut ch = cmd.spawn().expect("cannot run the program");
    let pid = ch.id();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let si = ch.stdin.take();
    std::thread::scope(|s| {
        let a = s.spawn(move || {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let b = s.spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        if let (Some(f), Some(i)) = (feed, si) {
            s.spawn(move || f(i));
        }
        let t0 = Instant::now();
        let mut timed_out = false;
        let st = loop {
            match ch.try_wait() {
                Ok(Some(st)) => break Some(st),
                _ => {
                    if t0.elapsed() > Duration::from_millis(timeout_ms) {
                        timed_out = true;
                        kill_group(pid);
                        let _ = ch.kill();
                        break ch.wait().ok();
                    }
                    std::thread::sleep(if t0.elapsed().as_millis() < 12 { Duration::from_micros(300) } else { Duration::from_millis(3) });
                }
            }
        };
        // children the program left behind keep the pipes open
        let t1 = Instant::now();
        while !(a.is_finished() && b.is_finished()) && t1.elapsed() < Duration::from_millis(1500) {
            std::thread::sleep(Duration::from_millis(5));
        }
        if !(a.is_finished() && b.is_finished()) {
            kill_group(pid);
        }
        Raw { code: st.and_then(|s| s.code()), timed_out, stdout: a.join().unwrap(), stderr: b.join().unwrap() }
    })
}
fn kill_group(pid: u32) {
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    // the group was created by us for exactly this command
    unsafe {
        kill(-(pid as i32), 9);
    }
}

pub fn setup(dir: &Path, scn: &Scenario) -> PathBuf {
    let mut m = serde_json::Map::new();
    for (k, v) in &scn.programs {
        m.insert(k.clone(), serde_json::Value::Array(v.iter().map(|o| o.to_json()).collect()));
    }
    std::fs::write(dir.join("children.json"), serde_json::Value::Object(m).to_string()).unwrap();
    let bin = dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let me = std::env::current_exe().unwrap();
    for k in scn.programs.keys() {
        let p = bin.join(k);
        std::fs::write(&p, format!("#!/bin/sh\nexec {} child {}/children.json {} \"$@\"\n", me.display(), dir.display(), k))
            .unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    for d in &scn.dirs {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    for (k, f) in &scn.files {
        if f.open_error.is_none() {
            std::fs::write(dir.join(k), &f.content).unwrap();
        }
    }
    for (k, o) in &scn.outs {
        if !o.initial.is_empty() && !k.starts_with('<') {
            std::fs::write(dir.join(k), &o.initial).unwrap();
        }
        if o.create_error.is_some() {
            std::fs::create_dir_all(dir.join(k)).unwrap();
        }
    }
    std::fs::write(dir.join("pa.cfg"), &scn.config).unwrap();
    bin
}

pub fn run(bin: &Path, scn: &Scenario, timeout_ms: u64) -> Outcome {
    let sc = Scratch::new();
    let dir = sc.0.clone();
    let b = setup(&dir, scn);
    let mut cmd = Command::new(bin);
    cmd.current_dir(&dir).arg("process").arg("--config").arg("pa.cfg");
    cmd.arg("--format").arg(if scn.json { "json" } else { "yaml" });
    cmd.env("PATH", format!("{}:/usr/bin:/bin", b.display()));
    let feed: Option<Feeder> = scn.stdin.clone().map(|ops| {
        Box::new(move |mut i: std::process::ChildStdin| {
            fn go(i: &mut std::process::ChildStdin, ops: &[Op]) {
                for o in ops {
                    match o {
                        Op::Out(b) => {
                            let _ = i.write_all(b);
                            let _ = i.flush();
                        }
                        Op::Sleep(n) => std::thread::sleep(Duration::from_millis(*n)),
                        Op::SleepChoice(v) => std::thread::sleep(Duration::from_millis(v[0])),
                        Op::Quiesce => std::thread::sleep(Duration::from_millis(400)),
                        Op::Repeat(n, v) => {
                            for _ in 0..*n {
                                go(i, v)
                            }
                        }
                        _ => {}
                    }
                }
            }
            go(&mut i, &ops);
        }) as Feeder
    });
    let raw = run_cmd(&mut cmd, feed, timeout_ms);
    to_outcome(&dir, scn, &raw)
}

pub fn to_outcome(dir: &Path, scn: &Scenario, raw: &Raw) -> Outcome {
    let stderr = String::from_utf8_lossy(&raw.stderr).to_string();
    let marker = "Error(s) have occurred:\n";
    let (mut drained, mut errors) = (raw.stderr.clone(), vec![]);
    if let Some(i) = stderr.rfind(marker) {
        drained = stderr[..i].as_bytes().to_vec();
        errors = stderr[i + marker.len()..]
            .lines()
            .filter_map(|l| l.strip_prefix(" * "))
            .map(|l| l.to_string())
            .collect();
    }
    let end = if raw.timed_out {
        End::Stuck(vec!["still running".into()])
    } else {
        match raw.code {
            Some(0) => End::Ok(0),
            Some(1) => End::Errors(errors),
            Some(101) => {
                drained = vec![];
                End::Panic(stderr.clone())
            }
            x => End::Panic(format!("exit {:?}: {}", x, stderr)),
        }
    };
    let mut outs = BTreeMap::new();
    outs.insert("<stdout>".to_string(), raw.stdout.clone());
    outs.insert("<stderr>".to_string(), drained);
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n == "pa.cfg" || n == "children.json" || n == "bin" || scn.files.contains_key(&n) {
                continue;
            }
            if let Ok(v) = std::fs::read(e.path()) {
                outs.insert(n, v);
            }
        }
    }
    Outcome {
        end,
        outs,
        unflushed: BTreeMap::new(),
        children: vec![],
        notes: vec!["real".into()],
        steps: 0,
        now: 0,
        max_chan: 0,
    }
}

/// Is the real outcome the one with this digest?
pub fn same(model: &str, real: &Outcome) -> bool {
    let r = real.digest();
    if r == model {
        return true;
    }
    let (mc, mo) = model.split_once(" | ").unwrap_or((model, ""));
    let (rc, ro) = r.split_once(" | ").unwrap_or((&r, ""));
    if let (Some(_), End::Panic(_)) = (mc.strip_prefix("panic"), &real.end) {
        return true;
    }
    // what is refused before anything runs is reported like an error
    if let (Some(t), End::Errors(v)) = (mc.strip_prefix("refused "), &real.end) {
        return mo == ro && v.iter().any(|e| t.lines().any(|l| e.contains(l)) || e.contains(t)) || v.is_empty();
    }
    mc == rc && mo == ro
}
