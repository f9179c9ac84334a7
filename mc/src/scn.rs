//! Scenarios: a configuration, the files and child programs around it, and what must hold.
use async_std::mc::{self, env, ChildIo, Exit, FileSpec, Observer, OutSpec, ReadMode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

/// What a child program (or whoever feeds stdin) does.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    ReadLine,
    ReadAll,
    ReadN(usize),
    OutReg,
    ErrReg,
    Out(Vec<u8>),
    Err(Vec<u8>),
    /// prefix + register
    OutPfx(String),
    ErrPfx(String),
    CloseIn,
    CloseOut,
    CloseErr,
    Exit(i32),
    Kill(i32),
    EachLine(Vec<Op>),
    Repeat(usize, Vec<Op>),
    Sleep(u64),
    Quiesce,
    /// like Quiesce, after everybody else who waits for that
    QuiesceLate,
    /// register is "<n>..." : n > 0 writes n-1 to stdout, else "0..." to stderr
    CountDown,
    /// drops the first n bytes of the register
    Strip(usize),
    /// register starts with the string: run the first list, else the second
    IfPfx(String, Vec<Op>, Vec<Op>),
    /// the arguments, one a line
    ShowArgs,
    /// NAME=value, or "NAME unset"
    ShowEnv(String),
    /// the working directory, relative to where pa2 runs
    ShowCwd,
    /// leaves a file of that name containing "done"
    Mark(String),
    /// sleeps one of these many milliseconds: the explorer tries each
    SleepChoice(Vec<u64>),
}
pub fn out(s: &str) -> Op {
    Op::Out(s.as_bytes().to_vec())
}
pub fn err(s: &str) -> Op {
    Op::Err(s.as_bytes().to_vec())
}
/// The usual filter: echoes each line with a prefix.
pub fn cat(pfx: &str) -> Vec<Op> {
    vec![Op::EachLine(vec![Op::OutPfx(pfx.to_string())])]
}

impl Op {
    pub fn to_json(&self) -> Value {
        fn l(v: &[Op]) -> Value {
            Value::Array(v.iter().map(|o| o.to_json()).collect())
        }
        match self {
            Op::ReadLine => json!(["ReadLine"]),
            Op::ReadAll => json!(["ReadAll"]),
            Op::ReadN(n) => json!(["ReadN", n]),
            Op::OutReg => json!(["OutReg"]),
            Op::ErrReg => json!(["ErrReg"]),
            Op::Out(b) => json!(["Out", b]),
            Op::Err(b) => json!(["Err", b]),
            Op::OutPfx(s) => json!(["OutPfx", s]),
            Op::ErrPfx(s) => json!(["ErrPfx", s]),
            Op::CloseIn => json!(["CloseIn"]),
            Op::CloseOut => json!(["CloseOut"]),
            Op::CloseErr => json!(["CloseErr"]),
            Op::Exit(n) => json!(["Exit", n]),
            Op::Kill(n) => json!(["Kill", n]),
            Op::EachLine(v) => json!(["EachLine", l(v)]),
            Op::Repeat(n, v) => json!(["Repeat", n, l(v)]),
            Op::Sleep(n) => json!(["Sleep", n]),
            Op::Quiesce => json!(["Quiesce"]),
            Op::QuiesceLate => json!(["QuiesceLate"]),
            Op::CountDown => json!(["CountDown"]),
            Op::Strip(n) => json!(["Strip", n]),
            Op::IfPfx(s, a, b) => json!(["IfPfx", s, l(a), l(b)]),
            Op::SleepChoice(v) => json!(["SleepChoice", v]),
            Op::ShowArgs => json!(["ShowArgs"]),
            Op::ShowEnv(n) => json!(["ShowEnv", n]),
            Op::ShowCwd => json!(["ShowCwd"]),
            Op::Mark(n) => json!(["Mark", n]),
        }
    }
    pub fn from_json(v: &Value) -> Op {
        let a = v.as_array().unwrap();
        fn l(v: &Value) -> Vec<Op> {
            v.as_array().unwrap().iter().map(Op::from_json).collect()
        }
        fn b(v: &Value) -> Vec<u8> {
            v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
        }
        let s = |i: usize| a[i].as_str().unwrap().to_string();
        let n = |i: usize| a[i].as_i64().unwrap();
        match a[0].as_str().unwrap() {
            "ReadLine" => Op::ReadLine,
            "ReadAll" => Op::ReadAll,
            "ReadN" => Op::ReadN(n(1) as usize),
            "OutReg" => Op::OutReg,
            "ErrReg" => Op::ErrReg,
            "Out" => Op::Out(b(&a[1])),
            "Err" => Op::Err(b(&a[1])),
            "OutPfx" => Op::OutPfx(s(1)),
            "ErrPfx" => Op::ErrPfx(s(1)),
            "CloseIn" => Op::CloseIn,
            "CloseOut" => Op::CloseOut,
            "CloseErr" => Op::CloseErr,
            "Exit" => Op::Exit(n(1) as i32),
            "Kill" => Op::Kill(n(1) as i32),
            "EachLine" => Op::EachLine(l(&a[1])),
            "Repeat" => Op::Repeat(n(1) as usize, l(&a[2])),
            "Sleep" => Op::Sleep(n(1) as u64),
            "Quiesce" => Op::Quiesce,
            "QuiesceLate" => Op::QuiesceLate,
            "CountDown" => Op::CountDown,
            "Strip" => Op::Strip(n(1) as usize),
            "IfPfx" => Op::IfPfx(s(1), l(&a[2]), l(&a[3])),
            "SleepChoice" => Op::SleepChoice(a[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
            "ShowArgs" => Op::ShowArgs,
            "ShowEnv" => Op::ShowEnv(s(1)),
            "ShowCwd" => Op::ShowCwd,
            "Mark" => Op::Mark(s(1)),
            x => panic!("unknown op {}", x),
        }
    }
}

pub fn countdown(reg: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    let digits: String = reg.iter().take_while(|b| b.is_ascii_digit()).map(|b| *b as char).collect();
    let n: usize = digits.parse().unwrap_or(0);
    let mut v;
    if n > 0 {
        v = format!("{}", n - 1).into_bytes();
        v.extend_from_slice(&reg[digits.len()..]);
        Ok(v)
    } else {
        v = reg.to_vec();
        Err(std::mem::take(&mut v))
    }
}

fn args_text(a: &[String]) -> Vec<u8> {
    a.iter().map(|x| format!("<{}>", x)).collect::<Vec<_>>().join(",").into_bytes().into_iter().chain(*b"\n").collect()
}
fn env_text(n: &str, v: Option<String>) -> String {
    match v {
        Some(v) => format!("{}={}\n", n, v),
        None => format!("{} unset\n", n),
    }
}
/// Relative to where pa2 was started.
fn cwd_text(here: &std::path::Path, p: &std::path::Path) -> String {
    let mut v: Vec<std::ffi::OsString> = vec![];
    for c in here.join(p).components() {
        match c {
            std::path::Component::ParentDir => {
                v.pop();
            }
            std::path::Component::Normal(x) => v.push(x.to_os_string()),
            _ => (),
        }
    }
    let abs: std::path::PathBuf = std::iter::once(std::ffi::OsString::from("/")).chain(v).collect();
    match abs.strip_prefix(here) {
        Ok(r) => format!("cwd <{}>\n", r.display()),
        Err(_) => format!("cwd {}\n", abs.display()),
    }
}

/// The child's view inside the model.
pub struct ModelProc {
    pub io: ChildIo,
    pub who: String,
    reg: Vec<u8>,
    carry: Vec<u8>,
    eof: bool,
}
impl ModelProc {
    pub fn new(io: ChildIo, who: &str) -> ModelProc {
        ModelProc { io, who: who.to_string(), reg: vec![], carry: vec![], eof: false }
    }
    async fn fill(&mut self, max: usize) -> bool {
        let Some(p) = self.io.stdin else { return false };
        let v = env::read(p, max).await;
        if v.is_empty() {
            return false;
        }
        if self.io.pid != usize::MAX {
            let pid = self.io.pid;
            mc::with(|w| w.children[pid].received.extend_from_slice(&v));
        }
        self.carry.extend_from_slice(&v);
        true
    }
    async fn read_line(&mut self) {
        loop {
            if let Some(i) = self.carry.iter().position(|b| *b == b'\n') {
                self.reg = self.carry.drain(..=i).collect();
                return;
            }
            if !self.fill(4096).await {
                self.eof = true;
                self.reg = std::mem::take(&mut self.carry);
                return;
            }
        }
    }
    async fn wr(&mut self, which: usize, data: &[u8]) -> Result<(), Exit> {
        let p = if which == 0 { self.io.stdout } else { self.io.stderr };
        let pid = self.io.pid;
        if pid != usize::MAX {
            mc::with(|w| w.children[pid].written[which].extend_from_slice(data));
        }
        match p {
            None => {
                // not a pipe: nowhere, or pa2's own
                if pid != usize::MAX {
                    mc::with(|w| {
                        let i = &w.children[pid].info;
                        let k = if which == 0 { &i.stdout } else { &i.stderr };
                        if *k == mc::StdioKind::Inherit {
                            let f = w.out_file(if which == 0 { "<stdout>" } else { "<stderr>" });
                            let _ = w.out_write(f, data);
                            let _ = w.out_flush(f);
                        }
                    });
                }
                Ok(())
            }
            Some(p) => env::write(p, data).await.map_err(|_| Exit::Signal(13)),
        }
    }
    pub fn run<'a>(&'a mut self, ops: &'a [Op]) -> Pin<Box<dyn Future<Output = Result<(), Exit>> + 'a>> {
        Box::pin(async move {
            for op in ops {
                match op {
                    Op::ReadLine => self.read_line().await,
                    Op::ReadAll => {
                        while self.fill(4096).await {}
                        self.reg = std::mem::take(&mut self.carry);
                        self.eof = true;
                    }
                    Op::ReadN(n) => {
                        while self.carry.len() < *n {
                            let need = *n - self.carry.len();
                            if !self.fill(need).await {
                                self.eof = true;
                                break;
                            }
                        }
                        let k = (*n).min(self.carry.len());
                        self.reg = self.carry.drain(..k).collect();
                    }
                    Op::OutReg => {
                        let r = self.reg.clone();
                        self.wr(0, &r).await?
                    }
                    Op::ErrReg => {
                        let r = self.reg.clone();
                        self.wr(1, &r).await?
                    }
                    Op::OutPfx(p) | Op::ErrPfx(p) => {
                        let mut r = p.as_bytes().to_vec();
                        r.extend_from_slice(&self.reg);
                        self.wr(matches!(op, Op::ErrPfx(_)) as usize, &r).await?
                    }
                    Op::Out(b) => self.wr(0, b).await?,
                    Op::Err(b) => self.wr(1, b).await?,
                    Op::CloseIn => {
                        if let Some(p) = self.io.stdin.take() {
                            mc::with(|w| w.pipe_close_reader(p));
                        }
                    }
                    Op::CloseOut => {
                        if let Some(p) = self.io.stdout.take() {
                            mc::with(|w| w.pipe_close_writer(p));
                        }
                    }
                    Op::CloseErr => {
                        if let Some(p) = self.io.stderr.take() {
                            mc::with(|w| w.pipe_close_writer(p));
                        }
                    }
                    Op::Exit(n) => return Err(Exit::Code(*n)),
                    Op::Kill(n) => return Err(Exit::Signal(*n)),
                    Op::EachLine(v) => loop {
                        self.read_line().await;
                        if self.reg.is_empty() {
                            break;
                        }
                        self.run(v).await?;
                        if self.eof {
                            break;
                        }
                    },
                    Op::Repeat(n, v) => {
                        for _ in 0..*n {
                            self.run(v).await?;
                        }
                    }
                    Op::Sleep(ms) => env::sleep_ms(*ms).await,
                    Op::SleepChoice(v) => {
                        let k = env::choose(v.len()).await;
                        if v[k] > 0 {
                            env::sleep_ms(v[k]).await
                        }
                    }
                    Op::ShowArgs => {
                        let v = mc::with(|w| args_text(&w.children[self.io.pid].info.args));
                        self.wr(0, &v).await?
                    }
                    Op::ShowEnv(n) => {
                        let v = mc::with(|w| {
                            let i = &w.children[self.io.pid].info;
                            match i.envs.get(n) {
                                Some(v) => v.clone(),
                                None if i.env_clear => None,
                                None => std::env::var(n).ok(),
                            }
                        });
                        let t = env_text(n, v);
                        self.wr(0, t.as_bytes()).await?
                    }
                    Op::ShowCwd => {
                        let v = mc::with(|w| w.children[self.io.pid].info.cwd.clone());
                        let here = std::env::current_dir().unwrap_or_default();
                        let t = cwd_text(&here, std::path::Path::new(&v.unwrap_or_default()));
                        self.wr(0, t.as_bytes()).await?
                    }
                    Op::Mark(n) => mc::with(|w| {
                        let f = w.out_file(n);
                        let _ = w.out_write(f, b"done");
                        let _ = w.out_flush(f);
                    }),
                    Op::Quiesce => env::quiesce(0).await,
                    Op::QuiesceLate => env::quiesce(1).await,
                    Op::Strip(n) => {
                        self.reg.drain(..(*n).min(self.reg.len()));
                    }
                    Op::CountDown => match countdown(&self.reg.clone()) {
                        Ok(v) => self.wr(0, &v).await?,
                        Err(v) => self.wr(1, &v).await?,
                    },
                    Op::IfPfx(s, a, b) => {
                        if self.reg.starts_with(s.as_bytes()) {
                            self.run(a).await?
                        } else {
                            self.run(b).await?
                        }
                    }
                }
            }
            Ok(())
        })
    }
}

/// The same programs as real processes (`mc child`).
pub fn real_child(ops: &[Op], args: &[String], home: &std::path::Path) -> i32 {
    use std::io::{Read, Write};
    use std::os::unix::io::FromRawFd;
    struct P {
        i: Option<std::fs::File>,
        o: Option<std::fs::File>,
        e: Option<std::fs::File>,
        reg: Vec<u8>,
        carry: Vec<u8>,
        eof: bool,
        args: Vec<String>,
        home: std::path::PathBuf,
    }
    impl P {
        fn fill(&mut self, max: usize) -> bool {
            let Some(f) = self.i.as_mut() else { return false };
            let mut b = vec![0u8; max];
            match f.read(&mut b) {
                Ok(0) | Err(_) => false,
                Ok(n) => {
                    self.carry.extend_from_slice(&b[..n]);
                    true
                }
            }
        }
        fn line(&mut self) {
            loop {
                if let Some(i) = self.carry.iter().position(|b| *b == b'\n') {
                    self.reg = self.carry.drain(..=i).collect();
                    return;
                }
                if !self.fill(4096) {
                    self.eof = true;
                    self.reg = std::mem::take(&mut self.carry);
                    return;
                }
            }
        }
        fn wr(&mut self, w: usize, d: &[u8]) {
            let f = if w == 0 { self.o.as_mut() } else { self.e.as_mut() };
            if let Some(f) = f {
                if f.write_all(d).is_err() {
                    die();
                }
            }
        }
        fn run(&mut self, ops: &[Op]) -> Option<i32> {
            for op in ops {
                match op {
                    Op::ReadLine => self.line(),
                    Op::ReadAll => {
                        while self.fill(4096) {}
                        self.reg = std::mem::take(&mut self.carry);
                        self.eof = true;
                    }
                    Op::ReadN(n) => {
                        while self.carry.len() < *n {
                            let need = *n - self.carry.len();
                            if !self.fill(need) {
                                self.eof = true;
                                break;
                            }
                        }
                        let k = (*n).min(self.carry.len());
                        self.reg = self.carry.drain(..k).collect();
                    }
                    Op::OutReg => {
                        let r = self.reg.clone();
                        self.wr(0, &r)
                    }
                    Op::ErrReg => {
                        let r = self.reg.clone();
                        self.wr(1, &r)
                    }
                    Op::OutPfx(p) | Op::ErrPfx(p) => {
                        let mut r = p.as_bytes().to_vec();
                        r.extend_from_slice(&self.reg);
                        self.wr(matches!(op, Op::ErrPfx(_)) as usize, &r)
                    }
                    Op::Out(b) => self.wr(0, b),
                    Op::Err(b) => self.wr(1, b),
                    Op::CloseIn => self.i = None,
                    Op::CloseOut => self.o = None,
                    Op::CloseErr => self.e = None,
                    Op::Exit(n) => return Some(*n),
                    Op::Kill(_) => die(),
                    Op::EachLine(v) => loop {
                        self.line();
                        if self.reg.is_empty() {
                            break;
                        }
                        if let Some(x) = self.run(v) {
                            return Some(x);
                        }
                        if self.eof {
                            break;
                        }
                    },
                    Op::Repeat(n, v) => {
                        for _ in 0..*n {
                            if let Some(x) = self.run(v) {
                                return Some(x);
                            }
                        }
                    }
                    Op::ShowArgs => {
                        let v = args_text(&self.args);
                        self.wr(0, &v)
                    }
                    Op::ShowEnv(n) => {
                        let t = env_text(n, std::env::var_os(n).map(|v| v.to_string_lossy().to_string()));
                        self.wr(0, t.as_bytes())
                    }
                    Op::ShowCwd => {
                        let t = cwd_text(&self.home.clone(), &std::env::current_dir().unwrap_or_default());
                        self.wr(0, t.as_bytes())
                    }
                    Op::Mark(n) => {
                        let _ = std::fs::write(self.home.join(n), "done");
                    }
                    Op::Sleep(ms) => std::thread::sleep(std::time::Duration::from_millis(*ms)),
                    Op::SleepChoice(v) => std::thread::sleep(std::time::Duration::from_millis(v[0])),
                    Op::QuiesceLate => std::thread::sleep(std::time::Duration::from_millis(1200)),
                    Op::Quiesce => std::thread::sleep(std::time::Duration::from_millis(400)),
                    Op::Strip(n) => {
                        self.reg.drain(..(*n).min(self.reg.len()));
                    }
                    Op::CountDown => match countdown(&self.reg.clone()) {
                        Ok(v) => self.wr(0, &v),
                        Err(v) => self.wr(1, &v),
                    },
                    Op::IfPfx(s, a, b) => {
                        let r = if self.reg.starts_with(s.as_bytes()) { self.run(a) } else { self.run(b) };
                        if r.is_some() {
                            return r;
                        }
                    }
                }
            }
            None
        }
    }
    fn die() -> ! {
        // dies by a signal, whatever the disposition of SIGPIPE is
        std::process::abort()
    }
    let mut p = unsafe {
        P {
            i: Some(std::fs::File::from_raw_fd(0)),
            o: Some(std::fs::File::from_raw_fd(1)),
            e: Some(std::fs::File::from_raw_fd(2)),
            reg: vec![],
            carry: vec![],
            eof: false,
            args: args.to_vec(),
            home: home.to_path_buf(),
        }
    };
    let r = p.run(ops).unwrap_or(0);
    std::mem::forget((p.i, p.o, p.e));
    r
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok(usize),
    /// error lines as `pa2` prints them
    Errors(Vec<String>),
    /// refused before anything ran
    Refused(String),
    Panic(String),
    Stuck(Vec<String>),
    StepLimit,
    /// pruned: an already visited state was reached
    Pruned,
    Violation(String),
}
#[derive(Clone, Debug)]
pub struct ChildOut {
    pub program: String,
    pub args: Vec<String>,
    pub info: mc::SpawnInfo,
    pub received: Vec<u8>,
    pub written: [Vec<u8>; 2],
    pub exit: Option<Exit>,
    pub killed: bool,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub outs: BTreeMap<String, Vec<u8>>,
    /// accepted but not visible to anyone else when the program ended
    pub unflushed: BTreeMap<String, Vec<u8>>,
    pub children: Vec<ChildOut>,
    pub notes: Vec<String>,
    pub steps: usize,
    pub now: u64,
    pub max_chan: usize,
}
impl Outcome {
    pub fn out(&self, n: &str) -> &[u8] {
        self.outs.get(n).map(|v| &v[..]).unwrap_or(&[])
    }
    pub fn out_s(&self, n: &str) -> String {
        String::from_utf8_lossy(self.out(n)).to_string()
    }
    pub fn child(&self, p: &str) -> Option<&ChildOut> {
        self.children.iter().find(|c| c.program == p)
    }
    /// Identity up to what a user can see (message order of errors is by wall clock: a set).
    pub fn digest(&self) -> String {
        let end = match &self.end {
            End::Ok(_) => "ok".to_string(),
            End::Errors(v) => {
                let mut v = v.clone();
                v.sort();
                format!("errors {:?}", v)
            }
            End::Refused(s) => format!("refused {}", s),
            End::Panic(s) => format!("panic {}", s),
            End::Stuck(_) => "stuck".to_string(),
            x => format!("{:?}", x),
        };
        let outs: Vec<String> = self
            .outs
            .iter()
            .filter(|(_, v)| !v.is_empty())
            .map(|(k, v)| format!("{}={:?}", k, String::from_utf8_lossy(v)))
            .collect();
        format!("{} | {}", end, outs.join(" "))
    }
}

pub type Judge = Arc<dyn Fn(&Outcome) -> Result<(), String> + Send + Sync>;
pub type Notes = Rc<RefCell<Vec<String>>>;
pub type EndCell = Rc<RefCell<Option<End>>>;
pub type MainFn = Arc<dyn Fn(EndCell, Notes) -> Pin<Box<dyn Future<Output = ()>>> + Send + Sync>;
pub type ObsFn = Arc<dyn Fn() -> Box<dyn Observer> + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub config: String,
    pub json: bool,
    pub files: BTreeMap<String, FileSpec>,
    /// directories that exist where pa2 runs
    pub dirs: Vec<String>,
    pub outs: BTreeMap<String, OutSpec>,
    pub programs: BTreeMap<String, Vec<Op>>,
    pub spawn_errors: BTreeMap<String, i32>,
    pub stdin: Option<Vec<Op>>,
    pub pipe_cap: usize,
    pub read_mode: ReadMode,
    pub stdin_mode: ReadMode,
    pub child_read_mode: ReadMode,
    pub por: bool,
    pub seed: u64,
    pub observer: Option<ObsFn>,
    pub judge: Judge,
    pub main: Option<MainFn>,
    pub step_limit: usize,
    /// may be run with the real binary as well
    pub real: bool,
    /// extra condition on runs of the real binary is the same judge unless stated
    pub real_timeout_ms: u64,
    pub need_events: bool,
    pub chan_events: bool,
}
impl Scenario {
    pub fn new(name: &str, config: &str) -> Scenario {
        Scenario {
            name: name.to_string(),
            config: config.to_string(),
            json: false,
            files: BTreeMap::new(),
            dirs: vec![],
            outs: BTreeMap::new(),
            programs: BTreeMap::new(),
            spawn_errors: BTreeMap::new(),
            stdin: None,
            pipe_cap: 4096,
            read_mode: ReadMode::Line,
            stdin_mode: ReadMode::Line,
            child_read_mode: ReadMode::Line,
            por: true,
            seed: 1,
            observer: None,
            judge: Arc::new(|_| Ok(())),
            main: None,
            step_limit: 5000,
            real: true,
            real_timeout_ms: 8000,
            need_events: false,
            chan_events: false,
        }
    }
    pub fn file(mut self, n: &str, c: &[u8]) -> Self {
        self.files.insert(n.to_string(), FileSpec { content: c.to_vec(), ..Default::default() });
        self
    }
    pub fn file_spec(mut self, n: &str, f: FileSpec) -> Self {
        self.files.insert(n.to_string(), f);
        self
    }
    pub fn out_spec(mut self, n: &str, f: OutSpec) -> Self {
        self.outs.insert(n.to_string(), f);
        self
    }
    pub fn prog(mut self, n: &str, ops: Vec<Op>) -> Self {
        self.programs.insert(n.to_string(), ops);
        self
    }
    pub fn feed(mut self, ops: Vec<Op>) -> Self {
        self.stdin = Some(ops);
        self
    }
    pub fn judge(mut self, f: impl Fn(&Outcome) -> Result<(), String> + Send + Sync + 'static) -> Self {
        self.judge = Arc::new(f);
        self
    }
    pub fn observe(mut self, f: impl Fn() -> Box<dyn Observer> + Send + Sync + 'static) -> Self {
        self.observer = Some(Arc::new(f));
        self
    }
    pub fn cap(mut self, n: usize) -> Self {
        self.pipe_cap = n;
        self
    }
    pub fn seed(mut self, n: u64) -> Self {
        self.seed = n;
        self
    }
    pub fn no_por(mut self) -> Self {
        self.por = false;
        self
    }
    pub fn model_only(mut self) -> Self {
        self.real = false;
        self
    }
    pub fn limit(mut self, n: usize) -> Self {
        self.step_limit = n;
        self
    }
    pub fn main(mut self, f: MainFn) -> Self {
        self.main = Some(f);
        self.real = false;
        self
    }
}
