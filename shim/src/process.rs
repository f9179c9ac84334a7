use crate::io::{err, poll_pipe_read};
use crate::mc::{self, Exit, LeafKind, LeafSlot, SpawnInfo, StdioKind};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::pin::Pin;
pub use std::process::{abort, exit, id, ExitStatus, Output, Stdio};
use std::task::{Context, Poll};

/// Which kind of `Stdio` this is: compared with freshly made ones (the type is opaque).
fn kind(s: Stdio) -> StdioKind {
    fn tag(s: Stdio) -> u8 {
        let b = unsafe { *(&s as *const Stdio as *const u8) };
        std::mem::forget(s);
        b
    }
    let t = tag(s);
    if t == tag(Stdio::piped()) {
        StdioKind::Piped
    } else if t == tag(Stdio::null()) {
        StdioKind::Null
    } else if t == tag(Stdio::inherit()) {
        StdioKind::Inherit
    } else {
        StdioKind::Other
    }
}

#[derive(Debug)]
pub struct Command {
    info: SpawnInfo,
    set: [bool; 3],
    kill_on_drop: bool,
}
fn s<S: AsRef<OsStr>>(x: S) -> String {
    x.as_ref().to_string_lossy().to_string()
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(program: S) -> Command {
        Command {
            info: SpawnInfo {
                program: s(program),
                args: vec![],
                envs: BTreeMap::new(),
                env_clear: false,
                cwd: None,
                stdin: StdioKind::Inherit,
                stdout: StdioKind::Inherit,
                stderr: StdioKind::Inherit,
            },
            set: [false; 3],
            kill_on_drop: false,
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
        self.info.args.push(s(a));
        self
    }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, a: I) -> &mut Command {
        for x in a {
            self.info.args.push(s(x));
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
        self.info.envs.insert(s(k), Some(s(v)));
        self
    }
    pub fn envs<I, K, V>(&mut self, it: I) -> &mut Command
    where
        I: IntoIterator<Item = (K, V)>,
        K: AsRef<OsStr>,
        V: AsRef<OsStr>,
    {
        for (k, v) in it {
            self.info.envs.insert(s(k), Some(s(v)));
        }
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
        self.info.envs.insert(s(k), None);
        self
    }
    pub fn env_clear(&mut self) -> &mut Command {
        self.info.envs.clear();
        self.info.env_clear = true;
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, p: P) -> &mut Command {
        self.info.cwd = Some(p.as_ref().to_string_lossy().to_string());
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, c: T) -> &mut Command {
        self.info.stdin = kind(c.into());
        self.set[0] = true;
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, c: T) -> &mut Command {
        self.info.stdout = kind(c.into());
        self.set[1] = true;
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, c: T) -> &mut Command {
        self.info.stderr = kind(c.into());
        self.set[2] = true;
        self
    }
    pub fn kill_on_drop(&mut self, k: bool) -> &mut Command {
        self.kill_on_drop = k;
        self
    }
    pub fn reap_on_drop(&mut self, _k: bool) -> &mut Command {
        self
    }
    pub fn spawn(&mut self) -> std::io::Result<Child> {
        let info = self.info.clone();
        let pid = mc::with(|w| w.spawn_child(info)).map_err(err)?;
        let io = mc::with(|w| w.children[pid].io);
        Ok(Child {
            stdin: io.stdin.map(|p| ChildStdin { pipe: p, slot: LeafSlot::new() }),
            stdout: io.stdout.map(|p| ChildStdout { pipe: p, slot: LeafSlot::new() }),
            stderr: io.stderr.map(|p| ChildStderr { pipe: p, slot: LeafSlot::new() }),
            pid,
            kill_on_drop: self.kill_on_drop,
        })
    }
    pub fn status(&mut self) -> impl std::future::Future<Output = std::io::Result<ExitStatus>> {
        let c = self.spawn();
        async move { c?.status().await }
    }
    pub fn output(&mut self) -> impl std::future::Future<Output = std::io::Result<Output>> {
        if !self.set[1] {
            self.stdout(Stdio::piped());
        }
        if !self.set[2] {
            self.stderr(Stdio::piped());
        }
        let c = self.spawn();
        async move { c?.output().await }
    }
}

#[derive(Debug)]
pub struct Child {
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
    pid: usize,
    kill_on_drop: bool,
}
fn to_status(e: Exit) -> ExitStatus {
    match e {
        Exit::Code(c) => ExitStatus::from_raw((c & 0xff) << 8),
        Exit::Signal(s) => ExitStatus::from_raw(s & 0x7f),
    }
}
impl Child {
    pub fn id(&self) -> u32 {
        1000 + self.pid as u32
    }
    pub fn kill(&mut self) -> std::io::Result<()> {
        let pid = self.pid;
        mc::with(|w| {
            w.children[pid].killed = true;
            w.child_exit(pid, Exit::Signal(9));
        });
        Ok(())
    }
    pub fn try_status(&mut self) -> std::io::Result<Option<ExitStatus>> {
        let pid = self.pid;
        let e = mc::with(|w| {
            let e = w.children[pid].exit;
            w.op(52, pid as u64, e.is_some() as u64, e.is_some());
            e
        });
        Ok(e.map(to_status))
    }
    pub fn status(&mut self) -> impl std::future::Future<Output = std::io::Result<ExitStatus>> + Send {
        self.stdin.take();
        let pid = self.pid;
        async move {
            let mut slot = LeafSlot::new();
            std::future::poll_fn(move |cx| match slot.poll(LeafKind::Wait(pid), cx) {
                Some(_) => Poll::Ready(()),
                None => Poll::Pending,
            })
            .await;
            let e = mc::with(|w| {
                w.children[pid].waited = true;
                let e = w.children[pid].exit.expect("granted a wait for a running child");
                w.op(53, pid as u64, mc::hash_bytes(0, format!("{:?}", e).as_bytes()), true);
                e
            });
            Ok(to_status(e))
        }
    }
}
impl Child {
    pub fn output(mut self) -> impl std::future::Future<Output = std::io::Result<Output>> {
        use real::io::ReadExt;
        let out = self.stdout.take();
        let err = self.stderr.take();
        let status = self.status();
        async move {
            let o = async {
                let mut v = vec![];
                if let Some(mut f) = out {
                    f.read_to_end(&mut v).await?;
                }
                std::io::Result::Ok(v)
            };
            let e = async {
                let mut v = vec![];
                if let Some(mut f) = err {
                    f.read_to_end(&mut v).await?;
                }
                std::io::Result::Ok(v)
            };
            let (stdout, stderr) = real::prelude::FutureExt::join(o, e).await;
            let _child = self;
            Ok(Output { status: status.await?, stdout: stdout?, stderr: stderr? })
        }
    }
}
impl Drop for Child {
    fn drop(&mut self) {
        if self.kill_on_drop {
            let pid = self.pid;
            let _ = mc::try_with(|w| {
                if !w.finished && w.children[pid].exit.is_none() {
                    w.children[pid].killed = true;
                    w.child_exit(pid, Exit::Signal(9));
                }
            });
        }
    }
}

#[derive(Debug)]
pub struct ChildStdin {
    pipe: usize,
    slot: LeafSlot,
}
impl futures_io::AsyncWrite for ChildStdin {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let pipe = self.pipe;
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.slot.poll(LeafKind::PipeWrite { pipe, len: buf.len() }, cx).is_none() {
            return Poll::Pending;
        }
        Poll::Ready(mc::with(|w| w.pipe_write(pipe, buf)).map_err(err))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl Drop for ChildStdin {
    fn drop(&mut self) {
        let p = self.pipe;
        let _ = mc::try_with(|w| {
            if !w.finished {
                w.pipe_close_writer(p)
            }
        });
    }
}
macro_rules! child_out {
    ($t:ident) => {
        #[derive(Debug)]
        pub struct $t {
            pipe: usize,
            slot: LeafSlot,
        }
        impl futures_io::AsyncRead for $t {
            fn poll_read(
                mut self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &mut [u8],
            ) -> Poll<std::io::Result<usize>> {
                let p = self.pipe;
                poll_pipe_read(&mut self.slot, p, cx, buf)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let p = self.pipe;
                let _ = mc::try_with(|w| {
                    if !w.finished {
                        w.pipe_close_reader(p)
                    }
                });
            }
        }
    };
}
child_out!(ChildStdout);
child_out!(ChildStderr);
