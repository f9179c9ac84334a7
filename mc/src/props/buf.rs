//! C09-C13: buffers, backpressure, regulators, loops.
use super::flow::*;
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::{mix, Event, Observer};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", run: c09 },
        Prop { id: "C10", run: c10 },
        Prop { id: "C11", run: c11 },
        Prop { id: "C12", run: c12 },
        Prop { id: "C13", run: c13 },
    ]
}

fn free_too(ctx: &mut Ctx, s: &Scenario, cap: usize) {
    let mut s = s.clone();
    s.step_limit = s.step_limit.max(80_000);
    ctx.deep(&s, cap);
    s.name = format!("{}/free", s.name);
    s.step_limit = s.step_limit.max(600_000);
    let l = ctx.free();
    ctx.explore(&s, &l);
}

/// At the first standstill the named program must have ended (or the writer of stdin written all).
struct DoneBefore {
    who: String,
    done: bool,
    seen: bool,
}
impl Observer for DoneBefore {
    fn minds(&self, e: &Event) -> bool {
        e.what == "exit" || (e.what == "env-close-write" && e.who == self.who)
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        match e.what {
            "exit" | "env-close-write" if e.who == self.who => self.done = true,
            "quiescent" if !self.seen => {
                self.seen = true;
                if !self.done {
                    return Err(format!("{} is held up although there is a buffer behind it", self.who));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        self.done as u64 * 2 + self.seen as u64
    }
}

fn late(pfx: &str) -> Vec<Op> {
    vec![Op::QuiesceLate, Op::EachLine(vec![Op::OutPfx(pfx.into())])]
}

/// A buffer fed and emptied through plain channels; the consumer starts when the producer is done.
fn buffer_scenario(name: &str, n: usize, out_cap: usize, monitors: usize, breakable: u8, take: usize) -> Scenario {
    use async_std::channel::bounded;
    use pipeawesome2::buffer::Buffer;
    use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
    use pipeawesome2::motion::{IOData, Pull, PullJourney};
    use pipeawesome2::startable_control::StartableControl;
    let brk = [Breakable::Terminate, Breakable::Finish, Breakable::Consume][breakable as usize];
    Scenario::new(name, "")
        .main(Arc::new(move |end, notes| {
            Box::pin(async move {
                let mut b = Buffer::new();
                b.set_stdout_size(out_cap);
                let (tx, rx) = bounded(1);
                b.add_input(Pull::Receiver(PullJourney { src: 0, dst: 1 }, rx), 0).unwrap();
                let mons: Vec<_> = (0..monitors).map(|_| b.add_buffer_size_monitor()).collect();
                let Pull::Receiver(_, out) = b.add_output(OutputPort::Out, brk, 1, 2).unwrap() else {
                    panic!("not a receiver")
                };
                let prod = async_std::task::spawn_local(async move {
                    let mut k = 0;
                    while k < n && tx.send(IOData(format!("{}\n", k).into_bytes())).await.is_ok() {
                        k += 1;
                    }
                    k
                });
                let mut mtasks = vec![];
                for m in mons {
                    mtasks.push(async_std::task::spawn_local(async move {
                        let mut v = vec![];
                        while let Ok(x) = m.recv().await {
                            v.push(x.0);
                        }
                        v
                    }));
                }
                let cons = async_std::task::spawn_local(async move {
                    // first the producer must be able to finish
                    let k = prod.await;
                    let mut v = vec![];
                    let mut got = 0;
                    while got < take {
                        let Ok(m) = out.recv().await else { break };
                        v.extend(m.0);
                        got += 1;
                    }
                    drop(out);
                    (k, v)
                });
                let r = b.start(None).await;
                let (k, v) = cons.await;
                notes.borrow_mut().push(String::from_utf8_lossy(&v).to_string());
                notes.borrow_mut().push(k.to_string());
                for m in mtasks {
                    let v = m.await;
                    notes.borrow_mut().push(format!("{:?}", v));
                }
                *end.borrow_mut() = Some(match r {
                    Ok(n) => End::Ok(n),
                    Err(e) => End::Errors(vec![e.to_string()]),
                });
            })
        }))
        .judge(move |o| {
            if take >= n {
                ended_ok(o)?;
            } else {
                terminated(o)?;
            }
            let want: String = (0..n.min(take)).map(|k| format!("{}\n", k)).collect();
            if o.notes[0] != want {
                return Err(format!("delivered {:?}, not {:?}", o.notes[0], want));
            }
            if o.notes[1] != n.to_string() {
                return Err(format!("only {} of {} messages were accepted", o.notes[1], n));
            }
            for m in &o.notes[2..] {
                let v: Vec<i64> =
                    m.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect();
                if v.iter().any(|x| *x < 0 || *x > n as i64 + 1) {
                    return Err(format!("impossible sizes were reported: {}", m));
                }
                if take >= n && n > 0 && v.last().map(|x| *x != 0).unwrap_or(false) {
                    return Err(format!("the buffer is empty but reported {}", m));
                }
            }
            Ok(())
        })
}

/// Puts in (positive steps) and takes out (negative ones); after each step, when all stands still, every
/// monitor has been told what is inside.
fn buffer_sizes(name: &str, steps: &[i64], out_cap: usize, monitors: usize, pause: u64) -> Scenario {
    use async_std::channel::bounded;
    use pipeawesome2::buffer::Buffer;
    use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
    use pipeawesome2::motion::{IOData, Pull, PullJourney};
    use pipeawesome2::startable_control::StartableControl;
    use std::cell::RefCell;
    use std::rc::Rc;
    let steps = steps.to_vec();
    let mut s = Scenario::new(name, "")
        .main(Arc::new(move |end, notes| {
            let steps = steps.clone();
            Box::pin(async move {
                let mut b = Buffer::new();
                b.set_stdout_size(out_cap);
                let (tx, rx) = bounded(1);
                b.add_input(Pull::Receiver(PullJourney { src: 0, dst: 1 }, rx), 0).unwrap();
                let last = Rc::new(RefCell::new(vec![0usize; monitors]));
                for i in 0..monitors {
                    let m = b.add_buffer_size_monitor();
                    let last = last.clone();
                    async_std::task::spawn_local(async move {
                        while let Ok(x) = m.recv().await {
                            last.borrow_mut()[i] = x.0;
                        }
                    });
                }
                let Pull::Receiver(_, out) = b.add_output(OutputPort::Out, Breakable::Terminate, 1, 2).unwrap() else {
                    panic!("not a receiver")
                };
                let notes2 = notes.clone();
                let drv = async_std::task::spawn_local(async move {
                    let notes = notes2;
                    let (mut sent, mut taken) = (0usize, 0usize);
                    for (i, k) in steps.iter().enumerate() {
                        for _ in 0..k.abs() {
                            if *k > 0 {
                                if tx.send(IOData(format!("{}\n", sent).into_bytes())).await.is_err() {
                                    notes.borrow_mut().push("does not accept any more".into());
                                    return;
                                }
                                sent += 1;
                            } else {
                                match out.recv().await {
                                    Ok(d) if d.0 == format!("{}\n", taken).into_bytes() => taken += 1,
                                    x => {
                                        notes.borrow_mut().push(format!("gave {:?} as number {}", x.map(|d| show(&d.0)), taken));
                                        return;
                                    }
                                }
                            }
                        }
                        async_std::task::sleep(std::time::Duration::from_secs(pause)).await;
                        // what it has in hand may be told as still in or out
                        let held = sent - taken - out.len() - tx.len();
                        for (m, n) in last.borrow().iter().enumerate() {
                            if *n > held || *n + 1 < held {
                                notes.borrow_mut().push(format!(
                                    "after step {} of {:?} {} are inside, and monitor {} was told {}",
                                    i, &steps[..steps.len().min(12)], held, m, n
                                ));
                                return;
                            }
                        }
                    }
                    drop(tx);
                    while out.recv().await.is_ok() {
                        taken += 1
                    }
                    if sent != taken {
                        notes.borrow_mut().push(format!("{} came out of {}", taken, sent));
                    }
                });
                let r = b.start(None).await;
                drv.await;
                *end.borrow_mut() = Some(match r {
                    Ok(n) => End::Ok(n),
                    Err(e) => End::Errors(vec![e.to_string()]),
                });
            })
        }))
        .judge(move |o| {
            if let Some(n) = o.notes.first() {
                return Err(n.clone());
            }
            ended_ok(o)
        });
    s.step_limit = 100_000_000;
    s
}

fn c09(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx) / 3;
    // what it says is what it has, after every history of a few steps (and some longer ones)
    let mut histories: Vec<Vec<i64>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..if q { 5 } else { 8 } {
        let to = histories.len();
        for i in from..to {
            for k in [1i64, 2, 7, -1, -2] {
                let mut h = histories[i].clone();
                h.push(k);
                if h.iter().sum::<i64>() >= 0 {
                    histories.push(h);
                }
            }
        }
        from = to;
    }
    let longest = histories.last().unwrap().len();
    histories.retain(|h| h.len() == longest);
    for h in &histories {
        for (oc, m) in [(1usize, 1usize), (8, 3)] {
            if q && oc == 8 && h[0] == 1 {
                continue;
            }
            let n = h.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
            let s = buffer_sizes(&format!("sizes/{}/{}-{}", n, oc, m), h, oc, m, 60);
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    for (n, h) in [
        ("one-by-one", (0..300).map(|_| 1i64).chain((0..300).map(|_| -1)).collect::<Vec<_>>()),
        ("hundreds", vec![99, 1, 1, 28, 126, 1, 1, 254, 1, -200, -200, 512, -1, 1, -300]),
        ("thousands", vec![999, 1, 1, 3095, 1, -96, 4095, 1, 1, -3000, -1, 10_000, -5000, -9_000]),
        ("many", vec![65_535, 1, 1, -1, -1, -1, 70_000, -130_000]),
        ("saw", (0..60).map(|i| if i % 2 == 0 { 53 } else { -47 }).collect()),
    ] {
        for (oc, m) in [(1usize, 1usize), (8, 2)] {
            for pause in [20, 500] {
                let s = buffer_sizes(&format!("sizes/{}/{}-{}-{}", n, oc, m, pause), &h, oc, m, pause);
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
    }
    for n in if q { 1..=5usize } else { 1..=7usize } {
        for oc in [1usize, 8] {
            for m in [0usize, 1] {
                let s = buffer_scenario(&format!("buffer/{}/out{}/monitors{}", n, oc, m), n, oc, m, 0, usize::MAX);
                ctx.deep(&s, cap);
            }
        }
    }
    for n in [12usize, 40] {
        for m in [0usize, 1, 2] {
            let mut s = buffer_scenario(&format!("buffer/{}/monitors{}", n, m), n, 2, m, 0, usize::MAX);
            s.step_limit = 40_000;
            ctx.deep(&s, cap / 4);
        }
    }
    for n in [300usize, 3000, 70_000] {
        for m in [0usize, 1, 3] {
            let mut s = buffer_scenario(&format!("buffer-big/{}/monitors{}", n, m), n, 8, m, 0, usize::MAX);
            s.step_limit = 100_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    for brk in 0..3u8 {
        for (n, take) in [(4usize, 1usize), (12, 3), (3, 0)] {
            let mut s = buffer_scenario(&format!("buffer-leave/{}/{}/{}", brk, n, take), n, 1, 1, brk, take);
            s.step_limit = 40_000;
            ctx.deep(&s, cap / 2);
        }
    }
    // whole pipelines: whoever feeds the buffer finishes although nothing is taken out yet
    let gen = |n: usize| -> Vec<Op> { (0..n).map(|i| out(&format!("{}\n", i))).collect() };
    for (tn, conns) in [
        ("l", vec!["l:p | b:b | l:c | d:d"]),
        ("bb", vec!["l:p | b:b | b:b2 | l:c | d:d"]),
        ("jb", vec!["l:p | j:j | b:b | l:c | d:d"]),
        ("bj", vec!["l:p | b:b | j:j | l:c | d:d"]),
        ("rb", vec!["l:p | r:r | b:b | l:c | d:d"]),
        ("fan", vec!["l:p | j:j | b:b | l:c | d:d", "j:j | d:e"]),
        ("F", vec!["l:p |F| b:b |F| l:c | d:d"]),
        ("C", vec!["l:p |C| b:b |C| l:c | d:d"]),
        ("err", vec!["l:p[E] | b:b | l:c | d:d"]),
    ] {
        for n in [1usize, 60] {
            let ops = if tn == "err" { (0..n).map(|i| err(&format!("{}\n", i))).collect() } else { gen(n) };
            let mut t =
                Topo::new(&format!("unbounded-{}-{}", tn, n), &conns).prog("p", ops).prog("c", late("c"));
            if tn == "rb" {
                t = t.reg("r", 500, 1000, &["b"]);
            }
            let want: String = (0..n).map(|i| format!("c{}\n", i)).collect();
            let s = t
                .scenario()
                .cap(9)
                .judge(move |o| {
                    ended_ok(o)?;
                    if o.out_s("out_d") != want {
                        return Err(format!("out_d has {}", show(o.out("out_d"))));
                    }
                    Ok(())
                })
                .observe(|| Box::new(DoneBefore { who: "p".into(), done: false, seen: false }));
            free_too(ctx, &s, if n == 1 { cap } else { cap / 5 });
        }
    }
    // stdin is swallowed whole
    let t = Topo::new("unbounded-stdin", &["f:f | b:b | l:c | d:d"]).source("f", "-").prog("c", late("c")).lines(80);
    let want = t.content("f").split_inclusive(|b| *b == b'\n').flat_map(|l| [b"c".to_vec(), l.to_vec()].concat()).collect::<Vec<u8>>();
    let s = t
        .scenario()
        .cap(16)
        .judge(move |o| {
            ended_ok(o)?;
            if o.out("out_d") != want {
                return Err(format!("out_d has {}", show(o.out("out_d"))));
            }
            Ok(())
        })
        .observe(|| Box::new(DoneBefore { who: "stdin".into(), done: false, seen: false }));
    free_too(ctx, &s, cap / 5);
    // a lot
    for (n, len) in if q { vec![(3000usize, 5usize), (150_000, 5), (800, 20_000)] } else { vec![(3000, 5), (300_000, 5), (4000, 20_000)] } {
        let line = [vec![b'x'; len - 1], b"\n".to_vec()].concat();
        let t = Topo::new(&format!("unbounded-many-{}-{}", n, len), &["l:p | b:b | l:c | d:d"])
            .prog("p", vec![Op::Repeat(n, vec![Op::Out(line)])])
            .prog("c", late(""));
        let mut s = t
            .scenario()
            .cap(64)
            .judge(move |o| {
                ended_ok(o)?;
                if o.out("out_d").len() != len * n {
                    return Err(format!("{} bytes arrived", o.out("out_d").len()));
                }
                Ok(())
            })
            .observe(|| Box::new(DoneBefore { who: "p".into(), done: false, seen: false }));
        s.step_limit = 500_000_000;
        let l = ctx.free();
        ctx.explore(&s, &l);
    }
}

/// What was taken from stdin stays within `bound` messages of what came out at the other end.
struct Held {
    taken: usize,
    given: usize,
    /// pipes whose reads by programs (or drains) count as the far end
    far: String,
    bound: usize,
}
fn lines_in(b: &[u8]) -> usize {
    b.iter().filter(|c| **c == b'\n').count()
}
impl Observer for Held {
    fn minds(&self, e: &Event) -> bool {
        (e.what == "sys-read" && e.who == "stdin") || (e.what == "env-read" && e.who == self.far)
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        match e.what {
            "sys-read" if e.who == "stdin" => self.taken += lines_in(&e.data),
            "env-read" if e.who == self.far => self.given += lines_in(&e.data),
            _ => return Ok(()),
        }
        if self.taken > self.given + self.bound {
            return Err(format!(
                "{} messages were taken in while the slowest receiver has read {} (at most {} may be on the way)",
                self.taken, self.given, self.bound
            ));
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        self.taken as u64 * 100_000 + self.given as u64
    }
}

fn c10(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx) / 5;
    // a receiver which does not read (yet) holds everything before it up
    let per = 16usize;
    for (tn, conns, comps) in [
        ("f-l", vec!["f:f | l:c | d:d"], 3usize),
        ("f-l-l", vec!["f:f | l:a | l:c | d:d"], 4),
        ("f-j-l", vec!["f:f | j:j | l:c | d:d"], 4),
        ("f-j-j-l", vec!["f:f | j:j | j:k | l:c | d:d"], 5),
        ("f-r-l", vec!["f:f | r:r | l:c | b:b | d:d"], 5),
        ("f-j-l-j-l", vec!["f:f | j:j | l:a | j:k | l:c | d:d"], 6),
        ("fan", vec!["f:f | j:j | l:c | d:d", "j:j | d:e"], 5),
        ("fan-l", vec!["f:f | j:j | l:c | d:d", "j:j | l:o | d:e"], 6),
        ("fan3", vec!["f:f | j:j | d:e", "j:j | l:c | d:d", "j:j | d:g"], 6),
        ("tree", vec!["f:f | j:j | j:k | d:e", "j:k | l:c | d:d", "j:j | d:g"], 7),
        ("faucet-fan", vec!["f:f | l:c | d:d", "f:f | d:e"], 5),
        ("fan-F", vec!["f:f | j:j |F| l:c | d:d", "j:j |C| d:e"], 5),
        ("merge", vec!["f:f | j:j | l:c | d:d", "f:g | j:j"], 5),
        ("prio", vec!["f:f | [4]j:j | l:c | d:d", "f:g | [1]j:j"], 5),
        ("exit", vec!["f:f | l:c | d:d", "l:c[X] | d:x"], 5),
    ] {
        let bound = comps * per + 2;
        for n in [bound + 30, 3000] {
            let mut t = Topo::new(&format!("held-{}-{}", tn, n), &conns)
                .source("f", "-")
                .lines(n)
                .prog("c", vec![Op::QuiesceLate, Op::Repeat(5, vec![Op::ReadLine, Op::OutPfx("c".into()), Op::QuiesceLate]), Op::EachLine(vec![Op::OutPfx("c".into())])])
                .input("g", b"g1\ng2\n");
            if tn == "f-r-l" {
                t = t.reg("r", 5, 10, &["b"]);
            }
            // pipes hold 24 bytes: a few lines
            let streams: Vec<(String, Vec<Vec<Vec<u8>>>)> = t
                .names('d')
                .iter()
                .filter(|d| *d != "x")
                .map(|d| (t.dest_of(d), t.streams(d)))
                .collect();
            let s = t
                .scenario()
                .cap(24)
                .judge(move |o| {
                    ended_ok(o)?;
                    for (d, st) in &streams {
                        is_interleaving(o.out(d), st).map_err(|e| format!("{}: {}", d, e))?;
                    }
                    Ok(())
                })
                .observe(move || Box::new(Held { taken: 0, given: 0, far: "c.stdin".into(), bound }));
            let mut s = s.model_only();
            if n != 3000 {
                s.step_limit = 60_000;
                ctx.around(&s, if q { 1 } else { 3 }, if q { 40_000 } else { 600_000 });
            }
            s.name = format!("{}/free", s.name);
            s.step_limit = 4_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    // the same from a program: it is stopped while it has lots to say
    struct Stopped {
        written: usize,
        read: usize,
        bound: usize,
    }
    impl Observer for Stopped {
        fn minds(&self, e: &Event) -> bool {
            e.what == "env-write" || (e.what == "env-read" && e.who == "c.stdin")
        }
        fn event(&mut self, e: &Event) -> Result<(), String> {
            match (e.who.as_str(), e.what) {
                ("p.stdout", "env-write") | ("p.stderr", "env-write") => self.written += lines_in(&e.data),
                ("c.stdin", "env-read") => self.read += lines_in(&e.data),
                _ => return Ok(()),
            }
            if self.written > self.read + self.bound {
                return Err(format!("the program wrote {} lines while {} were read", self.written, self.read));
            }
            Ok(())
        }
        fn state(&self) -> u64 {
            self.written as u64 * 100_000 + self.read as u64
        }
    }
    for (tn, conns, comps) in [
        ("out", vec!["l:p | l:c | d:d"], 3usize),
        ("err", vec!["l:p[E] | l:c | d:d"], 3),
        ("out-j", vec!["l:p | j:j | l:c | d:d", "j:j | d:e"], 5),
        // with other outputs in use, named before and after
        ("out-e", vec!["l:p[E] | d:e", "l:p[O] | l:c | d:d"], 4),
        ("e-out", vec!["l:p[O] | l:c | d:d", "l:p[E] | d:e"], 4),
        ("err-o", vec!["l:p[O] | d:e", "l:p[E] | l:c | d:d"], 4),
        ("o-err", vec!["l:p[E] | l:c | d:d", "l:p[O] | d:e"], 4),
        ("out-x-e", vec!["l:p[X] | d:x", "l:p[E] | d:e", "l:p[O] | l:c | d:d"], 5),
        ("out-j-e", vec!["l:p[E] | j:j | d:e", "l:p[O] | l:c | d:d"], 5),
        ("out-same", vec!["l:p[E] | j:j | l:c | d:d", "l:p[O] | j:j"], 5),
        ("out-in", vec!["f:g | l:p | l:c | d:d", "l:p[E] | d:e"], 5),
    ] {
        let bound = comps * per;
        for n in [bound + 30, 2000] {
            let line = if tn.starts_with("err") || tn == "o-err" { err("gg\n") } else { out("gg\n") };
            let t = Topo::new(&format!("held-prog-{}-{}", tn, n), &conns)
                .prog("p", vec![Op::Repeat(n, vec![line])])
                .prog("c", late("c"));
            let mut s = t
                .scenario()
                .cap(24)
                .judge(move |o| {
                    ended_ok(o)?;
                    if o.out("out_d").len() != 4 * n {
                        return Err(format!("{} bytes arrived of {}", o.out("out_d").len(), 4 * n));
                    }
                    Ok(())
                })
                .observe(move || Box::new(Stopped { written: 0, read: 0, bound }))
                .model_only();
            if n != 2000 {
                s.step_limit = 60_000;
                ctx.around(&s, if q { 1 } else { 3 }, if q { 40_000 } else { 600_000 });
            }
            s.name = format!("{}/free", s.name);
            s.step_limit = 4_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
}

/// Watermarks seen from outside: what is in the buffers, what is taken from stdin.
struct Marks {
    low: usize,
    high: usize,
    /// how far the regulator may act early or late (0: inputs move one at a time)
    slack: usize,
    /// the buffers are these unbounded channels (all of them)
    occ: usize,
    written: usize,
    taken: usize,
    paused: bool,
    min: usize,
    max: usize,
    taken_then: usize,
    over: usize,
}
impl Marks {
    fn new(low: usize, high: usize, slack: usize, over: usize) -> Marks {
        Marks { low, high, slack, occ: 0, written: 0, taken: 0, paused: false, min: 0, max: 0, taken_then: 0, over }
    }
}
impl Observer for Marks {
    fn minds(&self, e: &Event) -> bool {
        // (what was written and taken only matters when all stand still)
        e.data == [0] && (e.what == "chan-send" || e.what == "chan-recv")
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        match e.what {
            "chan-send" if e.data == [0] => {
                self.occ += 1;
                self.max = self.max.max(self.occ);
                if self.occ > self.high + self.over {
                    return Err(format!("{} messages are buffered, the high watermark is {}", self.occ, self.high));
                }
            }
            "chan-recv" if e.data == [0] => {
                self.occ -= 1;
                self.min = self.min.min(self.occ);
            }
            "env-write" if e.who == "stdin" => self.written += lines_in(&e.data),
            "sys-read" if e.who == "stdin" => self.taken += lines_in(&e.data),
            "quiescent" => {
                let left = self.written - self.taken;
                let (new, occ) = (self.taken - self.taken_then, self.occ);
                let r = if occ <= self.low && left > 0 {
                    Err(format!("{} messages are buffered (low watermark {}), but {} are not let in", occ, self.low, left))
                } else if self.paused && self.min > self.low && new > 10 {
                    Err(format!(
                        "{} messages were let in although there are {} in the buffers (at least {} all the time, watermarks {} and {})",
                        new, occ, self.min, self.low, self.high
                    ))
                } else if !self.paused && self.max + self.slack < self.high && left > 0 {
                    Err(format!("{} messages are not let in although no more than {} were buffered", left, self.max))
                } else {
                    Ok(())
                };
                self.paused = if occ >= self.high {
                    true
                } else if self.min <= self.low {
                    false
                } else {
                    self.paused
                };
                self.min = occ;
                self.max = occ;
                self.taken_then = self.taken;
                return r;
            }
            _ => {}
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        let mut h = self.paused as u64;
        for x in [self.occ, self.written, self.taken, self.min, self.max, self.taken_then] {
            h = mix(h, x as u64);
        }
        h
    }
}

fn one_by_one(ls: &[String]) -> Vec<Op> {
    ls.iter().flat_map(|l| vec![out(l), Op::Quiesce]).collect()
}

fn c11(ctx: &mut Ctx) {
    let q = ctx.quick();
    let lines = |n: usize| -> Vec<String> { (0..n).map(|i| format!("f{}\n", i)).collect() };
    let slow = || vec![Op::Repeat(40, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg]), Op::EachLine(vec![Op::OutReg])];
    for (low, high) in [(0usize, 1usize), (0, 3), (1, 3), (2, 3), (4, 12), (11, 12), (5, 30)] {
        // one at a time: exact
        for (tn, conns) in [
            ("rb", vec!["f:f | r:r | b:b | l:c | d:d"]),
            ("r-l-b", vec!["f:f | r:r | l:m | b:b | l:c | d:d"]),
            ("r-j-b", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | d:e"]),
        ] {
            let n = high + 26;
            let t = Topo::new(&format!("marks-exact-{}-{}-{}", tn, low, high), &conns)
                .source("f", "-")
                .reg("r", low, high, &["b"])
                .prog("m", cat(""))
                .prog("c", slow());
            let want = lines(n).concat();
            let mut s = t
                .scenario()
                .cap(4)
                .judge(move |o| {
                    ended_ok(o)?;
                    if o.out_s("out_d") != want {
                        return Err(format!("out_d has {}", show(o.out("out_d"))));
                    }
                    Ok(())
                })
                .observe(move || Box::new(Marks::new(low, high, 0, 24)))
                .model_only();
            s.stdin = Some(one_by_one(&lines(n)));
            s.stdin_mode = async_std::mc::ReadMode::Line;
            s.pipe_cap = 4096;
            s.programs.insert("c".into(), slow());
            s.child_read_mode = async_std::mc::ReadMode::Line;
            s.chan_events = true;
            s.step_limit = 200_000;
            let s = PipeCaps::apply(s);
            ctx.around(&s, if q { 1 } else { 3 }, 400_000);
            let mut f = s.clone();
            f.name = format!("{}/free", s.name);
            f.step_limit = 2_000_000;
            let l = ctx.free();
            ctx.explore(&f, &l);
        }
        // several regulators of the same buffers
        for (tn, conns, mine, other) in [
            ("same", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "f:g | r:q | j:j"], vec!["b"], vec!["b"]),
            ("row", vec!["f:f | r:r | r:q | b:b | l:c | d:d"], vec!["b"], vec!["b"]),
            ("row-back", vec!["f:f | r:q | l:m | r:r | b:b | l:c | d:d"], vec!["b"], vec!["b"]),
            ("part", vec!["f:f | r:r | j:j | b:b | l:m | b:b2 | l:c | d:d", "f:g | r:q | j:j"], vec!["b", "b2"], vec!["b2", "b"]),
        ] {
            let n = high + 40 + 90 * mine.len();
            let t = Topo::new(&format!("marks-regs-{}-{}-{}", tn, low, high), &conns)
                .source("f", "-")
                .reg("r", low, high, &mine)
                .reg("q", low, high, &other)
                .prog("m", cat(""))
                .prog("c", slow())
                .lines(n);
            let over = (if tn == "same" || tn == "part" { 96 } else { 48 }) * mine.len();
            // (the programs pass on what they get as it is)
            let streams = t.names('f').iter().map(|f| split_lines(&t.content(f))).collect::<Vec<_>>();
            for seed in 1..=(if q { 2 } else { 8 }) {
                let streams = streams.clone();
                let mut s = t
                    .scenario()
                    .seed(seed)
                    .judge(move |o| {
                        ended_ok(o)?;
                        is_interleaving(o.out("out_d"), &streams).map_err(|e| format!("out_d: {}", e))
                    })
                    .observe(move || Box::new(Marks::new(low, high, 40, over)))
                    .model_only();
                s.pipe_cap = 12;
                s.chan_events = true;
                s.name = format!("{}/seed{}/free", s.name, seed);
                s.step_limit = 4_000_000;
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
        // everything at once
        for (tn, conns, bufs) in [
            ("rb", vec!["f:f | r:r | b:b | l:c | d:d"], vec!["b"]),
            ("two", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | l:c2 | d:e"], vec!["b", "b2"]),
            ("serial", vec!["f:f | r:r | b:b | l:m | b:b2 | l:c | d:d"], vec!["b", "b2"]),
        ] {
            let n = high + 40 + 44 * bufs.len();
            let t = Topo::new(&format!("marks-burst-{}-{}-{}", tn, low, high), &conns)
                .source("f", "-")
                .reg("r", low, high, &bufs)
                .prog("m", cat(""))
                .prog("c", slow())
                .prog("c2", slow())
                .lines(n);
            let want = t.content("f");
            let over = 48 * bufs.len();
            let mut s = t
                .scenario()
                .judge(move |o| {
                    ended_ok(o)?;
                    if o.out("out_d") != want {
                        return Err(format!("out_d has {}", show(o.out("out_d"))));
                    }
                    Ok(())
                })
                .observe(move || Box::new(Marks::new(low, high, 40, over)))
                .model_only();
            s.pipe_cap = 12;
            s.chan_events = true;
            s.step_limit = 200_000;
            if q && bufs.len() > 1 && high > 1 {
                // (thorough)
            } else {
                ctx.around(&s, if q { 1 } else { 3 }, 400_000);
            }
            let mut f = s.clone();
            f.name = format!("{}/free", s.name);
            f.step_limit = 2_000_000;
            let l = ctx.free();
            ctx.explore(&f, &l);
        }
    }
    // watermarks beyond what 8 and 16 bits, the queues, or a count in a component may hold
    for (low, high) in [(60usize, 120usize), (254, 255), (255, 256), (100, 300), (0, 1000), (2000, 5000), (65_535, 65_536), (30_000, 70_000)] {
        // away from, then past, the low watermark, one at a time there
        let dip = || {
            vec![
                Op::Repeat(6, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg]),
                Op::Repeat((high - low).saturating_sub(40), vec![Op::ReadLine, Op::OutReg]),
                Op::Repeat(60, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg]),
                Op::EachLine(vec![Op::OutReg]),
            ]
        };
        for (tn, conns, bufs) in [
            ("rb", vec!["f:f | r:r | b:b | l:c | d:d"], vec!["b"]),
            ("two", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | l:c2 | d:e"], vec!["b", "b2"]),
            ("serial", vec!["f:f | r:r | b:b | l:m | b:b2 | l:c | d:d"], vec!["b", "b2"]),
        ] {
            let n = high + 40 + 44 * bufs.len();
            let t = Topo::new(&format!("marks-big-{}-{}-{}", tn, low, high), &conns)
                .source("f", "-")
                .reg("r", low, high, &bufs)
                .prog("m", cat(""))
                .prog("c", dip())
                .prog("c2", dip())
                .lines(n);
            let want = t.content("f");
            let over = 48 * bufs.len();
            let mut s = t
                .scenario()
                .judge(move |o| {
                    ended_ok(o)?;
                    if o.out("out_d") != want {
                        return Err(format!("out_d has {}", show(o.out("out_d"))));
                    }
                    Ok(())
                })
                .observe(move || Box::new(Marks::new(low, high, 40, over)))
                .model_only();
            s.pipe_cap = 12;
            s.chan_events = true;
            s.step_limit = 100_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
}

struct PipeCaps;
impl PipeCaps {
    fn apply(mut s: Scenario) -> Scenario {
        s.pipe_cap = 12;
        s
    }
}

/// Reads nothing for a while, and then a line at a time, with pauses.
fn nap(first: u64, every: u64) -> Vec<Op> {
    if every == 0 {
        return vec![Op::Sleep(first), Op::EachLine(vec![Op::OutReg])];
    }
    vec![Op::Sleep(first), Op::EachLine(vec![Op::OutReg, Op::Sleep(every)])]
}

fn c12(ctx: &mut Ctx) {
    let q = ctx.quick();
    let feeds: Vec<(&str, fn(&[String]) -> Vec<Op>)> = vec![
        ("all", |l| vec![Op::Out(l.concat().into_bytes())]),
        ("halves", |l| {
            let k = l.len() / 2;
            vec![Op::Out(l[..k].concat().into_bytes()), Op::Quiesce, Op::Out(l[k..].concat().into_bytes())]
        }),
        ("tail", |l| {
            let k = l.len() - 1;
            vec![Op::Out(l[..k].concat().into_bytes()), Op::QuiesceLate, Op::QuiesceLate, Op::Out(l[k..].concat().into_bytes())]
        }),
        ("thirds", |l| {
            let k = l.len() / 3;
            vec![
                Op::Out(l[..k].concat().into_bytes()),
                Op::QuiesceLate,
                Op::Out(l[k..2 * k].concat().into_bytes()),
                Op::QuiesceLate,
                Op::Out(l[2 * k..].concat().into_bytes()),
            ]
        }),
        ("single", |l| one_by_one(l)),
    ];
    let consumers: Vec<(&str, Vec<Op>)> = vec![
        ("cat", cat("")),
        ("late", late("")),
        ("slow", vec![Op::Repeat(30, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg]), Op::EachLine(vec![Op::OutReg])]),
        ("gulp", vec![Op::Repeat(12, vec![Op::ReadLine, Op::OutReg]), Op::QuiesceLate, Op::EachLine(vec![Op::OutReg])]),
    ];
    for (low, high) in [(0usize, 1usize), (0, 2), (1, 2), (2, 5), (0, 12), (11, 12), (40, 50)] {
        for (fnm, feed) in &feeds {
            for (cn, cons) in &consumers {
                for (tn, conns, bufs) in [
                    ("rb", vec!["f:f | r:r | b:b | l:c | d:d"], vec!["b"]),
                    ("rlb", vec!["f:f | r:r | l:m | b:b | l:c | d:d"], vec!["b"]),
                    ("serial", vec!["f:f | r:r | b:b | l:m | b:b2 | l:c | d:d"], vec!["b", "b2"]),
                    ("two-r", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "f:g | r:r2 | j:j"], vec!["b"]),
                    ("r-r", vec!["f:f | r:r | r:r2 | b:b | l:c | d:d"], vec!["b"]),
                    ("branch", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | l:m | d:e"], vec!["b"]),
                    ("elsewhere", vec!["f:f | r:r | l:m | d:e", "l:g | b:b | l:c | d:d"], vec!["b"]),
                ] {
                    if q && tn != "rb" && (*fnm == "single" || *cn == "cat" || (high != 2 && high != 5)) {
                        continue;
                    }
                    let n = high.max(12) + 26;
                    let mut t = Topo::new(&format!("resume-{}-{}-{}-{}-{}", tn, fnm, cn, low, high), &conns)
                        .source("f", "-")
                        .reg("r", low, high, &bufs)
                        .prog("m", cat(""))
                        .prog("c", cons.clone())
                        .prog("g", vec![Op::Repeat(high + 10, vec![out("gg\n")])])
                        .input("g", "g1\ng2\n".repeat(high).as_bytes());
                    if tn == "two-r" || tn == "r-r" {
                        t = t.reg("r2", low, high + 1, &["b"]);
                    }
                    let all: Vec<String> = (0..n).map(|i| format!("f{}\n", i)).collect();
                    let f = all.concat();
                    let g = "g1\ng2\n".repeat(high);
                    let gg = "gg\n".repeat(high + 10);
                    let two = tn == "two-r";
                    let tn2 = tn.to_string();
                    let mut s = t
                        .scenario()
                        .judge(move |o| {
                            ended_ok(o)?;
                            let d = o.out("out_d");
                            if two {
                                return is_interleaving(d, &[split_lines(f.as_bytes()), split_lines(g.as_bytes())]);
                            }
                            let want = if tn2 == "elsewhere" { &gg } else { &f };
                            if d != want.as_bytes() {
                                return Err(format!("out_d has {}", show(d)));
                            }
                            if (tn2 == "branch" || tn2 == "elsewhere") && o.out("out_e") != f.as_bytes() {
                                return Err(format!("out_e has {}", show(o.out("out_e"))));
                            }
                            Ok(())
                        })
                        .feed(feed(&all))
                        .cap(12);
                    s.step_limit = 200_000;
                    s.real = !q || (*fnm == "tail" && *cn == "late" && high == 5) || high == 50 && tn == "rb" && *cn == "late";
                    s.real &= *fnm != "single" && *cn != "slow";
                    if *fnm != "single" && (tn == "rb" || !q) && (!q || *cn != "slow" && (*fnm == "tail" || high == 2 || high == 5)) {
                        ctx.around(&s, if q { 1 } else { 3 }, if q { 60_000 } else { 400_000 });
                    } else {
                        ctx.real(&s, None);
                    }
                    s.name = format!("{}/free", s.name);
                    s.step_limit = 3_000_000;
                    let l = ctx.free();
                    ctx.explore(&s, &l);
                }
            }
        }
    }
    // one regulator of buffers which are filled and emptied together, or at different times
    for (low, high) in [(0usize, 2usize), (1, 2), (1, 5), (2, 5), (3, 6), (4, 11), (5, 12), (12, 30), (13, 60), (14, 60), (15, 60), (45, 47)] {
        for (fnm, feed) in &feeds[..3] {
            for (cn, cons, cons2) in [
                ("late", late(""), late("")),
                ("cat", late(""), cat("")),
                ("gulp", consumers[3].1.clone(), consumers[3].1.clone()),
                ("slow", consumers[2].1.clone(), consumers[2].1.clone()),
                ("mixed", consumers[2].1.clone(), late("")),
                // (both of them at the same moment, or one just before the other)
                ("nap", nap(9000, 0), nap(9000, 0)),
                ("apart", nap(9000, 0), nap(9800, 0)),
                ("naps", nap(9000, 40), nap(9000, 40)),
                ("uneven", nap(9000, 40), nap(7000, 130)),
            ] {
                for (tn, conns, bufs) in [
                    ("two", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | l:c2 | d:e"], vec!["b", "b2"]),
                    ("two-back", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | l:c2 | d:e"], vec!["b2", "b"]),
                    ("three", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | b:b3 | l:c2 | d:e"], vec!["b", "b2", "b3"]),
                ] {
                    if q && tn != "two" && *fnm != "all" {
                        continue;
                    }
                    let n = high + 40;
                    let t = Topo::new(&format!("resume-{}-{}-{}-{}-{}", tn, fnm, cn, low, high), &conns)
                        .source("f", "-")
                        .reg("r", low, high, &bufs)
                        .prog("c", cons.clone())
                        .prog("c2", cons2.clone());
                    let all: Vec<String> = (0..n).map(|i| format!("f{}\n", i)).collect();
                    let f = all.concat();
                    let mut s = t
                        .scenario()
                        .judge(move |o| {
                            ended_ok(o)?;
                            for d in ["out_d", "out_e"] {
                                if o.out(d) != f.as_bytes() {
                                    return Err(format!("{} has {}", d, show(o.out(d))));
                                }
                            }
                            Ok(())
                        })
                        .feed(feed(&all))
                        .cap(12);
                    s.step_limit = 3_000_000;
                    s.real = *fnm == "halves" && cn == "late" && tn == "two" && (!q || high == 60);
                    for seed in 1..=(if q { 2 } else { 8 }) {
                        let mut s = s.clone().seed(seed);
                        s.name = format!("{}/seed{}/free", s.name, seed);
                        s.real &= seed == 1;
                        let l = ctx.free();
                        ctx.both(&s, &l);
                    }
                }
            }
        }
    }
    // watermarks beyond what 8 and 16 bits, the queues, or a count in a component may hold
    for (low, high) in [(60usize, 120usize), (254, 255), (255, 256), (100, 300), (0, 1000), (2000, 5000), (65_535, 65_536), (30_000, 70_000)] {
        for (fnm, feed) in &feeds[..3] {
            for (cn, cons) in &consumers[..if q && high > 10_000 { 2 } else { 4 }] {
                let n = high + 90;
                let t = Topo::new(&format!("resume-big-{}-{}-{}-{}", fnm, cn, low, high), &["f:f | r:r | b:b | l:c | d:d"])
                    .source("f", "-")
                    .reg("r", low, high, &["b"])
                    .prog("c", cons.clone());
                let all: Vec<String> = (0..n).map(|i| format!("f{}\n", i)).collect();
                let f = all.concat();
                let mut s = t
                    .scenario()
                    .judge(move |o| {
                        ended_ok(o)?;
                        if o.out("out_d") != f.as_bytes() {
                            return Err(format!("out_d has {}", show(o.out("out_d"))));
                        }
                        Ok(())
                    })
                    .feed(feed(&all))
                    .cap(12);
                s.step_limit = 100_000_000;
                s.real_timeout_ms = 60_000;
                s.real = *cn == "late" && *fnm == "halves" && high < 10_000;
                let l = ctx.free();
                ctx.both(&s, &l);
            }
        }
    }
    // the buffer is filled from elsewhere too, also by whoever empties it and just then
    for (low, high) in [(0usize, 1usize), (0, 2), (1, 2), (2, 5), (4, 5)] {
        for (tn, conns, progs, extra) in [
            (
                "echo",
                vec!["f:f | r:r | j:j | b:b | l:c | d:d", "l:c[E] | j:j"],
                vec![("c", vec![
                    Op::Repeat(6, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg, err("e\n")]),
                    Op::CloseErr,
                    Op::EachLine(vec![Op::OutReg]),
                ])],
                "e\n".repeat(6),
            ),
            (
                "echo-two",
                vec!["f:f | r:r | j:j | b:b | l:c | d:d", "l:c[E] | j:j"],
                vec![("c", vec![
                    Op::Repeat(5, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg, Op::ReadLine, Op::OutReg, err("e\ne\n")]),
                    Op::CloseErr,
                    Op::EachLine(vec![Op::OutReg]),
                ])],
                "e\n".repeat(10),
            ),
            (
                "leak",
                vec!["f:f | r:r | j:j | b:b | l:c | d:d", "l:g | j:j"],
                vec![
                    ("c", vec![Op::Repeat(9, vec![Op::QuiesceLate, Op::ReadLine, Op::OutReg]), Op::EachLine(vec![Op::OutReg])]),
                    ("g", vec![Op::Repeat(6, vec![Op::QuiesceLate, out("e\n")])]),
                ],
                "e\n".repeat(6),
            ),
            (
                "leak-timed",
                vec!["f:f | r:r | j:j | b:b | l:c | d:d", "l:g | j:j"],
                vec![
                    ("c", vec![
                        Op::Repeat(9, vec![Op::Sleep(1000), Op::ReadLine, Op::OutReg]),
                        Op::EachLine(vec![Op::OutReg]),
                    ]),
                    ("g", vec![
                        Op::Sleep(1000),
                        Op::Repeat(5, vec![Op::SleepChoice(vec![0, 3, 60]), out("e\n"), Op::Sleep(940)]),
                    ]),
                ],
                "e\n".repeat(5),
            ),
        ] {
            let t0 = Topo::new(&format!("resume-{}-{}-{}", tn, low, high), &conns).reg("r", low, high, &["b"]).lines(60);
            let mut t = t0;
            for (n, p) in progs {
                t = t.prog(n, p);
            }
            let f = t.content("f");
            let mut s = t
                .scenario()
                .judge(move |o| {
                    ended_ok(o)?;
                    is_interleaving(o.out("out_d"), &[split_lines(&f), split_lines(extra.as_bytes())])
                })
                .cap(12);
            s.step_limit = 200_000;
            s.real = !q || (tn != "leak" && high == 2);
            if tn == "leak-timed" {
                // (only the executor's own order has a clock)
                ctx.real(&s, None);
            } else {
                ctx.around(&s, if q { 1 } else { 2 }, if q { 40_000 } else { 400_000 });
            }
            s.name = format!("{}/free", s.name);
            s.step_limit = 3_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    // whoever empties the buffer goes away while the regulator is paused
    for cl in ["|F|", "|C|", "|T|"] {
        for k in [0usize, 1, 3, 9, 12] {
            for (low, high) in [(0usize, 2usize), (3, 5), (0, 20)] {
                let c = format!("f:f | r:r | b:b {} l:c | d:d", cl);
                let t = Topo::new(&format!("leave-paused-{}-{}-{}-{}", cl, k, low, high), &[&c])
                    .source("f", "-")
                    .reg("r", low, high, &["b"])
                    .lines(60)
                    .prog("c", vec![Op::Repeat(k, vec![Op::ReadLine, Op::OutReg]), Op::QuiesceLate]);
                let want: String = (1..=k).map(|i| format!("f{}\n", i)).collect();
                let fin = cl == "|F|";
                let mut s = t
                    .scenario()
                    .judge(move |o| {
                        // the entry side of the buffer is a pipe that terminates
                        terminated(o)?;
                        let _ = fin;
                        if o.out_s("out_d") != want {
                            return Err(format!("out_d has {}", show(o.out("out_d"))));
                        }
                        Ok(())
                    })
                    .cap(12);
                s.step_limit = 100_000;
                s.real = k == 1 && high == 5;
                if q && high == 20 && k != 1 {
                    continue;
                }
                ctx.around(&s, if q { 1 } else { 3 }, if q { 60_000 } else { 400_000 });
                s.name = format!("{}/free", s.name);
                s.step_limit = 2_000_000;
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
    }
}

fn c13(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = if q { 12_000 } else { 600_000 };
    // messages "<hops>m<i>" go round until their hops are used up
    for (tn, conns) in [
        ("plain", vec!["f:f | j:j | l:step[O] | b:b | j:j", "l:step[E] | d:d"]),
        ("prio-new", vec!["f:f | [1]j:j | l:step[O] | b:b | [5]j:j", "l:step[E] | d:d"]),
        ("prio-loop", vec!["f:f | [5]j:j | l:step[O] | b:b | [1]j:j", "l:step[E] | d:d"]),
        ("reg", vec!["f:f | r:r | j:j | l:step[O] | b:b | j:j", "l:step[E] | d:d"]),
        ("readme", vec!["f:f | r:r | j:turn | l:step | j:loop | l:done | d:d", "j:loop | l:again | b:b | j:turn"]),
        ("two-stage", vec!["f:f | j:j | l:pre | l:step[O] | b:b | j:j", "l:step[E] | d:d"]),
        ("implicit", vec!["f:f | l:step[O] | b:b | l:step", "l:step[E] | d:d"]),
        ("late-buffer", vec!["f:f | j:j | l:step[O] | j:k | b:b | j:j", "l:step[E] | d:d", "j:k | d:e"]),
    ] {
        for (n, hops) in [(0usize, 1usize), (1, 0), (1, 3), (2, 2), (5, 1), (24, 1), (40, 3), (150, 2), (1500, 2), (3, 400)] {
            let visits = n * (hops + 1);
            let body: String = (0..n).map(|i| format!("{}m{}\n", hops, i)).collect();
            let readme = tn == "readme";
            let step = if readme {
                // everything on one output; the two readers behind pick theirs
                vec![Op::Repeat(
                    visits,
                    vec![
                        Op::ReadLine,
                        Op::OutPfx("s".into()),
                    ],
                )]
            } else {
                vec![Op::Repeat(visits, vec![Op::ReadLine, Op::CountDown])]
            };
            let mut t = Topo::new(&format!("loop-{}-{}-{}", tn, n, hops), &conns)
                .input("f", body.as_bytes())
                .prog("step", step)
                .prog("pre", cat(""))
                .prog("done", vec![Op::EachLine(vec![Op::IfPfx("s0".into(), vec![Op::OutReg], vec![])])])
                .prog("again", vec![Op::EachLine(vec![Op::IfPfx("s0".into(), vec![], vec![Op::Strip(1), Op::CountDown])])]);
            if conns.iter().any(|c| c.contains("r:r")) {
                t = t.reg("r", 3, 8, &["b"]);
            }
            let mut s = t
                .scenario()
                .judge(move |o| {
                    ended_ok(o)?;
                    let mut got: Vec<String> = o.out_s("out_d").lines().map(|l| l.to_string()).collect();
                    let mut want: Vec<String> =
                        (0..n).map(|i| format!("{}0m{}", if readme { "s" } else { "" }, i)).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("{} of {} messages came out: {:?}", got.len(), n, got));
                    }
                    Ok(())
                })
                .cap(16);
            s.step_limit = 300_000;
            s.real = n != 2 && n < 1000 && hops < 100;
            if n <= 2 {
                ctx.deep(&s, cap);
            } else if hops < 100 && (n < 30 || (!q && n < 100)) {
                ctx.around(&s, if q { 1 } else { 3 }, if q { 60_000 } else { 400_000 });
            } else {
                ctx.real(&s, None);
            }
            s.name = format!("{}/free", s.name);
            s.step_limit = 4_000_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
}
