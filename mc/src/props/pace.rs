//! C26: pa2's own pauses neither set the pace nor let it spin.
use super::flow::*;
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::{Event, Observer};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", run: c26 }]
}

const MS: u64 = 1_000_000;
/// What all of pa2's own pauses may take for each time its inputs or programs pause (the longest is
/// 2.6 s; it may take several in a row, one component after the other, to notice).
const NOTICE: u64 = 10_000;

const QUIET: u64 = 30_000;

fn tell(what: &str, nm: &str, x: u64) {
    if std::env::var("MC_PACE").is_ok() {
        crate::say(&format!("{} {} {}", what, nm, x));
    }
}

type Shape = (&'static str, Vec<&'static str>, Vec<(&'static str, Vec<&'static str>)>);
fn shapes() -> Vec<Shape> {
    vec![
        ("plain", vec!["f:f | l:c | d:d"], vec![]),
        ("chain", vec!["f:f | l:m | l:c | d:d"], vec![]),
        ("join", vec!["f:f | j:j | l:m | d:d", "j:j | l:c | d:e"], vec![]),
        ("b", vec!["f:f | b:b | l:c | d:d"], vec![]),
        ("bbb", vec!["f:f | b:b | b:b2 | b:b3 | l:c | d:d"], vec![]),
        ("rb", vec!["f:f | r:r | b:b | l:c | d:d"], vec![("r", vec!["b"])]),
        ("rlb", vec!["f:f | r:r | l:m | b:b | l:c | d:d"], vec![("r", vec!["b"])]),
        ("rbb", vec!["f:f | r:r | b:b | l:m | b:b2 | l:c | d:d"], vec![("r", vec!["b", "b2"])]),
        ("rbrb", vec!["f:f | r:r | b:b | r:q | l:m | b:b2 | l:c | d:d"], vec![("r", vec!["b"]), ("q", vec!["b2"])]),
        ("rrb", vec!["f:f | r:r | r:q | b:b | l:c | d:d"], vec![("r", vec!["b"]), ("q", vec!["b"])]),
        ("branch", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "j:j | b:b2 | l:m | d:e"], vec![("r", vec!["b", "b2"])]),
        ("merge", vec!["f:f | r:r | j:j | b:b | l:c | d:d", "f:g | j:j"], vec![("r", vec!["b"])]),
        ("quiet", vec!["f:f | j:j | l:c | d:d", "l:q | j:j"], vec![]),
        ("quiet-rb", vec!["f:f | [5]j:j | r:r | b:b | l:c | d:d", "l:q | j:j"], vec![("r", vec!["b"])]),
        ("err", vec!["f:f | r:r | b:b | l:c | d:d", "l:c[E] | b:b2 | d:e", "l:c[X] | d:x"], vec![("r", vec!["b", "b2"])]),
    ]
}

/// How long and how often those outside pause, in all, in milliseconds.
#[derive(Clone, Copy)]
struct Idle {
    ms: u64,
    times: u64,
}

fn scenario(nm: &str, sh: &Shape, n: usize, marks: (usize, usize), cons: Vec<Op>, feed: Option<Vec<Op>>, idle: Idle) -> Scenario {
    let mut t = Topo::new(&format!("pace-{}", nm), &sh.1).source("f", "-").prog("m", cat("")).prog("q", vec![Op::Sleep(QUIET)]).prog("c", cons).lines(n);
    for (r, bufs) in &sh.2 {
        t = t.reg(r, marks.0, marks.1, bufs);
    }
    let mut idle = idle;
    if sh.0.starts_with("quiet") {
        idle.ms += QUIET;
        idle.times += 1;
    }
    let f = t.content("f");
    let merge = sh.0 == "merge";
    let g = t.content("g");
    let tag = nm.to_string();
    let mut s = t.scenario().judge(move |o| {
        ended_ok(o)?;
        if merge {
            is_interleaving(o.out("out_d"), &[split_lines(&f), split_lines(&g)])?;
        } else if o.out("out_d") != &f[..] {
            return Err(format!("out_d has {}", show(o.out("out_d"))));
        }
        let ms = o.now / MS;
        tell("PACE", &tag, ms.saturating_sub(idle.ms));
        if ms > idle.ms + (idle.times + 1) * NOTICE {
            return Err(format!(
                "it took {} s of which the inputs and programs paused {} s in {} times: pa2 itself sets the pace",
                ms / 1000,
                idle.ms / 1000,
                idle.times
            ));
        }
        Ok(())
    });
    if let Some(f) = feed {
        s = s.feed(f);
    }
    s.pipe_cap = 12;
    s.step_limit = 100_000_000;
    s.real = false;
    s
}

/// By then the program must have got everything.
struct GotBy {
    who: &'static str,
    left: usize,
    by: u64,
}
impl Observer for GotBy {
    fn minds(&self, e: &Event) -> bool {
        e.what == "env-read" && e.who.starts_with(self.who)
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        if e.what == "env-read" && e.who.starts_with(self.who) && self.left > 0 {
            self.left -= e.data.len().min(self.left);
            if e.now / MS > self.by {
                return Err(format!("{} s were enough, but at {} s {} bytes have not arrived", self.by / 1000, e.now / MS / 1000, self.left));
            }
            if self.left == 0 {
                tell("GOT", self.who, e.now / MS);
            }
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        self.left as u64
    }
}

fn c26(ctx: &mut Ctx) {
    let q = ctx.quick();
    let marks = [(0usize, 1usize), (1, 3), (5, 20), (20, 40), (200, 400)];
    let pass = || vec![Op::OutReg];
    // looking costs next to nothing while nothing happens
    for secs in [100u64, 900] {
        for sh in &shapes() {
            for m in marks {
                if sh.2.is_empty() && m.1 > 1 {
                    continue;
                }
                let n = 30;
                for (cn, cons, feed) in [
                    ("late", vec![Op::Sleep(secs * 1000), Op::EachLine(pass())], None),
                    ("half", vec![Op::Repeat(n / 2, vec![Op::ReadLine, Op::OutReg]), Op::Sleep(secs * 1000), Op::EachLine(pass())], None),
                    ("fed", cat(""), Some(vec![Op::Sleep(secs * 1000)])),
                    ("ends", vec![Op::EachLine(pass()), Op::CloseOut, Op::Sleep(secs * 1000)], None),
                ] {
                    let nm = format!("rest-{}-{}-{}-{}-{}", sh.0, cn, m.0, m.1, secs);
                    let feed = feed.map(|mut v: Vec<Op>| {
                        v.push(Op::Out((1..=n).map(|i| format!("f{}\n", i)).collect::<String>().into_bytes()));
                        v
                    });
                    let mut s = scenario(&nm, sh, n, m, cons, feed, Idle { ms: secs * 1000, times: 1 });
                    let judge = s.judge.clone();
                    let tag = nm.clone();
                    s = s.judge(move |o| {
                        tell("STEPS", &tag, o.steps as u64);
                        if o.steps as u64 > 5000 + 500 * secs {
                            return Err(format!("{} steps within {} s in which nothing was to be done", o.steps, secs));
                        }
                        judge(o)
                    });
                    s.step_limit = 2_000_000;
                    let l = ctx.free();
                    ctx.explore(&s, &l);
                }
            }
        }
    }
    // many messages, few pauses
    let sizes: &[usize] = if q { &[30, 400, 3000] } else { &[10, 30, 100, 300, 1000, 3000, 10_000] };
    for &n in sizes {
        for sh in &shapes() {
            for m in marks {
                if sh.2.is_empty() && m.1 > 1 {
                    continue;
                }
                let both = if sh.0 == "merge" { 2 } else { 1 };
                for (cn, cons, ms, times) in [
                    ("cat", cat(""), 0u64, 0u64),
                    ("burn", vec![Op::ReadAll, Op::OutReg], 0, 0),
                    ("nap", vec![Op::Sleep(60_000), Op::EachLine(pass())], 60_000, 1),
                    (
                        "naps",
                        vec![Op::Repeat(4, vec![Op::Sleep(20_000), Op::Repeat(n / 5, vec![Op::ReadLine, Op::OutReg])]), Op::EachLine(pass())],
                        80_000,
                        4,
                    ),
                    ("steady", vec![Op::EachLine(vec![Op::OutReg, Op::Sleep(5)])], (n * both * 5) as u64, 1),
                ] {
                    let nm = format!("{}-{}-{}-{}-{}", sh.0, cn, m.0, m.1, n);
                    let s = scenario(&nm, sh, n, m, cons, None, Idle { ms, times });
                    let l = ctx.free();
                    ctx.explore(&s, &l);
                }
            }
        }
    }
    // every combination of pauses of whoever feeds and whoever reads
    let waits: Vec<u64> = if q { vec![0, 700, 9000] } else { vec![0, 3, 700, 2600, 9000] };
    let k = 3;
    for sh in &shapes() {
        for m in marks {
            if sh.2.is_empty() && m.1 > 1 || q && (m.1 == 3 || m.1 == 400) {
                continue;
            }
            let n = 360;
            let all: Vec<String> = (1..=n).map(|i| format!("f{}\n", i)).collect();
            let cons = vec![
                Op::Repeat(k, vec![Op::SleepChoice(waits.clone()), Op::Repeat(n / 4, vec![Op::ReadLine, Op::OutReg])]),
                Op::EachLine(pass()),
            ];
            let feed: Vec<Op> = all
                .chunks(n / k)
                .flat_map(|c| vec![Op::Out(c.concat().into_bytes()), Op::SleepChoice(waits.clone())])
                .collect();
            let idle = Idle { ms: 2 * k as u64 * waits[waits.len() - 1], times: 2 * k as u64 };
            let nm = format!("pauses-{}-{}-{}", sh.0, m.0, m.1);
            let s = scenario(&nm, sh, n, m, cons, Some(feed), idle);
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    // some are silent for long while others are not
    for n in [40usize, 1000] {
        for (tn, conns) in [
            ("before", vec!["f:f | l:c | j:j | l:z | d:d", "l:q | j:j"]),
            ("after", vec!["f:f | l:m | j:j | l:c | l:z | d:d", "l:q | j:j"]),
            ("first", vec!["l:q | j:j", "f:f | l:c | [1]j:j | l:z | d:d"]),
            ("last", vec!["f:f | l:c | j:j | l:z | d:d", "l:q | [1]j:j"]),
            ("many", vec!["f:f | l:c | [1]j:j | l:z | d:d", "l:q | [1]j:j", "l:q[E] | j:j", "l:q2 | [2]j:j"]),
            ("buffered", vec!["f:f | l:c | b:b | j:j | r:r | b:b2 | l:z | d:d", "l:q | j:j"]),
            ("monitored", vec!["f:f | r:r | j:j | b:b | l:c | l:z | d:d", "l:q | b:b2 | l:m | d:e"]),
            ("aside", vec!["f:f | r:r | b:b | j:j | l:c | l:z | d:d", "j:j | l:m | d:e", "l:q | b:b2 | d:x"]),
        ] {
            for (cn, cons, ms, times) in [
                ("cat", cat(""), 0u64, 0u64),
                ("nap", vec![Op::Sleep(8000), Op::EachLine(pass())], 8000, 1),
                ("slow", vec![Op::EachLine(vec![Op::OutReg, Op::Sleep(20)])], 20 * n as u64, 1),
            ] {
                for (fd, pause, pauses) in [("at-once", 0u64, 0u64), ("halves", 7000, 1)] {
                    for seed in 1..=(if q { 2 } else { 8 }) {
                        let mut t = Topo::new(&format!("silent-{}-{}-{}-{}", tn, cn, fd, n), &conns)
                            .source("f", "-")
                            .prog("m", cat(""))
                            .prog("q", vec![Op::Sleep(800_000)])
                            .prog("q2", vec![Op::Sleep(700_000)])
                            .prog("c", cons.clone())
                            .prog("z", cat(""))
                            .lines(n);
                        if conns.iter().any(|c| c.contains("r:r")) {
                            t = t.reg("r", 3, 15, if tn == "buffered" { &["b2"] } else { &["b", "b2"] });
                        }
                        let f = t.content("f");
                        let (len, by) = (f.len(), ms + pause + (times + pauses + 1) * NOTICE);
                        let all: Vec<String> = (1..=n).map(|i| format!("f{}\n", i)).collect();
                        let mut s = t
                            .scenario()
                            .seed(seed)
                            .judge(move |o| {
                                ended_ok(o)?;
                                if o.out("out_d") != &f[..] {
                                    return Err(format!("out_d has {}", show(o.out("out_d"))));
                                }
                                Ok(())
                            })
                            .feed(vec![
                                Op::Out(all[..n / 2].concat().into_bytes()),
                                Op::Sleep(pause),
                                Op::Out(all[n / 2..].concat().into_bytes()),
                            ])
                            .observe(move || Box::new(GotBy { who: "z", left: len, by }))
                            .model_only();
                        s.pipe_cap = 12;
                        s.step_limit = 3_000_000;
                        s.name = format!("{}/seed{}", s.name, seed);
                        let l = ctx.free();
                        ctx.explore(&s, &l);
                    }
                }
            }
        }
    }
    let conf = |cmd: &str, l: usize, h: usize| {
        format!(
            "faucet: {{f: {{source: \"-\"}}}}\nregulator: {{r: {{buffered: [{}, {}], monitored_buffers: [b]}}}}\n\
             launch: {{l: {{cmd: bash, arg: [\"-c\", \"{}\"]}}}}\ndrain: {{d: {{destination: \"-\"}}}}\n\
             connection: {{c: \"f:f | r:r | b:b | l:l | d:d\"}}\n",
            l, h, cmd
        )
    };
    let (tight, wide, cat) = (conf("sleep 2; cat", 2, 5), conf("sleep 2; cat", 500, 1500), conf("cat", 5, 20));
    let much = "set -e; seq 1000000 1020000 > in; run < in > got; cmp in got";
    let spin = "set -e; seq 1 10 > in; TIMEFORMAT='%U %S'; { time { (cat in; sleep 4) | run > got; }; } 2> t; cmp in got; \
                read -r u s < t; [ ${u%.*} -lt 1 -a ${s%.*} -lt 1 ]";
    let cases = [("much-tight", tight.as_str(), much), ("much-wide", &wide, much), ("much", &cat, much), ("rest", &tight, spin), ("rest-after", &cat, spin)];
    super::fault::system_cases(ctx, &cases);
}
