//! C05-C08: pipelines end, and what happens when a receiver goes away.
use super::flow::*;
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::Exit;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", run: c05 },
        Prop { id: "C06", run: c06 },
        Prop { id: "C07", run: c07 },
        Prop { id: "C08", run: c08 },
    ]
}

/// Programs that do not read everything they are given.
fn quitters() -> Vec<(&'static str, Vec<Op>)> {
    vec![
        ("cat", cat("a")),
        ("sink", vec![Op::ReadAll]),
        ("none", vec![]),
        ("head", vec![Op::ReadLine, Op::OutReg]),
        ("fail", vec![Op::ReadLine, Op::Exit(3)]),
        ("kill", vec![Op::ReadLine, Op::Kill(9)]),
        ("closein", vec![Op::ReadLine, Op::CloseIn, out("late\n")]),
        ("closeout", vec![Op::CloseOut, Op::ReadAll]),
        ("burst", vec![out("x1\nx2\nx3\nx4\nx5\nx6\nx7\nx8\nx9\nxa\nxb\nxc\n"), Op::ReadAll]),
        ("deaf", vec![Op::CloseIn, out("x1\nx2\nx3\n")]),
    ]
}

/// A scenario explored around its default schedule plus once with the executor's own order.
fn both_ways(ctx: &mut Ctx, s: &Scenario, cap: usize) {
    let mut s = s.clone();
    s.step_limit = 60_000;
    ctx.deep(&s, cap);
    let mut f = s.clone();
    f.name = format!("{}/free", s.name);
    f.step_limit = 400_000;
    let l = ctx.free();
    ctx.explore(&f, &l);
}

fn c05(ctx: &mut Ctx) {
    let cap = cap(ctx);
    // every chain of two components around every kind of program, every kind of pipe into it
    for (pn, prog) in quitters() {
        for cl in ["|", "|T|", "|F|", "|C|"] {
            for (tn, conns) in [
                ("f-l", vec![format!("f:f {} l:a | d:d", cl)]),
                ("f-j-l", vec![format!("f:f | j:j {} l:a | d:d", cl)]),
                ("f-b-l", vec![format!("f:f | b:b {} l:a | d:d", cl)]),
                ("f-l-l", vec![format!("f:f | l:p {} l:a | d:d", cl)]),
                ("f-r-b-l", vec![format!("f:f | r:r | b:b {} l:a | d:d", cl)]),
                ("fan", vec![format!("f:f | j:j {} l:a | d:d", cl), "j:j | l:o | d:e".to_string()]),
                ("fan-sink", vec![format!("f:f | j:j {} l:a", cl), "j:j | d:e".to_string()]),
                ("merge", vec![format!("f:f | j:j {} l:a | d:d", cl), "f:g | j:j".to_string()]),
                ("exit", vec![format!("f:f {} l:a[X] | d:d", cl)]),
            ] {
                if cl == "|" && tn != "f-l" && tn != "fan" {
                    continue;
                }
                for lines in [0usize, 1, 13] {
                    if ctx.quick() && lines == 0 && cl != "|F|" {
                        continue;
                    }
                    let c: Vec<&str> = conns.iter().map(|s| s.as_str()).collect();
                    let mut t = Topo::new(&format!("end-{}-{}-{}-{}", tn, pn, cl, lines), &c)
                        .lines(lines)
                        .prog("a", prog.clone());
                    if tn == "f-r-b-l" {
                        t = t.reg("r", 1, 3, &["b"]);
                    }
                    let mut s = t.scenario().judge(terminated).cap(9);
                    s.real = lines == 13 && tn != "f-j-l";
                    if ctx.quick() && tn != "f-l" && tn != "fan" {
                        s.real = false;
                    }
                    both_ways(ctx, &s, if ctx.quick() { 1200 } else { 40_000 });
                }
            }
        }
    }
    // shapes with several sources, sinks and meeting points
    for (n, c) in shapes() {
        for lines in [0usize, 1, 12] {
            let mut t = Topo::new(&format!("shape-{}-{}", n, lines), &c).lines(lines);
            if c.iter().any(|c| c.contains("r:r")) {
                t = t.reg("r", 1, 4, &["b"]);
            }
            let s = t.scenario().judge(ended_ok).cap(9);
            both_ways(ctx, &s, if lines == 1 { cap } else { cap / 6 });
        }
    }
    // a source which cannot be opened, a destination which cannot be created: still an end
    for (n, c) in [("bad-source", vec!["f:f | j:j | d:d", "f:g | j:j"]), ("bad-source-l", vec!["f:f | l:a | d:d"])] {
        let t = Topo::new(&format!("end-{}", n), &c).lines(12);
        let mut s = t.scenario().judge(terminated).cap(9);
        s.files.insert("in_f".into(), async_std::mc::FileSpec { open_error: Some(2), ..Default::default() });
        both_ways(ctx, &s, cap / 3);
    }
    for (n, c) in [
        ("d", vec!["f:f | d:d"]),
        ("l", vec!["f:f | l:a | d:d"]),
        ("fan", vec!["f:f | j:j | d:d", "j:j | d:e"]),
        ("fan-l", vec!["f:f | j:j | l:a | d:d", "j:j | l:b | d:e"]),
        ("merge", vec!["f:f | j:j | d:d", "f:g | j:j"]),
        ("buf", vec!["f:f | b:b | d:d"]),
        ("reg", vec!["f:f | r:r | b:b | d:d"]),
    ] {
        let mut t = Topo::new(&format!("end-bad-dest-{}", n), &c).lines(14);
        if n == "reg" {
            t = t.reg("r", 1, 3, &["b"]);
        }
        let mut s = t.scenario().judge(terminated).cap(9);
        s.outs.insert("out_d".into(), async_std::mc::OutSpec { create_error: Some(21), ..Default::default() });
        both_ways(ctx, &s, cap / 3);
    }
}

/// Acyclic shapes in which everything is consumed.
pub fn shapes() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ("diamond", vec!["f:f | j:j | l:a | j:k | d:d", "j:j | l:b | j:k"]),
        ("diamond-direct", vec!["f:f | j:j | j:k | d:d", "j:j | l:b | j:k"]),
        ("diamond-buffer", vec!["f:f | j:j | b:b | j:k | d:d", "j:j | j:k"]),
        ("two-two", vec!["f:f | j:j | d:d", "f:g | j:j | d:e"]),
        ("stairs", vec!["f:f | j:j | l:a | j:k | l:b | d:d", "j:j | d:e", "j:k | d:g"]),
        ("sinks", vec!["f:f | j:j | l:s", "j:j | d:e"]),
        ("reg", vec!["f:f | r:r | b:b | j:k | d:d", "f:g | j:k"]),
        ("reg-far", vec!["f:f | r:r | l:a | b:b | l:c | d:d"]),
        ("prio", vec!["f:f | [5]j:j | d:d", "f:g | [1]j:j", "f:h | [1]j:j"]),
        ("implicit", vec!["f:f | l:a | d:d", "f:g | l:a | d:e", "f:h | d:e"]),
        ("exits", vec!["f:f | l:a[X] | j:j | d:d", "f:g | l:b[X] | j:j", "l:a[O] | d:e"]),
    ]
}

fn error_names(o: &Outcome, a: &str, b: &str) -> Result<(), String> {
    match &o.end {
        End::Errors(v) if v.is_empty() => Err("failed without saying why".into()),
        End::Errors(v) => {
            if v.iter().any(|e| e.contains(a) && e.contains(b)) {
                Ok(())
            } else {
                Err(format!("no error mentions {} and {}: {:?}", a, b, v))
            }
        }
        x => Err(format!("should have failed, ended with {:?}", x)),
    }
}

/// Programs which stop reading for good after `n` lines, and what they had written by then.
fn stoppers() -> Vec<(&'static str, Vec<Op>)> {
    vec![
        ("head", vec![Op::ReadLine, Op::OutReg]),
        ("none", vec![]),
        ("fail", vec![Op::ReadLine, Op::Exit(3)]),
        ("kill", vec![Op::ReadLine, Op::Kill(9)]),
        ("closein", vec![Op::ReadLine, Op::CloseIn, out("late\n")]),
        ("deaf", vec![Op::CloseIn, out("x\n")]),
    ]
}

fn c06(ctx: &mut Ctx) {
    let q = ctx.quick();
    super::fault::among_many(ctx, &["leaves-T"]);
    let cap = if q { 6_000 } else { 400_000 };
    for (pn, prog) in stoppers() {
        for cl in ["|", "|T|"] {
            // 40 lines are far more than the queues between the two hold
            for (tn, conns, src) in [
                ("f", vec![format!("f:f {} l:a | d:d", cl)], "f"),
                ("j", vec![format!("f:f | j:snd {} l:a | d:d", cl)], "snd"),
                ("b", vec![format!("f:f | b:snd {} l:a | d:d", cl)], "snd"),
                ("jb", vec![format!("f:f | j:j | b:snd {} l:a | d:d", cl), "j:j | l:o | d:e".into()], "snd"),
                ("rb", vec![format!("f:f | r:r | b:b {} l:a | d:d", cl)], "b"),
                // (several inputs: the junction in front of the receiver stands for it)
                ("merge", vec![format!("f:f {} l:a | d:d", cl), format!("f:g {} l:a", cl)], "+"),
                ("l", vec![format!("f:f | l:snd {} l:a | d:d", cl)], "snd"),
                ("r", vec![format!("f:f | r:r {} l:a | b:b | d:d", cl)], "r"),
                // (with several receivers it is a junction between the two that notices)
                ("fan", vec![format!("f:f | j:snd {} l:a | d:d", cl), "j:snd | l:o | d:e".into()], "*"),
                ("fanF", vec![format!("f:f | j:snd {} l:a | d:d", cl), "j:snd |C| l:o | d:e".into()], "*"),
            ] {
                let c: Vec<&str> = conns.iter().map(|s| s.as_str()).collect();
                let mut t = Topo::new(&format!("T-{}-{}-{}", tn, pn, cl), &c).lines(40).prog("a", prog.clone());
                if tn == "r" || tn == "rb" {
                    t = t.reg("r", 100, 200, &["b"]);
                }
                let src = src.to_string();
                let src2 = src.clone();
                let all: Vec<Vec<u8>> = split_lines(&t.content("f"));
                let s = t.scenario().cap(9).judge(move |o| {
                    terminated(o)?;
                    if src == "*" {
                        error_names(o, "Junction:", "| Launch:a")?;
                    } else if src == "+" {
                        error_names(o, "Faucet:", "| Junction:")?;
                    } else {
                        error_names(o, &format!(":{} |", src), "| Launch:a")?;
                    }
                    // nothing invented, nothing out of order on the way to the other outputs
                    let want: Vec<u8> = all.iter().flat_map(|l| [b"o".to_vec(), l.clone()].concat()).collect();
                    if !want.starts_with(o.out("out_e")) {
                        return Err(format!("out_e is not a prefix: {}", show(o.out("out_e"))));
                    }
                    Ok(())
                });
                // (a real pipe holds more than these 40 lines)
                let s = s.model_only();
                both_ways(ctx, &s, cap);
                if !q || ["head", "closein"].contains(&pn) {
                    let mut s = t.clone().input("f", &"fill\n".repeat(60_000).into_bytes()).scenario();
                    s.name = format!("{}-real", t.name);
                    let src = src2.clone();
                    s = s.judge(move |o| {
                        terminated(o)?;
                        match src.as_str() {
                            "*" => error_names(o, "Junction:", "| Launch:a"),
                            "+" => error_names(o, "Faucet:", "| Junction:"),
                            src => error_names(o, &format!(":{} |", src), "| Launch:a"),
                        }
                    });
                    ctx.real(&s, None);
                }
            }
        }
    }
    // nothing is lost silently: when pa2 reports success everything offered was accepted
    for n in [1usize, 2, 3, 9, 10, 11, 12] {
        let t = Topo::new(&format!("T-all-read-{}", n), &["f:f | l:a | d:d"])
            .lines(n)
            .prog("a", vec![Op::Repeat(n, vec![Op::ReadLine, Op::OutReg])]);
        let want = t.content("f");
        let s = t.scenario().cap(9).judge(move |o| {
            terminated(o)?;
            if let End::Ok(_) = o.end {
                if o.out("out_d") != want {
                    return Err(format!("success, but {}", show(o.out("out_d"))));
                }
            }
            Ok(())
        });
        both_ways(ctx, &s, cap);
    }
    // a sender with no more to say than was read: no error
    let t = Topo::new("T-reader-leaves-last", &["f:f | l:a | d:d"])
        .lines(1)
        .prog("a", vec![Op::ReadLine, Op::OutReg, Op::ReadLine]);
    let s = t.scenario().judge(|o| {
        ended_ok(o)?;
        if o.out_s("out_d") != "f1\n" {
            return Err(o.out_s("out_d"));
        }
        Ok(())
    });
    both_ways(ctx, &s, cap);
}

fn c07(ctx: &mut Ctx) {
    let q = ctx.quick();
    super::fault::among_many(ctx, &["leaves-F"]);
    let cap = if q { 6_000 } else { 400_000 };
    for (pn, prog) in stoppers() {
        // the sender's sources finish too; pa2 ends well
        for (tn, conns) in [
            ("f", vec!["f:f |F| l:a | d:d"]),
            ("j", vec!["f:f |F| j:j |F| l:a | d:d"]),
            ("b", vec!["f:f |F| b:b |F| l:a | d:d"]),
            ("l", vec!["f:f |F| l:p |F| l:a | d:d"]),
            ("ll", vec!["l:gen |F| l:a | d:d"]),
            ("r", vec!["f:f |F| r:r |F| l:a | b:b | d:d"]),
            ("both", vec!["f:f |F| j:j |F| l:a | d:d", "j:j |F| l:a2 | d:e"]),
        ] {
            let mut t = Topo::new(&format!("F-{}-{}", tn, pn), &conns)
                .lines(40)
                .prog("a", prog.clone())
                .prog("a2", prog.clone())
                .prog("gen", vec![Op::Repeat(60, vec![out("gg\n")])]);
            if tn == "r" {
                t = t.reg("r", 100, 200, &["b"]);
            }
            let pn2 = pn.to_string();
            let tn2 = tn.to_string();
            let s = t.scenario().cap(9).judge(move |o| {
                ended_ok(o)?;
                let first = if tn2 == "ll" {
                    "gg\n"
                } else if tn2 == "l" {
                    "pf1\n"
                } else {
                    "f1\n"
                };
                let want = match pn2.as_str() {
                    "head" => first,
                    "closein" => "late\n",
                    "deaf" => "x\n",
                    _ => "",
                };
                if o.out_s("out_d") != want {
                    return Err(format!("out_d is {:?}, not {:?}", o.out_s("out_d"), want));
                }
                if tn2 == "ll" {
                    if let Some(c) = o.child("gen") {
                        if c.exit == Some(Exit::Code(0)) {
                            return Err("the sending program was not told: it ran to its end".into());
                        }
                    }
                }
                Ok(())
            });
            both_ways(ctx, &s, cap);
        }
        // an endless source: pa2 ends nevertheless
        if pn != "none" || !q {
            let t = Topo::new(&format!("F-endless-{}", pn), &["f:f |F| l:a | d:d"]).source("f", "-").prog("a", prog.clone());
            let mut s = t
                .scenario()
                .cap(9)
                .judge(ended_ok)
                .feed(vec![Op::Repeat(3000, vec![out("y\n")]), Op::Sleep(600_000_000)]);
            s.real = false;
            s.step_limit = 400_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
            let t = Topo::new(&format!("F-endless-child-{}", pn), &["l:yes |F| l:a | d:d"])
                .prog("a", prog.clone())
                .prog("yes", vec![Op::Repeat(100_000, vec![out("y\n")]), Op::Sleep(600_000_000)]);
            let mut s = t.scenario().cap(9).judge(ended_ok);
            s.step_limit = 400_000;
            s.real = pn == "head";
            ctx.both(&s, &l);
        }
    }
    // the exit of a program goes where nobody listens any more
    for (cl, pn) in [("|F|", "head"), ("|F|", "deaf"), ("|F|", "none"), ("|C|", "head"), ("|C|", "deaf")] {
        let prog = stoppers().into_iter().find(|s| s.0 == pn).unwrap().1;
        for implicit in [false, true] {
            let c: Vec<String> = if implicit {
                vec![format!("l:gen |F| l:a | d:d"), format!("l:b[X] {} l:a", cl)]
            } else {
                vec![format!("l:gen |F| j:j {} l:a | d:d", cl), format!("l:b[X] {} j:j", cl)]
            };
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let t = Topo::new(&format!("F-exit-{}-{}-{}", cl, pn, implicit), &c)
                .prog("a", prog.clone())
                .prog("gen", vec![Op::Repeat(60, vec![out("gg\n")])])
                .prog("b", vec![Op::Quiesce, Op::Exit(3)]);
            let s = t.scenario().cap(9).judge(ended_ok);
            both_ways(ctx, &s, cap);
        }
    }
    // one of several receivers goes: the others get everything
    for (cl1, cl2) in [("|F|", "|F|"), ("|F|", "|T|"), ("|F|", "|C|"), ("|F|", "|")] {
        for (pn, prog) in stoppers() {
            for sender in ["j:snd", "f:f"] {
                let c0 = if sender == "j:snd" {
                    format!("f:f | j:snd {} l:a | d:d", cl1)
                } else {
                    format!("f:f {} l:a | d:d", cl1)
                };
                let c1 = format!("{} {} l:o | d:e", sender, cl2);
                let t = Topo::new(&format!("F-others-{}-{}-{}", pn, cl2, sender), &[&c0, &c1])
                    .lines(24)
                    .prog("a", prog.clone());
                let want: Vec<u8> =
                    split_lines(&t.content("f")).iter().flat_map(|l| [b"o".to_vec(), l.clone()].concat()).collect();
                let s = t.scenario().cap(9).judge(move |o| {
                    ended_ok(o)?;
                    if o.out("out_e") != want {
                        return Err(format!("the other receiver lost something: {}", show(o.out("out_e"))));
                    }
                    Ok(())
                });
                if q && sender == "f:f" && pn != "head" && pn != "deaf" {
                    continue;
                }
                both_ways(ctx, &s, cap / 2);
            }
        }
    }
}

fn c08(ctx: &mut Ctx) {
    let q = ctx.quick();
    super::fault::among_many(ctx, &["leaves-C"]);
    let cap = if q { 6_000 } else { 400_000 };
    for (pn, prog) in stoppers() {
        // the sender runs to its end and never notices
        for (tn, conns) in [
            ("l", vec!["l:gen |C| l:a | d:d"]),
            ("l-err", vec!["l:gen[E] |C| l:a | d:d", "l:gen[O] | d:e"]),
            ("l-j", vec!["l:gen | j:j |C| l:a | d:d"]),
            ("l-b", vec!["l:gen | b:b |C| l:a | d:d"]),
            ("l-r", vec!["l:gen | r:r |C| l:a | b:b | d:d"]),
            ("fan", vec!["l:gen | j:j |C| l:a | d:d", "j:j | l:o | d:e"]),
            ("fan2", vec!["l:gen | j:j |C| l:a | d:d", "j:j |C| l:a2 | d:e"]),
            ("fan-F", vec!["l:gen | j:j |C| l:a | d:d", "j:j |F| l:a2 | d:e"]),
        ] {
            let gen = if tn == "l-err" {
                vec![Op::Repeat(40, vec![err("gg\n")]), out("bye\n")]
            } else {
                vec![Op::Repeat(40, vec![out("gg\n")])]
            };
            let mut t = Topo::new(&format!("C-{}-{}", tn, pn), &conns)
                .prog("a", prog.clone())
                .prog("a2", prog.clone())
                .prog("gen", gen);
            if tn == "l-r" {
                t = t.reg("r", 100, 200, &["b"]);
            }
            let pn2 = pn.to_string();
            let tn2 = tn.to_string();
            let s = t.scenario().cap(9).judge(move |o| {
                ended_ok(o)?;
                let want = match pn2.as_str() {
                    "head" => "gg\n",
                    "closein" => "late\n",
                    "deaf" => "x\n",
                    _ => "",
                };
                if o.out_s("out_d") != want {
                    return Err(format!("out_d is {:?}, not {:?}", o.out_s("out_d"), want));
                }
                if let Some(c) = o.child("gen") {
                    if c.exit != Some(Exit::Code(0)) {
                        return Err(format!("the sender did not run to its end: {:?}", c.exit));
                    }
                }
                if tn2 == "fan" && o.out_s("out_e") != "ogg\n".repeat(40) {
                    return Err(format!("the other receiver lost something: {}", show(o.out("out_e"))));
                }
                if tn2 == "l-err" && o.out_s("out_e") != "bye\n" {
                    return Err(format!("the other port lost something: {}", show(o.out("out_e"))));
                }
                Ok(())
            });
            both_ways(ctx, &s, cap);
        }
        // what comes on stdin is read to its end
        let t = Topo::new(&format!("C-stdin-{}", pn), &["f:f |C| l:a | d:d"]).source("f", "-").prog("a", prog.clone()).lines(40);
        let s = t.scenario().cap(9).judge(ended_ok).observe(|| Box::new(ReadToEnd { n: 0, want: 0, closed: false }));
        both_ways(ctx, &s, cap);
    }
    // a bad destination behind |C|: everything else goes on (the run reports the destination)
    let t = Topo::new("C-bad-dest", &["f:f | j:j |C| d:d", "j:j | d:e"]).lines(20);
    let want = t.content("f");
    let mut s = t.scenario().judge(move |o| {
        terminated(o)?;
        if !matches!(o.end, End::Errors(_)) {
            return Err("no error for the bad destination".into());
        }
        if o.out("out_e") != want {
            return Err(format!("the other receiver lost something: {}", show(o.out("out_e"))));
        }
        Ok(())
    });
    s.outs.insert("out_d".into(), async_std::mc::OutSpec { create_error: Some(21), ..Default::default() });
    both_ways(ctx, &s, cap);
}

/// The feeder could write everything (it is never cut off).
struct ReadToEnd {
    n: usize,
    want: usize,
    closed: bool,
}
impl async_std::mc::Observer for ReadToEnd {
    fn minds(&self, e: &async_std::mc::Event) -> bool {
        e.who == "stdin"
    }
    fn event(&mut self, e: &async_std::mc::Event) -> Result<(), String> {
        if e.who != "stdin" {
            return Ok(());
        }
        match e.what {
            "env-write" => self.want += e.data.len(),
            "sys-read" => self.n += e.data.len(),
            "env-close-write" => self.closed = true,
            "env-epipe" => return Err("whoever writes to stdin was cut off".into()),
            "sys-close-read" => {
                if !self.closed || self.n < self.want {
                    return Err("stdin was abandoned before its end".into());
                }
            }
            _ => {}
        }
        Ok(())
    }
}
