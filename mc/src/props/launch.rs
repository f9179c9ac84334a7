//! C14, C15, C20: the programs a pipeline launches.
use super::flow::*;
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::{Event, Exit, Observer, ReadMode};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C14", run: c14 }, Prop { id: "C15", run: c15 }, Prop { id: "C20", run: c20 }]
}

/// Sequences of length 0..=n over an alphabet.
pub fn words<T: Clone>(a: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all: Vec<Vec<T>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        let mut w = vec![];
        for v in &last {
            for x in a {
                let mut u = v.clone();
                u.push(x.clone());
                w.push(u);
            }
        }
        all.extend(w.clone());
        last = w;
    }
    all
}

#[derive(Clone)]
struct Start {
    args: Option<Vec<String>>,
    env: Option<Vec<(String, String)>>,
    path: Option<String>,
}
impl Start {
    fn yaml(&self) -> String {
        let q = |x: &str| serde_json::to_string(x).unwrap();
        let mut v = vec!["cmd: \"show\"".to_string()];
        if let Some(a) = &self.args {
            v.push(format!("arg: [{}]", a.iter().map(|x| q(x)).collect::<Vec<_>>().join(", ")));
        }
        if let Some(e) = &self.env {
            v.push(format!(
                "env: {{{}}}",
                e.iter().map(|(k, x)| format!("{}: {}", q(k), q(x))).collect::<Vec<_>>().join(", ")
            ));
        }
        if let Some(p) = &self.path {
            v.push(format!("path: {}", q(p)));
        }
        format!("{{{}}}", v.join(", "))
    }
    fn want(&self, names: &[&str]) -> String {
        let mut s = String::new();
        let a = self.args.clone().unwrap_or_default();
        s += &a.iter().map(|x| format!("<{}>", x)).collect::<Vec<_>>().join(",");
        s += "\n";
        let mut e: BTreeMap<String, String> = BTreeMap::new();
        e.insert("MC_INHERIT".into(), "inherited".into());
        for (k, v) in self.env.iter().flatten() {
            e.insert(k.clone(), v.clone());
        }
        for n in names {
            s += &match e.get(*n) {
                Some(v) => format!("{}={}\n", n, v),
                None => format!("{} unset\n", n),
            };
        }
        s += &match self.path.as_deref() {
            None | Some(".") | Some("sub/..") => "cwd <>\n".to_string(),
            Some("/") => "cwd /\n".to_string(),
            Some(x) => format!("cwd <{}>\n", x.trim_end_matches('/')),
        };
        s
    }
}

/// Every one of these is started by a launch of its own, several in one configuration.
fn starts(ctx: &mut Ctx, name: &str, v: &[Start]) {
    let names = ["MC_INHERIT", "A", "B_1", "MC_UNSET"];
    for (ci, part) in v.chunks(6).enumerate() {
        let mut cfg = String::from("launch:\n");
        let mut drains = String::from("drain:\n");
        let mut conns = String::from("connection:\n");
        let mut want = vec![];
        for (i, s) in part.iter().enumerate() {
            cfg += &format!("  l{}: {}\n", i, s.yaml());
            drains += &format!("  d{}: {{destination: out_{}}}\n", i, i);
            conns += &format!("  c{}: \"l:l{} | d:d{}\"\n", i, i, i);
            want.push((format!("out_{}", i), s.want(&names)));
        }
        let mut ops = vec![Op::ShowArgs];
        ops.extend(names.iter().map(|n| Op::ShowEnv(n.to_string())));
        ops.push(Op::ShowCwd);
        let mut s = Scenario::new(&format!("{}/{}", name, ci), &format!("{}{}{}", cfg, drains, conns))
            .prog("show", ops)
            .judge(move |o| {
                ended_ok(o)?;
                for (f, w) in &want {
                    if o.out_s(f) != *w {
                        return Err(format!("started with {:?} instead of {:?}", o.out_s(f), w));
                    }
                }
                Ok(())
            });
        s.dirs = vec!["sub/deep er".into()];
        s.step_limit = 100_000;
        let l = ctx.free();
        ctx.both(&s, &l);
        ctx.count("program_starts_compared", part.len());
    }
}

fn c14(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    let st = |a: &[&str]| a.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    // arguments, environment, directory
    let alphabet = ["", "a", "-x", "a b", "it's", "\"q\"", "\u{e9}\u{4e2d}", "$HOME", "*", "l\nm", "--", "\\", "{}", "1", "true"];
    let mut v: Vec<Start> = vec![Start { args: None, env: None, path: None }];
    for w in words(&alphabet, if q { 2 } else { 3 }) {
        v.push(Start { args: Some(w.iter().map(|s| s.to_string()).collect()), env: None, path: None });
    }
    starts(ctx, "args", &v);
    let envs: Vec<Option<Vec<(String, String)>>> = {
        let mut e = vec![None];
        let p = [("A", ""), ("A", "x y=z"), ("B_1", "'\"$A"), ("MC_INHERIT", "other"), ("B_1", "\u{fc}")];
        for w in words(&p, 2) {
            let mut k: Vec<&str> = w.iter().map(|x| x.0).collect();
            k.sort();
            k.dedup();
            if k.len() == w.len() {
                e.push(Some(w.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()));
            }
        }
        e
    };
    let paths: Vec<Option<String>> =
        vec![None, Some(".".into()), Some("sub".into()), Some("sub/deep er".into()), Some("sub/..".into()), Some("/".into())];
    let argv: Vec<Option<Vec<String>>> = vec![None, Some(st(&["one", "two"])), Some(st(&["b", "a", "b"]))];
    let mut v = vec![];
    for e in &envs {
        for p in &paths {
            for a in &argv {
                v.push(Start { args: a.clone(), env: e.clone(), path: p.clone() });
            }
        }
    }
    starts(ctx, "env-path-args", &v);

    // stdin is what was sent, then it ends
    for (n, c) in [
        ("empty", &b""[..]),
        ("one", b"a\n"),
        ("nonl", b"a\nbc"),
        ("crlf", b"\r\na\r\n\rb\n"),
        ("bin", b"\x00\xff\n\xfe\n\x80"),
    ] {
        for (rn, rd) in [
            ("all", vec![Op::ReadAll, Op::OutReg, out("|end\n")]),
            ("bytes", vec![Op::Repeat(12, vec![Op::ReadN(1), Op::OutReg]), out("|end\n")]),
            ("late", vec![Op::Quiesce, Op::ReadAll, Op::OutReg, out("|end\n")]),
        ] {
            for (k, conns) in
                [("f", vec!["f:f | l:a | d:d"]), ("j", vec!["f:f | j:j | l:a | d:d"]), ("b", vec!["f:f | b:b | l:a | d:d"])]
            {
                let t = Topo::new(&format!("stdin-{}-{}-{}", n, rn, k), &conns).input("f", c).prog("a", rd.clone());
                let want = c.to_vec();
                let mut s = t.scenario().cap(5).judge(move |o| {
                    ended_ok(o)?;
                    let w = [&want[..], b"|end\n"].concat();
                    if o.out("out_d") != w {
                        return Err(format!("the program saw {} of {}", show(o.out("out_d")), show(&w)));
                    }
                    if let Some(c) = o.child("a") {
                        if c.received != want {
                            return Err(format!("the program got {} of {}", show(&c.received), show(&want)));
                        }
                    }
                    Ok(())
                });
                s.child_read_mode = ReadMode::Greedy;
                s.real = rn != "late" || k == "f";
                ctx.deep(&s, cap / 3);
            }
        }
    }
    // without an input: stdin is empty
    let t = Topo::new("no-input", &["l:a | d:d"]).prog("a", vec![Op::ReadAll, Op::OutReg, out("end\n")]);
    let mut s = t.scenario().feed(vec![out("not for the child\n")]).judge(|o| {
        ended_ok(o)?;
        (o.out_s("out_d") == "end\n").then_some(()).ok_or(format!("stdin was not empty: {:?}", o.out_s("out_d")))
    });
    s.step_limit = 20_000;
    ctx.deep(&s, cap);

    // outputs that go nowhere do not disturb anybody
    let noise = |f: fn(&str) -> Op| vec![Op::ReadLine, Op::Repeat(30, vec![f("noise\n")]), Op::EachLine(vec![])];
    for (n, conns, prog, want) in [
        ("err", vec!["f:f | l:a | d:d"], [noise(err), vec![out("ok\n")]].concat(), "ok\n"),
        ("out", vec!["f:f | l:a[E] | d:d"], [noise(out), vec![err("ok\n")]].concat(), "ok\n"),
        ("both", vec!["f:f | l:a[X] | d:d"], [noise(out), noise(err), vec![Op::Exit(4)]].concat(), "4"),
        ("sink", vec!["f:f | j:j | l:a", "j:j | d:d"], [noise(out), noise(err)].concat(), "f1\nf2\n"),
    ] {
        let t = Topo::new(&format!("unconnected-{}", n), &conns).prog("a", prog);
        let mut s = t.scenario().cap(7).judge(move |o| {
            ended_ok(o)?;
            if o.out_s("out_d") != want {
                return Err(format!("out_d is {:?}", o.out_s("out_d")));
            }
            for f in ["<stdout>", "<stderr>"] {
                if !o.out(f).is_empty() {
                    return Err(format!("{} got {}", f, show(o.out(f))));
                }
            }
            Ok(())
        });
        s.step_limit = 20_000;
        ctx.deep(&s, cap);
    }
    for which in [0, 1] {
        // more than a real pipe holds
        let big = vec![b'z'; 150_000];
        let t = Topo::new(&format!("unconnected-big-{}", which), &["f:f | l:a | d:d"])
            .prog("a", vec![if which == 0 { Op::Err(big.clone()) } else { out("") }, Op::ReadAll, Op::OutReg]);
        let s = t.scenario().judge(|o| {
            ended_ok(o)?;
            (o.out_s("out_d") == "f1\nf2\n").then_some(()).ok_or(show(o.out("out_d")))
        });
        ctx.real(&s, None);
    }

    // both outputs, whatever the order and amount
    for (pn, pat) in [
        ("oe", vec![out("o\n"), err("e\n")]),
        ("ooe", vec![out("o1\n"), out("o2\n"), err("e\n")]),
        ("eeo", vec![err("e1\n"), err("e2\n"), out("o\n")]),
        ("split", vec![out("o"), err("e"), out("1\n"), err("2\n")]),
        ("bursts", vec![out("1\n2\n3\n4\n5\n6\n7\n8\n"), err("a\nb\nc\nd\ne\nf\ng\nh\n")]),
    ] {
        for (cn, conns) in [
            ("separate", vec!["l:a[O] | d:o", "l:a[E] | d:e"]),
            ("filters", vec!["l:a[O] | l:p | d:o", "l:a[E] | l:q | d:e"]),
            ("merged", vec!["l:a[O] | d:o", "l:a[E] | d:o"]),
            ("swapped", vec!["f:f |F| l:a[E] | d:e", "l:a | d:o"]),
        ] {
            for n in [2usize, 12] {
                let t = Topo::new(&format!("both-{}-{}-{}", pn, cn, n), &conns)
                    .prog("a", vec![Op::Repeat(n, pat.clone())])
                    .prog("p", cat(""))
                    .prog("q", cat(""));
                let of = |w: bool| -> Vec<u8> {
                    let one: Vec<u8> = pat
                        .iter()
                        .flat_map(|o| match o {
                            Op::Out(b) if w => b.clone(),
                            Op::Err(b) if !w => b.clone(),
                            _ => vec![],
                        })
                        .collect();
                    one.repeat(n)
                };
                let (wo, we) = (of(true), of(false));
                let merged = cn == "merged";
                let s = t.scenario().cap(6).judge(move |o| {
                    ended_ok(o)?;
                    if merged {
                        return is_interleaving(o.out("out_o"), &[split_lines(&wo), split_lines(&we)]);
                    }
                    for (f, w) in [("out_o", &wo), ("out_e", &we)] {
                        if o.out(f) != &w[..] {
                            return Err(format!("{} is {} instead of {}", f, show(o.out(f)), show(w)));
                        }
                    }
                    Ok(())
                });
                let mut s = s;
                s.step_limit = 60_000;
                ctx.deep(&s, if n == 2 { cap / 3 } else { cap / 10 });
                s.name = format!("{}/free", s.name);
                s.step_limit = 400_000;
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
    }
    // what was written before the program failed or was killed is delivered
    for (en, e) in [("exit0", Op::Exit(0)), ("exit3", Op::Exit(3)), ("kill9", Op::Kill(9)), ("kill15", Op::Kill(15))] {
        for n in [1usize, 3, 14] {
            for (cn, conns) in [
                ("plain", vec!["f:f | l:a | d:d"]),
                ("noin", vec!["l:a | d:d"]),
                ("filter", vec!["l:a | l:p | d:d"]),
                ("err", vec!["l:a[E] | d:d"]),
            ] {
                let w: fn(&str) -> Op = if cn == "err" { err } else { out };
                let t = Topo::new(&format!("before-{}-{}-{}", en, cn, n), &conns)
                    .lines(1)
                    .prog("a", vec![Op::Repeat(n, vec![w("x\n")]), w("half"), e.clone()])
                    .prog("p", cat(""));
                let want = format!("{}half", "x\n".repeat(n));
                let s = t.scenario().cap(6).judge(move |o| {
                    ended_ok(o)?;
                    (o.out_s("out_d") == want).then_some(()).ok_or(format!("delivered {:?}", o.out_s("out_d")))
                });
                ctx.deep(&s, if n == 14 { cap / 10 } else { cap / 3 });
            }
        }
    }
    // two components may run the same command
    let mut t = Topo::new("same-cmd", &["f:f | l:a | l:b | d:d", "l:c | d:e"]);
    t.shared_cmd = Some("same".into());
    let mut s = t.scenario().prog("same", cat("s")).judge(|o| {
        ended_ok(o)?;
        if o.out_s("out_d") != "ssf1\nssf2\n" || !o.out("out_e").is_empty() {
            return Err(format!("{:?} {:?}", o.out_s("out_d"), o.out_s("out_e")));
        }
        Ok(())
    });
    s.step_limit = 20_000;
    ctx.deep(&s, cap);
    // the one launch named in several places is started once
    for (n, conns) in [
        ("in", vec!["f:f | l:a | d:d", "f:g | l:a"]),
        ("out", vec!["l:a | d:d", "l:a | d:e"]),
        ("ports", vec!["l:a | d:d", "l:a[E] | d:e", "l:a[X] | d:x"]),
    ] {
        let t = Topo::new(&format!("once-{}", n), &conns).prog("a", vec![Op::ReadAll, out("run\n")]);
        let s = t.scenario().judge(|o| {
            ended_ok(o)?;
            if o.out_s("out_d") != "run\n" {
                return Err(format!("out_d is {:?}", o.out_s("out_d")));
            }
            Ok(())
        });
        ctx.deep(&s, cap / 3);
    }
}

/// pa2 has ended: so has every program (and what it does last is there to be seen).
fn all_over(o: &Outcome, marks: &[String]) -> Result<(), String> {
    terminated(o)?;
    for c in &o.children {
        if c.exit.is_none() {
            return Err(format!("pa2 ended while {} was still running", c.program));
        }
        if c.killed {
            return Err(format!("pa2 killed {}", c.program));
        }
    }
    for m in marks {
        if o.out_s(m) != "done" {
            return Err(format!("pa2 ended before {} was written", m));
        }
    }
    Ok(())
}

fn c15(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    let l = |v: &[Op], m: &str| {
        let mut v = v.to_vec();
        v.push(Op::Mark(m.to_string()));
        v
    };
    // how a program lets go of its pipes well before it ends
    let kinds: Vec<(&str, Vec<Op>)> = vec![
        ("tail", vec![Op::EachLine(vec![Op::OutReg]), Op::Quiesce]),
        ("closeout", vec![Op::EachLine(vec![Op::OutReg]), Op::CloseOut, Op::CloseErr, Op::Quiesce]),
        ("deaf", vec![Op::CloseIn, Op::CloseOut, Op::CloseErr, Op::Quiesce]),
        ("head", vec![Op::ReadLine, Op::OutReg, Op::CloseIn, Op::Quiesce]),
        ("holder", vec![Op::ReadAll, Op::CloseOut, Op::Quiesce, Op::CloseErr]),
    ];
    let shapes: Vec<(&str, Vec<&str>)> = vec![
        ("noout", vec!["f:f | l:a"]),
        ("noout-exit", vec!["f:f | l:a[X] | d:x"]),
        ("out", vec!["f:f | l:a | d:d"]),
        ("err", vec!["f:f | l:a[E] | d:d"]),
        ("all", vec!["f:f | l:a | d:d", "l:a[E] | d:e", "l:a[X] | d:x"]),
        ("noin", vec!["l:a | d:d"]),
        ("noin-err", vec!["l:a[E] | d:d"]),
        ("two", vec!["f:f | l:a | l:b | d:d"]),
        ("fan", vec!["f:f | j:j | l:a | d:d", "j:j | l:b"]),
        ("sinks", vec!["f:f | l:a", "f:f | l:b"]),
        ("F", vec!["f:f |F| l:a | d:d", "f:g | l:b"]),
        ("C", vec!["l:b |C| l:a | d:d"]),
        ("T", vec!["l:b |T| l:a | d:d"]),
        ("exits", vec!["l:a[X] | l:b | d:d", "f:f | l:a"]),
        ("buffer", vec!["f:f | b:b | l:a | d:d", "l:a | l:b"]),
    ];
    for (kn, k) in &kinds {
        for (sn, c) in &shapes {
            for lines in [1usize, 20] {
                let two = c.iter().any(|c| c.contains("l:b"));
                let mut t = Topo::new(&format!("wait-{}-{}-{}", sn, kn, lines), c).lines(lines).prog("a", l(k, "mark_a"));
                let mut marks = vec!["mark_a".to_string()];
                if two {
                    t = t.prog("b", l(&[Op::EachLine(vec![Op::OutReg]), Op::CloseOut, Op::QuiesceLate], "mark_b"));
                    // (a sender cut off by its receiver may die of it)
                    if !["T", "two", "fan", "sinks", "C", "buffer"].contains(sn) || kn == &"tail" {
                        marks.push("mark_b".into());
                    }
                }
                let mut s = t.scenario().cap(9).judge(move |o| {
                    let died = |p: &str| o.child(p).map(|c| matches!(c.exit, Some(Exit::Signal(13)))).unwrap_or(false);
                    let m: Vec<String> =
                        marks.iter().filter(|m| !died(&m["mark_".len()..])).cloned().collect();
                    all_over(o, &m)
                });
                s.step_limit = 40_000;
                let mut seen = s.clone();
                seen.real = lines == 1 && (!q || ["closeout", "deaf"].contains(kn)) && !["T", "two"].contains(sn);
                ctx.deep(&seen, if lines == 1 { cap / 6 } else { cap / 12 });
                s.name = format!("{}/free", s.name);
                s.step_limit = 400_000;
                let f = ctx.free();
                ctx.explore(&s, &f);
            }
        }
    }
    // something else fails: the programs are waited for all the same
    for (n, c) in [
        ("dest", vec!["f:f | d:bad", "f:g | l:a"]),
        ("source", vec!["f:bad | d:d", "l:a | d:e"]),
        ("T", vec!["f:f |T| l:stop | d:d", "f:g | l:a | d:e"]),
    ] {
        for (kn, k) in &kinds {
            let t = Topo::new(&format!("wait-failing-{}-{}", n, kn), &c)
                .lines(if n == "T" { 60 } else { 12 })
                .dest("bad", "nowhere")
                .source("bad", "missing")
                .prog("a", l(k, "mark_a"))
                .prog("stop", vec![Op::ReadLine]);
            let mut s = t.scenario().cap(9).judge(move |o| {
                all_over(o, &["mark_a".into()])
            });
            s.outs.insert("nowhere".into(), async_std::mc::OutSpec { create_error: Some(21), ..Default::default() });
            s.files.insert("missing".into(), async_std::mc::FileSpec { open_error: Some(2), ..Default::default() });
            s.step_limit = 40_000;
            s.real = n != "T" && *kn != "head";
            ctx.deep(&s, cap / 6);
        }
    }
    // what it wrote is no longer wanted by anybody, or only in part
    for (n, c) in [
        ("out", vec!["l:a | l:h | d:d"]),
        ("out-T", vec!["l:a |T| l:h | d:d"]),
        ("out-F", vec!["l:a |F| l:h | d:d"]),
        ("out-C", vec!["l:a |C| l:h | d:d"]),
        ("fed", vec!["f:f | l:a | l:h | d:d"]),
        ("err", vec!["l:a[E] | l:h | d:d"]),
        ("err-T", vec!["l:a[E] |T| l:h | d:d", "l:a | d:e"]),
        ("both", vec!["l:a |T| l:h | d:d", "l:a[E] |T| l:h"]),
        ("exit", vec!["l:a[X] |T| l:h | d:d", "l:a | l:h"]),
        ("some", vec!["l:a |T| l:h | d:d", "l:a |T| d:e"]),
        ("junction", vec!["l:a | j:j |T| l:h | d:d"]),
        ("buffer", vec!["l:a | b:b |T| l:h | d:d"]),
    ] {
        for lines in [3usize, 24] {
            let text = (0..lines).map(|i| format!("{}\n", i)).collect::<String>();
            let both: Vec<(&str, Vec<Op>)> = vec![
                ("open", vec![out(&text), err(&text), Op::Quiesce, Op::Mark("mark_a".into())]),
                ("closed", vec![out(&text), err(&text), Op::CloseIn, Op::CloseOut, Op::CloseErr, Op::Quiesce, Op::Mark("mark_a".into())]),
            ];
            for (kn, k) in both {
                let t = Topo::new(&format!("wait-unwanted-{}-{}-{}", n, kn, lines), &c)
                    .lines(lines)
                    .prog("a", k)
                    .prog("h", vec![Op::ReadLine, Op::OutReg, Op::Exit(0)]);
                let mut s = t.scenario().judge(|o| all_over(o, &["mark_a".into()]));
                s.step_limit = 40_000;
                s.real = lines == 24;
                ctx.deep(&s, cap / if lines == 3 { 6 } else { 12 });
                s.name = format!("{}/free", s.name);
                s.step_limit = 400_000;
                let f = ctx.free();
                ctx.explore(&s, &f);
            }
        }
    }
    // every pause before the end, with and without something on the outputs
    for ms in [0u64, 1, 100, 5_000, 600_000] {
        for conns in [vec!["l:a | d:d"], vec!["l:a"], vec!["f:f | l:a"], vec!["f:f | l:a[X] | d:d"]] {
            if conns == vec!["l:a"] {
                continue;
            }
            let t = Topo::new(&format!("wait-ms-{}-{}", conns[0], ms), &conns)
                .prog("a", vec![out("x\n"), Op::CloseIn, Op::CloseOut, Op::CloseErr, Op::Sleep(ms), Op::Mark("mark_a".into())]);
            let mut s = t.scenario().judge(|o| all_over(o, &["mark_a".into()]));
            s.step_limit = 400_000;
            s.real = ms == 100;
            let f = ctx.free();
            ctx.both(&s, &f);
        }
    }
}

/// Nothing is said about an exit before it happened, and it is said once.
struct ExitAfter {
    of: Vec<(String, String)>,
    gone: Vec<String>,
    said: usize,
}
impl Observer for ExitAfter {
    fn minds(&self, e: &Event) -> bool {
        e.what == "exit" || e.what == "visible"
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        match e.what {
            "exit" => self.gone.push(e.who.clone()),
            "visible" => {
                for (out, p) in &self.of {
                    if *out == e.who && !self.gone.contains(p) {
                        return Err(format!("the exit of {} was reported while it ran: {}", p, show(&e.data)));
                    }
                }
                self.said += e.data.len();
            }
            _ => {}
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        self.gone.len() as u64
    }
}

fn c20(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    let ends: Vec<(String, Op, &str)> = {
        let mut v: Vec<(String, Op, &str)> = vec![];
        let codes: Vec<i32> = if q { vec![0, 1, 2, 7, 9, 10, 99, 100, 127, 128, 137, 200, 255] } else { (0..=255).collect() };
        for c in codes {
            v.push((format!("{}", c), Op::Exit(c), ""));
        }
        for s in [1, 9, 15] {
            v.push((format!("sig{}", s), Op::Kill(s), "_"));
        }
        v
    };
    let shapes: Vec<(&str, Vec<&str>)> = vec![
        ("only", vec!["f:f | l:a[X] | d:x"]),
        ("noin", vec!["l:a[X] | d:x"]),
        ("with-out", vec!["f:f | l:a[X] | d:x", "l:a[O] | d:d"]),
        ("all", vec!["f:f | l:a[X] | d:x", "l:a[O] | d:d", "l:a[E] | d:e"]),
    ];
    for (n, e, w) in &ends {
        let want = if w.is_empty() { n.clone() } else { w.to_string() };
        for (sn, c) in &shapes {
            let t = Topo::new(&format!("exit-{}-{}", sn, n), c)
                .lines(1)
                .prog("a", vec![Op::ReadAll, out("o\n"), err("e\n"), e.clone()]);
            let want = want.clone();
            let has = |d: &str| c.iter().any(|c| c.ends_with(d));
            let (o1, e1) = (has("d:d"), has("d:e"));
            let mut s = t.scenario().judge(move |o| {
                ended_ok(o)?;
                if o.out_s("out_x") != want {
                    return Err(format!("the exit came out as {:?} instead of {:?}", o.out_s("out_x"), want));
                }
                if o1 && o.out_s("out_d") != "o\n" || e1 && o.out_s("out_e") != "e\n" {
                    return Err("the other outputs are not what was written".into());
                }
                Ok(())
            });
            s = s.observe(|| Box::new(ExitAfter { of: vec![("out_x".into(), "a".into())], gone: vec![], said: 0 }));
            s.real = *sn == "only" || (*sn == "all" && n.len() < 3);
            if n == "7" || n == "sig9" {
                ctx.deep(&s, cap / 2);
            } else {
                let l = ctx.free();
                ctx.both(&s, &l);
            }
        }
    }
    // whatever the program does with its pipes, the exit follows
    for (pn, ops) in [
        ("early-close", vec![Op::CloseIn, Op::CloseOut, Op::CloseErr, Op::Quiesce, Op::Exit(5)]),
        ("reads-all", vec![Op::ReadAll, Op::Exit(5)]),
        ("reads-none", vec![Op::Exit(5)]),
        ("reads-one", vec![Op::ReadLine, Op::Exit(5)]),
        ("much", vec![Op::Repeat(20, vec![out("oo\n"), err("ee\n")]), Op::Exit(5)]),
        ("slow", vec![Op::ReadAll, Op::CloseOut, Op::CloseErr, Op::Sleep(700), Op::Exit(5)]),
    ] {
        for (sn, conns) in [
            ("only", vec!["f:f |F| l:a[X] | d:x"]),
            ("all", vec!["f:f |F| l:a[X] | d:x", "l:a[O] | d:d", "l:a[E] | d:e"]),
            ("out", vec!["f:f |F| l:a[X] | d:x", "l:a[O] | l:p | d:d"]),
            ("noin", vec!["l:a[X] | d:x", "l:a[E] | d:d"]),
        ] {
            let t = Topo::new(&format!("exit-after-{}-{}", pn, sn), &conns).lines(12).prog("a", ops.clone());
            let s = t
                .scenario()
                .cap(9)
                .judge(|o| {
                    ended_ok(o)?;
                    (o.out_s("out_x") == "5").then_some(()).ok_or(format!("the exit came out as {:?}", o.out_s("out_x")))
                })
                .observe(|| Box::new(ExitAfter { of: vec![("out_x".into(), "a".into())], gone: vec![], said: 0 }));
            let mut s = s;
            s.step_limit = 40_000;
            ctx.deep(&s, cap / 6);
            s.name = format!("{}/free", s.name);
            s.step_limit = 400_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    // an exit is a message like any other
    for (n, conns, wants) in [
        ("launch", vec!["f:f | l:a[X] | l:b | d:x"], vec![("out_x", vec![vec!["b3"]])]),
        ("junction", vec!["l:a[X] | j:j | d:x", "l:b[X] | j:j"], vec![("out_x", vec![vec!["3"], vec!["0"]])]),
        ("implicit", vec!["l:a[X] | d:x", "l:b[X] | d:x"], vec![("out_x", vec![vec!["3"], vec!["0"]])]),
        ("fan", vec!["l:a[X] | d:x", "l:a[X] | d:y"], vec![("out_x", vec![vec!["3"]]), ("out_y", vec![vec!["3"]])]),
        ("buffer", vec!["l:a[X] | b:w | d:x"], vec![("out_x", vec![vec!["3"]])]),
        ("mix", vec!["f:f | j:j | d:x", "l:a[X] | j:j"], vec![("out_x", vec![vec!["f1\n", "f2\n"], vec!["3"]])]),
        ("own-out", vec!["l:a[X] | j:j | d:x", "l:a | j:j"], vec![("out_x", vec![vec!["3"], vec!["oo\n"]])]),
        ("reg", vec!["l:a[X] | r:r | b:w | d:x"], vec![("out_x", vec![vec!["3"]])]),
        ("chain", vec!["l:a[X] | l:b[X] | d:x", "l:b | d:y"], vec![("out_x", vec![vec!["0"]]), ("out_y", vec![vec!["b3"]])]),
    ] {
        let mut t = Topo::new(&format!("exit-to-{}", n), &conns)
            .prog("a", vec![Op::ReadAll, out("oo\n"), Op::Exit(3)])
            .prog("b", cat("b"));
        if n == "reg" {
            t = t.reg("r", 1, 2, &["w"]);
        }
        let wants: Vec<(String, Vec<Vec<Vec<u8>>>)> = wants
            .into_iter()
            .map(|(f, s)| {
                (f.to_string(), s.into_iter().map(|v| v.into_iter().map(|m| m.as_bytes().to_vec()).collect()).collect())
            })
            .collect();
        let s = t.scenario().judge(move |o| {
            ended_ok(o)?;
            for (f, st) in &wants {
                is_interleaving(o.out(f), st).map_err(|e| format!("{}: {}", f, e))?;
            }
            Ok(())
        });
        ctx.deep(&s, cap);
    }
}
