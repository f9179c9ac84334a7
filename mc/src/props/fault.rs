//! C16, C17: what the outside world refuses, and what reaches it.
use super::flow::*;
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::{FileSpec, OutSpec};
use crate::real;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", run: c16 }, Prop { id: "C17", run: c17 }]
}

/// It failed, said so, and named this component.
fn failed_naming(o: &Outcome, who: &str) -> Result<(), String> {
    match &o.end {
        End::Refused(_) => Err(format!("refused: {}", v_of(o))),
        End::Errors(v) => {
            if v.iter().any(|l| mentions(l, who)) {
                Ok(())
            } else {
                Err(format!("no error names {}: {:?}", who, v))
            }
        }
        End::Ok(_) => Err("success was reported".into()),
        _ => terminated(o),
    }
}
fn v_of(o: &Outcome) -> String {
    format!("{:?}", o.end)
}
fn mentions(l: &str, who: &str) -> bool {
    l.match_indices(who).any(|(i, _)| !l[i + who.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
}
fn whole_lines(b: &[u8]) -> Vec<u8> {
    split_lines(b).into_iter().filter(|l| l.ends_with(b"\n")).collect::<Vec<_>>().concat()
}

fn c16(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);

    // a source which fails while it is read: at every byte
    let content = b"f1\nlonger\n\nf4".to_vec();
    for at in 0..=content.len() {
        for chunk in [None, Some(1), Some(4)] {
            if chunk == Some(4) && q {
                continue;
            }
            for (sn, c) in [
                ("d", vec!["f:f | d:d"]),
                ("l", vec!["f:f | l:a | d:d"]),
                ("j", vec!["f:f | j:j | d:d"]),
                ("b", vec!["f:f | b:b | d:d"]),
                ("merge", vec!["f:f | j:j | d:d", "f:g | j:j"]),
                ("fan", vec!["f:f | d:d", "f:f | l:a | d:e"]),
                ("apart", vec!["f:f | d:d", "f:g | l:b | d:e"]),
            ] {
                let t = Topo::new(&format!("read-{}-{}-{:?}", sn, at, chunk), &c).input("f", &content).lines(1);
                let mut s = t.scenario();
                s.files.insert(
                    "in_f".into(),
                    FileSpec { content: content.clone(), read_error_at: Some(at), max_read: chunk, ..Default::default() },
                );
                let got = whole_lines(&content[..at]);
                let sn2 = sn;
                let s = s.model_only().judge(move |o| {
                    failed_naming(o, "Faucet:f")?;
                    let want: Vec<Vec<Vec<u8>>> = match sn2 {
                        "l" => vec![split_lines(&got).into_iter().map(|l| [b"a".to_vec(), l].concat()).collect()],
                        "merge" => vec![split_lines(&got), vec![b"g1\n".to_vec()]],
                        _ => vec![split_lines(&got)],
                    };
                    is_interleaving(o.out("out_d"), &want).map_err(|e| format!("out_d: {}", e))?;
                    match sn2 {
                        "fan" => is_interleaving(
                            o.out("out_e"),
                            &[split_lines(&got).into_iter().map(|l| [b"a".to_vec(), l].concat()).collect()],
                        )
                        .map_err(|e| format!("out_e: {}", e)),
                        "apart" => is_interleaving(o.out("out_e"), &[vec![b"bg1\n".to_vec()]])
                            .map_err(|e| format!("the other pipeline: {}", e)),
                        _ => Ok(()),
                    }
                });
                ctx.deep(&s, cap / 30);
            }
        }
    }

    // a source which cannot be opened, or is a directory; a program which cannot be started
    let failing: Vec<(&str, &str, &str)> = vec![
        ("open", "Faucet:f", "f:f"),
        ("dir", "Faucet:f", "f:f"),
        ("spawn", "Launch:x", "l:x"),
        ("spawn-in", "Launch:x", "f:h | l:x"),
    ];
    for (kind, who, src) in &failing {
        for (sn, c) in [
            ("d", vec!["S | d:d"]),
            ("l", vec!["S | l:a | d:d"]),
            ("j", vec!["S | j:j | d:d"]),
            ("b", vec!["S | b:b | d:d"]),
            ("r", vec!["S | r:r | b:b | d:d"]),
            ("merge", vec!["S | j:j | d:d", "f:g | j:j"]),
            ("apart", vec!["S | d:d", "f:g | l:b | d:e"]),
            ("C", vec!["S |C| l:a |C| d:d"]),
            ("F", vec!["S |F| j:j |F| d:d"]),
        ] {
            for lines in [1usize, 12] {
                let c: Vec<String> = c.iter().map(|c| c.replace('S', src)).collect();
                let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                let mut t = Topo::new(&format!("{}-{}-{}", kind, sn, lines), &c).lines(lines);
                if sn == "r" {
                    t = t.reg("r", 1, 3, &["b"]);
                }
                let mut s = t.scenario().cap(9);
                s.programs.remove("x");
                s.spawn_errors.insert("x".into(), 2);
                match *kind {
                    "open" => {
                        s.files.insert("in_f".into(), FileSpec { open_error: Some(2), ..Default::default() });
                    }
                    "dir" => {
                        s.files.insert("in_f".into(), FileSpec { read_error_at: Some(0), ..Default::default() });
                        s.real = false;
                    }
                    _ => {}
                }
                let who = who.to_string();
                let g: Vec<Vec<u8>> = (1..=lines).map(|i| format!("g{}\n", i).into_bytes()).collect();
                let bg: Vec<Vec<u8>> = (1..=lines).map(|i| format!("bg{}\n", i).into_bytes()).collect();
                let mut s = s.judge(move |o| {
                    failed_naming(o, &who)?;
                    match sn {
                        "merge" => is_interleaving(o.out("out_d"), &[g.clone()]).map_err(|e| format!("the other source: {}", e)),
                        "apart" => is_interleaving(o.out("out_e"), &[bg.clone()]).map_err(|e| format!("the other pipeline: {}", e)),
                        _ => o.out("out_d").is_empty().then_some(()).ok_or("something came from nothing".into()),
                    }
                });
                s.step_limit = 40_000;
                ctx.deep(&s, if lines == 1 { cap / 6 } else { cap / 20 });
            }
        }
    }

    // a destination which cannot be created, or fails at every byte, or when it is flushed
    #[derive(Clone, Debug)]
    enum W {
        Create(i32),
        At(usize, i32),
        Flush(i32),
    }
    let mut faults = vec![W::Create(21), W::Create(13), W::Flush(28), W::Flush(5)];
    let text = b"f1\nlonger\nf3".to_vec();
    for k in 0..=text.len() {
        faults.push(W::At(k, 28));
        if !q || k % 4 == 0 {
            faults.push(W::At(k, 5));
            faults.push(W::At(k, 32));
        }
    }
    for w in &faults {
        for (dn, dest) in [("file", "bad"), ("stdout", "-"), ("stderr", "_")] {
            if matches!(w, W::Create(_)) && dn != "file" {
                continue;
            }
            for (sn, c) in [
                ("d", vec!["f:f | d:d"]),
                ("l", vec!["f:f | l:a | d:d"]),
                ("b", vec!["f:f | b:b | d:d"]),
                ("fan", vec!["f:f | d:d", "f:f | d:e"]),
                ("fanC", vec!["f:f |C| d:d", "f:f | d:e"]),
                ("fanF", vec!["f:f |F| d:d", "f:f | d:e"]),
                ("merge", vec!["f:f | d:d", "f:g | d:d"]),
                ("apart", vec!["f:f | d:d", "f:g | l:b | d:e"]),
            ] {
                if dn != "file" && sn != "d" && sn != "apart" && sn != "fanF" {
                    continue;
                }
                for part in [None, Some(2)] {
                    if part.is_some() && !(sn == "d" || !q) {
                        continue;
                    }
                    let t = Topo::new(&format!("write-{:?}-{}-{}-{:?}", w, dn, sn, part), &c)
                        .lines(2)
                        .input("f", &text)
                        .prog("a", cat(""))
                        .dest("d", dest);
                    let name = t.dest_of("d");
                    let mut s = t.scenario();
                    let mut spec = OutSpec { max_write: part, ..Default::default() };
                    match w {
                        W::Create(e) => spec.create_error = Some(*e),
                        W::At(k, e) => {
                            spec.write_error_at = Some(*k);
                            spec.write_errno = *e
                        }
                        W::Flush(e) => spec.flush_error = Some(*e),
                    }
                    s.outs.insert(name.clone(), spec);
                    s.real = matches!(w, W::Create(21)) && sn != "merge";
                    let merged = sn == "merge";
                    let total = text.len() + if merged { 6 } else { 0 };
                    let none = matches!(w, W::At(k, _) if *k >= total);
                    let text2 = text.clone();
                    let w2 = w.clone();
                    let s = s.judge(move |o| {
                        if none {
                            ended_ok(o)?;
                            return (o.out(&name) == &text2[..]).then_some(()).ok_or(format!("{} is {}", name, show(o.out(&name))));
                        }
                        failed_naming(o, "Drain:d")?;
                        let d = o.out(&name);
                        let ok = merged || matches!(w2, W::Create(_)) || text2.starts_with(d);
                        if !ok {
                            return Err(format!("{} is not the beginning of what was sent: {}", name, show(d)));
                        }
                        match sn {
                            "fanC" | "fanF" => (o.out("out_e") == &text2[..])
                                .then_some(())
                                .ok_or(format!("the other receiver got {}", show(o.out("out_e")))),
                            "apart" => (o.out("out_e") == b"bg1\nbg2\n")
                                .then_some(())
                                .ok_or(format!("the other pipeline: {}", show(o.out("out_e")))),
                            _ => Ok(()),
                        }
                    });
                    ctx.deep(&s, cap / 40);
                }
            }
        }
    }
    // whatever the system calls it
    for e in [1i32, 5, 6, 9, 11, 12, 13, 14, 16, 17, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 32, 36, 40, 61, 71, 75, 88, 95, 98, 103, 104, 105, 107, 110, 111, 112, 113, 116, 121, 122, 125] {
        for kind in ["open", "read", "read-end", "spawn", "create", "write", "write-end", "flush"] {
            for (sn, c) in [
                ("d", vec!["S | D"]),
                ("l", vec!["S | l:a | D"]),
                ("jb", vec!["S | j:j | b:b | D"]),
                ("r", vec!["S | r:r | b:b | D"]),
                ("apart", vec!["S | D", "f:g | l:b | d:e"]),
            ] {
                for dest in ["bad", "-", "_"] {
                    if (kind == "create" || !kind.starts_with("write") && kind != "flush") && dest != "bad" {
                        continue;
                    }
                    let who = match kind {
                        "open" | "read" | "read-end" => "Faucet:f",
                        "spawn" => "Launch:x",
                        _ => "Drain:d",
                    };
                    let c: Vec<String> = c.iter().map(|c| c.replace('S', if kind == "spawn" { "l:x" } else { "f:f" }).replace('D', "d:d")).collect();
                    let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                    let mut t = Topo::new(&format!("errno-{}-{}-{}-{}", e, kind, sn, dest), &c)
                        .input("f", &text)
                        .prog("a", cat(""))
                        .dest("d", dest)
                        .lines(2);
                    if sn == "r" {
                        t = t.reg("r", 1, 3, &["b"]);
                    }
                    let name = t.dest_of("d");
                    let mut s = t.scenario().model_only();
                    let mut file = FileSpec { content: text.clone(), read_errno: e, ..Default::default() };
                    let mut spec = OutSpec { write_errno: e, ..Default::default() };
                    let mut sent = 0..=0;
                    match kind {
                        "open" => file.open_error = Some(e),
                        "read" => file.read_error_at = Some(0),
                        "read-end" => {
                            file.read_error_at = Some(text.len());
                            sent = 10..=10
                        }
                        "spawn" => {
                            s.programs.remove("x");
                            s.spawn_errors.insert("x".into(), e);
                        }
                        "create" => spec.create_error = Some(e),
                        "write" => spec.write_error_at = Some(0),
                        "write-end" => {
                            spec.write_error_at = Some(text.len() - 1);
                            sent = 0..=text.len() - 1
                        }
                        _ => {
                            spec.flush_error = Some(e);
                            sent = 0..=text.len()
                        }
                    }
                    s.files.insert("in_f".into(), file);
                    s.outs.insert(name.clone(), spec);
                    s.step_limit = 40_000;
                    let text = text.clone();
                    let s = s.judge(move |o| {
                        failed_naming(o, who)?;
                        let d = o.out(&name);
                        if !sent.contains(&d.len()) || !text.starts_with(d) {
                            return Err(format!("{} is {}", name, show(d)));
                        }
                        if sn == "apart" && o.out("out_e") != b"bg1\nbg2\n" {
                            return Err(format!("the other pipeline: {}", show(o.out("out_e"))));
                        }
                        Ok(())
                    });
                    if q {
                        let l = ctx.free();
                        ctx.explore(&s, &l);
                    } else {
                        ctx.deep(&s, cap / 60);
                    }
                }
            }
        }
    }
    // more than any layer in between holds
    for at in [0usize, 1, 8191, 8192, 8193, 20_000, 29_999] {
        for dest in ["bad", "-", "_"] {
            let big: Vec<u8> = (0..3000).flat_map(|i| format!("line {:04}\n", i).into_bytes()).collect();
            let t = Topo::new(&format!("write-big-{}-{}", at, dest), &["f:f | d:d"]).input("f", &big).dest("d", dest);
            let name = t.dest_of("d");
            let mut s = t.scenario().model_only();
            s.outs.insert(name.clone(), OutSpec { write_error_at: Some(at), write_errno: 28, ..Default::default() });
            let mut s = s.judge(move |o| {
                failed_naming(o, "Drain:d")?;
                big.starts_with(o.out(&name)).then_some(()).ok_or("not the beginning of what was sent".into())
            });
            s.step_limit = 400_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
        }
    }
    // two failures are both told
    for (n, c, a, b) in [
        ("sources", vec!["f:f | d:d", "f:g | d:e"], "Faucet:f", "Faucet:g"),
        ("ends", vec!["f:f | d:bad"], "Faucet:f", "Drain:bad"),
        ("merge", vec!["f:f | j:j | d:d", "f:g | j:j"], "Faucet:f", "Faucet:g"),
        ("spawns", vec!["l:x | d:d", "l:y | d:e"], "Launch:x", "Launch:y"),
        ("spawn-dest", vec!["l:x | d:bad"], "Launch:x", "Drain:bad"),
    ] {
        let t = Topo::new(&format!("two-{}", n), &c).dest("bad", "nowhere");
        let mut s = t.scenario();
        s.files.insert("in_f".into(), FileSpec { open_error: Some(2), ..Default::default() });
        s.files.insert("in_g".into(), FileSpec { open_error: Some(2), ..Default::default() });
        s.outs.insert("nowhere".into(), OutSpec { create_error: Some(21), ..Default::default() });
        s.programs.clear();
        for p in ["x", "y"] {
            s.spawn_errors.insert(p.into(), 2);
        }
        let s = s.judge(move |o| {
            failed_naming(o, a)?;
            failed_naming(o, b)
        });
        ctx.deep(&s, cap / 6);
    }
    // any number of failures, in any order of time, is told
    for n in [1usize, 2, 5, 24, 60] {
        let mut c = vec![];
        for i in 0..n {
            c.push(format!("l:l{} | d:d{}", i, i));
        }
        let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        let mut t = Topo::new(&format!("many-{}", n), &c);
        for i in 0..n {
            t = t.dest(&format!("d{}", i), &format!("bad{}", i));
            if i % 3 != 0 {
                t = t.prog(&format!("l{}", i), vec![Op::Sleep(((i * 37) % 61) as u64 * 3), out("x\n")]);
            }
        }
        for seed in 1..=(if q { 16 } else { 200 }) {
            let mut s = t.scenario().seed(seed);
            s.name = format!("{}-seed{}", s.name, seed);
            for i in 0..n {
                s.outs.insert(format!("bad{}", i), OutSpec { create_error: Some(21), ..Default::default() });
                if i % 3 == 0 {
                    s.programs.remove(&format!("l{}", i));
                    s.spawn_errors.insert(format!("l{}", i), 2);
                }
            }
            let mut s = s.judge(move |o| {
                for i in 0..n {
                    failed_naming(o, &format!("Launch:l{}", i))?;
                }
                Ok(())
            });
            s.step_limit = 200_000;
            let l = ctx.free();
            ctx.explore(&s, &l);
            if seed < 4 {
                ctx.real(&s, None);
            }
        }
    }
    among_many(ctx, &["open", "create", "spawn"]);
    special_files(ctx);
}

/// The same with devices that fail by themselves, on the real program only.
fn special_files(ctx: &mut Ctx) {
    if ctx.collect.is_some() {
        return;
    }
    let Some(bin) = real::binary() else { return };
    for size in [0usize, 1, 3, 100, 9000, 100_000] {
        for (n, cfg, full_out, want) in [
            ("full-file", "faucet: {f: {source: in}}\ndrain: {d: {destination: /dev/full}}\nconnection: {c: \"f:f | d:d\"}", false, "Drain:d"),
            ("full-stdout", "faucet: {f: {source: in}}\ndrain: {d: {destination: \"-\"}}\nconnection: {c: \"f:f | d:d\"}", true, "Drain:d"),
            ("full-launch", "faucet: {f: {source: in}}\nlaunch: {a: {cmd: cat}}\ndrain: {d: {destination: /dev/full}}\nconnection: {c: \"f:f | l:a | d:d\"}", false, "Drain:d"),
            ("dir-source", "faucet: {f: {source: .}}\ndrain: {d: {destination: out}}\nconnection: {c: \"f:f | d:d\"}", false, "Faucet:f"),
        ] {
            let name = format!("real-{}-{}", n, size);
            if ctx.skip(&name) {
                continue;
            }
            let sc = real::Scratch::new();
            let data: Vec<u8> = (0..size).map(|i| if i % 50 == 49 { b'\n' } else { b'a' + (i % 26) as u8 }).collect();
            std::fs::write(sc.0.join("in"), &data).unwrap();
            std::fs::write(sc.0.join("c.yaml"), cfg).unwrap();
            let mut sh = std::process::Command::new("/bin/sh");
            let red = if full_out { ">/dev/full" } else { "" };
            sh.current_dir(&sc.0).arg("-c").arg(format!("{} process --config c.yaml {}", bin.display(), red));
            let r = real::run_cmd(&mut sh, None, 20_000);
            let err = String::from_utf8_lossy(&r.stderr).to_string();
            let nothing = size == 0 && n != "dir-source";
            let res = if r.timed_out {
                Err("did not end".into())
            } else if nothing {
                (r.code == Some(0)).then_some(()).ok_or(format!("nothing was written, but: {}", err))
            } else if r.code != Some(1) {
                Err(format!("exit {:?}: {}", r.code, err))
            } else if !err.lines().any(|l| mentions(l, want)) {
                Err(format!("no error names {}: {}", want, err))
            } else {
                Ok(())
            };
            ctx.case(&name, res);
            ctx.count("real_device_faults", 1);
        }
    }
    // the reader of the standard output goes away, the source never ends by itself
    for (n, cfg, who) in [
        ("launch", "launch: {y: {cmd: \"yes\"}}\ndrain: {d: {destination: \"-\"}}\nconnection: {c: \"l:y | d:d\"}", "Drain:d"),
        ("chain", "launch: {y: {cmd: \"yes\"}, z: {cmd: cat}}\ndrain: {d: {destination: \"-\"}}\nconnection: {c: \"l:y | j:j | b:b | l:z | d:d\"}", "Drain:d"),
        ("regulated", "launch: {y: {cmd: \"yes\"}, z: {cmd: cat}}\nregulator: {r: {buffered: [2, 9], monitored_buffers: [b]}}\ndrain: {d: {destination: \"-\"}}\nconnection: {c: \"l:y | r:r | b:b | l:z | d:d\"}", "Drain:d"),
        ("stderr-port", "launch: {y: {cmd: sh, arg: [\"-c\", \"yes >&2\"]}}\ndrain: {d: {destination: \"-\"}}\nconnection: {c: \"l:y[E] | d:d\"}", "Drain:d"),
    ] {
        for (take, red) in [("head -n 2", ""), ("true", ""), ("head -c 1", ""), ("cat", ">/dev/full"), ("head -c 2000", "")] {
            let name = format!("real-gone-{}-{}{}", n, take, red);
            if ctx.skip(&name) {
                continue;
            }
            let sc = real::Scratch::new();
            std::fs::write(sc.0.join("c.yaml"), cfg).unwrap();
            let mut sh = std::process::Command::new("/bin/sh");
            sh.current_dir(&sc.0)
                .arg("-c")
                .arg(format!("({} process --config c.yaml {}; echo rc=$? >&2) | {} >/dev/null", bin.display(), red, take));
            let r = real::run_cmd(&mut sh, None, 30_000);
            let err = String::from_utf8_lossy(&r.stderr).to_string();
            ctx.case(
                &name,
                if r.timed_out {
                    Err("did not end".into())
                } else if !err.contains("rc=1\n") {
                    Err(format!("it did not fail: {}", err))
                } else if !err.lines().any(|l| mentions(l, who)) {
                    Err(format!("no error names {}: {}", who, err))
                } else {
                    Ok(())
                },
            );
            ctx.count("real_device_faults", 1);
        }
    }
}

/// What only a real system has: `script` runs with the configuration in c.yaml and the program in $P, and
/// fails when it was not as it should be.
pub fn system_cases(ctx: &mut Ctx, cases: &[(&str, &str, &str)]) {
    if ctx.collect.is_some() {
        return;
    }
    let Some(bin) = real::binary() else { return };
    for (n, cfg, script) in cases {
        let name = format!("system-{}", n);
        if ctx.skip(&name) {
            continue;
        }
        let sc = real::Scratch::new();
        std::fs::write(sc.0.join("c.yaml"), cfg).unwrap();
        let mut sh = std::process::Command::new("/bin/bash");
        sh.current_dir(&sc.0).env("P", &bin).arg("-c").arg(format!("run() {{ \"$P\" process --config c.yaml; }}\n{}", script));
        let r = real::run_cmd(&mut sh, None, 30_000);
        let said = format!("{}{}", String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
        ctx.case(
            &name,
            if r.timed_out {
                Err("did not end".into())
            } else if r.code != Some(0) {
                Err(format!("exit {:?}: {}", r.code, show(said.as_bytes())))
            } else {
                Ok(())
            },
        );
        ctx.count("system_cases", 1);
    }
}

fn c17(ctx: &mut Ctx) {
    let to = |d: &str| format!("faucet: {{f: {{source: in}}}}\ndrain: {{d: {{destination: \"{}\"}}}}\nconnection: {{c: \"f:f | d:d\"}}\n", d);
    let (link, outf, devout, deverr, deep, none, quiet) =
        (to("link"), to("out"), to("/dev/stdout"), to("/dev/stderr"), to("sub/../sub/deeper/x"), to("/dev/null"), to("-"));
    let head = "set -e; printf 'a\\nb\\nc' > in; printf 'something that was there before' > old;";
    let s = |x: &str| format!("{}{}", head, x);
    let cases = [
        ("symlink", &link, s("ln -s old link; run; cmp in old; cmp in link; [ -L link ]")),
        ("symlink-to-nothing", &link, s("ln -s new link; run; cmp in new; [ -L link ]")),
        ("symlink-to-symlink", &link, s("ln -s old l2; ln -s l2 link; run; cmp in old; [ -L link -a -L l2 ]")),
        ("symlink-elsewhere", &link, s("mkdir e; cp old e/x; ln -s e/x link; run; cmp in e/x; [ -L link ]")),
        ("hard-link", &link, s("ln old link; run; cmp in old; cmp in link")),
        ("pipe", &link, s("mkfifo link; cat link > got & run; wait $!; cmp in got; [ -p link ]")),
        ("slow-pipe", &link, s("mkfifo link; (sleep 0.3; cat link > got) & run; wait $!; cmp in got")),
        ("mode", &outf, s("cp old out; chmod 751 out; run; cmp in out; [ $(stat -c %a out) = 751 ]")),
        ("open-elsewhere", &outf, s("cp old out; exec 5< out; run; cmp in out; cmp in <(cat <&5)")),
        ("dev-stdout", &devout, s("run > got; cmp in got")),
        ("dev-stdout-pipe", &devout, s("run | cat > got; cmp in got")),
        ("dev-stderr", &deverr, s("run 2> got; cmp in got")),
        ("dev-null", &none, s("run; [ -c /dev/null ]; cmp <(cat /dev/null) <(:)")),
        ("path", &deep, s("mkdir -p sub/deeper; run; cmp in sub/deeper/x")),
        ("twice", &outf, s("run; cmp in out; printf q > in; run; cmp in out; : > in; run; cmp in out")),
        ("stdout-appended", &quiet, s("cp old got; run >> got; cat old in > want; cmp want got")),
        ("stdout-in-the-middle", &quiet, s("(echo before; run; echo after) > got; (echo before; cat in; echo after) > want; cmp want got")),
        ("stdout-pipe", &quiet, s("run | cat > got; cmp in got")),
        ("stdout-many", &quiet, s("seq 1 50000 > in; run | cat > got; cmp in got; run > got; cmp in got")),
        ("stdout-slow", &quiet, s("seq 1 30000 > in; run | (sleep 0.5; cat) > got; cmp in got")),
    ];
    let cases: Vec<(&str, &str, &str)> = cases.iter().map(|(a, b, c)| (*a, b.as_str(), c.as_str())).collect();
    system_cases(ctx, &cases);

    let q = ctx.quick();
    let cap = cap(ctx);
    let all: Vec<u8> = (0..=255u8).collect();
    let contents: Vec<(&str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("one", b"x".to_vec()),
        ("line", b"x\n".to_vec()),
        ("blank", b"\n\n\n".to_vec()),
        ("tail", b"a\nb\nc".to_vec()),
        ("crlf", b"a\r\nb\r\n".to_vec()),
        ("binary", all.clone()),
        ("long", vec![b'q'; 9000]),
        ("lines", (0..1500).flat_map(|i| format!("{}\n", i).into_bytes()).collect()),
        ("exact8k", vec![b'z'; 8192]),
    ];
    for (cn, content) in &contents {
        for (dn, dest) in [("file", "new"), ("old", "old"), ("stdout", "-"), ("stderr", "_"), ("null", "/dev/null")] {
            for (sn, c) in [
                ("f", vec!["f:f | d:d"]),
                ("l", vec!["f:f | l:a | d:d"]),
                ("b", vec!["f:f | b:b | d:d"]),
                ("j", vec!["f:f | j:j | d:d"]),
                ("F", vec!["f:f |F| d:d"]),
                ("C", vec!["f:f |C| d:d"]),
                ("err", vec!["f:f | l:x[E] | d:d"]),
            ] {
                for part in [None, Some(1), Some(5)] {
                    if part.is_some() && (content.len() > 300 || sn != "f" && q) {
                        continue;
                    }
                    let t = Topo::new(&format!("exact-{}-{}-{}-{:?}", cn, dn, sn, part), &c)
                        .input("f", content)
                        .prog("a", cat(""))
                        .prog("x", vec![Op::EachLine(vec![Op::ErrReg, Op::OutPfx("not connected ".into())])])
                        .dest("d", dest);
                    let name = t.dest_of("d");
                    let mut s = t.scenario();
                    let initial = if dn == "old" { b"something which was there before, and is long enough\n".to_vec() } else { vec![] };
                    s.outs.insert(name.clone(), OutSpec { initial, max_write: part, ..Default::default() });
                    let content = content.clone();
                    let big = content.len() > 300;
                    let name2 = name.clone();
                    let mut s = s.judge(move |o| {
                        ended_ok(o)?;
                        if name2 != "/dev/null" && o.out(&name2) != &content[..] {
                            return Err(format!("{} holds {} instead of {}", name2, show(o.out(&name2)), show(&content)));
                        }
                        if let Some((n, v)) = o.unflushed.iter().find(|(_, v)| !v.is_empty()) {
                            return Err(format!("{} bytes for {} were never written out", v.len(), n));
                        }
                        for other in o.outs.keys().filter(|k| **k != name2) {
                            if other != "in" && !o.out(other).is_empty() {
                                return Err(format!("{} holds {}", other, show(o.out(other))));
                            }
                        }
                        Ok(())
                    });
                    s.step_limit = 400_000;
                    s.real = part.is_none() && (!q || sn == "f" || sn == "err");
                    if big {
                        let l = ctx.free();
                        ctx.both(&s, &l);
                    } else {
                        ctx.deep(&s, cap / 60);
                    }
                }
            }
        }
    }
    // names which only look like something else
    for (i, name) in [
        "-x", "--", "-.txt", "_x", "__", "-_", "_-", " -", "- ", " ", "new file", "\u{e9}\u{4e2d}", "~", "~x", "$HOME", "*", "a?b", "[1]", "%s", "stdout",
        "stderr", "null", "/dev/./null", "./-", "./_", "sub/x", "sub/-", "sub/../y", "a=b", "a:b", "#", "0", "1", "true", "{}", "a,b", "a|b", "\"q\"", "'", "\\",
    ]
    .iter()
    .enumerate()
    {
        for (en, c) in [("d", "f:f | d:d"), ("l", "f:f | l:a | d:d")] {
            let t = Topo::new(&format!("named-{}-{}", i, en), &[c]).input("f", b"one\ntwo\n").prog("a", cat("")).dest("d", name);
            let name = name.to_string();
            let mut s = t.scenario().judge(move |o| {
                ended_ok(o)?;
                if name != "/dev/./null" && o.out(&name) != b"one\ntwo\n" {
                    return Err(format!("{:?} holds {}", name, show(o.out(&name))));
                }
                match o.outs.iter().find(|(n, v)| **n != name && !v.is_empty()) {
                    Some((n, v)) => Err(format!("{} holds {}", n, show(v))),
                    None => Ok(()),
                }
            });
            s.real = !["/dev/./null", "./-", "./_", "sub/x", "sub/-", "sub/../y"].contains(&t.dest_of("d").as_str());
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
    // every kind of drain at once, several to the same stream, empty ones too
    for lines in [0usize, 1, 2, 13] {
        let t = Topo::new(
            &format!("all-{}", lines),
            &["f:f | d:o", "f:f | d:e", "f:f | d:n", "f:f | d:x", "f:g | d:o2", "f:g | d:e2"],
        )
        .lines(lines)
        .dest("o", "-")
        .dest("o2", "-")
        .dest("e", "_")
        .dest("e2", "_")
        .dest("n", "/dev/null")
        .dest("x", "file");
        let f: Vec<Vec<u8>> = (1..=lines).map(|i| format!("f{}\n", i).into_bytes()).collect();
        let g: Vec<Vec<u8>> = (1..=lines).map(|i| format!("g{}\n", i).into_bytes()).collect();
        let mut s = t.scenario().judge(move |o| {
            ended_ok(o)?;
            is_interleaving(o.out("<stdout>"), &[f.clone(), g.clone()]).map_err(|e| format!("stdout: {}", e))?;
            is_interleaving(o.out("<stderr>"), &[f.clone(), g.clone()]).map_err(|e| format!("stderr: {}", e))?;
            is_interleaving(o.out("file"), &[f.clone()]).map_err(|e| format!("file: {}", e))?;
            if let Some((n, v)) = o.unflushed.iter().find(|(_, v)| !v.is_empty()) {
                return Err(format!("{} bytes for {} were never written out", v.len(), n));
            }
            Ok(())
        });
        s.step_limit = 60_000;
        ctx.deep(&s, cap / 2);
    }
    // what is drained is there although something else failed
    for (n, c) in [
        ("dest", vec!["f:f | d:d", "f:g | d:bad"]),
        ("source", vec!["f:f | d:d", "f:miss | d:e"]),
        ("spawn", vec!["f:f | d:d", "l:x | d:e"]),
        ("same-drain", vec!["f:f | d:d", "f:miss | d:d"]),
    ] {
        for dest in ["file", "-", "_"] {
            let t = Topo::new(&format!("despite-{}-{}", n, dest), &c).lines(3).dest("d", dest).dest("bad", "nowhere");
            let name = t.dest_of("d");
            let mut s = t.scenario();
            s.outs.insert("nowhere".into(), OutSpec { create_error: Some(21), ..Default::default() });
            s.files.insert("in_miss".into(), FileSpec { open_error: Some(2), ..Default::default() });
            s.programs.clear();
            s.spawn_errors.insert("x".into(), 2);
            let s = s.judge(move |o| {
                terminated(o)?;
                (o.out(&name) == b"f1\nf2\nf3\n").then_some(()).ok_or(format!("{} holds {}", name, show(o.out(&name))))
            });
            ctx.deep(&s, cap / 10);
        }
    }
    // with every component present only what is drained is printed
    for lines in [0usize, 1, 9] {
        let t = Topo::new(
            &format!("quiet-{}", lines),
            &["f:f | j:j | b:b | r:r | b:c | l:a | d:d", "j:j | l:y", "l:y[E] | l:z | d:n", "l:q[X] | d:n"],
        )
        .lines(lines)
        .reg("r", 1, 3, &["c"])
        .dest("d", "-")
        .dest("n", "/dev/null")
        .prog("a", vec![err("noise\n"), Op::EachLine(vec![Op::ErrReg, Op::OutReg]), err("more\n")])
        .prog("y", vec![Op::EachLine(vec![Op::OutReg, Op::ErrReg])])
        .prog("z", cat("z"))
        .prog("q", vec![out("hush\n"), err("hush\n"), Op::Exit(3)]);
        let want: Vec<u8> = (1..=lines).flat_map(|i| format!("f{}\n", i).into_bytes()).collect();
        let mut s = t.scenario().judge(move |o| {
            ended_ok(o)?;
            if o.out("<stdout>") != &want[..] {
                return Err(format!("stdout is {} instead of {}", o.out_s("<stdout>"), show(&want)));
            }
            if !o.out("<stderr>").is_empty() {
                return Err(format!("stderr is {}", o.out_s("<stderr>")));
            }
            Ok(())
        });
        s.step_limit = 60_000;
        ctx.deep(&s, cap / 2);
    }
}

/// Many pipelines side by side, something the matter with some of them: all of those are named and
/// the others are delivered in full.
pub fn among_many(ctx: &mut Ctx, kinds: &[&str]) {
    let n = 45usize;
    for kind in kinds {
        for (bn, bad) in [
            ("first", vec![0usize]),
            ("middle", vec![22]),
            ("last", vec![44]),
            ("two", vec![7, 38]),
            ("odd", (0..n).filter(|i| i % 2 == 1).collect()),
            ("all", (0..n).collect()),
        ] {
            let mut c = vec![];
            for i in 0..n {
                let mid = ["l:a", "j:j", "b:b"][i % 3];
                c.push(match (*kind, bad.contains(&i)) {
                    ("spawn", true) => format!("l:x{} | {}{} | d:d{}", i, mid, i, i),
                    ("leaves-T", true) => format!("f:f{} | l:q{} | d:d{}", i, i, i),
                    ("leaves-F", true) => format!("f:f{} |F| l:q{} | d:d{}", i, i, i),
                    ("leaves-C", true) => format!("f:f{} |C| l:q{} | d:d{}", i, i, i),
                    _ => format!("f:f{} | {}{} | d:d{}", i, mid, i, i),
                });
            }
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let lines = 40;
            let mut t = Topo::new(&format!("among-many-{}-{}", kind, bn), &c).lines(lines);
            for i in 0..n {
                t = t.prog(&format!("q{}", i), vec![Op::ReadLine, Op::OutReg]);
            }
            let mut s = t.scenario().cap(9);
            for i in &bad {
                match *kind {
                    "open" => {
                        s.files.insert(format!("in_f{}", i), FileSpec { open_error: Some(2), ..Default::default() });
                    }
                    "create" => {
                        s.outs.insert(format!("out_d{}", i), OutSpec { create_error: Some(21), ..Default::default() });
                    }
                    "spawn" => {
                        s.programs.remove(&format!("x{}", i));
                        s.spawn_errors.insert(format!("x{}", i), 2);
                    }
                    _ => {}
                }
            }
            s.real = ["open", "create", "spawn"].contains(kind) && bn != "two";
            s.step_limit = 20_000_000;
            s.real_timeout_ms = 60_000;
            let kind = kind.to_string();
            let t2 = t.clone();
            let s = s.judge(move |o| {
                if kind == "leaves-F" || kind == "leaves-C" {
                    ended_ok(o)?;
                }
                for i in 0..n {
                    if !bad.contains(&i) {
                        let d = format!("d{}", i);
                        is_interleaving(o.out(&format!("out_{}", d)), &t2.streams(&d)).map_err(|e| format!("out_{}: {}", d, e))?;
                        continue;
                    }
                    match kind.as_str() {
                        "open" => failed_naming(o, &format!("Faucet:f{}", i))?,
                        "create" => failed_naming(o, &format!("Drain:d{}", i))?,
                        "spawn" => failed_naming(o, &format!("Launch:x{}", i))?,
                        "leaves-T" => {
                            failed_naming(o, &format!("Launch:q{}", i))?;
                            failed_naming(o, &format!("Faucet:f{}", i))?;
                        }
                        _ => (o.out_s(&format!("out_d{}", i)) == format!("f{}1\n", i))
                            .then_some(())
                            .ok_or(format!("out_d{} has {:?}", i, o.out_s(&format!("out_d{}", i))))?,
                    }
                }
                Ok(())
            });
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
}
