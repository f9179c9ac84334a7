//! C01-C04: what a pipeline delivers.
use super::Prop;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use async_std::mc::{Event, FileSpec, Observer, ReadMode};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", run: c01 },
        Prop { id: "C02", run: c02 },
        Prop { id: "C03", run: c03 },
        Prop { id: "C04", run: c04 },
    ]
}

pub fn cap(ctx: &Ctx) -> usize {
    if ctx.quick() {
        30_000
    } else {
        4_000_000
    }
}

/// Connection string of a chain; "rb" is a regulator followed by the buffer it watches.
pub fn chain(kinds: &[&str]) -> Topo {
    let mut s = vec!["f:f".to_string()];
    let mut regs = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let n = ["a", "b", "c", "e"][i];
        if *k == "rb" {
            s.push(format!("r:r{} | b:w{}", n, n));
            regs.push((format!("r{}", n), format!("w{}", n)));
        } else {
            s.push(format!("{}:{}", k, n));
        }
    }
    s.push("d:d".into());
    let conn = s.join(" | ");
    let mut t = Topo::new(&format!("chain-f-{}-d", kinds.join("-")).replace("f--d", "f-d"), &[&conn]);
    for (r, b) in regs {
        t = t.reg(&r, 1, 3, &[&b]);
    }
    t
}
pub fn chains(n: usize, kinds: &[&'static str]) -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![vec![]];
    let mut all = v.clone();
    for _ in 0..n {
        let mut w = vec![];
        for c in &v {
            for k in kinds {
                let mut d = c.clone();
                d.push(*k);
                w.push(d);
            }
        }
        all.extend(w.clone());
        v = w;
    }
    all
}
pub const KINDS: [&str; 4] = ["l", "j", "b", "rb"];

/// What something on the way may take for more than bytes: marks of encodings, terminal controls,
/// endings of lines elsewhere, compression, scripts, comments, escapes, what pa2 and shells treat specially.
const MAGIC: [&[u8]; 40] = [
    b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x00", b"\x00\x00\x00\x00", b"\x04", b"\x1a", b"\x03", b"\x1b[0m", b"\x7f",
    b"\x08", b"\x0b", b"\x0c", b"\r", b"\r\r", b"\t", b" ", b"\xc2\x85", b"\xe2\x80\xa8", b"\xc2\xa0",
    b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xef\xbf\xbd", b"\x1f\x8b\x08", b"BZh9", b"PK\x03\x04", b"\x7fELF", b"#!", b"#",
    b"//", b"\\", b"\\n", b"%s", b"$HOME", b"\"", b"'", b"-", b"_", b"EOF",
];

fn c01(ctx: &mut Ctx) {
    let cap = cap(ctx);
    // contents
    let contents: [(&str, &[u8]); 8] = [
        ("empty", b""),
        ("nl", b"\n"),
        ("nonl", b"ab"),
        ("two-nonl", b"ab\nc"),
        ("blank", b"\n\nx\n\n"),
        ("crlf", b"a\r\nb\r\n\r\n"),
        ("binary", b"\xff\xfe\x00\n\x80\n\x00"),
        ("three", b"1\n2\n3\n"),
    ];
    for k in ["", "l", "j", "b", "rb"] {
        let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
        for (n, c) in contents {
            let mut t = chain(&ks).input("f", c);
            t.name = format!("{}/{}", t.name, n);
            let s = t.scenario().judge(t.judge_delivery());
            ctx.deep(&s, cap);
        }
    }
    // more lines than any queue holds
    for k in ["", "l", "j", "b", "rb"] {
        let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
        for n in [9usize, 10, 21] {
            let mut t = chain(&ks).lines(n);
            t.name = format!("{}/lines{}", t.name, n);
            let s = t.scenario().judge(t.judge_delivery()).cap(6);
            ctx.deep(&s, cap / 3);
            let l = ctx.free();
            let mut f = s.clone();
            f.name = format!("{}/free", f.name);
            f.step_limit = 200_000;
            ctx.explore(&f, &l);
        }
    }
    // stdin, stdout, stderr
    for (src, dst) in [("-", "-"), ("-", "_"), ("in_f", "-"), ("-", "out_d"), ("-", "/dev/null")] {
        for k in ["", "l"] {
            let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
            let mut t = chain(&ks).source("f", src).dest("d", dst);
            t.name = format!("{}/{}to{}", t.name, src, dst);
            let s = t.scenario().judge(t.judge_delivery());
            ctx.deep(&s, cap);
        }
    }
    // what has a meaning elsewhere has none here
    for (i, m) in MAGIC.iter().enumerate() {
        for (k, src) in [("", "in_f"), ("", "-"), ("l", "in_f"), ("j", "in_f"), ("b", "in_f")] {
            let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
            // at the beginning, the end, of a line and (by the length of the lines) of what is read at once
            let mut body = [m, &b"hi"[..], m, b"\n", m, b"\n", m, b"x\n"].concat();
            for pad in [253 - body.len() % 255, 250, 254, 255 - m.len()] {
                body.extend(vec![b'.'; pad]);
                body.extend_from_slice(&[m, &b"y\n"[..]].concat());
            }
            body.extend_from_slice(m);
            let mut t = chain(&ks).input("f", &body).source("f", src);
            t.name = format!("{}/magic{}-{}", t.name, i, src);
            let mut s = t.scenario().judge(t.judge_delivery()).cap(4096).limit(1_000_000);
            s.read_mode = ReadMode::Greedy;
            s.stdin_mode = ReadMode::Greedy;
            s.real = k.is_empty() || !ctx.quick();
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
    // nobody loses patience
    for ks in chains(2, &KINDS) {
        for ms in [40u64, 3_000, 60_000, 400_000] {
            for (n, src, mid) in [
                ("says", vec![out("a\n"), Op::Sleep(ms), out("b\nc\n"), Op::Sleep(ms), Op::Repeat(12, vec![out("x\n")]), Op::Sleep(ms), out("d")], vec![]),
                ("begins", vec![Op::Sleep(ms), Op::Repeat(40, vec![out("x\n")])], vec![]),
                ("ends", vec![Op::Repeat(40, vec![out("x\n")]), Op::Sleep(ms)], vec![]),
                ("listens", vec![Op::Repeat(60, vec![out("x\n")]), out("d")], vec![Op::Sleep(ms)]),
                ("stops", vec![Op::Repeat(60, vec![out("x\n")]), out("d")], vec![Op::Repeat(3, vec![Op::ReadLine, Op::OutReg]), Op::Sleep(ms), Op::Repeat(30, vec![Op::ReadLine, Op::OutReg]), Op::Sleep(ms)]),
            ] {
                if !mid.is_empty() && ms > 60_000 {
                    continue;
                }
                let t = chain(&ks);
                let conn = t.conns[0].replacen("f:f", "l:p", 1).replace(" | d:d", " | l:z | d:d");
                let mut want = vec![];
                fn say(v: &[Op], w: &mut Vec<u8>) {
                    for o in v {
                        match o {
                            Op::Out(b) => w.extend_from_slice(b),
                            Op::Repeat(n, v) => (0..*n).for_each(|_| say(v, w)),
                            _ => {}
                        }
                    }
                }
                say(&src, &mut want);
                let mut z = mid.clone();
                z.push(Op::EachLine(vec![Op::OutReg]));
                let mut u = Topo::new(&format!("patience-{}-{}-{}", ks.join("-"), n, ms), &[&conn]).prog("p", src.clone()).prog("z", z);
                for (r, x) in [("ra", "wa"), ("rb", "wb")] {
                    if conn.contains(&format!("r:{} ", r)) {
                        u = u.reg(r, 1, 3, &[x]);
                    }
                }
                for l in ["a", "b"] {
                    if conn.contains(&format!("l:{} ", l)) {
                        u = u.prog(l, cat(""));
                    }
                }
                let mut s = u.scenario().cap(24).limit(5_000_000).model_only().judge(move |o| {
                    ended_ok(o)?;
                    (o.out("out_d") == &want[..]).then_some(()).ok_or(format!("out_d has {}", show(o.out("out_d"))))
                });
                s.real = false;
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
    }
    // what a source or an input can be on a real system
    let from = |x: &str| {
        format!("faucet: {{f: {{source: \"{}\"}}}}\nlaunch: {{a: {{cmd: cat}}}}\ndrain: {{d: {{destination: \"-\"}}}}\nconnection: {{c: \"f:f | l:a | d:d\"}}\n", x)
    };
    let (file, stdin, dev, fd, version, fsys, null, path) =
        (from("in"), from("-"), from("/dev/stdin"), from("/dev/fd/5"), from("/proc/version"), from("/proc/filesystems"), from("/dev/null"), from("sub/../sub/./x"));
    let head = "set -e; printf 'a\\nb\\nc' > it;";
    let sh = |x: &str| format!("{}{}", head, x);
    let cases = [
        ("pipe", &file, sh("mkfifo in; cat it > in & run > got; cmp it got")),
        ("slow-pipe", &file, sh("mkfifo in; (printf a; sleep 0.3; printf '\\nb'; sleep 0.3; printf '\\nc') > in & run > got; cmp it got")),
        ("big-pipe", &file, sh("mkfifo in; seq 1 30000 > it; cat it > in & run > got; cmp it got")),
        ("symlink", &file, sh("ln -s it in; run > got; cmp it got")),
        ("symlink-to-pipe", &file, sh("mkfifo p; ln -s p in; cat it > p & run > got; cmp it got")),
        ("hard-link", &file, sh("ln it in; run > got; cmp it got")),
        ("proc", &version, sh("run > got; cmp /proc/version got")),
        ("proc-more", &fsys, sh("run > got; cmp /proc/filesystems got")),
        ("null", &null, sh("run > got; [ ! -s got ]")),
        ("path", &path, sh("mkdir sub; cp it sub/x; run > got; cmp it got")),
        ("sparse", &file, sh("truncate -s 200000 in; echo >> in; run > got; cmp in got")),
        ("dev-stdin", &dev, sh("run < it > got; cmp it got")),
        ("dev-stdin-pipe", &dev, sh("cat it | run > got; cmp it got")),
        ("fd", &fd, sh("run 5< it > got; cmp it got")),
        ("stdin-file", &stdin, sh("run < it > got; cmp it got")),
        ("stdin-rest", &stdin, sh("(read -r x; run > got) < it; printf 'b\\nc' > want; cmp want got")),
        ("stdin-pipe", &stdin, sh("cat it | run > got; cmp it got")),
        ("stdin-null", &stdin, sh("run < /dev/null > got; [ ! -s got ]")),
        ("stdin-closed", &stdin, sh("run <&- > got; [ ! -s got ]")),
        ("stdin-slow", &stdin, sh("(printf a; sleep 0.3; printf '\\nb'; sleep 0.3; printf '\\nc') | run > got; cmp it got")),
        ("stdin-many", &stdin, sh("seq 1 40000 > it; run < it > got; cmp it got; cat it | run | cat > got; cmp it got")),
        ("three", &stdin, sh("seq 1 5000 > it; cat it | run | run | run > got; cmp it got")),
    ];
    let cases: Vec<(&str, &str, &str)> = cases.iter().map(|(a, b, c)| (*a, b.as_str(), c.as_str())).collect();
    super::fault::system_cases(ctx, &cases);
    // files whose names only look like something else
    for (i, name) in ["-x", "--", "_", "-_", " -", " ", "new file", "~", "$HOME", "*", "%s", "stdin", "null", "#", "0", "true", "{}", "a|b", "\"q\"", "'", "\\"].iter().enumerate() {
        let mut t = chain(&[]).input("f", b"one\ntwo").source("f", name);
        t.name = format!("{}/named{}", t.name, i);
        let s = t.scenario().judge(t.judge_delivery());
        let l = ctx.free();
        ctx.both(&s, &l);
    }
    // every byte alone, and every pair of bytes next to each other
    for b in 0..=255u8 {
        let mut t = chain(&[]).input("f", &[b]);
        t.name = format!("{}/byte{}", t.name, b);
        let s = t.scenario().judge(t.judge_delivery()).model_only();
        let l = ctx.free();
        ctx.explore(&s, &l);
    }
    for k in ["", "l", "j"] {
        let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
        let mut body = vec![];
        for i in 0..=255u8 {
            for j in i..=255 {
                body.extend_from_slice(&[i, j]);
            }
        }
        let mut t = chain(&ks).input("f", &body);
        t.name = format!("{}/pairs", t.name);
        let mut s = t.scenario().judge(t.judge_delivery()).cap(65536).limit(50_000_000);
        s.read_mode = ReadMode::Greedy;
        s.real_timeout_ms = 60_000;
        let l = ctx.free();
        ctx.both(&s, &l);
    }
    // pipes which take a part of a message only
    for ks in [&["l"][..], &["b", "l"], &["l", "l"]] {
        for c in [1usize, 3, 5] {
            let mut t = chain(ks).input("f", b"abcdefg\nh\nij");
            t.name = format!("{}/pipes-of-{}", t.name, c);
            let s = t.scenario().judge(t.judge_delivery()).cap(c).model_only();
            ctx.deep(&s, cap / 2);
        }
    }
    // lines longer than any pipe, read or write, and more lines than any counter of 8 or 16 bits
    for k in ["", "l", "j", "b", "rb"] {
        let ks: Vec<&str> = if k.is_empty() { vec![] } else { vec![k] };
        let big: Vec<u8> = (0..300_000usize).map(|i| b'a' + (i / 251 % 26) as u8).chain(*b"\nshort\n").collect();
        let bigs = [big.clone(), big[..140_000].to_vec()].concat();
        let many: Vec<u8> = (0..if k == "j" { 2_500 } else { 70_000 }).flat_map(|i| format!("{}\n", i).into_bytes()).collect();
        for (n, c) in [("long", bigs), ("many", many)] {
            let mut t = chain(&ks).input("f", &c);
            t.name = format!("{}/{}", t.name, n);
            let mut s = t.scenario().judge(t.judge_delivery()).cap(65536).limit(50_000_000);
            s.real_timeout_ms = 60_000;
            s.read_mode = ReadMode::Greedy;
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
    // a chain of more components than the futures library polls one by one
    for (n, per) in [("j", vec!["j"]), ("l", vec!["l"]), ("b", vec!["b"]), ("mixed", vec!["l", "b", "j", "r"])] {
        let mut c = String::from("f:f");
        for i in 0..42 {
            c.push_str(&format!(" | {}:c{}", per[i % per.len()], i));
        }
        c.push_str(" | d:d");
        let mut t = Topo::new(&format!("chain-of-44-{}", n), &[&c]).lines(60);
        for i in 0..42 {
            if per[i % per.len()] == "r" {
                t = t.reg(&format!("c{}", i), 2, 9, &["c1"]);
            }
        }
        let mut s = t.scenario().judge(t.judge_delivery()).limit(50_000_000);
        s.real_timeout_ms = 60_000;
        let l = ctx.free();
        ctx.both(&s, &l);
    }
    // longer chains
    let n = if ctx.quick() { 2 } else { 3 };
    for ks in chains(n, &KINDS) {
        if ks.len() < 2 {
            continue;
        }
        let mut t = chain(&ks).input("f", b"1\n2\n");
        t.name = format!("{}/2", t.name);
        let s = t.scenario().judge(t.judge_delivery()).cap(if ks.contains(&"l") { 6 } else { 4096 });
        ctx.deep(&s, if ctx.quick() { cap / 2 } else { 300_000 });
    }
}

/// All ways of cutting n bytes into consecutive non-empty pieces.
fn compositions(b: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let n = b.len();
    (0..1usize << n.saturating_sub(1))
        .map(|m| {
            let mut v = vec![];
            let mut cur = vec![];
            for (i, x) in b.iter().enumerate() {
                cur.push(*x);
                if i + 1 == n || m >> i & 1 == 1 {
                    v.push(std::mem::take(&mut cur));
                }
            }
            v
        })
        .collect()
}

/// All texts over the alphabet up to a length.
fn texts(alphabet: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for c in alphabet {
                let mut t = all[i].clone();
                t.push(*c);
                all.push(t);
            }
        }
        from = to;
    }
    all
}

/// What one component which reads from outside hands on, message by message, for each of the texts.
/// `launch`: the texts are what a program writes to its output (0) or error output (1), else files
/// which give at most so many bytes for each read.
fn cut_scenario(name: &str, cases: Vec<(Vec<u8>, Option<usize>)>, launch: Option<usize>) -> Scenario {
    use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
    use pipeawesome2::faucet::Faucet;
    use pipeawesome2::launch::Launch;
    use pipeawesome2::motion::Pull;
    use pipeawesome2::startable_control::StartableControl;
    use std::collections::HashMap;
    let mut s = Scenario::new(name, "");
    for (i, (text, max)) in cases.iter().enumerate() {
        match launch {
            None => {
                let f = FileSpec { content: text.clone(), max_read: *max, ..Default::default() };
                s.files.insert(format!("in_{}", i), f);
            }
            Some(err) => {
                let op = if err == 1 { Op::Err(text.clone()) } else { Op::Out(text.clone()) };
                s.programs.insert(format!("p_{}", i), vec![op]);
            }
        }
    }
    s.read_mode = ReadMode::Greedy;
    s.step_limit = 100_000_000;
    let n = cases.len();
    s.real = false;
    s.cap(300)
        .main(Arc::new(move |end, notes| {
            let cases = cases.clone();
            Box::pin(async move {
                let mut total = 0;
                for i in 0..n {
                    let mut faucet = Faucet::new(format!("in_{}", i));
                    let mut prog: Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String> =
                        Launch::new(1, None, None, format!("p_{}", i), None);
                    let out = match launch {
                        None => faucet.add_output(OutputPort::Out, Breakable::Terminate, 1, 2),
                        Some(0) => prog.add_output(OutputPort::Out, Breakable::Terminate, 1, 2),
                        Some(_) => prog.add_output(OutputPort::Err, Breakable::Terminate, 1, 2),
                    };
                    let Ok(Pull::Receiver(_, rx)) = out else { panic!("not a receiver") };
                    let cons = async_std::task::spawn_local(async move {
                        let mut v: Vec<Vec<u8>> = vec![];
                        while let Ok(m) = rx.recv().await {
                            v.push(m.0);
                        }
                        v
                    });
                    let r = match launch {
                        None => faucet.start(None).await,
                        Some(_) => prog.start(None).await,
                    };
                    drop((faucet, prog));
                    let v = cons.await;
                    if let Err(e) = r {
                        *end.borrow_mut() = Some(End::Errors(vec![e.to_string()]));
                        return;
                    }
                    total += v.len();
                    let (text, max) = &cases[i];
                    if v != frames(text) {
                        let got: Vec<String> = v.iter().map(|m| show(m)).collect();
                        notes.borrow_mut().push(format!("{} read {:?} at a time became the messages {:?}", show(text), max, got));
                    }
                }
                *end.borrow_mut() = Some(End::Ok(total));
            })
        }))
        .judge(|o| {
            ended_ok(o)?;
            match o.notes.first() {
                Some(n) => Err(n.clone()),
                None => Ok(()),
            }
        })
}

fn c02(ctx: &mut Ctx) {
    let cap = cap(ctx);
    let full = ctx.full();
    // Message by message: every short text and every size of read, and every ending of a text
    // around the size of one read.
    let free = ctx.free();
    let short = texts(b"x\r\n", if ctx.quick() { 8 } else { 10 });
    for n in 1..=7usize {
        let cases = short.iter().filter(|t| t.len() + 1 >= n).map(|t| (t.clone(), Some(n))).collect();
        ctx.explore(&cut_scenario(&format!("messages-file/{}", n), cases, None), &free);
    }
    let mut long: Vec<Vec<u8>> = vec![];
    for reads in [1usize, 2] {
        for tail in texts(b"x\r\n", if ctx.quick() { 5 } else { 7 }) {
            for before in 0..=tail.len() {
                // `before` bytes of the tail belong to the first read(s)
                let mut t = vec![b'y'; reads * 255 - before];
                t.extend_from_slice(&tail);
                long.push(t);
            }
        }
    }
    // lines which fill reads exactly
    for len in [1usize, 3, 5, 15, 17, 51, 85, 127, 128, 254, 255, 256, 509, 510, 511] {
        for end in [&b"\n"[..], b"\r\n"] {
            if len < end.len() {
                continue;
            }
            let line = [vec![b'z'; len - end.len()], end.to_vec()].concat();
            for n in [255 / len.min(255), 510 / len.min(510), 600 / len.min(600) + 1, 1600 / len] {
                long.push(line.repeat(n));
                long.push([line.repeat(n), b"rest".to_vec()].concat());
            }
        }
    }
    for (i, c) in long.chunks(400).enumerate() {
        let cases: Vec<(Vec<u8>, Option<usize>)> = c.iter().map(|t| (t.clone(), None)).collect();
        ctx.explore(&cut_scenario(&format!("messages-file/long/{}", i), cases.clone(), None), &free);
        for port in [0usize, 1] {
            ctx.explore(&cut_scenario(&format!("messages-launch/long/{}/{}", port, i), cases.clone(), Some(port)), &free);
        }
    }
    // lines far beyond any limit one might set
    for (i, n) in [1023usize, 4096, 8191, 32_768, 65_535, 65_536, 131_072, 300_000, 1_100_000].into_iter().enumerate() {
        let body = [vec![b'x'; n], b"\ny\n".to_vec(), vec![b'z'; n + 1], b"\r\n".to_vec(), vec![b'w'; n]].concat();
        let cases = vec![(body.clone(), None)];
        ctx.explore(&cut_scenario(&format!("messages-file/giant/{}", i), cases.clone(), None), &free);
        for port in [0usize, 1] {
            ctx.explore(&cut_scenario(&format!("messages-launch/giant/{}/{}", port, i), cases.clone(), Some(port)), &free);
        }
        let t = Topo::new(&format!("giant/{}", i), &["f:f | j:j | d:d", "f:g | j:j"])
            .input("f", &body)
            .input("g", &[vec![b'v'; n], b"\n".to_vec()].concat());
        let mut s = t.scenario().judge(t.judge_delivery()).cap(65536).limit(50_000_000);
        s.read_mode = ReadMode::Greedy;
        s.real_timeout_ms = 60_000;
        ctx.both(&s, &free);
    }
    // Every segmentation of what arrives on stdin, each piece read on its own.
    let mut bodies: Vec<&[u8]> = vec![b"ab\ncd\r\n", b"\n\r\n\n\ra", b"a\r\n\r\rb\n"];
    if !ctx.quick() {
        bodies.push(b"ab\r\n\r\ncd\n\r\nx");
    }
    for (bi, body) in bodies.iter().enumerate() {
        for (ci, c) in compositions(body).into_iter().enumerate() {
            let ops: Vec<Op> = c.iter().flat_map(|p| vec![Op::Out(p.clone()), Op::Quiesce]).collect();
            let t = Topo::new(&format!("cut-stdin/{}/{}", bi, ci), &["f:f | j:j | d:d"])
                .source("f", "-")
                .input("f", body);
            let mut s = t.scenario().judge(t.judge_delivery()).feed(ops);
            s.stdin_mode = ReadMode::Greedy;
            s.real = ci % 16 == 1 || ci == 0;
            let mut s = s.observe(move || Box::new(Framing::default()));
            s.chan_events = false;
            ctx.both(&s, &full);
        }
        // the same bytes from a program, each piece its own write, with a second stream merged in
        for (ci, c) in compositions(body).into_iter().enumerate() {
            if ctx.quick() && ci % 4 != 1 {
                continue;
            }
            let ops: Vec<Op> = c.iter().map(|p| Op::Out(p.clone())).collect();
            let mut t = Topo::new(&format!("cut-child/{}/{}", bi, ci), &["l:p | j:j | d:d", "f:g | j:j"])
                .prog("p", ops)
                .input("g", b"G\r\nH\n");
            t.lines = 1;
            let streams = vec![frames(body), vec![b"G\r\n".to_vec(), b"H\n".to_vec()]];
            let mut s = t.scenario().judge(move |o| {
                ended_ok(o)?;
                is_interleaving(o.out("out_d"), &streams)
            });
            s.read_mode = ReadMode::Greedy;
            s.real = ci % 8 == 1;
            ctx.deep(&s, if ctx.quick() { 3000 } else { 100_000 });
        }
    }
    // Files: every read size from 1 to 9 bytes.
    for (bi, body) in bodies.iter().enumerate() {
        for n in 1..=9usize {
            let t = Topo::new(&format!("cut-file/{}/{}", bi, n), &["f:f | l:a | d:d"]).input("f", body);
            let want: Vec<u8> = child_lines(body).iter().flat_map(|l| [b"a".to_vec(), l.clone()].concat()).collect();
            let mut s = t.scenario().judge(move |o| {
                ended_ok(o)?;
                is_interleaving(o.out("out_d"), &[vec![want.clone()]])
            });
            s.files.insert("in_f".into(), FileSpec { content: body.to_vec(), max_read: Some(n), ..Default::default() });
            ctx.both(&s, &full);
        }
    }
    // Around the size of one read: lines of 250..260 and 505..515 bytes ended by \n, \r\n or nothing.
    let sizes: Vec<usize> =
        if ctx.quick() { (252..=258).chain(508..=512).collect() } else { (240..=270).chain(500..=520).chain(763..=770).collect() };
    for (en, end) in [("n", "\n"), ("rn", "\r\n"), ("none", "")] {
        for n in sizes.iter() {
            let mut a = vec![b'a'; *n];
            a.extend_from_slice(end.as_bytes());
            if !end.is_empty() {
                a.extend_from_slice(b"tail\n\n");
            }
            let b: Vec<u8> = [vec![b'b'; 300], b"\n".to_vec()].concat();
            // two writers of long lines into one output: lines must stay whole
            let t = Topo::new(&format!("long/{}/{}", en, n), &["f:f | j:j | d:d", "f:g | j:j"])
                .input("f", &a)
                .input("g", &b);
            let s = t.scenario().judge(t.judge_delivery());
            ctx.both(&s, &full);
            for mode in [ReadMode::Greedy, ReadMode::Max(254), ReadMode::Max(7)] {
                let t = Topo::new(&format!("long-stdin/{}/{}/{:?}", en, n, mode), &["f:f | d:d"])
                    .source("f", "-")
                    .input("f", &a);
                let mut s = t.scenario().judge(t.judge_delivery());
                s.stdin_mode = mode;
                s.real = mode == ReadMode::Greedy;
                ctx.both(&s, &full);
            }
        }
    }
    // Merging keeps every line whole, whatever the interleaving and however it was written.
    for (n, pa, pb) in [
        ("halves", vec![out("ab"), out("cd\n"), out("e"), out("f\n")], vec![out("1"), out("2"), out("3\n4\n")]),
        ("nofinal", vec![out("ab\nc")], vec![out("1\n"), out("2")]),
        ("crlf", vec![out("ab\r"), out("\ncd\r"), out("\n")], vec![out("1\r\n"), out("\r\n")]),
        ("blank", vec![out("\n"), out("\n\n")], vec![out("\r\n"), out("x\n")]),
    ] {
        let all = |v: &Vec<Op>| -> Vec<u8> {
            v.iter().flat_map(|o| if let Op::Out(b) = o { b.clone() } else { vec![] }).collect()
        };
        let streams = vec![frames(&all(&pa)), frames(&all(&pb))];
        for (k, conns) in [
            ("junction", vec!["l:p | j:j | d:d", "l:q | j:j"]),
            ("implicit", vec!["l:p | d:d", "l:q | d:d"]),
            ("buffer", vec!["l:p | b:b | d:d", "l:q | b:b"]),
            ("through", vec!["l:p | l:t | d:d", "l:q | l:t"]),
        ] {
            let t = Topo::new(&format!("merge-{}/{}", n, k), &conns)
                .prog("p", pa.clone())
                .prog("q", pb.clone())
                .prog("t", vec![Op::Repeat(40, vec![Op::ReadN(1), Op::OutReg])]);
            let st = streams.clone();
            let mut s = t.scenario().judge(move |o| {
                ended_ok(o)?;
                is_interleaving(o.out("out_d"), &st)
            });
            s.read_mode = ReadMode::Greedy;
            s.child_read_mode = ReadMode::Greedy;
            ctx.deep(&s, if k == "through" { cap / 6 } else { cap });
        }
    }
}

/// No byte reaches an output before its line is complete (or its source ended).
#[derive(Default)]
struct Framing {
    taken: Vec<u8>,
    closed: bool,
    shown: usize,
}
impl Observer for Framing {
    fn minds(&self, e: &Event) -> bool {
        matches!((e.who.as_str(), e.what), ("stdin", "env-write" | "env-close-write") | ("out_d", "visible"))
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        match (e.who.as_str(), e.what) {
            ("stdin", "env-write") => self.taken.extend_from_slice(&e.data),
            ("stdin", "env-close-write") => self.closed = true,
            ("out_d", "visible") => {
                self.shown += e.data.len();
                let complete = self.taken.iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
                if !self.closed && self.shown > complete {
                    return Err(format!(
                        "part of an unfinished line was delivered: {:?} of {:?}",
                        self.shown,
                        show(&self.taken)
                    ));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        async_std::mc::hash_bytes(self.closed as u64, &self.taken)
    }
}
/// Messages: up to and including "\r\n" or "\n"; a last piece without one is a message too.
fn frames(b: &[u8]) -> Vec<Vec<u8>> {
    split_lines(b)
}
/// How the scripted child cuts its input.
fn child_lines(b: &[u8]) -> Vec<Vec<u8>> {
    split_lines(b)
}

fn c03(ctx: &mut Ctx) {
    let cap = cap(ctx);
    let tops: Vec<(&str, Vec<&str>, usize)> = vec![
        ("j2", vec!["f:f | j:j | d:d", "j:j | d:e"], 3),
        ("j3", vec!["f:f | j:j | d:d", "j:j | d:e", "j:j | d:g"], 2),
        ("faucet2", vec!["f:f | d:d", "f:f | d:e"], 3),
        ("launch2", vec!["f:f | l:a | d:d", "l:a | d:e"], 2),
        ("buffer2", vec!["f:f | b:b | d:d", "b:b | d:e"], 2),
        ("tree", vec!["f:f | j:j | j:k | d:d", "j:k | d:e", "j:j | d:g"], 2),
        ("j-l-d", vec!["f:f | j:j | l:a | d:d", "j:j | l:b | d:e"], 2),
        ("j-l-and-d", vec!["f:f | j:j | l:a | d:d", "j:j | d:e"], 2),
        ("j-b-d", vec!["f:f | j:j | b:a | d:d", "j:j | d:e"], 2),
        ("twice", vec!["f:f | j:j | d:d", "j:j | d:d"], 2),
        ("diamond", vec!["f:f | j:j | l:a | j:k | d:d", "j:j | l:b | j:k"], 1),
        ("closures", vec!["f:f | j:j |F| d:d", "j:j |C| d:e", "j:j |T| d:g"], 2),
        ("closures-l", vec!["f:f | j:j |F| l:a | d:d", "j:j |C| l:b | d:e"], 1),
        ("reg2", vec!["f:f | r:r | b:b | d:d", "r:r | d:e"], 1),
    ];
    for (n, c, lines) in tops {
        let mut t = Topo::new(&format!("fan-{}", n), &c).lines(lines);
        if n == "reg2" {
            t = t.reg("r", 1, 3, &["b"]);
        }
        let s = t.scenario().judge(t.judge_delivery());
        ctx.deep(&s, cap);
        // many lines, small pipes: the slowest output never makes another one lose anything
        let mut t2 = t.clone();
        t2.lines = 20;
        t2.name = format!("{}/20", t.name);
        let mut s = t2.scenario().judge(t2.judge_delivery()).cap(8);
        s.step_limit = 40_000;
        ctx.deep(&s, cap / 6);
        s.step_limit = 400_000;
        s.name = format!("{}/free", s.name);
        let l = ctx.free();
        ctx.explore(&s, &l);
    }
    // one slow output: the child starts reading late, both get everything
    for ms in [0u64, 50, 700, 5000] {
        let t = Topo::new(&format!("fan-slow/{}", ms), &["f:f | j:j | l:slow | d:d", "j:j | l:fast | d:e"])
            .lines(24)
            .prog("slow", vec![Op::Sleep(ms), Op::EachLine(vec![Op::OutPfx("slow".into())])]);
        let mut s = t.scenario().judge(t.judge_delivery()).cap(8);
        s.step_limit = 400_000;
        s.real = ms < 1000;
        let l = ctx.free();
        ctx.both(&s, &l);
    }
    // many outputs, many messages (more components than the futures library polls one by one)
    for (k, lines) in [(12usize, 400usize), (45, 40), (3, 70_000)] {
        for (n, hub) in [("j", "f:f | j:j"), ("faucet", "f:f"), ("launch", "f:f | l:a"), ("buffer", "f:f | b:b")] {
            let (from, lines) = (hub.rsplit(" | ").next().unwrap(), if lines > 1000 && n != "faucet" { 3000 } else { lines });
            let mut c = vec![format!("{} | d:d0", hub)];
            for i in 1..k {
                c.push(format!("{} | {}d:d{}", from, if i % 5 == 4 { format!("l:p{} | ", i) } else { String::new() }, i));
            }
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let t = Topo::new(&format!("fan-wide-{}/{}x{}", n, k, lines), &c).lines(lines);
            let mut s = t.scenario().judge(t.judge_delivery()).limit(50_000_000);
            s.real_timeout_ms = 60_000;
            s.real = k != 3 || n == "faucet";
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
    // all three outputs with any number of receivers, named in any order, of one program or two
    for no in 0..4usize {
        for ne in 0..4usize {
            for nx in 0..3usize {
                for (order, ports) in [("oex", "OEX"), ("xeo", "XEO"), ("exo", "EXO")] {
                    if no + ne + nx < 2 {
                        continue;
                    }
                    let mut c = vec![];
                    for round in 0..3 {
                        for p in ports.chars() {
                            let n = match p {
                                'O' => no,
                                'E' => ne,
                                _ => nx,
                            };
                            if round < n {
                                c.push(format!("l:a[{}] | d:{}{}", p, p.to_ascii_lowercase(), round));
                                if no + ne + nx < 5 {
                                    c.push(format!("l:b[{}] | d:b{}{}", p, p.to_ascii_lowercase(), round));
                                }
                            }
                        }
                    }
                    let names: Vec<String> = c.iter().map(|c| c.rsplit(':').next().unwrap().to_string()).collect();
                    let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                    let p = |w: &str| vec![out(&format!("{}o1\n", w)), err(&format!("{}e1\n", w)), out(&format!("{}o2\n", w)), err(&format!("{}e2\n", w))];
                    let t = Topo::new(&format!("fan-ports-{}-{}-{}-{}", no, ne, nx, order), &c).prog("a", p("")).prog("b", p("b"));
                    let mut s = t.scenario().limit(100_000).judge(move |o| {
                        ended_ok(o)?;
                        for n in &names {
                            let (w, port) = match n.strip_prefix('b') {
                                Some(r) => ("b", r),
                                None => ("", n.as_str()),
                            };
                            let want = match &port[..1] {
                                "x" => "0".to_string(),
                                k => format!("{}{}1\n{}{}2\n", w, k, w, k),
                            };
                            let f = format!("out_{}", n);
                            if o.out_s(&f) != want {
                                return Err(format!("{} has {:?}, not {:?}", f, o.out_s(&f), want));
                            }
                        }
                        Ok(())
                    });
                    s.real = order == "oex";
                    if no + ne + nx == 2 {
                        ctx.deep(&s, cap / 20);
                    } else {
                        let l = ctx.free();
                        ctx.both(&s, &l);
                    }
                }
            }
        }
    }
    // [O] and [E] of one program are separate streams
    let t = Topo::new("fan-ports", &["l:a[O] | d:d", "l:a[E] | d:e", "l:a | d:g"]).prog(
        "a",
        vec![out("o1\n"), err("e1\n"), out("o2\n"), err("e2\n")],
    );
    let s = t.scenario().judge(|o| {
        ended_ok(o)?;
        for (f, w) in [("out_d", "o1\no2\n"), ("out_e", "e1\ne2\n"), ("out_g", "o1\no2\n")] {
            if o.out_s(f) != w {
                return Err(format!("{} has {:?}, not {:?}", f, o.out_s(f), w));
            }
        }
        Ok(())
    });
    ctx.deep(&s, cap);
}

/// Queue discipline of one junction, seen at its input channels: while a message waits at one input
/// at most one message is taken from each other input of the same or a worse (higher) priority.
struct Discipline {
    prio: Vec<isize>,
    chans: Arc<std::sync::Mutex<Vec<usize>>>,
    /// per input: waiting messages; taken from each other input since the first of them waits
    waiting: Vec<usize>,
    overtakes: Vec<Vec<usize>>,
    /// was served last when more already waited, so is known to have something
    has_more: Vec<bool>,
}
impl Observer for Discipline {
    fn minds(&self, e: &Event) -> bool {
        e.what == "chan-send" || e.what == "chan-recv"
    }
    fn event(&mut self, e: &Event) -> Result<(), String> {
        if e.what != "chan-send" && e.what != "chan-recv" {
            return Ok(());
        }
        let id: usize = e.who.parse().unwrap();
        let Some(i) = self.chans.lock().unwrap().iter().position(|c| *c == id) else { return Ok(()) };
        let n = self.prio.len();
        if e.what == "chan-send" {
            self.waiting[i] += 1;
            if self.waiting[i] == 1 {
                self.overtakes[i] = vec![0; n];
            }
            return Ok(());
        }
        self.waiting[i] -= 1;
        self.overtakes[i] = vec![0; n];
        self.has_more[i] = self.waiting[i] > 0;
        if let Some(k) = (0..n).find(|k| self.has_more[*k] && self.prio[i] > self.prio[*k]) {
            return Err(format!(
                "a message was taken from input {} (priority {}) although input {} (priority {}), served just before, had more waiting all the time",
                i, self.prio[i], k, self.prio[k]
            ));
        }
        for k in 0..n {
            if k != i && self.waiting[k] > 0 && self.prio[i] >= self.prio[k] {
                self.overtakes[k][i] += 1;
                if self.overtakes[k][i] > 1 {
                    return Err(format!(
                        "{} messages were taken from input {} (priority {}) while one waited at input {} (priority {})",
                        self.overtakes[k][i], i, self.prio[i], k, self.prio[k]
                    ));
                }
            }
        }
        Ok(())
    }
    fn state(&self) -> u64 {
        let mut h = 3;
        for (i, w) in self.waiting.iter().enumerate() {
            h = async_std::mc::mix(h, *w as u64);
            if *w > 0 {
                for o in &self.overtakes[i] {
                    h = async_std::mc::mix(h, *o as u64);
                }
                h = async_std::mc::mix(h, self.has_more[i] as u64);
            }
        }
        h
    }
}

fn junction_scenario(name: &str, prio: Vec<isize>, msgs: Vec<usize>, out_cap: usize) -> Scenario {
    use async_std::channel::bounded;
    use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
    use pipeawesome2::junction::Junction;
    use pipeawesome2::motion::{IOData, Pull, PullJourney};
    use pipeawesome2::startable_control::StartableControl;
    thread_local! {
        static CH: std::cell::RefCell<Option<Arc<std::sync::Mutex<Vec<usize>>>>> = const { std::cell::RefCell::new(None) };
    }
    let (p2, m2) = (prio.clone(), msgs.clone());
    let want: Vec<Vec<Vec<u8>>> = msgs
        .iter()
        .enumerate()
        .map(|(i, n)| (0..*n).map(|k| format!("{}.{}\n", i, k).into_bytes()).collect())
        .collect();
    let mut s = Scenario::new(name, "");
    s.chan_events = true;
    let s = s
        .observe(move || {
            let chans = Arc::new(std::sync::Mutex::new(vec![]));
            CH.with(|c| *c.borrow_mut() = Some(chans.clone()));
            Box::new(Discipline {
                prio: p2.clone(),
                chans,
                waiting: vec![0; p2.len()],
                overtakes: vec![vec![0; p2.len()]; p2.len()],
                has_more: vec![false; p2.len()],
            })
        })
        .main(Arc::new(move |end, notes| {
            let (prio, msgs) = (prio.clone(), m2.clone());
            Box::pin(async move {
                let mut j = Junction::new();
                j.set_stdout_size(out_cap);
                let mut prods = vec![];
                for (i, p) in prio.iter().enumerate() {
                    let (tx, rx) = bounded(8);
                    CH.with(|c| c.borrow().as_ref().unwrap().lock().unwrap().push(rx.mc_id()));
                    j.add_input(Pull::Receiver(PullJourney { src: i, dst: 9 }, rx), *p).unwrap();
                    let n = msgs[i];
                    prods.push(async_std::task::spawn_local(async move {
                        for k in 0..n {
                            let _ = tx.send(IOData(format!("{}.{}\n", i, k).into_bytes())).await;
                        }
                        drop(tx);
                    }));
                }
                let o = j.add_output(OutputPort::Out, Breakable::Terminate, 9, 10).unwrap();
                let Pull::Receiver(_, rx) = o else { panic!("not a receiver") };
                let cons = async_std::task::spawn_local(async move {
                    let mut v = vec![];
                    while let Ok(m) = rx.recv().await {
                        v.extend(m.0);
                    }
                    v
                });
                let r = j.start(None).await;
                for p in prods {
                    p.await;
                }
                let v = cons.await;
                notes.borrow_mut().push(String::from_utf8_lossy(&v).to_string());
                *end.borrow_mut() = Some(match r {
                    Ok(n) => End::Ok(n),
                    Err(e) => End::Errors(vec![e.to_string()]),
                });
            })
        }))
        .judge(move |o| {
            ended_ok(o)?;
            is_interleaving(o.notes[0].as_bytes(), &want)
        });
    s
}

fn c04(ctx: &mut Ctx) {
    let cap = cap(ctx);
    // the discipline, every schedule of producers and junction
    let prios: Vec<Vec<isize>> = {
        let mut v = vec![];
        for a in [-3isize, -1, 0, 2] {
            for b in [-3isize, -1, 0, 2] {
                v.push(vec![a, b]);
            }
        }
        for a in 0..3isize {
            for b in 0..3isize {
                for c in 0..3isize {
                    let mut u = vec![a, b, c];
                    u.sort();
                    u.dedup();
                    if u[0] == 0 && u.len() as isize == u[u.len() - 1] + 1 {
                        v.push(vec![a, b, c]);
                    }
                }
            }
        }
        v
    };
    for p in prios {
        let k = if p.len() == 2 { 3 } else { 2 };
        for oc in [1usize, 8] {
            let s = junction_scenario(&format!("junction-prio{:?}/out{}", p, oc), p.clone(), vec![k; p.len()], oc);
            ctx.deep(&s, if ctx.quick() { cap / 3 } else { cap });
        }
    }
    let s = junction_scenario("junction-prio[0,0,1,1]", vec![0, 0, 1, 1], vec![2, 1, 1, 2], 8);
    ctx.deep(&s, cap);
    let s = junction_scenario("junction-uneven[1,0]", vec![1, 0], vec![5, 2], 8);
    ctx.deep(&s, cap);
    let s = junction_scenario("junction-uneven[0,0]", vec![0, 0], vec![5, 2], 8);
    ctx.deep(&s, cap);
    // longer queues than any queue holds, more inputs, sizes beyond 8 bits
    let free = ctx.free();
    for (p, n) in [
        (vec![0isize, 0], vec![300usize, 300]),
        (vec![0, 1], vec![300, 1000]),
        (vec![1, 0], vec![300, 300]),
        (vec![5, -5], vec![20, 600]),
        (vec![0, 0, 0, 0, 0, 0], vec![50, 1, 0, 50, 300, 50]),
        (vec![3, 1, 2, 1, 3, 0, 0, 2], vec![40, 40, 0, 40, 3, 40, 300, 1]),
        (vec![0; 40], (0..40).collect()),
        ((0..40).map(|i| (i * 7 % 40) as isize - 20).collect(), vec![9; 40]),
        (vec![70_000, -70_000, 40_000, 255, 256, -1], vec![30; 6]),
    ] {
        for oc in [1usize, 8] {
            let mut s = junction_scenario(&format!("junction-long{}-{}{:?}/out{}", p.len(), n[0], &p[..2], oc), p.clone(), n.clone(), oc);
            s.step_limit = 10_000_000;
            ctx.explore(&s, &free);
        }
    }
    for (k, lines) in [(6usize, 300usize), (45, 9), (2, 3000)] {
        for (n, sink) in [("j", "j:j | d:d"), ("d", "d:d"), ("l", "l:a | d:d"), ("b", "b:b | d:d")] {
            let to = sink.split(" | ").next().unwrap();
            let mut c = vec![format!("f:f0 | {}", sink)];
            for i in 1..k {
                let p = if n == "j" && i % 3 == 1 { format!("[{}]", i as isize - 3) } else { String::new() };
                c.push(format!("f:f{} | {}{}{}", i, if i % 4 == 3 { format!("l:p{} | ", i) } else { String::new() }, p, to));
            }
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let t = Topo::new(&format!("merge-wide-{}/{}x{}", n, k, lines), &c).lines(lines);
            let mut s = t.scenario().judge(t.judge_delivery()).limit(50_000_000);
            s.real_timeout_ms = 60_000;
            s.real = k == 45 || n == "j";
            ctx.both(&s, &free);
        }
    }
    // whole pipelines: everything from every input, in its order
    let tops: Vec<(&str, Vec<&str>, usize)> = vec![
        ("j", vec!["f:f | j:j | d:d", "f:g | j:j"], 2),
        ("j3", vec!["f:f | j:j | d:d", "f:g | j:j", "f:h | j:j"], 1),
        ("prio", vec!["f:f | [2]j:j | d:d", "f:g | [-1]j:j"], 2),
        ("prio3", vec!["f:f | [2]j:j | d:d", "f:g | [1]j:j", "f:h | [1]j:j"], 1),
        ("prio-bad-last", vec!["f:f | [0]j:j | d:d", "f:g | [0]j:j", "f:h | [7]j:j"], 1),
        ("implicit-d", vec!["f:f | d:d", "f:g | d:d"], 2),
        ("implicit-l", vec!["f:f | l:a | d:d", "f:g | l:a"], 2),
        ("implicit-b", vec!["f:f | b:a | d:d", "f:g | b:a"], 1),
        ("cascade", vec!["f:f | j:j | j:k | d:d", "f:g | j:j", "f:h | j:k"], 1),
        ("many-to-many", vec!["f:f | j:j | d:d", "f:g | j:j | d:e"], 1),
        ("launches", vec!["f:f | l:a | j:j | d:d", "f:g | l:b | j:j"], 1),
    ];
    for (n, c, lines) in tops {
        let t = Topo::new(&format!("merge-{}", n), &c).lines(lines);
        let s = t.scenario().judge(t.judge_delivery());
        ctx.deep(&s, cap);
        let mut t2 = t.clone();
        t2.lines = 14;
        t2.name = format!("{}/14", t.name);
        let mut s = t2.scenario().judge(t2.judge_delivery()).cap(8);
        s.step_limit = 40_000;
        ctx.deep(&s, cap / 6);
    }
    // one input ends early, one never has anything, one is slow
    for (n, f, g) in [("one-empty", "", "g1\ng2\n"), ("both-empty", "", ""), ("uneven", "f1\n", "g1\ng2\ng3\ng4\n")] {
        let t = Topo::new(&format!("merge-{}", n), &["f:f | j:j | d:d", "f:g | [3]j:j"])
            .input("f", f.as_bytes())
            .input("g", g.as_bytes());
        let s = t.scenario().judge(t.judge_delivery());
        ctx.deep(&s, cap);
    }
}
