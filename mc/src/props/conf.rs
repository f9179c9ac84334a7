//! C18, C19, C21-C24: what a configuration means, decided by enumerating configurations.
use super::flow::*;
use super::Prop;
use crate::explore::{on_thread, prepare_here};
use crate::harness::*;
use crate::real;
use crate::scn::*;
use crate::topo::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", run: c18 },
        Prop { id: "C19", run: c19 },
        Prop { id: "C21", run: c21 },
        Prop { id: "C22", run: c22 },
        Prop { id: "C23", run: c23 },
        Prop { id: "C24", run: c24 },
    ]
}

/// f on every item, on all cores; the results in order.
pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let n = AtomicUsize::new(0);
    let mut all: Vec<(usize, R)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut v = vec![];
                    loop {
                        let i = n.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            return v;
                        }
                        v.push((i, f(&items[i])));
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect()
}

/// Enumerated cases, decided in parallel.
fn cases<T: Sync>(ctx: &mut Ctx, items: &[T], name: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<(), String> + Sync) {
    if ctx.collect.is_some() {
        return;
    }
    let items: Vec<&T> = items.iter().filter(|t| !ctx.skip(&name(t))).collect();
    let rs = par(&items, |t| f(t));
    for (t, r) in items.iter().zip(rs) {
        ctx.case(&name(t), r);
    }
}

// ---------------------------------------------------------------- connections

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Comp {
    ty: String,
    name: String,
    /// pipe and priority, if there is an input
    input: Option<(String, i64)>,
    output: Option<String>,
}

const TYPES: [(&str, &str); 6] =
    [("f", "faucet"), ("d", "drain"), ("r", "regulator"), ("j", "junction"), ("b", "buffer"), ("l", "launch")];

/// The connection language, written down once more and independently.
fn recognise(s: &str) -> Option<Vec<Comp>> {
    if s.is_empty() {
        return Some(vec![]);
    }
    let b = s.as_bytes();
    let mut i = 0;
    let mut v: Vec<Comp> = vec![];
    let mut pipe: Option<String> = None;
    loop {
        let mut prio = 0;
        if b.get(i) == Some(&b'[') {
            pipe.as_ref()?;
            let e = i + 1 + s[i + 1..].find(']')?;
            let t = &s[i + 1..e];
            let digits = t.strip_prefix('-').unwrap_or(t);
            if !digits.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            prio = if digits.is_empty() { 0 } else { t.parse().ok()? };
            i = e + 1;
        }
        let colon = i + s[i..].find(':')?;
        let t = &s[i..colon];
        let ty = TYPES.iter().find(|x| x.0 == t || x.1 == t)?.1;
        i = colon + 1;
        let n0 = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        if i == n0 {
            return None;
        }
        let mut c = Comp {
            ty: ty.into(),
            name: s[n0..i].into(),
            input: pipe.take().map(|p| (p, prio)),
            output: None,
        };
        if i == b.len() {
            if c.input.is_none() {
                return None;
            }
            v.push(c);
            return Some(v);
        }
        let mut port = "out";
        if b[i] == b'[' {
            port = match b.get(i + 1)? {
                b'O' => "out",
                b'E' => "err",
                b'X' => "exit",
                _ => return None,
            };
            if b.get(i + 2) != Some(&b']') {
                return None;
            }
            i += 3;
        }
        while b.get(i) == Some(&b' ') {
            i += 1;
        }
        if b.get(i) != Some(&b'|') {
            return None;
        }
        i += 1;
        let mut p = "terminate";
        if b.get(i + 1) == Some(&b'|') {
            let q = match b[i] {
                b'T' => Some("terminate"),
                b'C' => Some("consume"),
                b'F' => Some("finish"),
                _ => None,
            };
            if let Some(q) = q {
                p = q;
                i += 2;
            }
        }
        while b.get(i) == Some(&b' ') {
            i += 1;
        }
        c.output = Some(port.into());
        v.push(c);
        pipe = Some(p.into());
    }
}

/// A list of connections as it is written in JSON.
fn from_json(v: &Value) -> Result<Vec<Comp>, String> {
    let mut r = vec![];
    for c in v.as_array().ok_or_else(|| format!("not a list: {}", v))? {
        let s = |k: &str| c[k].as_str().map(|s| s.to_string());
        r.push(Comp {
            ty: s("component_type").ok_or_else(|| format!("no component_type: {}", c))?,
            name: s("component_name").ok_or_else(|| format!("no component_name: {}", c))?,
            input: match c.get("priority").and_then(|p| p.as_i64()) {
                None => None,
                Some(p) => Some((s("breakable").unwrap_or("terminate".into()), p)),
            },
            output: s("output_port"),
        });
    }
    Ok(r)
}
fn to_json(v: &[Comp]) -> Value {
    Value::Array(
        v.iter()
            .map(|c| {
                let mut m = Map::new();
                m.insert("component_type".into(), json!(c.ty));
                m.insert("component_name".into(), json!(c.name));
                if let Some((p, n)) = &c.input {
                    m.insert("breakable".into(), json!(p));
                    m.insert("priority".into(), json!(n));
                }
                if let Some(o) = &c.output {
                    m.insert("output_port".into(), json!(o));
                }
                Value::Object(m)
            })
            .collect(),
    )
}
fn pairs(v: &[Comp]) -> Vec<(Comp, Comp)> {
    v.windows(2)
        .map(|w| (Comp { input: None, ..w[0].clone() }, Comp { output: None, ..w[1].clone() }))
        .collect()
}

/// What the program makes of a connection string.
fn parse(s: &str) -> Result<Option<Vec<Comp>>, String> {
    let r = std::panic::catch_unwind(|| pipeawesome2::config::load_connection_from_string(s));
    match r {
        Err(_) => Err("panicked".into()),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(v)) => from_json(&serde_json::to_value(&v).map_err(|e| e.to_string())?).map(Some),
    }
}
fn same_parse(s: &str) -> Result<(), String> {
    let want = recognise(s);
    let got = parse(s).map_err(|e| format!("{:?}: {}", s, e))?;
    if got != want {
        return Err(format!("{:?} is understood as {:?} instead of {:?}", s, got, want));
    }
    Ok(())
}

// ---------------------------------------------------------------- running pa2

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}
/// how often the real program was run by a case
pub static REAL_RUNS: AtomicUsize = AtomicUsize::new(0);
fn pa2_in(dir: &std::path::Path, args: &[&str], stdin: Option<&str>, ms: u64) -> Result<Ran, String> {
    let bin = real::binary().ok_or("the pa2 binary is missing")?;
    let mut last = String::new();
    for attempt in 1..=3 {
        let mut c = Command::new(&bin);
        c.current_dir(dir).args(args);
        let feed: Option<real::Feeder> = stdin.map(|s| {
            let s = s.to_string();
            Box::new(move |mut i: std::process::ChildStdin| {
                use std::io::Write;
                let _ = i.write_all(s.as_bytes());
            }) as real::Feeder
        });
        let r = real::run_cmd(&mut c, feed, ms * attempt);
        REAL_RUNS.fetch_add(1, Ordering::Relaxed);
        let err = String::from_utf8_lossy(&r.stderr).to_string();
        if r.timed_out {
            last = format!("{:?} does not end", args);
            continue;
        }
        if r.code == Some(101) || r.code.is_none() {
            return Err(format!("{:?} ended with {:?}: {}", args, r.code, err.trim()));
        }
        return Ok(Ran { code: r.code, out: String::from_utf8_lossy(&r.stdout).to_string(), err });
    }
    Err(last)
}
fn pa2(args: &[&str], stdin: Option<&str>) -> Result<Ran, String> {
    pa2_in(&std::env::temp_dir(), args, stdin, 10_000)
}
impl Ran {
    /// succeeded, quietly, with this JSON on stdout
    fn json(&self) -> Result<Value, String> {
        if self.code != Some(0) {
            return Err(format!("failed: {}", self.err.trim()));
        }
        if !self.err.is_empty() {
            return Err(format!("printed on stderr: {}", self.err.trim()));
        }
        serde_json::from_str(&self.out).map_err(|e| format!("stdout is not JSON ({}): {}", e, cut(&self.out)))
    }
    /// failed, with a message and nothing on stdout
    fn refused(&self) -> Result<(), String> {
        if self.code == Some(0) {
            return Err(format!("was accepted: {}", cut(&self.out)));
        }
        if !self.out.is_empty() {
            return Err(format!("failed, but printed {}", cut(&self.out)));
        }
        if self.err.trim().is_empty() {
            return Err("failed without a message".into());
        }
        Ok(())
    }
    /// (code, component) of the warnings
    fn warnings(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = self
            .err
            .lines()
            .filter_map(|l| {
                let r = l.split_once("PA: Error: ")?.1;
                let (code, r) = r.split_once(": ")?;
                let who = r.split(" - ").next()?;
                let who = if code == "0003" { who.split(':').next()?.to_string() } else { who.to_string() };
                Some((code.to_string(), who))
            })
            .collect();
        v.sort();
        v
    }
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

// ---------------------------------------------------------------- C18

/// Everything that is one edit away.
fn edits(s: &str, alphabet: &[&str]) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let st = |a: &[char]| a.iter().collect::<String>();
    let mut v = vec![];
    for i in 0..=c.len() {
        for a in alphabet {
            v.push(format!("{}{}{}", st(&c[..i]), a, st(&c[i..])));
            if i < c.len() {
                v.push(format!("{}{}{}", st(&c[..i]), a, st(&c[i + 1..])));
            }
        }
        if i < c.len() {
            v.push(format!("{}{}", st(&c[..i]), st(&c[i + 1..])));
            if i + 1 < c.len() {
                v.push(format!("{}{}{}{}", st(&c[..i]), c[i + 1], c[i], st(&c[i + 2..])));
            }
        }
    }
    v
}

fn c18(ctx: &mut Ctx) {
    let q = ctx.quick();
    if ctx.collect.is_some() {
        return;
    }
    // every sequence of tokens
    let tokens = [
        "f:a", "launch:b_1", "[O]", "[E]", "[3]", "[-2]", "[]", "[-]", "|", "|F|", "|C|", "|T|", " ", "x", ":", "d:X9", "[",
    ];
    let len = if q { 6 } else { 7 };
    let firsts: Vec<Vec<&str>> = super::launch::words(&tokens, 2);
    let count = AtomicUsize::new(0);
    let valid = AtomicUsize::new(0);
    let bad: Vec<Option<(String, String)>> = par(&firsts, |w| {
        fn go(s: &mut String, left: usize, tokens: &[&str], n: &mut usize, ok: &mut usize) -> Option<(String, String)> {
            *n += 1;
            if let Err(e) = same_parse(s) {
                return Some((s.clone(), e));
            }
            if recognise(s).is_some() {
                *ok += 1;
            }
            if left == 0 {
                return None;
            }
            for t in tokens {
                let l = s.len();
                s.push_str(t);
                let r = go(s, left - 1, tokens, n, ok);
                s.truncate(l);
                if r.is_some() {
                    return r;
                }
            }
            None
        }
        let (mut n, mut ok) = (0, 0);
        let mut s = w.concat();
        let r = go(&mut s, if w.len() == 2 { len - 2 } else { 0 }, &tokens, &mut n, &mut ok);
        count.fetch_add(n, Ordering::Relaxed);
        valid.fetch_add(ok, Ordering::Relaxed);
        r
    });
    ctx.count("token_sequences", count.into_inner());
    ctx.count("token_sequences_which_are_connections", valid.into_inner());
    let n = bad.len();
    for (i, b) in bad.into_iter().enumerate() {
        if let Some((s, e)) = b {
            ctx.case(&format!("tokens {:?}", s), Err(e));
        } else if i + 1 == n {
            ctx.case("tokens", Ok(()));
        }
    }
    // everything around what is valid
    let bases = [
        "f:a|d:b",
        "f:a | d:b",
        "faucet:tap[O] |F| [22]l:c_1[E] |C| buffer:x | [-2]drain:d",
        "l:a[X]|T|r:r|j:J |C|  b:b",
        "junction:j[O] | [0]regulator:r | [-]launch:l[X] |F|d:0",
    ];
    let alphabet: Vec<&str> = vec![
        "a", "f", "d", "F", "T", "O", "X", "Z", "1", "_", "-", ":", "|", "[", "]", " ", "\t", ".", "\u{e9}", "\"", "[O]", "[1]", "|C|",
    ];
    let mut near: BTreeSet<String> = BTreeSet::new();
    for b in bases {
        for e in edits(b, &alphabet) {
            near.insert(e);
        }
    }
    for b in &bases[..2] {
        {
            for e in edits(b, &alphabet) {
                near.extend(edits(&e, &alphabet));
            }
        }
    }
    // priorities around what a number can be
    for p in [
        "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551616", "18446744073709551619", "-18446744073709551619", "99999999999999999999999999999999999999999999", "00000000000000000000000000000000005",
        "4294967299", "-4294967299", "--1", "+1", "1-", "1 ", " 1", "0x1", "1_0", "1.0", "-0",
    ] {
        near.insert(format!("f:a | [{}]j:b", p));
        near.insert(format!("f:a[O] |F| [{}]j:b | [3]d:c", p));
        near.insert(format!("f:a | [3]b:b | [{}]d:c", p));
    }
    let near: Vec<String> = near.into_iter().collect();
    cases(ctx, &near, |s| format!("edit {:?}", s), |s| same_parse(s));

    // every connection of two to four components, spelled in every way
    let mut made: Vec<(String, Vec<Comp>)> = vec![];
    let pipes2 = [("|", "terminate"), ("|T|", "terminate"), ("|C|", "consume"), ("|F|", "finish")];
    let prios = [("", 0i64), ("[]", 0), ("[0]", 0), ("[3]", 3), ("[-2]", -2), ("[-]", 0), ("[007]", 7), ("[9223372036854775807]", i64::MAX)];
    let outs = [("", "out"), ("[O]", "out"), ("[E]", "err"), ("[X]", "exit")];
    let spaces = [("", ""), (" ", " "), ("  ", ""), ("", "   ")];
    let types: Vec<(&str, &str)> = TYPES.iter().flat_map(|(a, b)| vec![(*a, *b), (*b, *b)]).collect();
    let names = ["a", "Z9_", "f", "faucet", "T", "007"];
    let mut k = 0usize;
    for (t1, y1) in &types {
        for (o, oy) in &outs {
            for (p, py) in &pipes2 {
                for (sa, sb) in &spaces {
                    for (r, ry) in &prios {
                        for (t2, y2) in &types {
                            k += 1;
                            let (n1, n2) = (names[k % 6], names[(k / 6) % 6]);
                            made.push((
                                format!("{}:{}{}{}{}{}{}{}:{}", t1, n1, o, sa, p, sb, r, t2, n2),
                                vec![
                                    Comp { ty: y1.to_string(), name: n1.into(), input: None, output: Some(oy.to_string()) },
                                    Comp { ty: y2.to_string(), name: n2.into(), input: Some((py.to_string(), *ry)), output: None },
                                ],
                            ));
                        }
                    }
                }
            }
        }
    }
    // longer ones from middles
    let mut mids: Vec<(String, Comp)> = vec![];
    for (t, y) in [("l", "launch"), ("junction", "junction")] {
        for (o, oy) in &outs {
            for (r, ry) in &prios[..5] {
                for (p, py) in &pipes2 {
                    mids.push((
                        format!(" {} {}{}:m{}", p, r, t, o),
                        Comp { ty: y.into(), name: "m".into(), input: Some((py.to_string(), *ry)), output: Some(oy.to_string()) },
                    ));
                }
            }
        }
    }
    let st = Comp { ty: "faucet".into(), name: "s".into(), input: None, output: Some("out".into()) };
    let en = Comp { ty: "drain".into(), name: "e".into(), input: Some(("consume".into(), 5)), output: None };
    for m in &mids {
        made.push((format!("f:s{} |C| [5]d:e", m.0), vec![st.clone(), m.1.clone(), en.clone()]));
        for n in mids.iter() {
            made.push((format!("f:s{}{} |C| [5]d:e", m.0, n.0), vec![st.clone(), m.1.clone(), n.1.clone(), en.clone()]));
        }
    }
    cases(ctx, &made, |m| format!("connection {:?}", m.0), |m| {
        let got = parse(&m.0)?;
        if got.as_ref() != Some(&m.1) {
            return Err(format!("understood as {:?} instead of {:?}", got, m.1));
        }
        if recognise(&m.0).as_ref() != got.as_ref() {
            return Err("the check's own reading differs".into());
        }
        Ok(())
    });

    // the same through the program: what is no connection is refused by name, the rest is taken
    let mut texts: Vec<String> = near.clone();
    texts.extend(super::launch::words(&tokens, 4).into_iter().map(|w| w.concat()));
    texts.extend(made.iter().step_by(if q { 5 } else { 1 }).map(|m| m.0.clone()));
    texts.sort();
    texts.dedup();
    let batches: Vec<(usize, Vec<String>)> = texts.chunks(400).map(|c| c.to_vec()).enumerate().collect();
    ctx.count("strings_given_to_the_program", texts.len());
    cases(ctx, &batches, |b| format!("batch {}", b.0), |(_, b)| {
        let sc = real::Scratch::new();
        let conf = |v: &[(usize, &String)]| {
            json!({"connection": v.iter().map(|(i, s)| (format!("k{}", i), json!(s))).collect::<Map<String, Value>>()})
        };
        let all: Vec<(usize, &String)> = b.iter().enumerate().collect();
        let (good, wrong): (Vec<_>, Vec<_>) = all.iter().cloned().partition(|(_, s)| recognise(s).is_some());
        std::fs::write(sc.0.join("all.json"), conf(&all).to_string()).unwrap();
        let mut want: Vec<String> = wrong.iter().map(|(i, _)| format!("k{}", i)).collect();
        want.sort();
        if !want.is_empty() {
            for cmd in [&["config", "--config", "all.json", "--format", "json", "lint"][..], &["config", "--config", "all.json", "--format", "json", "manipulate"], &["process", "--config", "all.json", "--format", "json"], &["graph", "--config", "all.json", "--format", "json"]] {
                let r = pa2_in(&sc.0, cmd, None, 20_000)?;
                r.refused().map_err(|e| format!("{:?}: {}", cmd, e))?;
                let mut got: Vec<String> = r.warnings().into_iter().filter(|w| w.0 == "0003").map(|w| w.1).collect();
                got.sort();
                if got != want {
                    let d: Vec<&&String> = wrong.iter().map(|w| &w.1).take(5).collect();
                    let odd: Vec<String> = got.iter().filter(|g| !want.contains(g)).chain(want.iter().filter(|g| !got.contains(g)))
                        .take(3).map(|k| b[k[1..].parse::<usize>().unwrap_or(0)].clone()).collect();
                    return Err(format!("{:?} names other connections than the wrong ones ({:?}...): {:?}", cmd, d, odd));
                }
            }
        }
        std::fs::write(sc.0.join("good.json"), conf(&good).to_string()).unwrap();
        let r = pa2_in(&sc.0, &["config", "--config", "good.json", "--format", "json", "manipulate"], None, 20_000)?;
        let v = r.json()?;
        let mut got = vec![];
        for c in v["connection"].as_object().ok_or("no connections")?.values() {
            got.extend(pairs(&from_json(c)?));
        }
        got.sort();
        let mut want: Vec<(Comp, Comp)> = good.iter().flat_map(|(_, s)| pairs(&recognise(s).unwrap())).collect();
        want.sort();
        if got != want {
            let d: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
            return Err(format!("the connections are not what was written; missing: {:?}", d));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct E {
    src: (&'static str, &'static str),
    port: &'static str,
    dst: (&'static str, &'static str),
    pipe: &'static str,
    prio: i64,
}
type Flow = (String, String, String, String, String, String, i64);

fn flow_of(e: &E) -> Flow {
    (e.src.0.into(), e.src.1.into(), e.port.into(), e.dst.0.into(), e.dst.1.into(), e.pipe.into(), e.prio)
}

/// The configuration after everything was added still means the edges it was made from.
fn means(edges: &[E], names: &[&str], seed: u64) -> Result<(), String> {
    let mut conn = Map::new();
    for (i, e) in edges.iter().enumerate() {
        conn.insert(
            names[i % names.len()].to_string() + &(if i >= names.len() { format!("x{}", i) } else { String::new() }),
            to_json(&[
                Comp { ty: e.src.0.into(), name: e.src.1.into(), input: None, output: Some(e.port.into()) },
                Comp { ty: e.dst.0.into(), name: e.dst.1.into(), input: Some((e.pipe.into(), e.prio)), output: None },
            ]),
        );
    }
    let mut cfg = json!({"connection": conn, "faucet": {}, "drain": {}, "launch": {}, "regulator": {}});
    let mut users: BTreeSet<(String, String)> = BTreeSet::new();
    for (t, n) in edges.iter().flat_map(|e| [e.src, e.dst]) {
        users.insert((t.into(), n.into()));
        let c = match t {
            "faucet" => json!({"source": format!("in_{}", n)}),
            "drain" => json!({"destination": format!("out_{}", n)}),
            "launch" => json!({"cmd": format!("cmd_{}", n), "arg": ["1"]}),
            "regulator" => json!({"buffered": [1, 3], "monitored_buffers": []}),
            _ => continue,
        };
        cfg[t][n] = c;
    }
    let text = cfg.to_string();
    let got = on_thread(seed, || prepare_here(&text, true)).map_err(|p| format!("panicked: {}", p))?;
    let got = serde_json::to_value(got.map_err(|e| format!("refused: {}", e))?).map_err(|e| e.to_string())?;
    // the components which were configured are as they were
    for t in ["faucet", "drain", "launch", "regulator"] {
        for (n, c) in cfg[t].as_object().unwrap() {
            let g = &got[t][n];
            for (k, v) in c.as_object().unwrap() {
                if &g[k] != v {
                    return Err(format!("{} {} has {} {} instead of {}", t, n, k, g[k], v));
                }
            }
        }
    }
    let mut edges2: Vec<Flow> = vec![];
    for c in got["connection"].as_object().ok_or("no connections")?.values() {
        for (a, b) in pairs(&from_json(c)?) {
            let (p, n) = b.input.clone().ok_or("no input")?;
            edges2.push((a.ty, a.name, a.output.ok_or("no output")?, b.ty, b.name, p, n));
        }
    }
    let is_user = |t: &str, n: &str| users.contains(&(t.to_string(), n.to_string()));
    // what was added: junctions in between, and at the end of the exits of launches
    let mut found: Vec<Flow> = vec![];
    let mut watched: BTreeMap<String, usize> = BTreeMap::new();
    for first in edges2.iter().filter(|e| is_user(&e.0, &e.1)) {
        let mut todo: Vec<Vec<&Flow>> = vec![vec![first]];
        while let Some(path) = todo.pop() {
            let last = path[path.len() - 1];
            if is_user(&last.3, &last.4) {
                let strong: Vec<&&Flow> = path.iter().filter(|e| e.5 != "finish").collect();
                if strong.len() > 1 {
                    return Err(format!("two ways of closing on the way: {:?}", path));
                }
                let pipe = strong.first().map(|e| e.5.clone()).unwrap_or("finish".into());
                let merge = path.iter().filter(|e| edges2.iter().filter(|x| x.3 == e.3 && x.4 == e.4).count() > 1).last();
                let prio = merge.map(|e| e.6);
                found.push((first.0.clone(), first.1.clone(), first.2.clone(), last.3.clone(), last.4.clone(), pipe, prio.unwrap_or(i64::MIN)));
                continue;
            }
            if last.3 == "drain" {
                if first.0 != "launch" || first.2 != "exit" || got["drain"][&last.4]["destination"] != "/dev/null" {
                    return Err(format!("an unexpected drain: {:?}", path));
                }
                if cfg["drain"].get(&last.4).is_some() {
                    return Err(format!("drain {} was taken over", last.4));
                }
                *watched.entry(first.1.clone()).or_insert(0) += 1;
                continue;
            }
            if last.3 != "junction" || path.len() > 6 {
                return Err(format!("an unexpected component: {:?}", path));
            }
            for e in edges2.iter().filter(|e| e.0 == last.3 && e.1 == last.4) {
                let mut p = path.clone();
                p.push(e);
                todo.push(p);
            }
        }
    }
    found.sort();
    // a priority says something only where inputs meet
    let mut want: Vec<Flow> = edges.iter().map(flow_of).collect();
    for w in want.iter_mut() {
        if edges.iter().filter(|e| e.dst.0 == w.3 && e.dst.1 == w.4).count() < 2 {
            w.6 = i64::MIN;
        }
    }
    want.sort();
    if found != want {
        return Err(format!("means {:?} instead of {:?}", found, want));
    }
    for (_, n) in users.iter().filter(|u| u.0 == "launch") {
        let own = edges.iter().any(|e| e.src == ("launch", leak(n)) && e.port == "exit");
        let w = watched.get(n).copied().unwrap_or(0);
        if w != !own as usize {
            return Err(format!("the exit of {} is watched {} times, though its exit is {}connected", n, w, if own { "" } else { "not " }));
        }
    }
    Ok(())
}
fn leak(s: &str) -> &'static str {
    // only ever compared
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}

fn multisets<T: Clone>(a: &[T], n: usize, most: usize) -> Vec<Vec<T>> {
    fn go<T: Clone>(a: &[T], i: usize, left: usize, most: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if left == 0 {
            return;
        }
        for j in i..a.len() {
            for k in 1..=most.min(left) {
                for _ in 0..k {
                    cur.push(a[j].clone());
                }
                go(a, j + 1, left - k, most, cur, out);
                for _ in 0..k {
                    cur.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(a, 0, n, most, &mut vec![], &mut out);
    out
}

fn c19(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    // names which the program would like to use itself
    let keys = ["dyn_connection_1", "main", "main_1", "dyn_connection_1_1", "a"];
    let srcs: [((&str, &str), &str); 7] = [
        (("faucet", "f"), "out"),
        (("launch", "p"), "out"),
        (("launch", "p"), "err"),
        (("launch", "p"), "exit"),
        (("junction", "junction_1"), "out"),
        (("buffer", "b"), "out"),
        (("regulator", "r"), "out"),
    ];
    let dsts: [(&str, &str); 6] =
        [("launch", "p"), ("launch", "q"), ("drain", "dyn_drain_1"), ("junction", "junction_1"), ("junction", "junction_2"), ("buffer", "b")];
    let mut plain = vec![];
    for (s, p) in srcs {
        for d in dsts {
            plain.push(E { src: s, port: p, dst: d, pipe: "terminate", prio: 0 });
        }
    }
    if ctx.collect.is_none() {
        // every set of edges, without attributes
        let sets = multisets(&plain, if q { 4 } else { 5 }, 2);
        ctx.count("edge_sets", sets.len());
        let seeds: &[u64] = if q { &[1] } else { &[1, 2] };
        cases(ctx, &sets, |s| format!("edges {}", tell(s)), |s| {
            for seed in seeds {
                means(s, &keys, *seed)?;
            }
            Ok(())
        });
        // with attributes
        let mut with = vec![];
        for e in plain.iter().filter(|e| q as usize * (e.src.0 == "regulator") as usize == 0) {
            for pipe in ["terminate", "consume", "finish"] {
                for prio in [0, 2] {
                    with.push(E { pipe, prio, ..e.clone() });
                }
            }
        }
        let mut sets = multisets(&with, 2, 2);
        // three that meet, all attributes
        for d in [("drain", "dyn_drain_1"), ("junction", "junction_1"), ("launch", "q")] {
            let into: Vec<E> = with.iter().filter(|e| e.dst == d && e.src.1 != "b").cloned().collect();
            sets.extend(multisets(&into, 3, 1).into_iter().filter(|s| s.len() == 3).step_by(if q { 2 } else { 1 }));
        }
        for s in [srcs[0], srcs[1], srcs[4]] {
            let from: Vec<E> = with.iter().filter(|e| e.src == s.0 && e.port == s.1).cloned().collect();
            sets.extend(multisets(&from, 3, 2).into_iter().filter(|s| s.len() == 3).step_by(if q { 2 } else { 1 }));
        }
        ctx.count("edge_sets_with_attributes", sets.len());
        cases(ctx, &sets, |s| format!("edges {}", tell(s)), |s| means(s, &keys, 1));
        // names which only become those of generated things once they are numbered
        let keys2 = ["dyn_connection", "junction", "dyn_drain", "dyn_connection_1_2", "_1"];
        for sets in [multisets(&plain, 3, 2), sets] {
            cases(ctx, &sets, |s| format!("edges2 {}", tell(s)), |s| means(s, &keys2, 1));
        }
        // many at one place, many seeds
        let mut big = vec![];
        for n in [5usize, 9, 17] {
            for (si, s) in srcs.iter().enumerate() {
                let mut v = vec![];
                for i in 0..n {
                    v.push(E { src: s.0, port: s.1, dst: dsts[i % dsts.len()], pipe: ["terminate", "finish", "consume"][i % 3], prio: (i % 4) as i64 });
                    let o = srcs[(si + i) % srcs.len()];
                    v.push(E { src: o.0, port: o.1, dst: dsts[2], pipe: "terminate", prio: -(i as i64) });
                }
                for seed in 1..=(if q { 8 } else { 100 }) {
                    big.push((v.clone(), seed));
                }
            }
        }
        cases(ctx, &big, |s| format!("edges {} seed {}", tell(&s.0), s.1), |s| means(&s.0, &keys, s.1));
    }

    // and it behaves like that: every small acyclic shape, run
    let shapes = shapes(if q { 4 } else { 5 });
    ctx.count("shapes", shapes.len());
    for (i, sh) in shapes.iter().enumerate() {
        let s = shape_scenario(i, sh);
        if sh.len() <= 2 {
            ctx.deep(&s, cap / 20);
        } else if !q && sh.len() <= 3 {
            ctx.around(&s, 2, cap / 100);
        } else if sh.len() <= 3 || !q && sh.len() <= 4 {
            ctx.around(&s, 1, cap / 200);
        } else {
            let l = ctx.free();
            ctx.explore(&s, &l);
            if i % (if q { 41 } else { 7 }) == 0 {
                ctx.real(&s, None);
            }
        }
    }
}
fn tell(s: &[E]) -> String {
    s.iter().map(|e| format!("{}:{}[{}] |{}|[{}] {}:{}", e.src.0, e.src.1, e.port, e.pipe, e.prio, e.dst.0, e.dst.1)).collect::<Vec<_>>().join(", ")
}

type S = ((char, &'static str), char, (char, &'static str));
/// Acyclic configurations in which everything has an input and an output.
fn shapes(most: usize) -> Vec<Vec<S>> {
    let f = ('f', "f");
    let g = ('f', "g");
    let j = ('j', "junction_1");
    let l = ('l', "l");
    let k = ('j', "k");
    let b = ('b', "b");
    let d = ('d', "d");
    let e = ('d', "dyn_drain_1");
    let mut all: Vec<S> = vec![];
    for d2 in [j, l, k, d, e] {
        all.push((f, 'O', d2));
    }
    for d2 in [j, l, d] {
        all.push((g, 'O', d2));
    }
    for d2 in [l, k, d, e] {
        all.push((j, 'O', d2));
    }
    for p in ['O', 'E', 'X'] {
        for d2 in [k, d, e] {
            all.push((l, p, d2));
        }
    }
    for d2 in [b, d, e] {
        all.push((k, 'O', d2));
    }
    for d2 in [d, e] {
        all.push((b, 'O', d2));
    }
    multisets(&all, most, 2)
        .into_iter()
        .filter(|s| {
            let nodes: BTreeSet<(char, &str)> = s.iter().flat_map(|e| [e.0, e.2]).collect();
            nodes.iter().all(|n| {
                (n.0 == 'f' || s.iter().any(|e| e.2 == *n)) && (n.0 == 'd' || s.iter().any(|e| e.0 == *n && (n.0 != 'l' || e.1 == 'O')))
            })
        })
        .collect()
}
fn shape_scenario(i: usize, sh: &[S]) -> Scenario {
    let conns: Vec<String> = sh
        .iter()
        .map(|(s, p, d)| {
            let port = if *p == 'O' { String::new() } else { format!("[{}]", p) };
            format!("{}:{}{} | {}:{}", s.0, s.1, port, d.0, d.1)
        })
        .collect();
    let c: Vec<&str> = conns.iter().map(|s| s.as_str()).collect();
    let t = Topo::new(&format!("shape-{} {}", i, conns.join(", ")), &c)
        .lines(2)
        .prog("l", vec![Op::EachLine(vec![Op::OutPfx("o".into()), Op::ErrReg]), Op::Exit(3)]);
    // the streams that arrive at a node
    fn up(sh: &[S], n: (char, &str)) -> Vec<Vec<Vec<u8>>> {
        let mut v = vec![];
        for e in sh.iter().filter(|e| e.2 == n) {
            let src: Vec<Vec<Vec<u8>>> = if e.0 .0 == 'f' {
                vec![(1..=2).map(|i| format!("{}{}\n", e.0 .1, i).into_bytes()).collect()]
            } else {
                up(sh, e.0)
            };
            if e.0 .0 != 'l' {
                v.extend(src);
            } else if e.1 == 'X' {
                v.push(vec![b"3".to_vec()]);
            } else {
                let pfx: &[u8] = if e.1 == 'O' { b"o" } else { b"" };
                v.extend(src.into_iter().map(|s| s.into_iter().map(|l| [pfx, &l].concat()).collect::<Vec<_>>()));
            }
        }
        v
    }
    let want: Vec<(String, Vec<Vec<Vec<u8>>>)> =
        t.names('d').iter().map(|d| (t.dest_of(d), up(sh, ('d', leak(d))))).collect();
    let mut s = t.scenario().seed(1 + (i as u64 % 7)).judge(move |o| {
        match &o.end {
            End::Ok(_) => {}
            End::Errors(v) => return Err(format!("errors: {:?}", v)),
            _ => terminated(o)?,
        }
        for (d, streams) in &want {
            // the lines are what counts here: a status has no line end, so what follows it is glued to it
            let has_status = streams.iter().flatten().any(|m| !m.ends_with(b"\n"));
            if !has_status {
                is_interleaving(o.out(d), streams).map_err(|e| format!("{}: {}", d, e))?;
            } else {
                let mut want: Vec<u8> = streams.iter().flatten().flatten().copied().collect();
                let mut got = o.out(d).to_vec();
                want.sort();
                got.sort();
                if want != got {
                    return Err(format!("{} holds {}", d, show(o.out(d))));
                }
            }
        }
        Ok(())
    });
    s.step_limit = 20_000;
    s
}

// ---------------------------------------------------------------- C21

/// Drops what means the same when it is left out.
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut r = Map::new();
            for (k, x) in m {
                let x = norm(x);
                let empty = match &x {
                    Value::Null => true,
                    Value::Array(a) => a.is_empty() && k != "x",
                    Value::Object(o) => o.is_empty() && ["faucet", "drain", "launch", "regulator", "connection", "env"].contains(&k.as_str()),
                    _ => false,
                };
                if !empty {
                    r.insert(k.clone(), x);
                }
            }
            Value::Object(r)
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}

#[derive(Clone, Debug)]
struct Edit {
    args: Vec<String>,
    /// None: refused
    apply: Option<Vec<(Vec<String>, Value)>>,
}
fn edit(args: &[&str], apply: Option<(&[&str], Value)>) -> Edit {
    Edit {
        args: args.iter().map(|s| s.to_string()).collect(),
        apply: apply.map(|(p, v)| vec![(p.iter().map(|s| s.to_string()).collect(), v)]),
    }
}
fn edits_of() -> Vec<Edit> {
    let awkward = ["x", "", "-", "a b", "\u{e9}\u{1F600}\"\\", "null", "1", "a: b", "#c", "line1\nline2", "'", "{a}", "[", "true", "~", "%", "&a", "*", "!t", "@", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}"];
    let mut v = vec![];
    for id in ["f", "new"] {
        for s in awkward {
            v.push(edit(&["faucet", "--id", id, "source", s], Some((&["faucet", id, "source"], json!(s)))));
        }
    }
    for id in ["d", "d d"] {
        for s in &awkward[..12] {
            v.push(edit(&["drain", "--id", id, "destination", s], Some((&["drain", id, "destination"], json!(s)))));
        }
    }
    for id in ["r", "s"] {
        for (a, b) in [("0", "0"), ("1", "3"), ("3", "1"), ("7", "7"), ("0", "18446744073709551615"), ("10", "9")] {
            let (x, y): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
            v.push(edit(&["regulator", "--id", id, "watermark", a, b], Some((&["regulator", id, "buffered"], json!([x.min(y), x.max(y)])))));
        }
        for (a, b) in [("x", "1"), ("1", ""), ("1.5", "2"), ("1", "18446744073709551616"), ("1", " 2")] {
            v.push(edit(&["regulator", "--id", id, "watermark", a, b], None));
        }
    }
    for id in ["l", "m", "connection"] {
        for s in &awkward[..10] {
            v.push(edit(&["launch", "--id", id, "command", s], Some((&["launch", id, "cmd"], json!(s)))));
            v.push(edit(&["launch", "--id", id, "path", s], Some((&["launch", id, "path"], json!(s)))));
        }
        for a in [&["x"][..], &["a", "b c", "d"], &["", ""], &["--", "-n", "--config", "x"], &["--", "--"], &["\u{e9}", "\n"], &["--", "-"], &["1", "null", "true"]] {
            let mut c = vec!["launch", "--id", id, "args"];
            c.extend(a);
            let want: Vec<&str> = if a[0] == "--" { a[1..].to_vec() } else { a.to_vec() };
            if want == ["--"] {
                continue;
            }
            v.push(edit(&c, Some((&["launch", id, "arg"], json!(want)))));
        }
        for (a, want) in [
            (&["A=1"][..], Some(json!({"A": "1"}))),
            (&["A=1", "B=2"], Some(json!({"A": "1", "B": "2"}))),
            (&["A="], Some(json!({"A": ""}))),
            (&["A==b=c"], Some(json!({"A": "=b=c"}))),
            (&["A=1", "A=2"], Some(json!({"A": "2"}))),
            (&["A=\u{e9} \"x\"\n"], Some(json!({"A": "\u{e9} \"x\"\n"}))),
            (&["A"], None),
            (&["=b"], None),
            (&["A=1", "B"], None),
            (&["B", "A=1"], None),
        ] {
            let mut c = vec!["launch", "--id", id, "env"];
            c.extend(a);
            v.push(edit(&c, want.map(|w| (vec!["launch", id, "env"], w)).as_ref().map(|(p, w)| (&p[..], w.clone()))));
        }
    }
    let list = r#"[{"component_type":"faucet","component_name":"f","output_port":"out"},{"component_type":"launch","component_name":"l","priority":3,"breakable":"finish","output_port":"err"},{"component_type":"drain","component_name":"d","priority":0}]"#;
    let yaml = "- component_type: faucet\n  component_name: f\n  output_port: exit\n- component_type: drain\n  component_name: d\n  priority: -4\n  breakable: consume\n";
    let yaml_means = json!([{"component_type":"faucet","component_name":"f","output_port":"exit"},{"component_type":"drain","component_name":"d","priority":-4,"breakable":"consume"}]);
    for id in ["c", "c_1", "x-y"] {
        for s in ["f:f | d:d", "f:f|l:l[E]|F|[3]d:d", "", "faucet:f[O] |T| drain:d"] {
            v.push(edit(&["connection", "--id", id, "join", "--", s], Some((&["connection", id], json!(s)))));
        }
        v.push(edit(&["connection", "--id", id, "join", "--", list], Some((&["connection", id], serde_json::from_str(list).unwrap()))));
        v.push(edit(&["connection", "--id", id, "join", "--", yaml], Some((&["connection", id], yaml_means.clone()))));
        for s in ["f:f", "x", "f:f d:d", "[1]", "{}", "f:f | d:d[O]", " f:f | d:d", "[{\"component_type\":\"tap\",\"component_name\":\"f\",\"output_port\":\"out\"}]"] {
            v.push(edit(&["connection", "--id", id, "join", "--", s], None));
        }
    }
    // without an id there is nothing to change
    for a in [&["faucet", "source", "x"][..], &["drain", "destination", "x"], &["launch", "command", "x"], &["connection", "join", "f:f | d:d"], &["regulator", "watermark", "1", "2"]] {
        v.push(edit(a, None));
    }
    v
}
fn put(v: &mut Value, p: &[String], x: Value) {
    if p.is_empty() {
        *v = x;
        return;
    }
    if !v.is_object() {
        *v = json!({});
    }
    put(v.as_object_mut().unwrap().entry(p[0].clone()).or_insert(Value::Null), &p[1..], x)
}
/// default of what a configuration says
fn defaults(mut v: Value) -> Value {
    if let Some(c) = v.get_mut("connection").and_then(|c| c.as_object_mut()) {
        for x in c.values_mut() {
            if let Some(l) = x.as_array_mut() {
                for e in l {
                    if e.get("priority").is_some() && e.get("breakable").is_none() {
                        e["breakable"] = json!("terminate");
                    }
                }
            }
        }
    }
    // every drain has a destination
    if let Some(c) = v.get_mut("drain").and_then(|c| c.as_object_mut()) {
        for x in c.values_mut() {
            if x.get("destination").is_none() {
                x["destination"] = json!("-");
            }
        }
    }
    norm(&v)
}
fn apply(cfg: &Value, e: &Edit) -> Option<Value> {
    let mut c = cfg.clone();
    for (p, x) in e.apply.as_ref()? {
        put(&mut c, p, x.clone());
    }
    Some(defaults(c))
}

fn c21(ctx: &mut Ctx) {
    let q = ctx.quick();
    if ctx.collect.is_some() {
        return;
    }
    let edits = edits_of();
    let starts: Vec<(&str, String, Value, &str)> = vec![
        ("empty", "{}".into(), json!({}), "yaml"),
        ("emptyj", "{}".into(), json!({}), "json"),
        (
            "small",
            "faucet: {f: {source: \"-\"}}\nlaunch: {l: {cmd: cat, path: /tmp, env: {K: v}, arg: [a, b]}}\nconnection: {c: \"f:f | l:l | d:d\"}\ndrain: {d: {destination: \"-\"}}\n".into(),
            json!({"faucet": {"f": {"source": "-"}}, "launch": {"l": {"cmd": "cat", "path": "/tmp", "env": {"K": "v"}, "arg": ["a", "b"]}}, "connection": {"c": "f:f | l:l | d:d"}, "drain": {"d": {"destination": "-"}}}),
            "yaml",
        ),
        (
            "full",
            json!({"faucet": {"f": {"source": ""}, "g": {"source": "x y"}}, "drain": {"d": {}, "e": {"destination": "_"}},
              "regulator": {"r": {"buffered": [2, 5], "monitored_buffers": ["b", "c"]}, "n": {"buffered": null}},
              "launch": {"l": {"cmd": null, "arg": ["-n"]}, "m": {"cmd": "m", "env": {"A": "0", "B": "\u{e9}"}}},
              "connection": {"c": [{"component_type": "junction", "component_name": "j", "output_port": "out"}, {"component_type": "drain", "component_name": "d", "priority": 5}], "c_1": "f:f | d:d", "z": ""}}).to_string(),
            json!({"faucet": {"f": {"source": ""}, "g": {"source": "x y"}}, "drain": {"d": {}, "e": {"destination": "_"}},
              "regulator": {"r": {"buffered": [2, 5], "monitored_buffers": ["b", "c"]}, "n": {}},
              "launch": {"l": {"arg": ["-n"]}, "m": {"cmd": "m", "env": {"A": "0", "B": "\u{e9}"}}},
              "connection": {"c": [{"component_type": "junction", "component_name": "j", "output_port": "out"}, {"component_type": "drain", "component_name": "d", "priority": 5}], "c_1": "f:f | d:d", "z": ""}}),
            "json",
        ),
    ];
    let run = |text: &str, fmt: &str, e: &Edit| -> Result<Ran, String> {
        let mut a = vec!["config", "--config", "-", "--format", fmt];
        a.extend(e.args.iter().map(|s| s.as_str()));
        pa2(&a, Some(text))
    };
    let one = |text: &str, fmt: &str, model: &Value, e: &Edit| -> Result<Option<(String, Value)>, String> {
        let r = run(text, fmt, e)?;
        match apply(model, e) {
            None => r.refused().map(|_| None).map_err(|x| format!("{:?} {}", e.args, x)),
            Some(want) => {
                let got = r.json().map_err(|x| format!("{:?} {}", e.args, x))?;
                if norm(&got) != want {
                    return Err(format!("{:?} gives {} instead of {}", e.args, norm(&got), want));
                }
                Ok(Some((r.out.clone(), want)))
            }
        }
    };
    // every command on every configuration; then every (selected) pair, triple of them, fed on
    let mut level: Vec<(String, String, String, Value)> =
        starts.iter().map(|s| (s.0.to_string(), s.1.clone(), s.3.to_string(), s.2.clone())).collect();
    let depth = if q { 3 } else { 4 };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for d in 1..=depth {
        // deeper down only one command of each kind, target and value class
        let ops: Vec<&Edit> = match d {
            1 => edits.iter().collect(),
            2 => edits.iter().enumerate().filter(|(i, e)| e.apply.is_some() && (!q || i % 3 == 0)).map(|x| x.1).collect(),
            _ => edits.iter().enumerate().filter(|(i, e)| e.apply.is_some() && i % (if q { 37 } else { 13 }) == 0).map(|x| x.1).collect(),
        };
        let items: Vec<(usize, usize)> = (0..level.len()).flat_map(|i| (0..ops.len()).map(move |j| (i, j))).collect();
        let res = par(&items, |(i, j)| one(&level[*i].1, &level[*i].2, &level[*i].3, ops[*j]));
        let mut next = vec![];
        for ((i, j), r) in items.iter().zip(res) {
            let name = format!("{} > {}", level[*i].0, ops[*j].args.join(" "));
            match r {
                Err(e) => ctx.case(&name, Err(e)),
                Ok(x) => {
                    ctx.case(&name, Ok(()));
                    if let Some((text, model)) = x {
                        // what was written is read again, alternately as yaml and as json
                        if seen.insert(model.to_string()) {
                            let fmt = if (i + j) % 2 == 0 { "yaml" } else { "json" };
                            next.push((name, text, fmt.to_string(), model));
                        }
                    }
                }
            }
            if ctx.stop() {
                return;
            }
        }
        ctx.count(&format!("edits_at_depth_{}", d), items.len());
        let keep = if d == 1 { if q { 500 } else { 1500 } } else { if q { 150 } else { 1500 } };
        let step = (next.len() / keep).max(1);
        level = next.into_iter().step_by(step).collect();
    }
    // from a file, which is left alone
    let files: Vec<(usize, &Edit)> = edits.iter().enumerate().step_by(if q { 4 } else { 1 }).collect();
    cases(ctx, &files, |f| format!("file {}", f.1.args.join(" ")), |(_, e)| {
        let sc = real::Scratch::new();
        for s in &starts {
            std::fs::write(sc.0.join("c"), &s.1).unwrap();
            let mut a = vec!["config", "--config", "c", "--format", s.3];
            a.extend(e.args.iter().map(|s| s.as_str()));
            let r = pa2_in(&sc.0, &a, None, 10_000)?;
            match apply(&s.2, e) {
                None => r.refused()?,
                Some(w) => {
                    if norm(&r.json()?) != w {
                        return Err(format!("{:?} gives {}", a, r.out));
                    }
                }
            }
            if std::fs::read_to_string(sc.0.join("c")).ok().as_ref() != Some(&s.1) {
                return Err("the file was changed".into());
            }
            if std::fs::read_dir(&sc.0).unwrap().count() != 1 {
                return Err("other files were made".into());
            }
        }
        Ok(())
    });
    // unreadable configurations are refused by everything
    let mut badly = vec![];
    for (text, fmt) in [("{", "json"), ("", "json"), ("[1]", "json"), ("faucet: [", "yaml"), ("faucet: 1", "yaml"), ("faucet: {f: {}}", "yaml"), ("connection: {c: 1}", "yaml"), ("{\"drain\": {\"d\": {\"destination\": 3}}}", "json"), ("a: b: c", "yaml")] {
        for cmd in [&["config", "lint"][..], &["config", "manipulate"], &["config", "faucet", "--id", "x", "source", "y"], &["process"], &["graph"]] {
            for from in ["-", "file", "missing"] {
                badly.push((text, fmt, cmd, from));
            }
        }
    }
    cases(ctx, &badly, |b| format!("unreadable {:?}", b), |(text, fmt, cmd, from)| {
        let sc = real::Scratch::new();
        std::fs::write(sc.0.join("file"), text).unwrap();
        let mut a = vec![cmd[0], "--config", from, "--format", fmt];
        a.extend(&cmd[1..]);
        pa2_in(&sc.0, &a, if *from == "-" { Some(text) } else { None }, 10_000)?.refused()
    });
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug)]
struct Lint {
    conns: Vec<(&'static str, Value)>,
    decl: Vec<(char, &'static str)>,
    /// regulator and what it monitors
    regs: Vec<(&'static str, Vec<&'static str>)>,
}
impl Lint {
    fn config(&self, cmd: &str) -> Value {
        let mut c = json!({"faucet": {}, "drain": {}, "launch": {}, "regulator": {}, "connection": {}});
        for (t, n) in &self.decl {
            match t {
                'f' => c["faucet"][n] = json!({"source": "in"}),
                'd' => c["drain"][n] = json!({"destination": format!("out_{}", n)}),
                _ => c["launch"][n] = json!({"cmd": cmd}),
            }
        }
        for (r, m) in &self.regs {
            c["regulator"][r] = json!({"buffered": [1, 3], "monitored_buffers": m});
        }
        for (k, v) in &self.conns {
            c["connection"][k] = v.clone();
        }
        c
    }
    fn used(&self) -> Result<BTreeSet<(String, String)>, Vec<(String, String)>> {
        let mut bad = vec![];
        let mut used = BTreeSet::new();
        for (k, v) in &self.conns {
            let comps = match v {
                Value::String(s) => recognise(s),
                v => from_json(v).ok().filter(|l| {
                    let n = l.len();
                    n == 0 || n >= 2 && l.iter().enumerate().all(|(i, c)| c.input.is_some() == (i > 0) && c.output.is_some() == (i + 1 < n))
                }),
            };
            match comps {
                None => bad.push(("0003".to_string(), k.to_string())),
                Some(cs) => used.extend(cs.into_iter().map(|c| (c.ty, c.name))),
            }
        }
        bad.sort();
        if bad.is_empty() { Ok(used) } else { Err(bad) }
    }
    fn warnings(&self) -> Vec<(String, String)> {
        let used = match self.used() {
            Ok(u) => u,
            Err(b) => return b,
        };
        let up = |t: &str| t[..1].to_uppercase() + &t[1..];
        let mut v = vec![];
        let mut decl: BTreeSet<(String, String)> = self
            .decl
            .iter()
            .map(|(t, n)| (match t { 'f' => "faucet", 'd' => "drain", _ => "launch" }.to_string(), n.to_string()))
            .collect();
        decl.extend(self.regs.iter().map(|r| ("regulator".to_string(), r.0.to_string())));
        for (t, n) in decl.difference(&used) {
            v.push(("0001".to_string(), format!("{}:{}", up(t), n)));
        }
        for (t, n) in used.difference(&decl).filter(|u| u.0 != "junction" && u.0 != "buffer") {
            v.push(("0002".to_string(), format!("{}:{}", up(t), n)));
        }
        for (_, m) in &self.regs {
            for b in m.iter().collect::<BTreeSet<_>>() {
                if !used.contains(&("buffer".to_string(), b.to_string())) {
                    v.push(("0004".to_string(), format!("Buffer:{}", b)));
                }
            }
        }
        v.sort();
        v
    }
}

fn c22(ctx: &mut Ctx) {
    let q = ctx.quick();
    if ctx.collect.is_some() {
        return;
    }
    let mut all = vec![];
    // the second time with names which the program would like to use itself, the third time with
    // the same names for components of different types
    for (nf, ng, nl, nb, nr, nd, ne, un, nz, c3) in [
        ("f", "g", "l", "b", "r", "d", "e", "unused", "zz", "c3"),
        ("dyn_faucet_1", "g", "l", "b", "r", "dyn_drain_1", "dyn_drain_2", "unused", "zz", "dyn_connection_1"),
        ("x", "y", "x", "x", "x", "x", "y", "y", "y", "x"),
    ] {
        let lists = json!([{"component_type":"faucet","component_name":nf,"output_port":"out"},{"component_type":"drain","component_name":ne,"priority":0}]);
        let bad_list = json!([{"component_type":"faucet","component_name":nf,"output_port":"out"}]);
        let conns: Vec<(&'static str, Value)> = vec![
            ("c1", json!(format!("f:{} | l:{} | d:{}", nf, nl, nd))),
            ("c2", json!(format!("f:{} | b:{} | d:{}", nf, nb, nd))),
            (c3, json!(format!("f:{} | r:{} | b:{} | d:{}", ng, nr, nb, ne))),
            ("c4", lists),
            ("bad1", json!("f:f")),
            ("bad2", bad_list),
        ];
        let decls = [('f', nf), ('f', ng), ('l', nl), ('d', nd), ('d', ne)];
        let regs: Vec<Vec<(&'static str, Vec<&'static str>)>> = vec![
            vec![],
            vec![(nr, vec![])],
            vec![(nr, vec![nb])],
            vec![(nr, vec![nz])],
            vec![(nr, vec![nb, nz, nz]), (un, vec![nz])],
            vec![(un, vec![nb])],
        ];
        for cm in 0..(1usize << conns.len()) {
            for dm in 0..(1usize << decls.len()) {
                for (ri, r) in regs.iter().enumerate() {
                    if (cm >> 4) != 0 && q && (dm % 7 != 0 || ri % 2 == 1) {
                        continue;
                    }
                    all.push(Lint {
                        conns: conns.iter().enumerate().filter(|(i, _)| cm >> i & 1 == 1).map(|x| x.1.clone()).collect(),
                        decl: decls.iter().enumerate().filter(|(i, _)| dm >> i & 1 == 1).map(|x| *x.1).collect(),
                        regs: r.clone(),
                    });
                }
            }
        }
    }
    ctx.count("configurations_linted", all.len());
    cases(ctx, &all, |l| format!("lint {}", l.config("x")), |l| {
        let sc = real::Scratch::new();
        std::fs::write(sc.0.join("in"), "1\n2\n").unwrap();
        let cmd = "/verif-stand-in-which-does-not-exist".to_string();
        std::fs::write(sc.0.join("c.json"), l.config(&cmd).to_string()).unwrap();
        let want = l.warnings();
        let r = pa2_in(&sc.0, &["config", "--config", "c.json", "--format", "json", "lint"], None, 10_000)?;
        if want.is_empty() {
            let mut w = l.config(&cmd);
            for (_, v) in w["connection"].as_object_mut().unwrap() {
                if let Value::String(s) = v {
                    *v = to_json(&recognise(s).unwrap());
                }
            }
            let got = norm(&r.json().map_err(|e| format!("lint: {}", e))?);
            if got != defaults(w.clone()) {
                return Err(format!("lint prints {} instead of {}", got, defaults(w)));
            }
        } else {
            r.refused().map_err(|e| format!("lint: {}; should be {:?}", e, want))?;
            if r.warnings() != want {
                return Err(format!("lint says {:?} instead of {:?}", r.warnings(), want));
            }
        }
        let serious: Vec<(String, String)> = want.into_iter().filter(|w| w.0 != "0001").collect();
        let uses_l = l.used().map(|u| u.iter().any(|c| c.0 == "launch")).unwrap_or(false);
        for cmd in [&["graph", "--config", "c.json", "--format", "json"][..], &["process", "--config", "c.json", "--format", "json"]] {
            let r = pa2_in(&sc.0, cmd, None, 10_000)?;
            if serious.is_empty() {
                let fails = cmd[0] == "process" && uses_l;
                if (r.code == Some(0)) == fails {
                    return Err(format!("{} ended with {:?}: {}", cmd[0], r.code, r.err));
                }
                if cmd[0] == "process" && !fails && !(r.out.is_empty() && r.err.is_empty()) {
                    return Err(format!("process prints {} {}", r.out, r.err));
                }
            } else {
                r.refused().map_err(|e| format!("{}: {}; should be {:?}", cmd[0], e, serious))?;
                if r.warnings() != serious {
                    return Err(format!("{} says {:?} instead of {:?}", cmd[0], r.warnings(), serious));
                }
                if std::fs::read_dir(&sc.0).unwrap().count() != 2 {
                    return Err(format!("{} was refused, but wrote files", cmd[0]));
                }
            }
        }
        Ok(())
    });

    // components used as what they are not: refused, and nothing was started
    let ty = ["f", "l", "j", "b", "r", "d"];
    let mut odd: Vec<(Vec<String>, bool)> = vec![];
    for a in ty {
        for pa in ["", "[O]", "[E]", "[X]"] {
            for b in ty {
                let m = |t: &str, i: usize| if t == "f" || t == "d" { format!("{}:{}{}", t, t, i) } else { format!("{}:{}{}", t, t, i) };
                let wrong1 = a == "d" || b == "f" || (a == "f" && (pa == "[E]" || pa == "[X]"));
                // a healthy neighbour which must not start either
                odd.push((vec![format!("{}{} | {}", m(a, 1), pa, m(b, 2)), "f:ok | l:ok | d:ok".into()], wrong1));
                for c in ["l", "d", "f"] {
                    let wrong = wrong1 || b == "d" || c == "f";
                    odd.push((vec![format!("{}{} | {} | {}", m(a, 1), pa, m(b, 2), m(c, 3)), "l:ok | d:ok".into()], wrong));
                }
            }
        }
    }
    odd.retain(|o| o.1);
    ctx.count("misuses", odd.len());
    cases(ctx, &odd, |o| format!("misuse {:?}", o.0), |(c, _)| {
        let sc = real::Scratch::new();
        std::fs::write(sc.0.join("in"), "1\n2\n").unwrap();
        std::fs::write(sc.0.join("go.sh"), "echo > started\n").unwrap();
        let mut cfg = json!({"faucet": {}, "drain": {}, "launch": {}, "regulator": {}, "connection": {}});
        for (i, s) in c.iter().enumerate() {
            cfg["connection"][format!("c{}", i)] = json!(s);
            for comp in recognise(s).ok_or("not a connection")? {
                match comp.ty.as_str() {
                    "faucet" => cfg["faucet"][&comp.name] = json!({"source": "in"}),
                    "drain" => cfg["drain"][&comp.name] = json!({"destination": "out"}),
                    "launch" => cfg["launch"][&comp.name] = json!({"cmd": "/bin/sh", "arg": ["go.sh"]}),
                    "regulator" => cfg["regulator"][&comp.name] = json!({"buffered": [1, 3], "monitored_buffers": []}),
                    _ => {}
                }
            }
        }
        std::fs::write(sc.0.join("c.json"), cfg.to_string()).unwrap();
        let r = pa2_in(&sc.0, &["process", "--config", "c.json", "--format", "json"], None, 10_000)?;
        r.refused()?;
        std::thread::sleep(std::time::Duration::from_millis(5));
        if std::fs::read_dir(&sc.0).unwrap().count() != 3 {
            return Err("was refused, but something was started".into());
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    P(char),
    Arrow,
}
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("a string does not end".into()),
                    Some('\\') if c.get(i + 1) == Some(&'"') => {
                        t.push('"');
                        i += 2;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'\\') => {
                        t.push_str("\\\\");
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        t.push(*x);
                        i += 1;
                    }
                }
            }
            v.push(Tok::Id(t));
        } else if ch.is_ascii_alphabetic() || ch == '_' || ch as u32 >= 0x80 {
            let s0 = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] as u32 >= 0x80) {
                i += 1;
            }
            let t: String = c[s0..i].iter().collect();
            if ["node", "edge"].contains(&t.to_lowercase().as_str()) {
                return Err(format!("{} is not an identifier", t));
            }
            v.push(Tok::Id(t));
        } else if ch.is_ascii_digit() || ch == '.' || ch == '-' && c.get(i + 1).map(|x| x.is_ascii_digit() || *x == '.').unwrap_or(false) {
            let s0 = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if c.get(i).map(|x| x.is_ascii_alphabetic() || *x == '_').unwrap_or(false) {
                return Err(format!("a number runs into a name: {}", c[s0..=i].iter().collect::<String>()));
            }
            v.push(Tok::Id(c[s0..i].iter().collect()));
        } else if ch == '-' && c.get(i + 1) == Some(&'>') {
            v.push(Tok::Arrow);
            i += 2;
        } else if "{}[]=,;".contains(ch) {
            v.push(Tok::P(ch));
            i += 1;
        } else {
            return Err(format!("unexpected {:?}", ch));
        }
    }
    Ok(v)
}

type Attrs = BTreeMap<String, String>;
#[derive(Default, Debug)]
struct Dot {
    strict: bool,
    nodes: BTreeMap<String, Attrs>,
    /// the labels of the subgraphs a node was mentioned in, outermost first
    within: BTreeMap<String, Vec<String>>,
    edges: Vec<(String, String, Attrs)>,
    groups: Vec<String>,
}
fn dot(s: &str) -> Result<Dot, String> {
    let t = lex(s)?;
    let mut d = Dot::default();
    let mut i = 0;
    let id = |i: usize| match t.get(i) {
        Some(Tok::Id(s)) => Ok(s.clone()),
        x => Err(format!("a name is expected, there is {:?}", x)),
    };
    let p = |i: usize, c: char| t.get(i) == Some(&Tok::P(c));
    if id(i)? == "strict" {
        d.strict = true;
        i += 1;
    }
    if id(i)? != "digraph" {
        return Err("not a digraph".into());
    }
    i += 1;
    if let Some(Tok::Id(_)) = t.get(i) {
        i += 1;
    }
    if !p(i, '{') {
        return Err("no {".into());
    }
    i += 1;
    // (id of the subgraph, its label)
    let mut stack: Vec<(String, String)> = vec![("".into(), "".into())];
    let mut open: Vec<(String, usize)> = vec![];
    while !stack.is_empty() {
        if p(i, ';') {
            i += 1;
            continue;
        }
        if p(i, '}') {
            i += 1;
            let (g, label) = stack.pop().unwrap();
            for (n, depth) in open.clone() {
                if depth == stack.len() && !g.is_empty() {
                    d.within.entry(n).or_default().insert(0, label.clone());
                }
            }
            for o in open.iter_mut() {
                if o.1 == stack.len() {
                    o.1 = o.1.saturating_sub(1);
                }
            }
            continue;
        }
        let a = id(i)?;
        if (a == "graph") && p(i + 1, '[') {
            return Err("attributes of the graph are not expected".into());
        }
        if a == "subgraph" {
            let g = id(i + 1)?;
            if !p(i + 2, '{') {
                return Err("no { after a subgraph".into());
            }
            d.groups.push(g.clone());
            stack.push((g, "".into()));
            i += 3;
            continue;
        }
        i += 1;
        if p(i, '=') {
            if a == "label" {
                stack.last_mut().unwrap().1 = id(i + 1)?;
            } else {
                id(i + 1)?;
            }
            i += 2;
            continue;
        }
        let mut to = None;
        if t.get(i) == Some(&Tok::Arrow) {
            to = Some(id(i + 1)?);
            i += 2;
        }
        let mut at = Attrs::new();
        if p(i, '[') {
            i += 1;
            while !p(i, ']') {
                let k = id(i)?;
                if !p(i + 1, '=') {
                    return Err(format!("no = after {}", k));
                }
                at.insert(k, id(i + 2)?);
                i += 3;
                if p(i, ',') || p(i, ';') {
                    i += 1;
                }
            }
            i += 1;
        }
        match to {
            None => {
                d.nodes.entry(a.clone()).or_default().extend(at);
                if !open.iter().any(|o| o.0 == a) {
                    open.push((a, stack.len() - 1));
                }
            }
            Some(b) => {
                for n in [&a, &b] {
                    d.nodes.entry(n.clone()).or_default();
                }
                if d.strict {
                    if let Some(e) = d.edges.iter_mut().find(|e| e.0 == a && e.1 == b) {
                        e.2.extend(at);
                        continue;
                    }
                }
                d.edges.push((a, b, at));
            }
        }
    }
    if i != t.len() {
        return Err("something follows the graph".into());
    }
    Ok(d)
}

/// A list of connections per key; what is drawn must be these.
fn drawn(d: &Dot, conns: &[(String, Vec<Comp>)], legend: &BTreeMap<String, Attrs>) -> Result<(), String> {
    let esc = |s: &str| s.replace('\\', "\\\\");
    let mut comps: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
    for (k, v) in conns {
        for (i, c) in v.iter().enumerate() {
            let g = comps.entry((c.ty.clone(), c.name.clone())).or_default();
            g.push(esc(&format!("{}:", k)));
            if k.is_empty() {
                g.push("".into());
            }
            if c.ty == "junction" && (i == 0 || i + 1 == v.len()) {
                g.push("".into());
            }
        }
    }
    // which component a node shows
    let mut shown: BTreeMap<String, (String, String)> = BTreeMap::new();
    for (n, a) in d.nodes.iter().filter(|n| !n.0.starts_with("legend_")) {
        let ty = legend
            .iter()
            .find(|(_, l)| l.get("shape") == a.get("shape"))
            .map(|x| x.0.clone())
            .ok_or_else(|| format!("{} looks like nothing in the legend: {:?}", n, a))?;
        if legend[&ty].get("fillcolor") != a.get("fillcolor") {
            return Err(format!("{} has the shape of a {} but another colour", n, ty));
        }
        let label = a.get("label").cloned().unwrap_or_default();
        let Some(c) = comps.keys().find(|c| c.0 == ty && esc(&c.1) == label) else {
            return Err(format!("{} shows a {} {:?} which does not exist", n, ty, label));
        };
        if shown.values().any(|x| x == c) {
            return Err(format!("{:?} is drawn twice", c));
        }
        shown.insert(n.clone(), c.clone());
        let group = d.within.get(n).and_then(|w| w.last().cloned()).unwrap_or_default();
        if !comps[c].contains(&group) {
            return Err(format!("{:?} is drawn in {:?}, but belongs to {:?}", c, group, comps[c]));
        }
    }
    if let Some(m) = comps.keys().find(|c| !shown.values().any(|s| s == *c)) {
        // a list of one component draws nothing to connect, but the component
        return Err(format!("{:?} is not drawn", m));
    }
    let mut want: Vec<((String, String), (String, String), String)> = vec![];
    for (_, v) in conns {
        for (a, b) in pairs(v) {
            want.push(((a.ty, a.name), (b.ty, b.name), a.output.unwrap()));
        }
    }
    let mut got = vec![];
    for (a, b, at) in &d.edges {
        let (Some(x), Some(y)) = (shown.get(a), shown.get(b)) else { return Err(format!("an edge {} -> {} of nothing", a, b)) };
        let port = match at.get("label").map(|s| s.to_lowercase()).unwrap_or_default().as_str() {
            "" | "out" => "out".to_string(),
            x => x.to_string(),
        };
        got.push((x.clone(), y.clone(), port));
    }
    got.sort();
    want.sort();
    if got != want {
        let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
        let more: Vec<_> = got.iter().filter(|w| !want.contains(w)).take(3).collect();
        return Err(format!("{} connections are drawn instead of {}; missing {:?}, not there {:?}", got.len(), want.len(), miss, more));
    }
    Ok(())
}
fn legend_of(d: &Dot) -> Result<BTreeMap<String, Attrs>, String> {
    let mut l = BTreeMap::new();
    for (n, a) in d.nodes.iter().filter(|n| n.0.starts_with("legend_")) {
        let ty = d.within.get(n).and_then(|w| w.last().cloned()).unwrap_or_default();
        if l.values().any(|x: &Attrs| x.get("shape") == a.get("shape")) {
            return Err("two types look alike".into());
        }
        l.insert(ty, a.clone());
    }
    let have: Vec<&str> = l.keys().map(|s| s.as_str()).collect();
    if have != ["buffer", "drain", "faucet", "junction", "launch", "regulator"] {
        return Err(format!("the legend explains {:?}", have));
    }
    Ok(l)
}

fn declare(conns: &[(String, Vec<Comp>)]) -> Value {
    let mut cfg = json!({"faucet": {}, "drain": {}, "launch": {}, "regulator": {}, "connection": {}});
    for (k, v) in conns {
        cfg["connection"][k] = to_json(v);
        for c in v {
            match c.ty.as_str() {
                "faucet" => cfg["faucet"][&c.name] = json!({"source": "in"}),
                "drain" => cfg["drain"][&c.name] = json!({"destination": "/dev/null"}),
                "launch" => cfg["launch"][&c.name] = json!({"cmd": "true"}),
                "regulator" => cfg["regulator"][&c.name] = json!({"buffered": [1, 3], "monitored_buffers": []}),
                _ => {}
            }
        }
    }
    cfg
}
fn graph_of(cfg: &str, fmt: &str, flags: &[&str]) -> Result<Dot, String> {
    let mut a = vec!["graph", "--config", "-", "--format", fmt];
    a.extend(flags);
    let r = pa2(&a, Some(cfg))?;
    if r.code != Some(0) || !r.err.is_empty() {
        return Err(format!("graph failed: {}", r.err.trim()));
    }
    dot(&r.out).map_err(|e| format!("{} in {}", e, r.out))
}

fn c23(ctx: &mut Ctx) {
    let q = ctx.quick();
    if ctx.collect.is_some() {
        return;
    }
    let legend = match graph_of("{}", "json", &["--legend-only"]).and_then(|d| legend_of(&d)) {
        Ok(l) => l,
        Err(e) => {
            ctx.case("legend", Err(e));
            return;
        }
    };
    let start = |t: &str, n: &str, p: &str| Comp { ty: t.into(), name: n.into(), input: None, output: Some(p.into()) };
    let mid = |t: &str, n: &str, p: &str| Comp { ty: t.into(), name: n.into(), input: Some(("terminate".into(), 0)), output: Some(p.into()) };
    let end = |t: &str, n: &str| Comp { ty: t.into(), name: n.into(), input: Some(("finish".into(), 2)), output: None };
    let mut all: Vec<Vec<(String, Vec<Comp>)>> = vec![vec![], vec![("c".into(), vec![])]];
    // every pair of types and ports; every chain of three
    for a in TYPES {
        for b in TYPES {
            for p in ["out", "err", "exit"] {
                all.push(vec![("c".into(), vec![start(a.1, "x", p), end(b.1, "x")])]);
                for c in TYPES {
                    for p2 in ["out", "err"] {
                        all.push(vec![("c".into(), vec![start(a.1, "x", p), mid(b.1, "y", p2), end(c.1, "x")])]);
                    }
                }
            }
        }
    }
    // every set of edges over a few components, in one or several connections
    let nodes = [("faucet", "f"), ("launch", "a"), ("junction", "a"), ("buffer", "b"), ("drain", "a")];
    let mut edges = vec![];
    for a in nodes {
        for b in nodes {
            if a.0 == "drain" || b.0 == "faucet" {
                continue;
            }
            for p in if a.0 == "launch" { vec!["out", "err", "exit"] } else { vec!["out"] } {
                edges.push((a, p, b));
            }
        }
    }
    for (i, set) in multisets(&edges, if q { 2 } else { 3 }, 2).into_iter().enumerate() {
        all.push(
            set.iter()
                .enumerate()
                .map(|(k, (a, p, b))| (format!("k{}", if i % 2 == 0 { k } else { set.len() - k }), vec![start(a.0, a.1, p), end(b.0, b.1)]))
                .collect(),
        );
    }
    // awkward names everywhere
    let names = [
        "a", "1a", "1", "-1", "1.", "node", "edge", "graph", "digraph", "subgraph", "strict", "NODE", "a-b", "a b", "a\"b", "a\\", "\\n", "\\\"", "<b>", "a;b", "{", "}", "é", "日本", "", " ", "a\nb", "legend", "label=x", "->", "//c", "#c", "/*", "'", "a_b", "b_a", "f_f",
    ];
    for n in names {
        for m in names.iter() {
            if n == *m && n != "a" {
                continue;
            }
            all.push(vec![(n.into(), vec![start("faucet", m, "out"), mid("launch", n, "err"), end("drain", m)])]);
            all.push(vec![
                (m.to_string(), vec![start("junction", n, "out"), end("junction", m)]),
                ("zz".into(), vec![start("buffer", m, "out"), end("junction", n)]),
            ]);
        }
    }
    ctx.count("configurations_drawn", all.len());
    let flagsets: &[&[&str]] = &[&["--diagram-only"], &[], &["--legend-border"], &["--legend-only"], &["--legend-only", "--legend-border"], &["-d"], &["-l"], &["-d", "-l"]];
    let have_dot = std::path::Path::new("/usr/bin/dot").exists();
    let items: Vec<(usize, &Vec<(String, Vec<Comp>)>)> = all.iter().enumerate().collect();
    let agreed = AtomicUsize::new(0);
    cases(ctx, &items, |a| format!("graph {}", declare(a.1)["connection"]), |(i, conns)| {
        let cfg = declare(conns).to_string();
        for (fi, flags) in flagsets.iter().enumerate() {
            // hash order differs from run to run: the diagram twice
            if fi > 1 && i % 10 != 0 {
                continue;
            }
            let d = graph_of(&cfg, if i % 2 == 0 { "json" } else { "yaml" }, flags).map_err(|e| format!("{:?}: {}", flags, e))?;
            let legend_only = (flags.contains(&"--legend-only") || flags.contains(&"-l")) && !flags.contains(&"-d");
            let diagram_only = (flags.contains(&"--diagram-only") || flags.contains(&"-d")) && !flags.contains(&"-l");
            let has_legend = d.nodes.keys().any(|n| n.starts_with("legend_"));
            if has_legend == diagram_only {
                return Err(format!("{:?}: legend: {}", flags, has_legend));
            }
            if has_legend && legend_of(&d)? != legend {
                return Err("the legend changes".into());
            }
            let border = d.groups.iter().any(|g| g == "cluster_legend");
            if has_legend && border != flags.contains(&"--legend-border") {
                return Err(format!("{:?}: border: {}", flags, border));
            }
            if legend_only {
                if d.nodes.keys().any(|n| !n.starts_with("legend_")) {
                    return Err("the legend shows components".into());
                }
            } else {
                drawn(&d, conns, &legend).map_err(|e| format!("{:?}: {}", flags, e))?;
            }
        }
        // the check's reading of the language against the real one
        if have_dot && i % (if q { 7 } else { 3 }) == 0 {
            let r = pa2(&["graph", "--config", "-", "--format", "json", "-d"], Some(&cfg))?;
            let mut c = Command::new("/usr/bin/dot");
            c.arg("-Tcanon");
            let text = r.out.clone();
            let feed: real::Feeder = Box::new(move |mut i: std::process::ChildStdin| {
                use std::io::Write;
                let _ = i.write_all(text.as_bytes());
            });
            let o = real::run_cmd(&mut c, Some(feed), 20_000);
            if o.code != Some(0) {
                return Err(format!("dot cannot read it: {}", String::from_utf8_lossy(&o.stderr)));
            }
            agreed.fetch_add(1, Ordering::Relaxed);
        }
        Ok(())
    });
    ctx.validated += agreed.into_inner();
}

// ---------------------------------------------------------------- C24

/// Chains of components: (type letter, name, port) with the pipe and priority in front.
#[derive(Clone)]
struct Chain(Vec<Comp>);

fn spell(c: &[Comp], how: usize) -> String {
    let mut s = String::new();
    for (i, x) in c.iter().enumerate() {
        let long = how & 1 == 1;
        if let Some((p, n)) = &x.input {
            let (l, r) = match how % 4 {
                0 => (" ", " "),
                1 => ("", ""),
                2 => ("", "  "),
                _ => ("   ", ""),
            };
            let code = match p.as_str() {
                "terminate" if how & 2 == 0 => "|",
                "terminate" => "|T|",
                "consume" => "|C|",
                _ => "|F|",
            };
            s += &format!("{}{}{}", l, code, r);
            if *n != 0 || how & 4 == 4 {
                s += &format!("[{}]", n);
            }
        }
        let t = TYPES.iter().find(|t| t.1 == x.ty).unwrap();
        s += &format!("{}:{}", if long { t.1 } else { t.0 }, x.name);
        if i + 1 < c.len() {
            s += match x.output.as_deref() {
                Some("err") => "[E]",
                Some("exit") => "[X]",
                _ if how & 4 == 4 => "[O]",
                _ => "",
            };
        }
    }
    s
}

/// One configuration written in one of many ways.
fn write_config(chains: &[Chain], decl: &Value, how: usize) -> (String, bool) {
    let mut conn: Vec<(String, Value)> = vec![];
    let keys = [["a", "b", "c", "d"], ["z", "y", "x", "w"], ["main", "main_1", "dyn_connection_1", "1"], ["k k", "K", "-", "junction_1"]][how % 4];
    for (i, c) in chains.iter().enumerate() {
        let k = keys[i % 4].to_string() + &"'".repeat(i / 4);
        match (how / 4) % 4 {
            0 => conn.push((k, json!(spell(&c.0, how / 16)))),
            1 => conn.push((k, to_json(&c.0))),
            2 => {
                for (j, (a, b)) in pairs(&c.0).into_iter().enumerate() {
                    conn.push((format!("{}_{}", k, j), json!(spell(&[a, b], how / 16))));
                }
            }
            _ => {
                for (j, (a, b)) in pairs(&c.0).into_iter().enumerate() {
                    let v = if (i + j) % 2 == 0 { json!(spell(&[a, b], how / 16)) } else { to_json(&[a, b]) };
                    conn.push((format!("{}{}", j, k), v));
                }
            }
        }
    }
    if how % 3 == 1 {
        conn.reverse();
    }
    let mut cfg = decl.clone();
    cfg["connection"] = Value::Object(conn.into_iter().collect());
    let json = (how / 2) % 2 == 0;
    let text = if json { cfg.to_string() } else { serde_yaml::to_string(&cfg).unwrap() };
    (text, json)
}

/// A string, written in one of the ways JSON (and YAML, for the flow styles) allows.
fn json_string(s: &str, style: usize) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '/' if style == 2 => Some("\\/"),
            _ => None,
        };
        let all = style == 1;
        match short {
            Some(x) if !all => r.push_str(x),
            _ if all || (c as u32) < 0x20 || (style == 2 && !c.is_ascii()) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    r.push_str(&if style == 1 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                }
            }
            _ => r.push(c),
        }
    }
    r.push('"');
    r
}
/// The same value: 0 compact, 1 all characters escaped, 2 ASCII only and indented with tabs,
/// 3 generous with space and CRLF, 4 members in reverse order.
fn json_text(v: &Value, style: usize, depth: usize) -> String {
    let (open, sep, close, colon) = match style {
        2 => {
            let nl = format!("\n{}", "\t".repeat(depth + 1));
            (nl.clone(), format!(",{}", nl), format!("\n{}", "\t".repeat(depth)), ": ".to_string())
        }
        3 => ("\r\n  ".to_string(), " , \r\n".to_string(), " \r\n".to_string(), " \t:\r\n ".to_string()),
        _ => (String::new(), ",".into(), String::new(), ":".into()),
    };
    match v {
        Value::String(s) => json_string(s, style),
        Value::Array(a) if a.is_empty() => "[]".into(),
        Value::Object(o) if o.is_empty() => "{}".into(),
        Value::Array(a) => {
            format!("[{}{}{}]", open, a.iter().map(|x| json_text(x, style, depth + 1)).collect::<Vec<_>>().join(&sep), close)
        }
        Value::Object(o) => {
            let mut m: Vec<String> =
                o.iter().map(|(k, x)| format!("{}{}{}", json_string(k, style), colon, json_text(x, style, depth + 1))).collect();
            if style == 4 {
                m.reverse();
            }
            format!("{{{}{}{}}}", open, m.join(&sep), close)
        }
        x => x.to_string(),
    }
}
/// The same value in YAML: 0 as the library prints it, 1 blocks with double quoted strings,
/// 2 blocks with single quoted strings where that is possible, 3 with anchors and explicit documents.
fn yaml_text(v: &Value, style: usize) -> String {
    fn s(x: &str, style: usize) -> String {
        let plain = x.chars().all(|c| c == '\u{e9}' || c == '\u{1F600}' || (' '..='~').contains(&c));
        if style == 2 && plain {
            return format!("'{}'", x.replace('\'', "''"));
        }
        let mut r = String::from("\"");
        for c in x.chars() {
            match c {
                '"' => r.push_str("\\\""),
                '\\' => r.push_str("\\\\"),
                '\n' => r.push_str("\\n"),
                ' '..='~' => r.push(c),
                c if (c as u32) < 0x100 => r.push_str(&format!("\\x{:02x}", c as u32)),
                c if (c as u32) < 0x10000 => r.push_str(&format!("\\u{:04x}", c as u32)),
                c => r.push_str(&format!("\\U{:08x}", c as u32)),
            }
        }
        r + "\""
    }
    fn block(v: &Value, style: usize, ind: usize) -> String {
        let pad = "  ".repeat(ind);
        match v {
            Value::Object(o) if !o.is_empty() => {
                o.iter().map(|(k, x)| format!("\n{}{}:{}", pad, s(k, style), block(x, style, ind + 1))).collect()
            }
            Value::Array(a) if !a.is_empty() && a.iter().all(|x| !x.is_array() && !x.is_object()) => {
                a.iter().map(|x| format!("\n{}-{}", pad, block(x, style, ind + 1))).collect()
            }
            Value::Array(_) => format!(" {}", flow(v, style)),
            Value::Object(_) => " {}".into(),
            Value::String(x) => format!(" {}", s(x, style)),
            x => format!(" {}", x),
        }
    }
    fn flow(v: &Value, style: usize) -> String {
        match v {
            Value::Array(a) => format!("[{}]", a.iter().map(|x| flow(x, style)).collect::<Vec<_>>().join(", ")),
            Value::Object(o) => {
                format!("{{{}}}", o.iter().map(|(k, x)| format!("{}: {}", s(k, style), flow(x, style))).collect::<Vec<_>>().join(", "))
            }
            Value::String(x) => s(x, style),
            x => x.to_string(),
        }
    }
    match style {
        0 => serde_yaml::to_string(v).unwrap(),
        3 => format!("%YAML 1.1\n---\n# a comment\n{} # another\n...\n", flow(v, 1)),
        _ => format!("# {}\n{}\n", style, block(v, style, 0)),
    }
}

/// Every value in every way of writing it means the same.
fn c24_values(ctx: &mut Ctx) {
    let values = [
        "x", "", "-", "a b", "\u{e9}\u{1F600}\"\\", "a/b", "\u{1F600}", "null", "1", "1.50", "0x10", "a: b", "#c", "a #c", "l1\nl2\n", "l\r\n", "\t", "'",
        "''", "{a}", "[", "true", "no", "~", "%", "&a", "*a", "!t", "@", "\u{1}", "\u{1b}[0m", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", " lead", "trail ",
        "\u{ffff}", "\u{10ffff}", "? q", "| x", "> x", "`", "2026-01-01", "<<", ".inf", "\\u0041", "\\n",
    ];
    let mut items: Vec<(String, Value, usize)> = vec![];
    for (i, v) in values.iter().enumerate() {
        let shapes = vec![
            json!({"launch": {"a": {"cmd": v}}, "connection": {"c": "l:a | d:d"}}),
            json!({"launch": {"a": {"cmd": "p", "arg": [v, "-", v], "env": {"N": v}, "path": v}}, "connection": {"c": "l:a | d:d"}}),
            json!({"faucet": {"f": {"source": v}}, "drain": {"d": {"destination": v}}, "connection": {"c": "f:f | d:d"}}),
            json!({"faucet": {*v: {"source": "s"}}, "launch": {*v: {"cmd": *v}}, "drain": {*v: {"destination": *v}}, "connection": {}}),
            json!({"launch": {"a": {"cmd": "p", "env": {*v: *v}}}, "regulator": {*v: {"buffered": [3, 70000], "monitored_buffers": [*v]}}, "connection": {}}),
        ];
        for (k, s) in shapes.into_iter().enumerate() {
            for how in 0..9usize {
                items.push((format!("value {} {} {}", i, k, how), s.clone(), how));
            }
        }
    }
    ctx.count("values_written", items.len());
    cases(ctx, &items, |i| i.0.clone(), |(_, v, how)| {
        let (text, fmt) = if *how < 5 { (json_text(v, *how, 0), "json") } else { (yaml_text(v, *how - 5), "yaml") };
        let r = pa2(&["config", "--config", "-", "--format", fmt, "manipulate"], Some(&text))?;
        let mut got = norm(&r.json().map_err(|e| format!("{} is not understood: {}", text, e))?);
        let mut want = norm(v);
        for x in [&mut got, &mut want] {
            x.as_object_mut().unwrap().remove("connection");
        }
        if v["connection"] == json!({"c": "f:f | d:d"}) || v["connection"] == json!({"c": "l:a | d:d"}) {
            let o = got.as_object_mut().unwrap();
            if want.get("drain").is_none() {
                o.remove("drain");
            }
        }
        if got != want {
            return Err(format!("{} in {} means {}, not {}", text, fmt, got, want));
        }
        Ok(())
    });
}

fn c24(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    c24_values(ctx);
    let sets: Vec<(&str, Vec<&str>)> = vec![
        ("line", vec!["f:f | l:a | d:d"]),
        ("long", vec!["f:f |F| j:j |C| b:b | l:a[O] | r:r | [2]j:k | d:d"]),
        ("ports", vec!["f:f | l:a | d:d", "l:a[E] | d:e", "l:a[X] | l:b | d:x"]),
        ("fan", vec!["f:f | l:a | d:d", "f:f |C| l:b | d:d", "f:f |F| d:e"]),
        ("merge", vec!["f:f | [1]j:j | d:d", "f:g | [-1]j:j"]),
        ("same", vec!["f:f | d:d", "f:f | d:d"]),
        ("diamond", vec!["f:f | j:s | l:a | j:t | d:d", "j:s | l:b | j:t"]),
        ("prio", vec!["f:f | [3]j:d", "f:g | [-3]j:d", "f:f | [0]l:a | [1]j:d | d:d"]),
    ];
    let decl = json!({
        "faucet": {"f": {"source": "in_f"}, "g": {"source": "in_g"}},
        "drain": {"d": {"destination": "out_d"}, "e": {"destination": "out_e"}, "x": {"destination": "out_x"}},
        "launch": {"a": {"cmd": "a"}, "b": {"cmd": "b", "arg": [], "env": {}}},
        "regulator": {"r": {"buffered": [1, 3], "monitored_buffers": []}},
    });
    let ways = 128;
    let mut items = vec![];
    for (n, set) in &sets {
        let chains: Vec<Chain> = set.iter().map(|s| Chain(recognise(s).unwrap())).collect();
        let used: BTreeSet<(String, String)> = chains.iter().flat_map(|c| c.0.iter().map(|x| (x.ty.clone(), x.name.clone()))).collect();
        let mut decl = decl.clone();
        for t in ["faucet", "drain", "launch", "regulator"] {
            let m: Map<String, Value> =
                decl[t].as_object().unwrap().iter().filter(|(k, _)| used.contains(&(t.to_string(), k.to_string()))).map(|(k, v)| (k.clone(), v.clone())).collect();
            decl[t] = Value::Object(m);
        }
        for how in 0..ways {
            items.push((n.to_string(), chains.clone(), decl.clone(), how));
        }
    }
    ctx.count("ways_of_writing", items.len());
    // what is drawn, and what the pairs are, does not depend on how it is written
    if ctx.collect.is_none() {
        let legend = graph_of("{}", "json", &["--legend-only"]).and_then(|d| legend_of(&d));
        match legend {
            Err(e) => ctx.case("legend", Err(e)),
            Ok(legend) => cases(ctx, &items, |i| format!("written {} {}", i.0, i.3), |(_, chains, decl, how)| {
                let (text, is_json) = write_config(chains, decl, *how);
                let fmt = if is_json { "json" } else { "yaml" };
                let r = pa2(&["config", "--config", "-", "--format", fmt, "manipulate"], Some(&text))?;
                let v = r.json()?;
                let mut got = vec![];
                for c in v["connection"].as_object().ok_or("no connections")?.values() {
                    let l = from_json(c)?;
                    if l.len() != 2 {
                        return Err(format!("not a pair: {}", c));
                    }
                    got.extend(pairs(&l));
                }
                got.sort();
                let mut want: Vec<(Comp, Comp)> = chains.iter().flat_map(|c| pairs(&c.0)).collect();
                want.sort();
                if got != want {
                    return Err(format!("{} becomes {:?}", text, got));
                }
                let mut rest = norm(&v);
                rest.as_object_mut().unwrap().remove("connection");
                if rest != norm(decl) {
                    return Err(format!("{} becomes {}", decl, rest));
                }
                // as one list of pairs, each in a group of its own: only the edges are compared
                let d = graph_of(&text, fmt, &["-d"])?;
                let d2 = graph_of(&r.out, "json", &["-d"])?;
                let l = graph_of(&r.out, "yaml", &[])?;
                let edges = |d: &Dot| {
                    let mut v: Vec<(String, String, String)> =
                        d.edges.iter().map(|e| (e.0.clone(), e.1.clone(), e.2.get("label").cloned().unwrap_or_default())).collect();
                    v.sort();
                    v
                };
                if edges(&d) != edges(&d2) || edges(&d) != edges(&l) {
                    return Err(format!("{} is drawn otherwise after manipulate", text));
                }
                let _ = &legend;
                // what was manipulated is fixed
                let again = pa2(&["config", "--config", "-", "--format", "json", "manipulate"], Some(&r.out))?.json()?;
                let mut g2 = vec![];
                for c in again["connection"].as_object().ok_or("no connections")?.values() {
                    g2.extend(pairs(&from_json(c)?));
                }
                g2.sort();
                if g2 != got {
                    return Err("manipulating again changes it".into());
                }
                Ok(())
            }),
        }
    }
    // and what happens is the same
    for (n, chains, decl, how) in &items {
        let (text, is_json) = write_config(chains, decl, *how);
        let flat: Vec<String> = chains.iter().map(|c| spell(&c.0, 0)).collect();
        let conns: Vec<&str> = flat.iter().map(|s| s.as_str()).collect();
        let t = Topo::new(&format!("run-{}-{}", n, how), &conns).lines(2);
        let mut s = t.scenario();
        s.config = text;
        s.json = is_json;
        s.seed = 1 + *how as u64;
        s.step_limit = 20_000;
        let status = n == "ports";
        let s = if status {
            s.judge(|o| {
                ended_ok(o)?;
                if o.out("out_d") != b"af1\naf2\n" || !o.out("out_e").is_empty() || o.out("out_x") != b"b0" {
                    return Err(format!("{:?}", o.outs));
                }
                Ok(())
            })
        } else {
            s.judge(t.judge_delivery())
        };
        if how % 8 == 0 || !q {
            ctx.around(&s, if q { 1 } else { 2 }, cap / 100);
        } else {
            let l = ctx.free();
            ctx.both(&s, &l);
        }
    }
}
