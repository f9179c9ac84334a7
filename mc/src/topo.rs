//! Pipelines described by their connection strings; everything else is derived from them.
use crate::scn::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node(pub char, pub String);

#[derive(Clone, Debug)]
pub struct Edge {
    pub src: Node,
    pub port: char,
    pub closure: Option<char>,
    pub prio: Option<i64>,
    pub dst: Node,
}

#[derive(Clone)]
pub struct Topo {
    pub name: String,
    pub conns: Vec<String>,
    /// content of what a faucet reads (default "<name>1\n<name>2\n")
    pub input: BTreeMap<String, Vec<u8>>,
    pub source: BTreeMap<String, String>,
    pub dest: BTreeMap<String, String>,
    pub progs: BTreeMap<String, Vec<Op>>,
    pub regs: BTreeMap<String, (usize, usize, Vec<String>)>,
    pub launch_extra: BTreeMap<String, String>,
    pub lines: usize,
    pub shared_cmd: Option<String>,
}

fn letter(t: &str) -> char {
    t.chars().next().unwrap_or('?')
}

impl Topo {
    pub fn new(name: &str, conns: &[&str]) -> Topo {
        Topo {
            name: name.to_string(),
            conns: conns.iter().map(|s| s.to_string()).collect(),
            input: BTreeMap::new(),
            source: BTreeMap::new(),
            dest: BTreeMap::new(),
            progs: BTreeMap::new(),
            regs: BTreeMap::new(),
            launch_extra: BTreeMap::new(),
            lines: 2,
            shared_cmd: None,
        }
    }
    pub fn lines(mut self, n: usize) -> Self {
        self.lines = n;
        self
    }
    pub fn input(mut self, f: &str, b: &[u8]) -> Self {
        self.input.insert(f.into(), b.to_vec());
        self
    }
    pub fn source(mut self, f: &str, s: &str) -> Self {
        self.source.insert(f.into(), s.into());
        self
    }
    pub fn dest(mut self, f: &str, s: &str) -> Self {
        self.dest.insert(f.into(), s.into());
        self
    }
    pub fn prog(mut self, l: &str, ops: Vec<Op>) -> Self {
        self.progs.insert(l.into(), ops);
        self
    }
    pub fn reg(mut self, r: &str, lo: usize, hi: usize, bufs: &[&str]) -> Self {
        self.regs.insert(r.into(), (lo, hi, bufs.iter().map(|s| s.to_string()).collect()));
        self
    }
    pub fn launch_extra(mut self, l: &str, yaml: &str) -> Self {
        self.launch_extra.insert(l.into(), yaml.into());
        self
    }

    pub fn edges(&self) -> Vec<Edge> {
        let mut v = vec![];
        for c in &self.conns {
            // tokens: component, pipe, component, ...
            let mut comps: Vec<(Node, char, Option<i64>)> = vec![];
            let mut pipes: Vec<Option<char>> = vec![];
            let norm = c.replace("|T|", " |T ").replace("|F|", " |F ").replace("|C|", " |C ").replace('|', " |");
            for t in norm.replace("| ", "|_ ").split_whitespace() {
                if let Some(r) = t.strip_prefix('|') {
                    pipes.push(r.chars().next().filter(|c| *c != '_'));
                    continue;
                }
                let mut t = t;
                let mut prio = None;
                if let Some(r) = t.strip_prefix('[') {
                    let (p, r) = r.split_once(']').unwrap();
                    prio = p.parse().ok();
                    t = r;
                }
                let mut port = 'O';
                if let Some((a, p)) = t.split_once('[') {
                    port = p.chars().next().unwrap();
                    t = a;
                }
                let (ty, n) = t.split_once(':').unwrap();
                comps.push((Node(letter(ty), n.to_string()), port, prio));
            }
            assert_eq!(comps.len(), pipes.len() + 1, "bad connection {}", c);
            for i in 0..pipes.len() {
                v.push(Edge {
                    src: comps[i].0.clone(),
                    port: comps[i].1,
                    closure: pipes[i],
                    prio: comps[i + 1].2,
                    dst: comps[i + 1].0.clone(),
                });
            }
        }
        v
    }
    pub fn nodes(&self) -> BTreeSet<Node> {
        let mut s = BTreeSet::new();
        for e in self.edges() {
            s.insert(e.src);
            s.insert(e.dst);
        }
        s
    }
    pub fn names(&self, ty: char) -> Vec<String> {
        self.nodes().into_iter().filter(|n| n.0 == ty).map(|n| n.1).collect()
    }
    pub fn content(&self, f: &str) -> Vec<u8> {
        self.input.get(f).cloned().unwrap_or_else(|| {
            (1..=self.lines).map(|i| format!("{}{}\n", f, i)).collect::<String>().into_bytes()
        })
    }
    /// where the bytes of a drain end up
    pub fn dest_of(&self, d: &str) -> String {
        match self.dest.get(d).map(|s| s.as_str()) {
            None => format!("out_{}", d),
            Some("-") => "<stdout>".into(),
            Some("_") => "<stderr>".into(),
            Some(x) => x.to_string(),
        }
    }
    pub fn config(&self) -> String {
        let mut s = String::new();
        let q = |x: &str| serde_json::to_string(x).unwrap();
        let sec = |name: &str, v: Vec<String>| {
            if v.is_empty() {
                String::new()
            } else {
                format!("{}:\n{}", name, v.concat())
            }
        };
        s += &sec(
            "faucet",
            self.names('f')
                .iter()
                .map(|n| {
                    format!("  {}: {{source: {}}}\n", n, q(self.source.get(n).unwrap_or(&format!("in_{}", n))))
                })
                .collect(),
        );
        s += &sec(
            "launch",
            self.names('l')
                .iter()
                .map(|n| {
                    let e = self.launch_extra.get(n).map(|e| format!(", {}", e)).unwrap_or_default();
                    let cmd = self.shared_cmd.clone().unwrap_or_else(|| n.clone());
                    format!("  {}: {{cmd: {}{}}}\n", n, q(&cmd), e)
                })
                .collect(),
        );
        s += &sec(
            "regulator",
            self.names('r')
                .iter()
                .filter_map(|n| {
                    let (lo, hi, b) = self.regs.get(n)?;
                    Some(format!("  {}: {{buffered: [{}, {}], monitored_buffers: [{}]}}\n", n, lo, hi, b.join(", ")))
                })
                .collect(),
        );
        s += &sec(
            "drain",
            self.names('d')
                .iter()
                .map(|n| {
                    format!("  {}: {{destination: {}}}\n", n, q(self.dest.get(n).unwrap_or(&format!("out_{}", n))))
                })
                .collect(),
        );
        s += &sec(
            "connection",
            self.conns.iter().enumerate().map(|(i, c)| format!("  c{}: {}\n", i, q(c))).collect(),
        );
        s
    }
    pub fn scenario(&self) -> Scenario {
        let mut s = Scenario::new(&self.name, &self.config());
        for f in self.names('f') {
            match self.source.get(&f).map(|s| s.as_str()) {
                Some("-") => s = s.feed(vec![Op::Out(self.content(&f))]),
                Some(x) => s = s.file(x, &self.content(&f)),
                None => s = s.file(&format!("in_{}", f), &self.content(&f)),
            }
        }
        for l in self.names('l') {
            if self.shared_cmd.is_none() {
                s = s.prog(&l, self.progs.get(&l).cloned().unwrap_or_else(|| cat(&l)));
            }
        }
        s
    }

    /// What each path from a faucet to the drain carries when every program prefixes the lines with
    /// its name: the drain must show an interleaving of these.
    pub fn streams(&self, drain: &str) -> Vec<Vec<Vec<u8>>> {
        let edges = self.edges();
        fn up(t: &Topo, edges: &[Edge], n: &Node) -> Vec<Vec<Vec<u8>>> {
            let mut v = vec![];
            if n.0 == 'f' {
                v.push(split_lines(&t.content(&n.1)));
                return v;
            }
            for e in edges.iter().filter(|e| e.dst == *n) {
                for st in up(t, edges, &e.src) {
                    let st = if e.src.0 == 'l' {
                        st.into_iter()
                            .map(|l| {
                                let mut x = e.src.1.clone().into_bytes();
                                x.extend_from_slice(&l);
                                x
                            })
                            .collect()
                    } else {
                        st
                    };
                    v.push(st);
                }
            }
            v
        }
        up(self, &edges, &Node('d', drain.to_string()))
    }

    /// The run ended well and every drain shows an interleaving of its streams.
    pub fn judge_delivery(&self) -> impl Fn(&Outcome) -> Result<(), String> + Send + Sync + 'static {
        let want: Vec<(String, Vec<Vec<Vec<u8>>>)> =
            self.names('d').iter().map(|d| (self.dest_of(d), self.streams(d))).collect();
        move |o: &Outcome| {
            ended_ok(o)?;
            for (d, streams) in &want {
                if d == "/dev/null" {
                    continue;
                }
                is_interleaving(o.out(d), streams).map_err(|e| format!("{}: {}", d, e))?;
            }
            Ok(())
        }
    }
}

pub fn ended_ok(o: &Outcome) -> Result<(), String> {
    match &o.end {
        End::Ok(_) => Ok(()),
        End::Stuck(v) => Err(format!("stuck: {}", v.join("; "))),
        End::StepLimit => Err("never ends (step limit reached)".into()),
        x => Err(format!("ended with {:?}", x)),
    }
}
pub fn terminated(o: &Outcome) -> Result<(), String> {
    match &o.end {
        End::Ok(_) | End::Errors(_) => Ok(()),
        End::Stuck(v) => Err(format!("stuck: {}", v.join("; "))),
        End::StepLimit => Err("never ends (step limit reached)".into()),
        x => Err(format!("ended with {:?}", x)),
    }
}

pub fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|s| s.to_vec()).collect()
}

pub fn show(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).escape_debug().to_string();
    if s.len() > 200 {
        format!("{}... ({} bytes)", &s.chars().take(200).collect::<String>(), b.len())
    } else {
        s
    }
}

/// Is `got` the concatenation of an interleaving of these message sequences?
pub fn is_interleaving(got: &[u8], streams: &[Vec<Vec<u8>>]) -> Result<(), String> {
    let total: usize = streams.iter().flatten().map(|m| m.len()).sum();
    let fail = || {
        Err(format!(
            "\"{}\" is not an interleaving of {:?}",
            show(got),
            streams.iter().map(|s| show(&s.concat())).collect::<Vec<_>>()
        ))
    };
    if got.len() != total {
        return fail();
    }
    if streams.len() == 1 {
        return if got == streams[0].concat() { Ok(()) } else { fail() };
    }
    fn go(got: &[u8], st: &[Vec<Vec<u8>>], pos: &mut Vec<usize>, off: usize, dead: &mut HashSet<Vec<usize>>) -> bool {
        if off == got.len() && pos.iter().zip(st).all(|(p, s)| s[*p..].iter().all(|m| m.is_empty())) {
            return true;
        }
        if dead.contains(pos) {
            return false;
        }
        for i in 0..st.len() {
            if pos[i] < st[i].len() {
                let m = &st[i][pos[i]];
                if got[off..].starts_with(m) {
                    pos[i] += 1;
                    if go(got, st, pos, off + m.len(), dead) {
                        return true;
                    }
                    pos[i] -= 1;
                }
            }
        }
        dead.insert(pos.clone());
        false
    }
    if go(got, streams, &mut vec![0; streams.len()], 0, &mut HashSet::new()) {
        Ok(())
    } else {
        fail()
    }
}

/// Every line of `got` is one of the allowed messages, each at most as often as it was sent.
pub fn is_submultiset(got: &[u8], sent: &[Vec<u8>]) -> Result<(), String> {
    let mut left: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for m in sent {
        *left.entry(m.clone()).or_insert(0) += 1;
    }
    for l in split_lines(got) {
        match left.get_mut(&l) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return Err(format!("\"{}\" was not sent (that often); all: \"{}\"", show(&l), show(got))),
        }
    }
    Ok(())
}
