//! C25: what somebody who watches a pipeline (the library's spy) is told.
use super::flow::*;
use super::term::shapes;
use super::Prop;
use crate::explore::prepare_here;
use crate::harness::*;
use crate::scn::*;
use crate::topo::*;
use pipeawesome2::config::{Connection, DeserializedConnection};
use pipeawesome2::connectable::OutputPort;
use pipeawesome2::motion::{IOData, IODataWrapper, SpyMessage};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", run: c25 }]
}

fn port(p: &OutputPort) -> &'static str {
    match p {
        OutputPort::Out => "O",
        OutputPort::Err => "E",
        OutputPort::Exit => "X",
    }
}

/// The pipeline of `t`, watched over a channel of this capacity (0: unbounded), beginning when
/// nothing else can move (`late`), or by somebody who leaves after some messages.
fn watched(t: &Topo, cap: usize, late: bool, leaves: Option<usize>) -> Scenario {
    let text = t.config();
    let mut s = t.scenario();
    s.name = format!("{}/spy{}{}{}", t.name, cap, if late { "-late" } else { "" }, leaves.map(|k| format!("-leaves{}", k)).unwrap_or_default());
    let t2 = t.clone();
    let deliver = t.judge_delivery();
    let ports = t.conns.iter().any(|c| c.contains("[X]") || c.contains("[E]"));
    s.main(Arc::new(move |end, notes| {
        let text = text.clone();
        Box::pin(async move {
            let cfg = prepare_here(&text, false).unwrap();
            // the connections as pa2 makes them: "E <source> <port> <destination>"
            for d in cfg.connection.values() {
                let DeserializedConnection::Connections(v) = d else { continue };
                let mut last: Option<(String, &'static str)> = None;
                for c in v {
                    let (me, o) = match c {
                        Connection::StartConnection { component_type, component_name, output_port, .. }
                        | Connection::MiddleConnection { component_type, component_name, output_port, .. } => {
                            (format!("{}:{}", component_type, component_name), Some(port(output_port)))
                        }
                        Connection::EndConnection { component_type, component_name, .. } => {
                            (format!("{}:{}", component_type, component_name), None)
                        }
                    };
                    if let Some((l, p)) = last {
                        notes.borrow_mut().push(format!("E {} {} {}", l, p, me));
                    }
                    last = o.map(|o| (me, o));
                }
            }
            let mut waiter = match pipeawesome2::waiter::get_waiter(cfg) {
                Ok(w) => w,
                Err(e) => {
                    *end.borrow_mut() = Some(End::Refused(e));
                    return;
                }
            };
            let names = waiter.get_id_to_component_type_name().unwrap();
            let (tx, rx) = match cap {
                0 => async_std::channel::unbounded::<SpyMessage>(),
                n => async_std::channel::bounded(n),
            };
            let (notes2, names2) = (notes.clone(), names.clone());
            let spy = async_std::task::spawn_local(async move {
                if late {
                    async_std::task::sleep(std::time::Duration::from_millis(3000)).await;
                }
                let mut n = 0;
                while Some(n) != leaves {
                    let Ok(m) = rx.recv().await else { break };
                    n += 1;
                    let name = |i: &usize| names2.get(i).map(|x| format!("{}:{}", x.0, x.1)).unwrap_or("nobody".into());
                    let (k, b) = match &m.msg {
                        IODataWrapper::IOData(IOData(v)) => ("M", String::from_utf8_lossy(v).to_string()),
                        IODataWrapper::Finished => ("F", String::new()),
                        IODataWrapper::Skipped => ("S", String::new()),
                    };
                    notes2.borrow_mut().push(format!("{} {} {} {} {}", k, name(&m.src), port(&m.src_port), name(&m.dst), b));
                }
            });
            let r = waiter.start(Some(tx)).await;
            drop(waiter);
            spy.await;
            *end.borrow_mut() = Some(match r {
                Ok(n) => End::Ok(n),
                Err(es) => End::Errors(
                    es.into_iter().map(|e| pipeawesome2::bin_support::waiter_error_to_string(e, &names)).collect(),
                ),
            });
        })
    }))
    .judge(move |o| {
        if leaves.is_some() {
            return terminated(o);
        }
        if ports {
            ended_ok(o)?;
        } else {
            deliver(o)?;
        }
        told(&t2, o)
    })
}

/// Everything said is so, and nothing is left unsaid: what went in at each component and what came
/// out of it fit together, and fit the files.
fn told(t: &Topo, o: &Outcome) -> Result<(), String> {
    let mut edges: BTreeMap<(String, String, String), Vec<Vec<u8>>> = BTreeMap::new();
    let mut ended: BTreeSet<(String, String, String)> = BTreeSet::new();
    for n in &o.notes {
        let f: Vec<&str> = n.splitn(if n.starts_with('E') { 4 } else { 5 }, ' ').collect();
        let k = (f[1].to_string(), f[2].to_string(), f[3].to_string());
        match f[0] {
            "E" => {
                edges.entry(k).or_default();
            }
            "M" => {
                if ended.contains(&k) && !k.0.starts_with("Junction") {
                    return Err(format!("after its end there came {:?}", n));
                }
                edges.get_mut(&k).ok_or(format!("told of a connection which does not exist: {}", n))?.push(f[4].as_bytes().to_vec())
            }
            "F" => {
                ended.insert(k);
            }
            _ => return Err(format!("told of nothing: {}", n)),
        }
    }
    let nodes: BTreeSet<String> = edges.keys().flat_map(|e| [e.0.clone(), e.2.clone()]).collect();
    for n in &nodes {
        let (ty, name) = n.split_once(':').unwrap();
        let ins: Vec<&Vec<Vec<u8>>> = edges.iter().filter(|e| e.0 .2 == *n).map(|e| e.1).collect();
        let outs: Vec<(&str, &Vec<Vec<u8>>)> = edges.iter().filter(|e| e.0 .0 == *n).map(|e| (e.0 .1.as_str(), e.1)).collect();
        let first = ins.first().map(|v| (*v).clone()).unwrap_or_default();
        for (p, got) in &outs {
            let want: Vec<Vec<u8>> = match (ty, *p) {
                ("Faucet", _) => split_lines(&t.content(name)),
                ("Launch", "O") => first.iter().map(|l| [name.as_bytes(), l].concat()).collect(),
                ("Launch", "X") => vec![b"0".to_vec()],
                ("Launch", _) => vec![],
                ("Junction", _) => {
                    if outs.iter().any(|x| x.1 != *got) {
                        return Err(format!("the outputs of {} are told to differ: {:?}", n, outs));
                    }
                    let ins: Vec<Vec<Vec<u8>>> = ins.iter().map(|v| (*v).clone()).collect();
                    is_interleaving(&got.concat(), &ins).map_err(|e| format!("told about {}: {}", n, e))?;
                    continue;
                }
                _ => first.clone(),
            };
            if **got != want {
                return Err(format!("told about {} [{}]: {:?}, it was {:?}", n, p, show(&got.concat()), show(&want.concat())));
            }
        }
        if ty == "Drain" && !name.starts_with("dyn_drain") {
            let d = t.dest_of(name);
            if d != "/dev/null" && o.out(&d) != first.concat() {
                return Err(format!("told that {:?} went to {}, which has {:?}", show(&first.concat()), d, show(o.out(&d))));
            }
        }
    }
    Ok(())
}

fn c25(ctx: &mut Ctx) {
    let q = ctx.quick();
    let cap = cap(ctx);
    let mut tops: Vec<(String, Vec<String>)> = vec![];
    for ks in chains(if q { 2 } else { 3 }, &["l", "j", "b"]) {
        let mid: String = ks.iter().enumerate().map(|(i, k)| format!("{}:m{} | ", k, i)).collect();
        tops.push((format!("chain-{}", ks.concat()), vec![format!("f:f | {}d:d", mid)]));
    }
    for (n, c) in shapes() {
        tops.push((n.to_string(), c.iter().map(|s| s.to_string()).collect()));
    }
    for (n, c) in [
        ("exit", vec!["f:f | l:a[X] | d:d"]),
        ("ports", vec!["f:f | l:a[O] | d:d", "l:a[E] | d:e", "l:a[X] | d:g"]),
        ("implicit-both", vec!["f:f | d:d", "f:g | d:d", "f:f | d:e", "f:g | d:e"]),
        ("F", vec!["f:f |F| j:j |F| l:a |F| d:d", "j:j |C| d:e"]),
        ("prio", vec!["f:f | [3]j:j | b:b | d:d", "f:g | [-3]j:j"]),
    ] {
        tops.push((n.to_string(), c.iter().map(|s| s.to_string()).collect()));
    }
    for (n, c) in &tops {
        let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        for lines in [0usize, 1, 2, 25] {
            let mut t = Topo::new(&format!("{}-{}", n, lines), &c).lines(lines);
            if c.iter().any(|c| c.contains("r:r")) {
                t = t.reg("r", 1, 4, &["b"]);
            }
            for (sc, late, leaves) in
                [(0usize, false, None), (1, false, None), (3, false, None), (1, true, None), (1, false, Some(0)), (1, false, Some(3)), (0, false, Some(2))]
            {
                let mut s = watched(&t, sc, late, leaves).cap(4096);
                s.step_limit = 60_000;
                if lines < 3 && !late && sc < 3 {
                    if lines < 2 {
                        ctx.deep(&s, cap / 20);
                    } else {
                        ctx.around(&s, 2, cap / 20);
                    }
                }
                s.name = format!("{}/free", s.name);
                s.step_limit = 600_000;
                let l = ctx.free();
                ctx.explore(&s, &l);
            }
        }
    }
}
