//! Conformance engine: walks the product of the specification's state graph (as emitted by TLC) and
//! the real code. Every specification edge is executed on the real contracts from every retained
//! implementation state of its source; acceptance must agree and the observations of the resulting
//! implementation state must equal the specification's.
use crate::obs::*;
use chain::store::{hash_overlay, Overlay};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

struct SState {
    c: usize,
    t: i64,
    init: bool,
    obs: Value,
}
struct SEdge {
    op: Value,
    ok: u8,
    to: usize,
}
#[derive(Default)]
struct Graph {
    ids: HashMap<(i64, i64), usize>,
    states: Vec<Option<SState>>,
    edges: Vec<Vec<SEdge>>,
    seen: HashMap<usize, std::collections::HashSet<String>>,
    cfgs: Vec<Value>,
    nedges: usize,
    /// observations compared, if not all
    only: Option<Vec<String>>,
}

impl Graph {
    fn id(&mut self, v: &Value) -> usize {
        let k = (v[0].as_i64().unwrap(), v[1].as_i64().unwrap());
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.states.len();
        self.ids.insert(k, i);
        self.states.push(None);
        self.edges.push(vec![]);
        i
    }
    fn load(&mut self, path: &str) -> Result<(), String> {
        let f = std::fs::File::open(path).map_err(|e| format!("{path}: {e}"))?;
        for line in std::io::BufReader::new(f).lines() {
            let line = line.map_err(|e| e.to_string())?;
            if !line.starts_with("\"{") {
                continue;
            }
            let mut v: Value = chain::json_line(&line).map_err(|e| format!("bad line {e}: {}", &line[..line.len().min(200)]))?;
            if v.get("C").is_some() {
                self.cfgs = v["C"].as_array().cloned().unwrap_or_default();
            } else if v.get("S").is_some() {
                let i = self.id(&v["S"]);
                let init = v["init"].as_bool().unwrap_or(false);
                if let (Some(o), Some(l)) = (v["obs"].as_object_mut(), &self.only) {
                    o.retain(|k, _| l.contains(k));
                }
                if self.states[i].is_none() {
                    self.states[i] = Some(SState { c: v["c"].as_u64().unwrap() as usize, t: v["t"].as_i64().unwrap_or(0), init, obs: v["obs"].take() });
                } else if init {
                    self.states[i].as_mut().unwrap().init = true;
                }
            } else if v.get("E").is_some() {
                let a = self.id(&v["E"]);
                let b = self.id(&v["F"]);
                let ok = match v["ok"].as_str() {
                    Some("y") => 1,
                    Some("n") => 0,
                    _ => 2,
                };
                let op = v["act"].take();
                if self.seen.entry(a).or_default().insert(op.to_string()) {
                    self.nedges += 1;
                    self.edges[a].push(SEdge { op, ok, to: b });
                }
            }
        }
        Ok(())
    }
}

struct Node {
    key: usize,
    over: Overlay,
    path: usize,
}

#[derive(Clone)]
struct Divergence {
    what: String,
    path: usize,
    op: Value,
    cfg: usize,
    exp: Value,
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("script") => script(&args[1]),
        _ => {
            eprintln!("usage: conformance run|replay|script");
            2
        }
    }
}

/// Executes a JSON list of operations on a configuration and prints results and observations.
fn script(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut sim = Sim::new();
    if let Err(e) = sim.build(&v["cfg"]) {
        println!("build failed: {e:#}");
        return 1;
    }
    let mut bad = 0;
    for op in v["ops"].as_array().cloned().unwrap_or_default() {
        if let Some(o) = op.get("obs") {
            let got = sim.observe(o.as_str().unwrap(), &op["exp"]);
            println!("obs {o} = {got}");
            if op["check"] != json!(false) && !matches(&op["exp"], &got) {
                println!("UNEXPECTED: {}", diff(o.as_str().unwrap(), &op["exp"], &got));
                bad = 1;
            }
            continue;
        }
        let snap = sim.store.snapshot();
        let r = sim.exec(&op);
        match &r {
            Ok(r) => println!("{op} -> ok {r}"),
            Err(e) => {
                sim.store.restore(&sim.w.base, &snap);
                println!("{op} -> refused: {e:#}")
            }
        }
        if let Some(w) = op["want"].as_str() {
            if (w == "ok") != r.is_ok() {
                println!("UNEXPECTED: wanted {w}");
                bad = 1;
            }
        }
    }
    bad
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut sim = Sim::new();
    if let Err(e) = sim.build(&v["cfg"]) {
        println!("build failed: {e:#}");
        return 1;
    }
    for st in v["steps"].as_array().cloned().unwrap_or_default() {
        match sim.exec(&st["op"]) {
            Ok(_) => println!("{} -> accepted (specification: {})", st["op"], st["ok"]),
            Err(e) => println!("{} -> refused (specification: {}): {e:#}", st["op"], st["ok"]),
        }
    }
    println!("divergence: {}", v["divergence"]);
    if let Some(o) = v["expected_obs"].as_object() {
        for (k, e) in o {
            let g = sim.observe(k, e);
            if !matches(e, &g) {
                println!("{}", diff(k, e, &g));
            }
        }
    }
    1
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn run(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let reps: usize = arg(args, "--reps").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = arg(args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let statsf = arg(args, "--stats").unwrap_or("stats.json".into());
    let replayf = arg(args, "--replay").unwrap_or("replay.json".into());
    let mut g = Graph::default();
    g.only = arg(args, "--keys").map(|k| k.split_whitespace().map(|s| s.to_string()).collect());
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--in" {
            if let Err(e) = g.load(&args[i + 1]) {
                eprintln!("HARNESS: {e}");
                return 2;
            }
            i += 1;
        }
        i += 1;
    }
    if g.cfgs.is_empty() || g.states.is_empty() {
        eprintln!("HARNESS: no specification states in the input");
        return 2;
    }
    g.seen.clear();
    let tload = t0.elapsed().as_secs_f64();

    // worlds
    let mut used: Vec<usize> = g.states.iter().flatten().filter(|s| s.init).map(|s| s.c).collect();
    used.sort();
    used.dedup();
    let worlds: Mutex<BTreeMap<usize, Result<World, String>>> = Mutex::new(BTreeMap::new());
    let nxt = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(used.len()) {
            sc.spawn(|| {
                let mut sim = Sim::new();
                loop {
                    let n = nxt.fetch_add(1, Ordering::SeqCst);
                    if n >= used.len() {
                        break;
                    }
                    let r = sim.build(&g.cfgs[used[n] - 1]).map_err(|e| format!("{e:#}"));
                    worlds.lock().unwrap().insert(used[n], r);
                }
            });
        }
    });
    let mut ws: BTreeMap<usize, World> = BTreeMap::new();
    let mut divs: Vec<Divergence> = vec![];
    for (c, r) in worlds.into_inner().unwrap() {
        match r {
            Ok(w) => {
                ws.insert(c, w);
            }
            Err(e) => divs.push(Divergence { what: format!("the initial DAO of the configuration could not be set up: {e}"), path: 0, op: Value::Null, cfg: c, exp: Value::Null }),
        }
    }
    let tworld = t0.elapsed().as_secs_f64();

    // paths[i] = (parent, from-state, edge index)
    let paths: Mutex<Vec<(usize, usize, usize)>> = Mutex::new(vec![(0, 0, usize::MAX)]);
    let seen: Mutex<HashMap<usize, Vec<u64>>> = Mutex::new(HashMap::new());
    let mut frontier: Vec<Node> = vec![];
    for (k, s) in g.states.iter().enumerate() {
        if let Some(s) = s {
            if s.init && ws.contains_key(&s.c) {
                frontier.push(Node { key: k, over: Overlay::new(), path: 0 });
                seen.lock().unwrap().insert(k, vec![hash_overlay(&Overlay::new())]);
            }
        }
    }
    let stop = AtomicBool::new(!divs.is_empty());
    let divm: Mutex<Vec<Divergence>> = Mutex::new(divs);
    let (execs, acc, rej, obsn) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let edges_done: Mutex<std::collections::HashSet<(usize, usize)>> = Mutex::new(Default::default());
    let opstat: Mutex<BTreeMap<String, (usize, usize)>> = Mutex::new(BTreeMap::new());
    let mut level = 0usize;
    let mut complete = true;
    let mut nodes_total = frontier.len();
    let check_init = AtomicUsize::new(0);

    // an operation that never ends without touching storage
    let busy: Arc<Mutex<HashMap<usize, (Instant, usize, Value)>>> = Arc::new(Mutex::new(HashMap::new()));
    {
        let busy = busy.clone();
        let replayf = replayf.clone();
        let statsf = statsf.clone();
        let cfgs = g.cfgs.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            for (t, cfg, op) in busy.lock().unwrap().values() {
                if t.elapsed().as_secs() > 120 {
                    let r = json!({"cfg": cfgs[*cfg - 1], "steps": [{"op": op, "ok": "see divergence"}], "divergence": "the operation does not come to an end", "expected_obs": null});
                    let _ = std::fs::write(&replayf, serde_json::to_vec_pretty(&r).unwrap());
                    let _ = std::fs::write(&statsf, serde_json::to_vec_pretty(&json!({"samples": [], "spec_states": 0, "spec_edges": 0, "spec_states_reached": 0, "spec_edges_executed": 0,
                        "impl_states": 0, "executions": 0, "accepted": 0, "refused": 0, "observations_compared": 0, "complete": false})).unwrap());
                    println!("DIVERGENCE: an operation does not come to an end");
                    println!("  operation: {op}");
                    std::process::exit(1);
                }
            }
        });
    }

    while !frontier.is_empty() && !stop.load(Ordering::SeqCst) {
        let next: Mutex<Vec<Node>> = Mutex::new(vec![]);
        let idx = AtomicUsize::new(0);
        let timeout = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for slot in 0..threads.min(frontier.len()) {
                let (g, frontier, ws, idx, stop, timeout, divm, seen, paths, next) = (&g, &frontier, &ws, &idx, &stop, &timeout, &divm, &seen, &paths, &next);
                let (execs, acc, rej, obsn, edges_done, opstat, check_init, busy) = (&execs, &acc, &rej, &obsn, &edges_done, &opstat, &check_init, &busy);
                sc.spawn(move || {
                    let mut sim = Sim::new();
                    let mut cur = 0usize;
                    let mut local: BTreeMap<String, (usize, usize)> = BTreeMap::new();
                    let mut done: Vec<(usize, usize)> = vec![];
                    loop {
                        let n = idx.fetch_add(1, Ordering::SeqCst);
                        if n >= frontier.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > budget {
                            timeout.store(true, Ordering::SeqCst);
                            break;
                        }
                        let node = &frontier[n];
                        let st = match &g.states[node.key] {
                            Some(s) => s,
                            None => continue,
                        };
                        let c = st.c;
                        if c != cur {
                            sim.w = ws[&c].clone();
                            set_unit_of(&g.cfgs[c - 1]);
                            cur = c;
                        }
                        let base = sim.w.base.clone();
                        let fail = |what: String, op: &Value, exp: &Value| {
                            divm.lock().unwrap().push(Divergence { what, path: node.path, op: op.clone(), cfg: c, exp: exp.clone() });
                            stop.store(true, Ordering::SeqCst);
                        };
                        if level == 0 {
                            sim.store.restore(&base, &node.over);
                            sim.app.set_block(block(st.t));
                            if let Some(d) = compare(&sim, &st.obs, obsn) {
                                fail(format!("initial state: {d}"), &Value::Null, &st.obs);
                                break;
                            }
                            check_init.fetch_add(1, Ordering::SeqCst);
                        }
                        for (ei, e) in g.edges[node.key].iter().enumerate() {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            sim.store.restore(&base, &node.over);
                            sim.app.set_block(block(st.t));
                            busy.lock().unwrap().insert(slot, (Instant::now(), c, e.op.clone()));
                            let r = sim.exec(&e.op);
                            execs.fetch_add(1, Ordering::SeqCst);
                            done.push((node.key, ei));
                            let ls = local.entry(vstr(&e.op["op"])).or_default();
                            match &r {
                                Ok(_) => {
                                    ls.0 += 1;
                                    acc.fetch_add(1, Ordering::SeqCst);
                                }
                                Err(_) => {
                                    ls.1 += 1;
                                    rej.fetch_add(1, Ordering::SeqCst);
                                }
                            }
                            match (e.ok, &r) {
                                (1, Err(err)) => {
                                    fail(format!("the specification accepts this operation but the code refuses it: {err:#}"), &e.op, &Value::Null);
                                    break;
                                }
                                (0, Ok(_)) => {
                                    fail("the specification refuses this operation but the code accepts it".into(), &e.op, &Value::Null);
                                    break;
                                }
                                _ => {}
                            }
                            if e.ok == 0 {
                                continue;
                            }
                            let over = sim.store.snapshot();
                            let h = hash_overlay(&over);
                            let fresh = {
                                let mut s = seen.lock().unwrap();
                                let v = s.entry(e.to).or_default();
                                if v.contains(&h) {
                                    0
                                } else if v.len() >= reps {
                                    1
                                } else {
                                    v.push(h);
                                    2
                                }
                            };
                            if fresh == 0 {
                                continue;
                            }
                            let to = match &g.states[e.to] {
                                Some(s) => s,
                                None => continue, // beyond the explored bound
                            };
                            if let Some(d) = compare(&sim, &to.obs, obsn) {
                                fail(d, &e.op, &to.obs);
                                break;
                            }
                            if fresh == 2 {
                                let p = {
                                    let mut ps = paths.lock().unwrap();
                                    ps.push((node.path, node.key, ei));
                                    ps.len() - 1
                                };
                                next.lock().unwrap().push(Node { key: e.to, over, path: p });
                            }
                        }
                    }
                    busy.lock().unwrap().remove(&slot);
                    let mut os = opstat.lock().unwrap();
                    for (k, v) in local {
                        let e = os.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    edges_done.lock().unwrap().extend(done);
                });
            }
        });
        frontier = next.into_inner().unwrap();
        nodes_total += frontier.len();
        level += 1;
        if timeout.load(Ordering::SeqCst) {
            complete = false;
            break;
        }
    }
    let divs = divm.into_inner().unwrap();
    let paths = paths.into_inner().unwrap();
    let cov = seen.into_inner().unwrap();
    let ed = edges_done.into_inner().unwrap();
    // the longest and a middle history of this run, written out
    let mut samples = vec![];
    for i in [paths.len().saturating_sub(1), paths.len() / 2] {
        let mut p = i;
        let mut h = vec![];
        while p != 0 {
            let (par, from, ei) = paths[p];
            h.push(g.edges[from][ei].op.clone());
            p = par;
        }
        h.reverse();
        if !h.is_empty() {
            samples.push(json!({"history": h}));
        }
    }
    let stats = json!({"samples": samples,
        "spec_states": g.states.iter().flatten().count(), "spec_edges": g.nedges,
        "spec_states_reached": cov.keys().filter(|k| g.states[**k].is_some()).count(), "spec_edges_executed": ed.len(),
        "impl_states": nodes_total, "executions": execs.into_inner(), "accepted": acc.into_inner(), "refused": rej.into_inner(),
        "observations_compared": obsn.into_inner(), "levels": level, "complete": complete, "reps": reps,
        "ops": opstat.into_inner().unwrap().into_iter().map(|(k, v)| (k, json!({"accepted": v.0, "refused": v.1}))).collect::<serde_json::Map<_, _>>(),
        "load_s": tload, "world_s": tworld - tload, "wall_s": t0.elapsed().as_secs_f64(), "divergences": divs.len(),
    });
    std::fs::write(&statsf, serde_json::to_vec_pretty(&stats).unwrap()).unwrap();
    let mut brief = stats.clone();
    brief.as_object_mut().unwrap().remove("samples");
    println!("conformance: {brief}");
    if divs.is_empty() {
        return 0;
    }
    // report the divergence with the shortest history
    let chain = |d: &Divergence| {
        let mut steps = vec![];
        let mut p = d.path;
        while p != 0 {
            let (par, from, ei) = paths[p];
            let e = &g.edges[from][ei];
            steps.push(json!({"op": e.op, "ok": (["n", "y", "any"][e.ok as usize])}));
            p = par;
        }
        steps.reverse();
        steps
    };
    let best = divs.iter().min_by_key(|d| chain(d).len()).unwrap();
    let mut steps = chain(best);
    if !best.op.is_null() {
        steps.push(json!({"op": best.op, "ok": if best.exp.is_null() { "see divergence" } else { "y" }}));
    }
    let r = json!({"cfg": g.cfgs[best.cfg - 1], "steps": steps, "divergence": best.what, "expected_obs": best.exp});
    std::fs::write(&replayf, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    println!("DIVERGENCE: {}", best.what);
    println!("  after: {}", json!(steps.iter().map(|s| s["op"].clone()).collect::<Vec<_>>()));
    1
}

fn compare(sim: &Sim, exp: &Value, n: &AtomicUsize) -> Option<String> {
    for (k, e) in exp.as_object()? {
        n.fetch_add(1, Ordering::SeqCst);
        let g = sim.observe(k, e);
        if !matches(e, &g) {
            return Some(diff(k, e, &g));
        }
    }
    None
}
