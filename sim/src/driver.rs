//! Seeded search over simulated runs, minimisation, replay files and evidence.
use crate::props::Prop;
use crate::run::{run_forked, Case, Outcome, Violation};
use serde_json::{json, Value};
use simos::prng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub fn root() -> String {
    std::env::var("VERIF").unwrap_or_else(|_| {
        let p = std::env::current_exe().unwrap();
        p.ancestors().nth(4).unwrap().to_string_lossy().into_owned()
    })
}
fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn case_for(p: &Prop, i: u64, tier: &str) -> Case {
    let mut h = 0u64;
    for b in p.id.bytes() {
        h = mix(h, b as u64);
    }
    let seed = mix(mix(base_seed(), h), i) >> 12; // exactly representable everywhere
    let mut r = Rng::new(mix(seed, 0x9e4));
    let spec = (p.gen)(&mut r, i, tier);
    Case { property: p.id.into(), seed, spec, faults: None, schedule: None }
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    feats: BTreeMap<String, u64>,
    ops: u64,
    points: u64,
    switches: u64,
    sim_ns: u128,
    faulted_runs: u64,
    viol: Vec<(u64, Vec<Violation>)>,
    harness: Vec<(u64, String)>,
    max_i: u64,
}
struct Known {
    property: String,
    key: String,
    what: String,
}
fn known() -> Vec<Known> {
    let p = format!("{}/known_findings.json", root());
    let v: Value = std::fs::read(&p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({}));
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|k| Known { property: k["property"].as_str().unwrap_or("").into(), key: k["key"].as_str().unwrap_or("").into(), what: k["what"].as_str().unwrap_or("").into() })
        .collect()
}
fn cpus() -> usize {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).max(1)
}
fn worker(p: &Prop, w: u64, n_workers: u64, total: u64, deadline: Instant, tier: &str, fd: i32) {
    let mut i = w;
    while i < total && Instant::now() < deadline {
        let case = case_for(p, i, tier);
        let o = run_forked(&case, p.run, false);
        let shape = hash_str(&case.spec.to_string());
        let line = json!({"i": i, "v": o.violations, "t": o.trace, "s": shape, "c": o.counts, "f": o.feats, "o": o.ops, "p": o.points, "n": o.sim_ns as u64, "x": o.schedule.iter().map(|s| s.len() as u64).sum::<u64>(), "nf": o.faults.len(), "nt": o.nontrivial, "h": o.harness});
        if !simos::raw::write_all(fd, format!("{}\n", line).as_bytes()) {
            break;
        }
        i += n_workers;
    }
}
fn search(p: &Prop, tier: &str, total: u64, secs: u64, known: &[Known]) -> Agg {
    let n = cpus();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..n {
        unsafe {
            let mut f = [0i32; 2];
            assert_eq!(libc::pipe(f.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(f[0]);
                worker(p, w as u64, n as u64, total, deadline, tier, f[1]);
                simos::raw::exit_now(0);
            }
            libc::close(f[1]);
            pipes.push((f[0], Vec::<u8>::new(), true));
            pids.push(pid);
        }
    }
    let mut a = Agg::default();
    let mut stop = false;
    while pipes.iter().any(|x| x.2) && !stop {
        let mut pf: Vec<libc::pollfd> = pipes.iter().map(|x| libc::pollfd { fd: if x.2 { x.0 } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, 1000) };
        for (k, f) in pf.iter().enumerate() {
            if f.revents == 0 || f.fd < 0 {
                continue;
            }
            let mut tmp = [0u8; 65536];
            let r = unsafe { libc::read(f.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if r <= 0 {
                pipes[k].2 = false;
                continue;
            }
            pipes[k].1.extend_from_slice(&tmp[..r as usize]);
            while let Some(e) = pipes[k].1.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = pipes[k].1.drain(..=e).collect();
                let Ok(v) = serde_json::from_slice::<Value>(&l) else { continue };
                a.runs += 1;
                let i = v["i"].as_u64().unwrap_or(0);
                a.max_i = a.max_i.max(i);
                let t = mix(v["t"].as_u64().unwrap_or(0), v["s"].as_u64().unwrap_or(0));
                a.traces.insert(t);
                if v["nt"] == json!(true) {
                    a.nontrivial.insert(t);
                }
                if let Some(c) = v["c"].as_object() {
                    for (k, n) in c {
                        *a.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                }
                for f in v["f"].as_array().into_iter().flatten() {
                    *a.feats.entry(f.as_str().unwrap_or("").into()).or_insert(0) += 1;
                }
                a.ops += v["o"].as_u64().unwrap_or(0);
                a.points += v["p"].as_u64().unwrap_or(0);
                a.switches += v["x"].as_u64().unwrap_or(0);
                a.sim_ns += v["n"].as_u64().unwrap_or(0) as u128;
                if v["nf"].as_u64().unwrap_or(0) > 0 {
                    a.faulted_runs += 1;
                }
                if let Some(h) = v["h"].as_str() {
                    a.harness.push((i, h.into()));
                }
                let viol: Vec<Violation> = serde_json::from_value(v["v"].clone()).unwrap_or_default();
                if !viol.is_empty() {
                    if viol.iter().any(|x| !is_known(p, &x.key, known)) && std::env::var("VERIF_ALL").is_err() {
                        stop = true;
                    }
                    a.viol.push((i, viol));
                }
            }
        }
    }
    for pid in pids {
        unsafe {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
    }
    for x in pipes {
        unsafe { libc::close(x.0) };
    }
    a
}
fn is_known(p: &Prop, key: &str, known: &[Known]) -> bool {
    known.iter().any(|k| k.property == p.id && k.key == key)
}

// ---- minimisation ------------------------------------------------------------------------------
struct Mini<'a> {
    p: &'a Prop,
    key: String,
    until: Instant,
    tries: u32,
}
impl Mini<'_> {
    fn bad(&mut self, c: &Case) -> Option<Outcome> {
        if Instant::now() > self.until || self.tries > 600 {
            return None;
        }
        self.tries += 1;
        let o = run_forked(c, self.p.run, false);
        if o.harness.is_none() && o.violations.iter().any(|v| v.key == self.key) {
            Some(o)
        } else {
            None
        }
    }
    fn list<T: Clone>(&mut self, c: &mut Case, get: fn(&Case) -> Vec<T>, set: fn(&mut Case, Vec<T>)) {
        let mut cur = get(c);
        let mut n = cur.len();
        while n >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let mut t = cur.clone();
                let e = (i + n).min(t.len());
                t.drain(i..e);
                let mut d = c.clone();
                set(&mut d, t.clone());
                if self.bad(&d).is_some() {
                    cur = t;
                    *c = d;
                } else {
                    i += n;
                }
                if Instant::now() > self.until {
                    return;
                }
            }
            n /= 2;
        }
    }
    fn spec(&mut self, c: &mut Case) {
        // generic shrinking of the workload description
        let mut again = true;
        let mut rounds = 0;
        while again && rounds < 4 {
            again = false;
            rounds += 1;
            let mut paths = vec![];
            collect(&c.spec, &mut vec![], &mut paths);
            for p in paths {
                let Some(v) = at(&c.spec, &p).cloned() else { continue };
                match v {
                    Value::Array(a) if !a.is_empty() => {
                        let mut n = a.len();
                        let mut cur = a;
                        while n >= 1 {
                            let mut i = 0;
                            while i < cur.len() {
                                let mut t = cur.clone();
                                let e = (i + n).min(t.len());
                                t.drain(i..e);
                                if self.try_set(c, &p, Value::Array(t.clone())) {
                                    cur = t;
                                    again = true;
                                } else {
                                    i += n;
                                }
                                if Instant::now() > self.until {
                                    return;
                                }
                            }
                            n /= 2;
                        }
                    }
                    Value::Number(n) => {
                        let Some(mut x) = n.as_u64() else { continue };
                        if x == 0 || p.last().map(|s| s.contains("seed")).unwrap_or(false) {
                            continue;
                        }
                        if self.try_set(c, &p, json!(0)) {
                            again = true;
                            continue;
                        }
                        let mut step = x / 2;
                        while step > 0 && x > 1 {
                            if self.try_set(c, &p, json!(x - step)) {
                                x -= step;
                                again = true;
                                step = x / 2;
                            } else {
                                step /= 2;
                            }
                            if Instant::now() > self.until {
                                return;
                            }
                        }
                    }
                    Value::Bool(true) => {
                        if self.try_set(c, &p, json!(false)) {
                            again = true;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn try_set(&mut self, c: &mut Case, p: &[String], v: Value) -> bool {
        let mut d = c.clone();
        if let Some(x) = at_mut(&mut d.spec, p) {
            *x = v;
        } else {
            return false;
        }
        if self.bad(&d).is_some() {
            *c = d;
            true
        } else {
            false
        }
    }
}
fn collect(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            out.push(path.clone());
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                collect(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                collect(x, path, out);
                path.pop();
            }
        }
        Value::Number(_) | Value::Bool(_) => out.push(path.clone()),
        _ => {}
    }
}
fn at<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut c = v;
    for s in p {
        c = match c {
            Value::Array(a) => a.get(s.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(s)?,
            _ => return None,
        };
    }
    Some(c)
}
fn at_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for s in p {
        c = match c {
            Value::Array(a) => a.get_mut(s.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(s)?,
            _ => return None,
        };
    }
    Some(c)
}
fn explicit(c: &Case, o: &Outcome) -> Case {
    Case { faults: Some(o.faults.clone()), schedule: Some(o.schedule.clone()), ..c.clone() }
}
fn minimise(p: &Prop, case: &Case, key: &str, secs: u64) -> (Case, Outcome) {
    let first = run_forked(case, p.run, false);
    // a run that died gives no fault list; it stays seed-driven and only its workload shrinks
    let died = first.schedule.is_empty() && first.faults.is_empty();
    let mut m = Mini { p, key: key.into(), until: Instant::now() + Duration::from_secs(secs), tries: 0 };
    let mut c = case.clone();
    let until = m.until;
    if !died {
        let e = explicit(case, &first);
        if m.bad(&e).is_some() {
            c = e;
            m.until = Instant::now() + Duration::from_secs(secs / 3);
            m.list(&mut c, |c| c.faults.clone().unwrap_or_default(), |c, v| c.faults = Some(v));
            m.until = until;
            m.spec(&mut c);
            m.until = until + Duration::from_secs(secs / 3);
            let k = c.schedule.as_ref().map(|s| s.len()).unwrap_or(0);
            if k > 0 {
                // all schedules of the run, flattened
                m.list(
                    &mut c,
                    |c| c.schedule.clone().unwrap_or_default().iter().enumerate().flat_map(|(i, s)| s.iter().map(move |x| (i, *x)).collect::<Vec<_>>()).collect(),
                    |c, v| {
                        let k = c.schedule.as_ref().map(|s| s.len()).unwrap_or(0);
                        let mut s: Vec<Vec<(u64, usize)>> = vec![vec![]; k];
                        for (i, x) in v {
                            s[i].push(x);
                        }
                        c.schedule = Some(s);
                    },
                );
            }
            m.list(&mut c, |c| c.faults.clone().unwrap_or_default(), |c, v| c.faults = Some(v));
        } else {
            m.spec(&mut c);
        }
    } else {
        m.spec(&mut c);
    }
    let o = run_forked(&c, p.run, true);
    if o.violations.iter().any(|v| v.key == key) {
        (c, o)
    } else {
        (case.clone(), run_forked(case, p.run, true))
    }
}
fn write_replay(p: &Prop, c: &Case, o: &Outcome, key: &str) -> (String, bool) {
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{:016x}.json", dir, p.id, hash_str(key) ^ c.seed);
    let msg = o.violations.iter().find(|v| v.key == key).map(|v| v.msg.clone()).unwrap_or_default();
    let again = run_forked(c, p.run, true);
    let same = again.trace == o.trace && again.violations.iter().any(|v| v.key == key && v.msg == msg);
    let tail: Vec<String> = if o.log.len() > 400 { o.log[..200].iter().cloned().chain(["...".to_string()]).chain(o.log[o.log.len() - 200..].iter().cloned()).collect() } else { o.log.clone() };
    let mut faults = vec![];
    for f in &o.faults {
        faults.push(format!("phase {} operation {}: {:?} at {}", f.phase, f.op, f.fault, f.at));
    }
    let v = json!({"case": c, "key": key, "violation": msg, "trace": o.trace.to_string(), "injected": faults, "reproduces": same, "how": format!("bash replay.sh {}", path), "log": tail});
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).ok();
    (path, same)
}
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let c: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let p = props.iter().find(|p| p.id == c.property).expect("property");
    let o = run_forked(&c, p.run, true);
    for l in &o.log {
        println!("{}", l);
    }
    for f in &o.faults {
        println!("fault: phase {} operation {}: {:?} at {}", f.phase, f.op, f.fault, f.at);
    }
    for x in &o.violations {
        println!("violated: [{}] {}", x.key, x.msg);
    }
    if let Some(h) = &o.harness {
        println!("harness: {}", h);
    }
    println!("trace {} (recorded {})", o.trace, v["trace"].as_str().unwrap_or("?"));
    if o.violations.iter().any(|x| Some(x.key.as_str()) == v["key"].as_str()) {
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    } else {
        0
    }
}
pub fn check(p: &Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let known = known();
    let (total, secs) = if tier == "thorough" { (u64::MAX / 4, env_u64("VERIF_THOROUGH_S", 600)) } else { (p.quick * 3 / 2, env_u64("VERIF_QUICK_S", 90)) };
    // determinism self-check: the same case twice gives the same execution
    let mut nondet = vec![];
    for i in 0..6 {
        let c = case_for(p, i, tier);
        let a = run_forked(&c, p.run, false);
        let b = run_forked(&c, p.run, false);
        if a.trace != b.trace || a.violations != b.violations || a.schedule != b.schedule {
            nondet.push(c.seed);
        } else if a.harness.is_none() && a.violations.is_empty() {
            let d = run_forked(&explicit(&c, &a), p.run, false);
            if d.trace != a.trace {
                nondet.push(c.seed);
            }
        }
    }
    let a = search(p, tier, total, secs, &known);
    let search_s = t0.elapsed().as_secs_f64();
    // group the violations by key
    let mut by: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for (i, vs) in &a.viol {
        for v in vs {
            let e = by.entry(v.key.clone()).or_insert((*i, v.msg.clone()));
            if *i < e.0 {
                *e = (*i, v.msg.clone());
            }
        }
    }
    if std::env::var("VERIF_ALL").is_ok() {
        for (k, (i, m)) in &by {
            let n = a.viol.iter().filter(|(_, vs)| vs.iter().any(|v| v.key == *k)).count();
            println!("{:5} runs  [{}] (run {}) {}", n, k, i, m);
        }
    }
    let mut code = 0;
    let mut n_viol = 0;
    for (k, (_, _)) in &by {
        if let Some(x) = known.iter().find(|x| x.property == p.id && x.key == *k) {
            println!("KNOWN-FINDING: property={} {}", p.id, x.what);
        }
    }
    let unknown: Vec<(&String, &(u64, String))> = by.iter().filter(|(k, _)| !is_known(p, k, &known)).collect();
    for (k, (i, m)) in unknown.iter().take(3) {
        n_viol += 1;
        code = 1;
        let c = case_for(p, *i, tier);
        let (c, o) = minimise(p, &c, k, 20);
        let (path, same) = write_replay(p, &c, &o, k);
        println!("property {} run {} seed {}: {}", p.id, i, c.seed, m);
        println!("  minimised to {} fault(s), {} context switch(es); replay {}", o.faults.len(), o.schedule.iter().map(|s| s.len()).sum::<usize>(), if same { "reproduces exactly" } else { "did NOT reproduce exactly" });
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    let mut samples = vec![];
    for i in 0..2 {
        let c = case_for(p, i, tier);
        let o = run_forked(&c, p.run, false);
        samples.push(json!({"seed": c.seed, "workload": c.spec, "operations": o.ops, "faults": o.faults.iter().take(8).map(|f| format!("{}:{} {:?} {}", f.phase, f.op, f.fault, f.at)).collect::<Vec<_>>(), "context_switches": o.schedule.iter().map(|s| s.len()).sum::<usize>(), "features": o.feats}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base_seed(), "level": "exploration", "wall_s": wall, "violations": n_viol,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "distinct_traces": a.traces.len(),
            "distinct_measure": "hash of workload, every simulated operation and fault in order, and every context switch",
            "runs_per_hour": (a.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (a.sim_ns as f64 / 1e9),
            "simulated_operations": a.ops, "scheduling_points": a.points, "context_switches": a.switches,
            "runs_with_faults": a.faulted_runs,
            "faults_injected": a.counts,
            "features_reached": a.feats,
            "determinism_self_check": {"cases": 6, "diverged": nondet},
            "real_code": p.real, "stubbed": p.stub,
        },
        "assumptions": p.assume,
    });
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!("{} {}: {} runs, {} distinct non-trivial, {} faulted, {:.1} s", p.id, tier, a.runs, a.nontrivial.len(), a.faulted_runs, wall);
    if code == 0 {
        if let Some((i, h)) = a.harness.first() {
            println!("harness error in {} run(s), first in run {}: {}", a.harness.len(), i, h);
            return 2;
        }
        if !nondet.is_empty() {
            println!("simulation not deterministic for seeds {:?}", nondet);
            return 2;
        }
    }
    code
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn one(p: &Prop, i: u64, tier: &str) -> i32 {
    let c = case_for(p, i, tier);
    println!("{}", serde_json::to_string(&c).unwrap());
    let o = run_forked(&c, p.run, true);
    for l in &o.log {
        println!("{}", l);
    }
    println!("{:?} feats {:?} trace {} ops {} points {} harness {:?}", o.violations, o.feats, o.trace, o.ops, o.points, o.harness);
    0
}
