//! Seeded search, minimisation, replay files and evidence.
use crate::machine::{Config, Counters, HarnessError, Machine, R};
use crate::rng::{Hash, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Bad {
    /// What kind of violation; minimisation keeps it.
    pub class: String,
    pub msg: String,
    /// The scenario with every plan and schedule explicit.
    pub scenario: Value,
    pub trace: String,
    /// Matches this entry of known_findings.txt.
    pub known: Option<String>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub skipped: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub states: HashSet<u64>,
    pub known: BTreeMap<String, u64>,
    /// The evaluation at hand has been counted as non-trivial.
    marked: bool,
    /// Texts of all traces, for the self test.
    pub log: Option<Vec<String>>,
}
impl Stats {
    /// Starts the next evaluation.
    pub fn next(&mut self) {
        self.evaluations += 1;
        self.marked = false;
    }
    /// The evaluation at hand is a non-trivial case with this identity.
    pub fn mark(&mut self, h: u64) {
        if !self.marked {
            self.marked = true;
            self.nontrivial.insert(h);
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_default() += 1;
    }
    pub fn skip(&mut self, k: &str) {
        *self.skipped.entry(k.to_string()).or_default() += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_default() += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.nontrivial.extend(o.nontrivial);
        self.traces.extend(o.traces);
        self.states.extend(o.states);
    }
}

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// How cases are made, and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// Scenarios of a quick run.
    fn quick_runs(&self) -> u64;
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value;
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>>;
    /// Scenarios that show the known findings.
    fn known(&self) -> Vec<(&'static str, Value)> {
        vec![]
    }
}

pub struct Options {
    pub cfg: Arc<Config>,
    pub verif: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub workers: usize,
}

pub fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("amsim-{:07}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), vec![1u8; 1 << 16]).is_ok() {
            let _ = std::fs::remove_file(p.join("probe"));
            return p;
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(2);
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn prop_hash(id: &str) -> u64 {
    let mut h = Hash::new();
    h.add(id.as_bytes());
    h.0
}

struct KnownFile {
    open: Vec<(String, String)>,
}
fn known_findings(verif: &Path, id: &str) -> KnownFile {
    let mut open = vec![];
    if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=C15 key=paypal-tail description
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut w = r.splitn(3, ' ');
                let p = w.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                let k = w.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                if p == id && !k.is_empty() {
                    open.push((k.to_string(), w.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    KnownFile { open }
}

/// Returns the process exit code.
pub fn check(p: &dyn Prop, o: &Options) -> i32 {
    let t0 = Instant::now();
    let scratch = Scratch(scratch_base());
    let kf = known_findings(&o.verif, p.id());
    let n = o.runs.unwrap_or(p.quick_runs());
    let limit = Duration::from_secs(o.secs.unwrap_or(if o.thorough { 600 } else { 240 }));
    let n = if o.thorough && o.runs.is_none() { u64::MAX } else { n };

    // Known findings first.
    {
        let mut m = Machine::new(o.cfg.clone(), &scratch.0, "k00");
        for (key, v) in p.known() {
            let mut st = Stats::default();
            match p.eval(&v, &mut m, &mut st) {
                Ok(r) => {
                    let listed = kf.open.iter().find(|(k, _)| k == key);
                    let shown = r.as_ref().map_or(false, |b| b.known.as_deref() == Some(key)) || st.known.contains_key(key);
                    if let (Some((_, d)), true) = (listed, shown) {
                        println!("KNOWN-FINDING: property={} {} [{}]", p.id(), d, key);
                    }
                }
                Err(e) => {
                    eprintln!("harness error: {}", e.0);
                    return 2;
                }
            }
        }
    }

    let next = AtomicU64::new(0);
    let stop_above = AtomicU64::new(u64::MAX);
    let broken = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Bad)>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<(Stats, Counters)> = Mutex::new(Default::default());
    let samples: Mutex<Vec<(u64, Value)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..o.workers {
            let (next, stop_above, broken, found, errors, total, samples, scratch, kf) = (&next, &stop_above, &broken, &found, &errors, &total, &samples, &scratch, &kf);
            s.spawn(move || {
                let mut m = Machine::new(o.cfg.clone(), &scratch.0, &format!("w{w:02}"));
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > stop_above.load(Ordering::SeqCst) || t0.elapsed() > limit || broken.load(Ordering::SeqCst) {
                        break;
                    }
                    let mut rng = Rng::from_parts(&[o.seed, prop_hash(p.id()), i]);
                    let v = p.gen(&mut rng, i, o.thorough);
                    if i < 2 {
                        samples.lock().unwrap().push((i, v.clone()));
                    }
                    let mut r = p.eval(&v, &mut m, &mut st);
                    if r.is_err() {
                        // A loaded machine may have been too slow; once more.
                        let mut m2 = Machine::new(o.cfg.clone(), &scratch.0, &format!("x{w:02}"));
                        let mut st2 = Stats::default();
                        r = p.eval(&v, &mut m2, &mut st2);
                    }
                    match r {
                        Ok(None) => {}
                        Ok(Some(b)) => {
                            if let Some(k) = &b.known {
                                if kf.open.iter().any(|(x, _)| x == k) {
                                    *st.known.entry(k.clone()).or_default() += 1;
                                    continue;
                                }
                            }
                            stop_above.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push((i, b));
                        }
                        Err(HarnessError(e)) => {
                            errors.lock().unwrap().push(format!("run {i}: {e}"));
                            broken.store(true, Ordering::SeqCst);
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.0.merge(st);
                t.1.add(&m.count);
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let errors = errors.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|(i, _)| *i);
    let (st, ct) = total.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, b)) = found.into_iter().next() {
        violations = 1;
        code = 1;
        let dir = o.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", p.id(), o.seed));
        let mut m = Machine::new(o.cfg.clone(), &scratch.0, "k01");
        let budget = if std::env::var("AM_NOMIN").is_ok() { 0 } else if o.thorough { 180 } else { 60 };
        let (b, steps, exact) = minimise(p, b, &mut m, Duration::from_secs(budget));
        let doc = json!({
            "property": p.id(), "seed": o.seed, "run": i, "class": b.class, "message": b.msg,
            "minimisation_steps": steps, "reproduced": exact, "scenario": b.scenario,
            "trace": b.trace.lines().collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n");
        println!("{}", b.msg);
        println!("seed={} run={} class={} replay reproduces exactly: {}", o.seed, i, b.class, exact);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
    } else if !errors.is_empty() {
        for e in errors.iter().take(3) {
            eprintln!("harness error: {e}");
        }
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut smp = samples.into_inner().unwrap();
    smp.sort_by_key(|x| x.0);
    let scenarios = next.load(Ordering::SeqCst).min(n);
    let per_h = |x: u64| (x as f64 / search_s * 3600.0).round() as u64;
    let ev = json!({
        "property": p.id(),
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule(),
            "samples": smp.iter().map(|(i, v)| json!({"run": i, "scenario": clip(v)})).collect::<Vec<_>>(),
            "seeded_scenarios": scenarios,
            "simulated_commands": ct.commands,
            "simulated_system_calls": ct.ops,
            "scenarios_per_hour": per_h(scenarios),
            "simulated_runs_per_hour": per_h(ct.commands),
            "simulated_seconds": ct.sim_ns as f64 / 1e9,
            "faults_injected": ct.faults,
            "fault_sites_by_call_class": ct.fault_sites,
            "power_losses": ct.power_losses,
            "helper_processes": ct.helpers,
            "process_switches": ct.switches,
            "distinct_call_traces": st.traces.len(),
            "distinct_final_states": st.states.len(),
            "notes": st.notes,
            "skipped": st.skipped,
            "known_finding_hits": st.known,
            "real": ["accountmerge binary built from /repo", "Linux VFS on a scratch directory"],
            "stub": ["clock", "entropy", "process ids", "directory order", "block device (durability model)", "gm", "tesseract"],
        },
        "assumptions": [
            "a journalling file system: directory operations become durable in order, file data at fsync",
            "system calls are atomic; a process dies between two of them",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let ed = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        code = code.max(2);
    }
    println!(
        "{}: {} scenarios, {} evaluations ({} distinct non-trivial), {} commands, {} calls, {:.1} s, exit {}",
        p.id(), scenarios, st.evaluations, st.nontrivial.len(), ct.commands, ct.ops, wall, code
    );
    for (k, v) in &st.skipped {
        println!("  skipped {v}: {k}");
    }
    for (k, v) in &st.notes {
        println!("  {k}: {v}");
    }
    drop(scratch);
    code
}

fn clip(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 600 => Value::String(s.chars().take(600).collect::<String>() + "…"),
        Value::Array(a) => Value::Array(a.iter().take(12).map(clip).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        _ => v.clone(),
    }
}

/// Deletes parts of the scenario while the same violation remains.
fn minimise(p: &dyn Prop, b: Bad, m: &mut Machine, limit: Duration) -> (Bad, u64, bool) {
    let t0 = Instant::now();
    let mut best = b;
    let mut steps = 0u64;
    let mut again = |v: &Value, class: &str, m: &mut Machine| -> Option<Bad> {
        let mut st = Stats::default();
        match p.eval(v, m, &mut st) {
            Ok(Some(b)) if b.class == class && b.known.is_none() => Some(b),
            _ => None,
        }
    };
    let class = best.class.clone();
    if let Some(b2) = again(&best.scenario.clone(), &class, m) {
        best = b2;
        let mut progress = true;
        while progress && t0.elapsed() < limit {
            progress = false;
            let mut paths = vec![];
            collect(&best.scenario, &mut vec![], &mut paths);
            for path in paths {
                if t0.elapsed() > limit {
                    break;
                }
                // Work on this place until nothing more can go.
                let mut size = 0usize;
                loop {
                    let cands = candidates(&best.scenario, &path, &mut size);
                    let mut hit = false;
                    for c in cands {
                        if t0.elapsed() > limit {
                            break;
                        }
                        steps += 1;
                        if let Some(b2) = again(&c, &class, m) {
                            if weight(&b2.scenario) < weight(&best.scenario) {
                                best = b2;
                                progress = true;
                                hit = true;
                                break;
                            }
                        }
                    }
                    if !hit && (size <= 1 || t0.elapsed() > limit) {
                        break;
                    }
                    if !hit {
                        size /= 2;
                    }
                }
            }
        }
    }
    let exact = again(&best.scenario.clone(), &class, m).map_or(false, |b2| b2.msg == best.msg && b2.scenario == best.scenario);
    (best, steps, exact)
}

fn weight(v: &Value) -> usize {
    match v {
        Value::String(s) => 1 + s.len(),
        Value::Array(a) => 1 + a.iter().map(weight).sum::<usize>() + 4 * a.len(),
        Value::Object(o) => 1 + o.values().map(weight).sum::<usize>(),
        Value::Number(n) => 1 + n.as_u64().map_or(0, |n| 64 - n.leading_zeros() as usize / 8),
        Value::Null => 0,
        _ => 1,
    }
}

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn collect(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() {
                out.push(at.clone());
            }
            for (i, x) in a.iter().enumerate() {
                at.push(Step::Idx(i));
                collect(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                // Deleting from these would ask another question.
                if matches!(k.as_str(), "outs" | "args" | "kind" | "Random") || k.starts_with("fixed_") {
                    continue;
                }
                at.push(Step::Key(k.clone()));
                collect(x, at, out);
                at.pop();
            }
        }
        Value::String(s) if s.lines().count() > 1 => out.push(at.clone()),
        Value::Number(_) if matches!(at.last(), Some(Step::Key(k)) if k == "op" || k == "Short") => out.push(at.clone()),
        _ => {}
    }
}

fn get<'a>(v: &'a Value, path: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get(k)?,
            Step::Idx(i) => v.get(i)?,
        };
    }
    Some(v)
}
fn set(v: &mut Value, path: &[Step], n: Value) {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get_mut(k).unwrap(),
            Step::Idx(i) => v.get_mut(i).unwrap(),
        };
    }
    *v = n;
}

fn candidates(root: &Value, path: &[Step], size: &mut usize) -> Vec<Value> {
    let Some(x) = get(root, path) else {
        *size = 0;
        return vec![];
    };
    let with = |n: Value| {
        let mut r = root.clone();
        set(&mut r, path, n);
        r
    };
    let mut out = vec![];
    match x {
        Value::Array(a) => {
            if *size == 0 || *size > a.len() {
                *size = a.len();
            }
            let mut i = 0;
            while i < a.len() {
                let e = (i + (*size).max(1)).min(a.len());
                let mut b = a.clone();
                b.drain(i..e);
                out.push(with(Value::Array(b)));
                i = e;
            }
        }
        Value::String(s) => {
            let l: Vec<&str> = s.split_inclusive('\n').collect();
            if *size == 0 || *size > l.len() {
                *size = (l.len() / 2).max(1);
            }
            let mut i = 0;
            while i < l.len() {
                let e = (i + (*size).max(1)).min(l.len());
                let t: String = l[..i].concat() + &l[e..].concat();
                out.push(with(Value::String(t)));
                i = e;
            }
        }
        Value::Number(n) => {
            *size = 1;
            if let Some(n) = n.as_u64() {
                for d in [n / 2, n.saturating_sub(1)] {
                    if d < n {
                        out.push(with(json!(d)));
                    }
                }
            }
        }
        _ => *size = 0,
    }
    out
}

/// Re-executes a replay file; returns the process exit code.
pub fn replay(p: &dyn Prop, file: &Path, cfg: Arc<Config>) -> i32 {
    let doc: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {}: {e}", file.display());
            return 2;
        }
    };
    let scratch = Scratch(scratch_base());
    let mut m = Machine::new(cfg, &scratch.0, "k01");
    let mut st = Stats::default();
    match p.eval(&doc["scenario"], &mut m, &mut st) {
        Ok(Some(b)) => {
            println!("{}", b.msg);
            println!("{}", b.trace);
            println!("same class: {}, same message: {}", doc["class"] == json!(b.class), doc["message"] == json!(b.msg));
            println!("VIOLATION property={} replay={}", p.id(), file.display());
            1
        }
        Ok(None) => {
            println!("the property holds on this scenario");
            0
        }
        Err(e) => {
            eprintln!("harness error: {}", e.0);
            2
        }
    }
}

/// Runs the first scenarios of every property twice, on different machines,
/// and compares everything that was observed.
pub fn selftest(props: &[Box<dyn Prop>], cfg: Arc<Config>, seed: u64, runs: u64) -> i32 {
    let scratch = Scratch(scratch_base());
    let mut code = 0;
    for p in props {
        let out: Mutex<Vec<(u64, Vec<(Vec<u64>, Vec<u64>, u64, Vec<String>)>)>> = Mutex::new(vec![]);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..8 {
                let (out, next, scratch, cfg) = (&out, &next, &scratch, &cfg);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let mut res = vec![];
                    for _ in 0..2 {
                        let mut m = Machine::new(cfg.clone(), &scratch.0, &format!("s{w:02}"));
                        let mut rng = Rng::from_parts(&[seed, prop_hash(p.id()), i]);
                        let v = p.gen(&mut rng, i, false);
                        let mut st = Stats { log: Some(vec![]), ..Default::default() };
                        let r = p.eval(&v, &mut m, &mut st);
                        let log = st.log.take().unwrap();
                        let mut a: Vec<u64> = st.traces.into_iter().collect();
                        let mut b: Vec<u64> = st.states.into_iter().collect();
                        a.sort();
                        b.sort();
                        let code = match r {
                            Ok(None) => 0,
                            Ok(Some(_)) => 1,
                            Err(e) => {
                                eprintln!("{} run {i}: {}", p.id(), e.0);
                                2
                            }
                        };
                        res.push((a, b, code + 10 * m.count.ops, log));
                    }
                    out.lock().unwrap().push((i, res));
                });
            }
        });
        let mut bad = vec![];
        for (i, r) in out.into_inner().unwrap() {
            if r[0] != r[1] {
                bad.push(i);
                for (a, b) in r[0].3.iter().zip(&r[1].3) {
                    if a != b {
                        for (x, y) in a.lines().zip(b.lines()) {
                            if x != y {
                                println!("  run {i}:\n    {x}\n    {y}");
                                break;
                            }
                        }
                        break;
                    }
                }
            }
        }
        bad.sort();
        println!("{}: {} scenarios twice, {} differ {:?}", p.id(), runs, bad.len(), bad);
        if !bad.is_empty() {
            code = 2;
        }
    }
    drop(scratch);
    code
}
