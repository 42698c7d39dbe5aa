//! Helpers shared by the properties.
use crate::disk::{self, Tree};
use crate::engine::{Bad, Stats};
use crate::gen::Work;
use crate::ledger;
use crate::machine::{Machine, Run, R};
use crate::rng::Hash;
use crate::types::*;
use serde_json::{json, Value};

pub struct Base {
    pub run: Run,
    pub t0: Tree,
    pub t1: Tree,
    pub total: u32,
}

/// The undisturbed run. None if the command does not succeed.
pub fn baseline(m: &mut Machine, w: &Work) -> R<Option<Base>> {
    let b = baseline_any(m, w)?;
    Ok(if b.run.ok() { Some(b) } else { None })
}
pub fn baseline_any(m: &mut Machine, w: &Work) -> R<Base> {
    m.reset(&w.files);
    let t0 = m.tree();
    let run = m.run(&w.cmd.with_plan(Plan::None), 0)?;
    let t1 = m.tree();
    let total = run.ops.len() as u32;
    Ok(Base { run, t0, t1, total })
}

pub fn data<'a>(t: &'a Tree, p: &str) -> Option<&'a [u8]> {
    match t.get(p) {
        Some(Node::File { data, .. }) | Some(Node::Hard(_, data)) => Some(&data.0),
        _ => None,
    }
}

/// The name that `p` leads to.
pub fn resolve(t: &Tree, p: &str) -> String {
    let mut todo: Vec<String> = p.split('/').rev().map(String::from).collect();
    let mut done: Vec<String> = vec![];
    let mut hops = 0;
    while let Some(c) = todo.pop() {
        match c.as_str() {
            "" | "." => {}
            ".." => {
                done.pop();
            }
            _ => {
                done.push(c);
                if let Some(Node::Symlink(l)) = t.get(&done.join("/")) {
                    hops += 1;
                    if hops > 20 {
                        return p.to_string();
                    }
                    done.pop();
                    todo.extend(l.split('/').rev().map(String::from));
                }
            }
        }
    }
    done.join("/")
}

/// Content with freshly generated fingerprints masked.
pub fn masked(w: &Work, t0: &Tree, p: &str, d: Option<&[u8]>) -> Option<Vec<u8>> {
    d.map(|d| if w.kind == "fpgen" { ledger::mask_new_fps(d, data(t0, p).unwrap_or(b"")) } else { d.to_vec() })
}

pub fn masked_stdout(w: &Work, d: &[u8]) -> Vec<u8> {
    if w.kind == "fpgen" {
        let old: &[u8] = w.cmd.stdin.as_ref().map(|b| &b.0[..]).unwrap_or(b"");
        ledger::mask_new_fps(d, old)
    } else {
        d.to_vec()
    }
}

/// A file of `t0` other than the outputs that is no longer as it was.
pub fn changed_other(t0: &Tree, t: &Tree, outs: &[String]) -> Option<String> {
    for (p, n) in t0 {
        if outs.iter().any(|o| o == p) {
            continue;
        }
        if t.get(p) != Some(n) {
            return Some(match t.get(p) {
                None => format!("{p} has disappeared"),
                Some(_) => format!("{p} has changed"),
            });
        }
    }
    None
}

/// Paths that are new and are neither outputs nor directories above them.
pub fn leftovers(t0: &Tree, t: &Tree, outs: &[String]) -> Vec<String> {
    t.keys()
        .filter(|p| !t0.contains_key(*p))
        .filter(|p| !outs.iter().any(|o| o == *p || o.starts_with(&format!("{p}/"))))
        .cloned()
        .collect()
}

pub fn show(d: Option<&[u8]>) -> String {
    match d {
        None => "(absent)".into(),
        Some(d) => {
            let s = String::from_utf8_lossy(d);
            if s.len() > 700 {
                let cut = s.char_indices().nth(700).map_or(s.len(), |(i, _)| i);
                format!("{} bytes:\n{}…", d.len(), &s[..cut])
            } else {
                format!("{} bytes:\n{s}", d.len())
            }
        }
    }
}

/// First difference of two texts, for messages.
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(want).into_owned(), String::from_utf8_lossy(got).into_owned());
    let (al, bl): (Vec<&str>, Vec<&str>) = (a.split('\n').collect(), b.split('\n').collect());
    for i in 0..al.len().max(bl.len()) {
        if al.get(i) != bl.get(i) {
            return format!("line {}: expected {:?}, got {:?}", i + 1, al.get(i).unwrap_or(&"(end)"), bl.get(i).unwrap_or(&"(end)"));
        }
    }
    "no difference".into()
}

pub fn faults_text(r: &Run) -> String {
    if r.faults.is_empty() {
        return "no fault".into();
    }
    let v: Vec<String> = r
        .faults
        .iter()
        .rev()
        .take(4)
        .rev()
        .map(|f| format!("{:?} at call {} ({})", f.kind, f.op, r.ops.get(f.op as usize).map_or("", |o| o.what.as_str())))
        .collect();
    format!("{}{}", if r.faults.len() > 4 { "… " } else { "" }, v.join(", "))
}

pub fn record(st: &mut Stats, r: &Run, t: &Tree, key: u64) {
    st.next();
    if let Some(l) = &mut st.log {
        l.push(format!("{:?} {:?}\n{}", r.exit, r.faults, r.trace_text()));
    }
    st.traces.insert(r.trace_hash());
    st.states.insert(disk::hash_tree(t));
    if r.fired() {
        let mut h = Hash::new();
        h.u64(key);
        h.u64(r.trace_hash());
        st.mark(h.0);
    }
}

pub fn bad(class: &str, msg: String, scenario: Value, runs: &[&Run]) -> Bad {
    let mut trace = String::new();
    for (i, r) in runs.iter().enumerate() {
        trace.push_str(&format!("--- command {}: {:?} {}\n", i + 1, r.exit, r.err()));
        if !r.note.is_empty() {
            trace.push_str(&format!("    {}\n", r.note));
        }
        trace.push_str(&r.trace_text());
    }
    Bad { class: class.into(), msg, scenario, trace, known: None }
}

/// The scenario {work, plans} with one explicit plan.
pub fn one_plan(w: &Work, plan: Plan) -> Value {
    json!({"work": w, "plans": [plan]})
}

pub fn parse<T: serde::de::DeserializeOwned>(v: &Value, k: &str) -> Option<T> {
    serde_json::from_value(v.get(k)?.clone()).ok()
}

pub fn escape_check(r: &Run, scenario: &Value) -> Option<Bad> {
    if r.escapes.is_empty() {
        return None;
    }
    Some(bad("outside", format!("the command tried to change something outside its world: {}", r.escapes[0]), scenario.clone(), &[r]))
}
