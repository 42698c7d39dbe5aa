//! C20: what a command writes, the next command can read.
use crate::common::*;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, WOpts, Work};
use crate::io::{key, kind_of};
use crate::ledger;
use crate::machine::{Machine, R};
use crate::orderly;
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde_json::{json, Value};

pub struct C20;

/// No rules: reading and writing only.
const NO_RULES: &str = "[Chain(\"start\", [])]";

/// What is done to a journal next.
fn step(s: u64, o: &str) -> Vec<String> {
    let a: Vec<&str> = match s % 4 {
        0 => vec!["fmt", o],
        1 => vec!["generate-fingerprints", o],
        2 => vec!["apply-rules", "-o", o, o, "table", "tmp/none.ron"],
        _ => vec!["merge", "-o", o, o],
    };
    a.iter().map(|s| s.to_string()).collect()
}

/// The number of transactions and of postings, if that is clear.
fn count(d: &[u8]) -> Option<(usize, usize)> {
    ledger::parse_bytes(d).map(|t| (t.len(), t.iter().map(|t| t.posts.len()).sum()))
}

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "A case is one command over files damaged at seeded places, with seeded failing, short and interrupted calls, followed, where it succeeds, by a seeded sequence of further commands on what it wrote; non-trivial when it succeeds; distinct by files, arguments and call trace."
    }
    fn quick_runs(&self) -> u64 {
        1500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 5) { *rng.pick(&["pdf", "paypal", "nwcsv"]) } else { kind_of(rng, idx) };
        let big = rng.chance(1, 12);
        let w = gen::work(rng, k, &WOpts { stdio: true, symlinks: true, big });
        let n = if thorough { 40 } else { 12 };
        let cases: Vec<Value> = (0..n)
            .map(|_| {
                let mut x = w.clone();
                if rng.chance(9, 10) {
                    orderly::damage(rng, &mut x, false);
                }
                if rng.chance(1, 5) {
                    x.cmd.plan = gen::any_plan(rng);
                }
                let steps: Vec<u64> = (0..1 + rng.usize(4)).map(|_| rng.below(4)).collect();
                json!({"work": x, "steps": steps})
            })
            .collect();
        json!({"work": w, "cases": cases})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w0), Some(cases)) = (parse::<Work>(v, "work"), parse::<Vec<Value>>(v, "cases")) else { return Ok(None) };
        for case in cases {
            let (Some(w), Some(steps)) = (parse::<Work>(&case, "work"), parse::<Vec<u64>>(&case, "steps")) else { return Ok(None) };
            m.reset(&w.files);
            let t0 = m.tree();
            let mut c = w.cmd.clone();
            let r = m.run_rec(&mut c, 60)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            if !r.ok() {
                st.skip("the command fails");
                continue;
            }
            let mut h = Hash::new();
            h.u64(r.trace_hash());
            h.u64(key(&w));
            h.add(serde_json::to_string(&w.files).unwrap().as_bytes());
            h.add(format!("{steps:?}").as_bytes());
            st.mark(h.0);
            let mut w2 = w.clone();
            w2.cmd = c;
            let sc = json!({"work": w0, "cases": [{"work": w2, "steps": steps}]});
            let about = format!("{:?} after {}", w.cmd.args, faults_text(&r));
            let mut outs: Vec<String> = w.outs.iter().filter(|o| data(&t, o).is_some() && data(&t, o) != data(&t0, o)).cloned().collect();
            if !r.stdout.is_empty() && w.cmd.args.get(1).map_or(true, |a| !a.starts_with("--")) {
                m.write("tmp/stdout.journal", &r.stdout);
                outs.push("tmp/stdout.journal".into());
            }
            m.write("tmp/none.ron", NO_RULES.as_bytes());
            outs.dedup();
            st.note(&format!("writes {} journals", outs.len()));
            for o in outs {
                let mut before = m.read(&o).unwrap_or_default();
                let mut done: Vec<Vec<String>> = vec![];
                let mut last: Option<u64> = None;
                for s in steps.iter().copied().chain([0, 0]) {
                    let a = step(s, &o);
                    let r = m.run(&Cmd::new(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>()), 0)?;
                    let after = m.read(&o).unwrap_or_default();
                    let what = format!("{about}; then {done:?}; then {a:?}: ");
                    if !r.ok() {
                        if a[0] == "merge" || w.kind == "fmt" && a[0] != "fmt" {
                            // Merging asks for fingerprints, and only
                            // formatting takes directives and the like.
                            st.note("then refused");
                            continue;
                        }
                        return Ok(Some(bad("unreadable", format!("{what}{}\n{}", r.err(), show(Some(&before))), sc, &[&r])));
                    }
                    st.note(&format!("then {}", a[0]));
                    if let (true, Some(x), Some(y)) = (a[0] != "merge", count(&before), count(&after)) {
                        if x != y {
                            return Ok(Some(bad("count", format!("{what}{x:?} transactions and postings become {y:?}:\n{}\n{}", show(Some(&before)), show(Some(&after))), sc, &[&r])));
                        }
                    }
                    if let (true, Some(x), Some(y)) = (a[0] == "fmt", ledger::parse_bytes(&before), ledger::parse_bytes(&after)) {
                        if x != y {
                            let (p, q) = x.iter().zip(&y).find(|(p, q)| p != q).unwrap();
                            return Ok(Some(bad("meaning", format!("{what}{p:?}\nbecomes\n{q:?}:\n{}\n{}", show(Some(&before)), show(Some(&after))), sc, &[&r])));
                        }
                    }
                    if last == Some(s) && s % 4 == 0 && before != after {
                        return Ok(Some(bad("unstable", format!("{what}changes what it wrote itself: {}", diff(&before, &after)), sc, &[&r])));
                    }
                    last = Some(s);
                    before = after;
                    done.push(a);
                }
            }
        }
        Ok(None)
    }
}
