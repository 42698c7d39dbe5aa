//! C06 (interrupted merges), C11 (fingerprint generation), C12 (helper
//! programs), C14 (concurrent runs).
use crate::common::*;
use crate::disk::Tree;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, Fam, JOpts, Row, WOpts, Work};
use crate::io::{helper_fault, key, merge_inputs, plans};
use crate::ledger::{self, Trn};
use crate::machine::{Machine, Sched, R};
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------ C06
pub struct C06;

fn opt(w: &Work, flag: &str) -> Option<String> {
    w.cmd.args.iter().position(|a| a == flag).and_then(|i| w.cmd.args.get(i + 1)).cloned()
}

/// Gives some of the files on the command line another name.
fn other_names(rng: &mut Rng, w: &mut Work) {
    for i in 1..w.cmd.args.len() {
        let a = w.cmd.args[i].clone();
        if a.starts_with('-') || !a.ends_with("journal") || rng.chance(1, 2) {
            continue;
        }
        let name = match rng.below(4) {
            0 => format!("./{a}"),
            1 => format!("n/../{a}"),
            _ => {
                let l = format!("{}ln{i}.journal", if rng.chance(1, 3) { "n/" } else { "" });
                let to = if l.starts_with("n/") { format!("../{a}") } else { a.clone() };
                w.files.push(FileSpec { path: l.clone(), node: Node::Symlink(to) });
                l
            }
        };
        w.files.push(FileSpec { path: "n".into(), node: Node::Dir });
        w.cmd.args[i] = name;
    }
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A case is a merge, often writing over its own inputs, disturbed once or several times in a row at seeded points (kill, power loss, failing calls); non-trivial when a fault took effect; distinct by files, arguments and call trace."
    }
    fn quick_runs(&self) -> u64 {
        3600
    }
    fn known(&self) -> Vec<(&'static str, Value)> {
        vec![("between-two-replaced-inputs", serde_json::from_str(include_str!("../known/C06-between.json")).unwrap())]
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let o = WOpts { stdio: rng.chance(1, 6), symlinks: false, big: rng.chance(1, 10) };
        let mut w = gen::work(rng, "merge", &o);
        if rng.chance(1, 2) {
            crate::io::ambiguous_merge(rng, &mut w);
        }
        // Outputs over inputs, as in the documented workflow.
        let ins: Vec<String> = merge_inputs(&w).into_iter().filter(|i| i != "-").collect();
        for (flag, p) in [("-o", 2), ("-u", 2)] {
            if let Some(i) = w.cmd.args.iter().position(|a| a == flag) {
                if !ins.is_empty() && rng.chance(1, p) {
                    let t = rng.pick(&ins).clone();
                    let old = std::mem::replace(&mut w.cmd.args[i + 1], t.clone());
                    w.outs.retain(|x| *x != old || w.cmd.args.contains(x));
                    if !w.outs.contains(&t) {
                        w.outs.push(t);
                    }
                }
            }
        }
        // Both outputs by one name, or by two names of one file.
        let at = |w: &Work, f: &str| w.cmd.args.iter().position(|a| a == f).map(|i| i + 1);
        if let (Some(i), Some(j), true) = (at(&w, "-o"), at(&w, "-u"), rng.chance(1, 10)) {
            let t = w.cmd.args[i].clone();
            let old = std::mem::replace(&mut w.cmd.args[j], if t != "-" && rng.chance(1, 3) { format!("./{t}") } else { t });
            w.outs.retain(|x| *x != old || w.cmd.args.contains(x));
        }
        // Inputs and outputs by other names of the same files.
        if rng.chance(1, 3) {
            other_names(rng, &mut w);
        }
        let n = if thorough { 30 } else { 10 };
        let h: Vec<Vec<Plan>> = (0..n)
            .map(|_| {
                let k = *rng.pick(&[1usize, 1, 1, 2, 3]);
                plans(rng, k, &mut |r| gen::any_plan(r))
            })
            .collect();
        json!({"work": w, "histories": h})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(mut w), Some(hs)) = (parse::<Work>(v, "work"), parse::<Vec<Vec<Plan>>>(v, "histories")) else { return Ok(None) };
        let b = baseline_any(m, &w)?;
        let given_work = w.clone();
        w.outs = w.outs.iter().map(|o| resolve(&b.t0, o)).collect();
        st.note(if b.run.ok() { "the undisturbed merge succeeds" } else { "the undisturbed merge fails" });
        let named = |p: &String| if p == "-" { p.clone() } else { resolve(&b.t0, p) };
        let ins: Vec<String> = merge_inputs(&w).iter().map(named).collect();
        // Fingerprints, with the date and amount of the event they stand for.
        let mut want: BTreeSet<String> = BTreeSet::new();
        let mut given: BTreeSet<String> = BTreeSet::new();
        for i in &ins {
            let t = if i == "-" { w.cmd.stdin.as_ref().and_then(|b| ledger::parse_bytes(&b.0)) } else { data(&b.t0, i).and_then(ledger::parse_bytes) };
            let Some(t) = t else {
                st.skip("an input is not a journal");
                return Ok(None);
            };
            for x in t.iter().flat_map(|t| t.fps()) {
                if i == "-" {
                    given.insert(x);
                } else {
                    want.insert(x);
                }
            }
        }
        let files: BTreeSet<String> = ins.iter().chain(w.outs.iter()).filter(|p| *p != "-").cloned().collect();
        let missing = |t: &Tree| -> Vec<String> {
            let mut have: BTreeSet<String> = given.clone();
            for f in &files {
                if let Some(j) = data(t, f).and_then(ledger::parse_bytes) {
                    have.extend(j.iter().flat_map(|t| t.fps()));
                }
            }
            want.difference(&have).cloned().collect()
        };
        let stdout_only = opt(&w, "-o").map_or(true, |o| o == "-" || o == "/dev/stdout");
        let aliased = w.outs.iter().any(|o| ins.contains(o));
        if b.run.ok() && (!stdout_only || !aliased) {
            let l = missing(&b.t1);
            if !l.is_empty() {
                let msg = format!("{:?} succeeds and {} of {} fingerprints of its inputs are in none of the files, e.g. {}", w.cmd.args, l.len(), want.len(), l[0]);
                return Ok(Some(bad("lost", msg, json!({"work": given_work, "histories": []}), &[&b.run])));
            }
        }
        if stdout_only && aliased {
            // What was printed is the user's to keep.
            st.skip("merged output goes to standard output and the unmerged one over an input");
            return Ok(None);
        }
        for h in hs {
            m.restore(&b.t0);
            let mut done: Vec<Plan> = vec![];
            let mut runs = vec![];
            let mut prior = b.t0.clone();
            for p in h {
                let r = m.run(&w.cmd.with_plan(p), b.total)?;
                let t = m.tree();
                record(st, &r, &t, key(&w));
                done.push(r.applied());
                let l = missing(&t);
                let ok = r.ok();
                runs.push(r);
                if !l.is_empty() {
                    let r = runs.last().unwrap();
                    let msg = format!(
                        "{:?}: after {} (run {}, exit {:?}) {} of {} fingerprints of the inputs are in none of the files {:?}, e.g. {}",
                        w.cmd.args, faults_text(r), runs.len(), r.exit, l.len(), want.len(), files, l[0]
                    );
                    // Between the two replacements of inputs: is it exactly that?
                    let (o, u) = (opt(&w, "-o").as_ref().map(named), opt(&w, "-u").as_ref().map(named));
                    let between = match (o, u) {
                        (Some(o), Some(u)) if o != u && ins.contains(&o) && ins.contains(&u) && !ok => {
                            m.restore(&prior);
                            let q = m.run(&w.cmd.with_plan(Plan::None), b.total)?;
                            let qt = m.tree();
                            let un: BTreeSet<String> = data(&qt, &u).and_then(ledger::parse_bytes).unwrap_or_default().iter().flat_map(|t| t.fps()).collect();
                            q.ok() && data(&t, &o) == data(&qt, &o) && data(&t, &u) == data(&prior, &u) && l.iter().all(|f| un.contains(f))
                        }
                        _ => false,
                    };
                    let refs: Vec<_> = runs.iter().collect();
                    let mut bd = bad("lost", msg, json!({"work": given_work, "histories": [done]}), &refs);
                    if between {
                        bd.known = Some("between-two-replaced-inputs".into());
                    }
                    return Ok(Some(bd));
                }
                st.note(if aliased { "nothing lost (output over an input)" } else { "nothing lost" });
                // Once the merged output has replaced an input, running the
                // command again would be another merge, of other inputs.
                let replaced = opt(&w, "-o").as_ref().map(named).map_or(false, |o| ins.contains(&o) && data(&t, &o) != data(&b.t0, &o));
                if (ok && aliased) || replaced {
                    break;
                }
                prior = t;
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C11
pub struct C11;

/// (every field except fingerprints, fingerprints) of each posting.
fn strip(t: &Trn) -> (Trn, Vec<BTreeSet<String>>) {
    let mut u = t.clone();
    let mut f = vec![];
    for p in u.posts.iter_mut() {
        let fps: BTreeSet<String> = p.comment.fps().into_iter().collect();
        p.comment.tags.retain(|t| !t.starts_with("fp-"));
        f.push(fps);
    }
    (u, f)
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of fingerprint generations over several journals on differently seeded machines, disturbed by interrupted or shortened random-number calls, crashes and failures, followed by an undisturbed one; non-trivial when a fault took effect or a posting gained a fingerprint; distinct by files and call traces."
    }
    fn quick_runs(&self) -> u64 {
        2400
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = 1 + rng.usize(4);
        let mut files = vec![];
        let mut names = vec![];
        let same = rng.chance(1, 4);
        // Many postings, to use up what is counted.
        let huge = rng.chance(1, 30);
        let n = if huge { 1 + rng.usize(2) } else { n };
        let mut first: Option<String> = None;
        for i in 0..n {
            let jo = JOpts {
                dates: 2,
                trns: if huge { 150 + rng.usize(if thorough { 1500 } else { 300 }) } else if rng.chance(1, 12) { 80 } else { 1 + rng.usize(8) },
                fp: *rng.pick(&[0u32, 0, 300, 700, 1000]),
                rich: rng.chance(3, 4),
                unknown: 100,
                prefix: format!("g{i}"),
            };
            let mut j = gen::journal(rng, &jo);
            // The same posting many times.
            if rng.chance(1, 2) && !j.is_empty() {
                for _ in 0..rng.usize(5) {
                    let t = j[rng.usize(j.len())].clone();
                    j.push(t);
                }
            }
            // Tags that only look like fingerprints.
            if rng.chance(1, 3) {
                for p in j.iter_mut().flat_map(|t| t.posts.iter_mut()) {
                    if rng.chance(1, 3) {
                        let s = rng.below(1000);
                        p.comment.tags.insert(match rng.below(8) {
                            0..=2 => format!("candidate-fp-c{s}"),
                            3 => format!("candidate-fp-uuidb64-c{s}"),
                            4 => format!("xfp-{s}"),
                            5 => "fp".to_string(),
                            6 => format!("FP-{s}"),
                            _ => format!("fp{s}"),
                        });
                    }
                }
            }
            let text = if same && first.is_some() { first.clone().unwrap() } else { gen::sloppy(rng, &j, false) };
            first.get_or_insert(text.clone());
            let p = format!("{}j{i}.journal", if rng.chance(1, 4) { "d/" } else { "" });
            files.push(FileSpec::file(&p, text));
            names.push(p);
        }
        let k = if huge { 2 } else if thorough { 12 } else { 5 };
        let hist: Vec<Vec<Value>> = (0..k)
            .map(|_| {
                // Several machines, or one whose clock is set back: each with
                // journals of its own, all at the same moment.
                if n > 1 && rng.chance(1, 4) {
                    let clock = rng.range(0, 1_000_000) * 1_000_000_000;
                    let mut v: Vec<Value> = (0..n)
                        .map(|i| json!({"plan": Plan::None, "entropy": rng.next() >> 16, "clock": clock, "only": [i]}))
                        .collect();
                    v.push(json!({"plan": Plan::None, "entropy": rng.next() >> 16, "clock": clock}));
                    return v;
                }
                let len = rng.usize(3);
                let mut v: Vec<Value> = (0..len)
                    .map(|_| {
                        let p = match rng.below(4) {
                            0 => Plan::Random(RandomPlan {
                                seed: rng.next() >> 16,
                                classes: vec![Class::Random],
                                eintr: rng.below(700) as u32,
                                short: rng.below(900) as u32,
                                max_short: 1 + rng.below(15),
                                ..Default::default()
                            }),
                            1 => gen::plan(rng, Fam::Fail),
                            2 => gen::plan(rng, Fam::Power),
                            _ => gen::plan(rng, Fam::Kill),
                        };
                        json!({"plan": p, "entropy": rng.next() >> 16, "clock": if rng.chance(1, 2) { json!(null) } else { json!(rng.range(0, 1_000_000) * 1_000_000_000) }})
                    })
                    .collect();
                let p = if rng.chance(1, 2) {
                    Plan::None
                } else {
                    Plan::Random(RandomPlan { seed: rng.next() >> 16, eintr: 300, short: 500, max_short: 1 + rng.below(15), classes: vec![Class::Random], ..Default::default() })
                };
                v.push(json!({"plan": p, "entropy": rng.next() >> 16, "clock": null}));
                v
            })
            .collect();
        json!({"files": files, "fixed_names": names, "histories": hist})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(names), Some(hs)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<String>>(v, "fixed_names"), parse::<Vec<Vec<Value>>>(v, "histories")) else {
            return Ok(None);
        };
        if names.iter().any(|n| files.iter().all(|f| f.path != *n)) {
            return Ok(None);
        }
        let mut args = vec!["generate-fingerprints".to_string()];
        args.extend(names.iter().cloned());
        let base = Cmd::new(&args);
        m.reset(&files);
        let t0 = m.tree();
        let r0 = m.run(&base, 0)?;
        if !r0.ok() {
            st.skip("the undisturbed command fails");
            return Ok(None);
        }
        let total = r0.ops.len() as u32;
        let mut orig: BTreeMap<&String, Vec<Trn>> = BTreeMap::new();
        for n in &names {
            match data(&t0, n).and_then(ledger::parse_bytes) {
                Some(j) => orig.insert(n, j),
                None => {
                    st.skip("an input this checker does not read");
                    return Ok(None);
                }
            };
        }
        for h in hs {
            m.restore(&t0);
            // What each posting is known to have, over the whole history.
            let mut have: BTreeMap<&String, Vec<Trn>> = orig.clone();
            let mut done: Vec<Value> = vec![];
            let mut runs = vec![];
            let last = h.len().saturating_sub(1);
            for (k, s) in h.iter().enumerate() {
                let mut c = base.clone();
                c.plan = parse(s, "plan").unwrap_or_default();
                c.entropy = s["entropy"].as_u64().unwrap_or(1);
                c.clock = s["clock"].as_i64();
                // The journals given to this run.
                let listed: Vec<&String> = match parse::<Vec<usize>>(s, "only") {
                    Some(o) => o.iter().filter_map(|i| names.get(*i)).collect(),
                    None => names.iter().collect(),
                };
                if listed.is_empty() {
                    continue;
                }
                c.args.truncate(1);
                c.args.extend(listed.iter().map(|n| n.to_string()));
                let r = m.run(&c, total)?;
                let t = m.tree();
                record(st, &r, &t, key(&Work { kind: "fpgen".into(), files: files.clone(), cmd: base.clone(), outs: vec![] }));
                let mut s2 = s.clone();
                s2["plan"] = serde_json::to_value(r.applied()).unwrap();
                done.push(s2);
                let ok = r.ok();
                let only_random = !r.died() && r.faults.iter().all(|f| r.ops.get(f.op as usize).map_or(false, |o| o.class == Class::Random));
                let exit = r.exit;
                let ft = faults_text(&r);
                let err = r.err();
                runs.push(r);
                let sc = json!({"files": files, "fixed_names": names, "histories": [done]});
                let refs: Vec<_> = runs.iter().collect();
                let fail = |class: &str, msg: String| Ok(Some(bad(class, format!("run {} of {:?} after {ft} (exit {exit:?}): {msg}", k + 1, args), sc.clone(), &refs)));
                if !ok && only_random {
                    return fail("fails", format!("it should have succeeded: {err}"));
                }
                // Every fingerprint in sight, with where it stands.
                let mut owner: BTreeMap<String, String> = BTreeMap::new();
                let mut was: BTreeSet<String> = BTreeSet::new();
                for j in have.values() {
                    was.extend(j.iter().flat_map(|t| t.fps()));
                }
                let mut now_all = have.clone();
                for n in &names {
                    let d = data(&t, n).unwrap_or(b"");
                    let Some(j) = ledger::parse_bytes(d) else {
                        return fail("damaged", format!("{n} is no longer a journal: {}", show(Some(d))));
                    };
                    let old = &have[n];
                    if j.len() != old.len() {
                        return fail("changed", format!("{n} has {} transactions, had {}", j.len(), old.len()));
                    }
                    for (x, y) in old.iter().zip(&j) {
                        let ((a, fa), (b, fb)) = (strip(x), strip(y));
                        if a != b {
                            return fail("changed", format!("{n}: something other than fingerprints changed:\n{}became\n{}", x.render(), y.render()));
                        }
                        for (i, (p, q)) in fa.iter().zip(&fb).enumerate() {
                            if !p.is_subset(q) {
                                return fail("replaced", format!("{n}: posting {} of {:?} had {p:?} and now has {q:?}", i + 1, x.desc));
                            }
                            if !p.is_empty() && p != q {
                                return fail("added-twice", format!("{n}: posting {} of {:?} already had {p:?} and now has {q:?}", i + 1, x.desc));
                            }
                            if ok && q.is_empty() && listed.contains(&n) {
                                return fail("incomplete", format!("{n}: posting {} of {:?} has no fingerprint", i + 1, x.desc));
                            }
                            if q.len() > 1 && p.is_empty() {
                                return fail("too-many", format!("{n}: posting {} of {:?} got {q:?}", i + 1, x.desc));
                            }
                            for f in q.difference(p) {
                                let here = format!("{n}, posting {} of {:?} on {}", i + 1, x.desc, x.date);
                                if was.contains(f) {
                                    return fail("not-unique", format!("{here} got {f}, which was in use"));
                                }
                                if let Some(o) = owner.insert(f.clone(), here.clone()) {
                                    return fail("not-unique", format!("{here} and {o} both got {f}"));
                                }
                                let mut h = Hash::new();
                                h.add(f.as_bytes());
                                st.mark(h.0);
                            }
                        }
                    }
                    now_all.insert(n, j);
                }
                have = now_all;
                if k == last && ok {
                    // Once more: nothing to do.
                    let r2 = m.run(&Cmd { entropy: 77, ..base.clone() }, total)?;
                    let t2 = m.tree();
                    if !r2.ok() {
                        return fail("fails", format!("running it again fails: {}", r2.err()));
                    }
                    for n in &names {
                        if data(&t2, n) != data(&t, n) {
                            return fail("rerun-changes", format!("running it again changes {n}: {}", diff(data(&t, n).unwrap_or(b""), data(&t2, n).unwrap_or(b""))));
                        }
                    }
                    st.note("complete, and stable when run again");
                }
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C12
pub struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "A case is a PDF import with simulated helper programs that are missing, killed or report failure after a seeded part of their output, or with failing calls around them, over seeded statements, listing orders and helper speeds; non-trivial when a helper or call failed or the statement has several pages; distinct by statement, helper behaviour and call trace."
    }
    fn quick_runs(&self) -> u64 {
        4000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let pages = match rng.below(60) {
            0 => 101 + rng.usize(30),
            1..=4 => 10 + rng.usize(6),
            _ => 1 + rng.usize(4),
        };
        let per = if pages > 20 { 1 } else { 1 + rng.usize(5) };
        let n = (pages - 1) * per + 1 + rng.usize(per);
        let mut rs = gen::rows(rng, n, 300);
        if rng.chance(1, 3) {
            let at = rng.usize(rs.len() + 1);
            rs[at..].iter_mut().for_each(|r| r.date = (r.date.0 + 1, r.date.1, r.date.2.min(28)));
        }
        let k = if thorough { 24 } else { 10 };
        let cases: Vec<Value> = (0..k)
            .map(|_| {
                let (mut g, mut t, mut p) = (HelperPlan::default(), HelperPlan::default(), Plan::None);
                match rng.below(8) {
                    0 | 1 | 2 => g = helper_fault(rng),
                    3 | 4 | 5 => t = helper_fault(rng),
                    6 => {
                        p = Plan::Random(RandomPlan {
                            seed: rng.next() >> 16,
                            classes: vec![*rng.pick(&[Class::Spawn, Class::Dir, Class::OpenRead, Class::Read, Class::Mkdir, Class::Write, Class::OpenWrite])],
                            fail_at: Some((rng.next() >> 32) as u32),
                            ..Default::default()
                        })
                    }
                    _ => {
                        p = Plan::Random(RandomPlan { seed: rng.next() >> 16, short: 400, eintr: 150, max_short: 1 + rng.below(60), ..Default::default() });
                    }
                }
                json!({"gm": g, "tess": t, "plan": p, "dirseed": rng.below(1 << 30), "clock": rng.range(0, 2_000_000_000) * 1_000_000_000})
            })
            .collect();
        json!({
            "rows": rs, "per_page": per, "style": rng.below(1000), "cases": cases,
            "output": *rng.pick(&["out.journal", "-", "sub/out.journal"]), "old": rng.chance(1, 2),
            "helpers": rng.chance(1, 3), "sub": rng.chance(1, 5),
            "tmpdir": *rng.pick(&["tmp", "tmp", "tmp [x]", "t*mp"]),
        })
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(rs), Some(per), Some(seed), Some(cases), Some(out)) =
            (parse::<Vec<Row>>(v, "rows"), parse::<usize>(v, "per_page"), parse::<u64>(v, "style"), parse::<Vec<Value>>(v, "cases"), parse::<String>(v, "output"))
        else {
            return Ok(None);
        };
        if rs.is_empty() {
            return Ok(None);
        }
        let tmpdir = v["tmpdir"].as_str().unwrap_or("tmp").to_string();
        let pdf = gen::pdf(&mut Rng::new(seed), &rs, per.max(1));
        let mut files = vec![FileSpec::file("statement.pdf", pdf), FileSpec { path: tmpdir.clone(), node: Node::Dir }];
        let out_file = (out != "-").then(|| out.clone());
        if v["old"] == json!(true) && out_file.is_some() {
            files.push(FileSpec::file(&out, "2001-01-01 Old\n  a  GBP1.00\n"));
        }
        let mut args: Vec<&str> = vec!["import", "-o", &out];
        if out_file.is_some() {
            args.push("--make-parent-dirs");
        }
        args.extend(["nationwide-pdf", "--fp-namespace", "fixed:n", "statement.pdf"]);
        if v["helpers"] == json!(true) {
            args.extend(["/opt/gm/bin/gm", "tesseract"]);
        }
        let mut base = Cmd::new(&args);
        base.tmpdir = Some(tmpdir);
        let w = Work { kind: "pdf".into(), files, cmd: base.clone(), outs: out_file.iter().cloned().collect() };
        let b = baseline_any(m, &w)?;
        let sc = |c: &[Value]| {
            let mut x = v.clone();
            x["cases"] = json!(c);
            x
        };
        if !b.run.ok() {
            return Ok(Some(bad("fails", format!("{:?} fails although the statement and the helpers are fine: {}", w.cmd.args, b.run.err()), sc(&[]), &[&b.run])));
        }
        let text = |t: &Tree, so: &[u8]| -> Vec<u8> { out_file.as_ref().map_or(so.to_vec(), |o| data(t, o).unwrap_or(b"").to_vec()) };
        let whole = text(&b.t1, &b.run.stdout);
        if let Some(msg) = compare_rows(&rs, &whole) {
            return Ok(Some(bad("wrong-content", format!("{:?} of a statement of {} transactions on {} pages: {msg}", w.cmd.args, rs.len(), (rs.len() + per - 1) / per.max(1)), sc(&[]), &[&b.run])));
        }
        for c in cases {
            let mut cmd = base.clone();
            cmd.gm = parse(&c, "gm").unwrap_or_default();
            cmd.tess = parse(&c, "tess").unwrap_or_default();
            cmd.plan = parse(&c, "plan").unwrap_or_default();
            cmd.dirseed = c["dirseed"].as_u64().unwrap_or(1);
            cmd.clock = c["clock"].as_i64();
            m.restore(&b.t0);
            let r = m.run(&cmd, b.total)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            let failing = [&cmd.gm, &cmd.tess].iter().any(|h| h.missing.is_some() || h.signal.is_some() || h.exit != 0);
            let mut h = Hash::new();
            h.u64(r.trace_hash());
            h.u64(key(&w));
            h.add(format!("{:?}{:?}", cmd.gm, cmd.tess).as_bytes());
            if failing || r.fired() || rs.len() > per {
                st.mark(h.0);
            }
            let mut c2 = c.clone();
            c2["plan"] = serde_json::to_value(r.applied()).unwrap();
            let got = text(&t, &r.stdout);
            let about = format!("{:?} with gm {:?}, tesseract {:?}, {}", w.cmd.args, cmd.gm, cmd.tess, faults_text(&r));
            if r.ok() {
                if failing {
                    return Ok(Some(bad("failure-ignored", format!("{about}: succeeds although a helper failed"), sc(&[c2]), &[&r])));
                }
                if got != whole {
                    return Ok(Some(bad("partial", format!("{about}: succeeds, but the import differs from the undisturbed one: {}", diff(&whole, &got)), sc(&[c2]), &[&r])));
                }
                st.note("complete import");
                continue;
            }
            st.note(if failing { "helper failure reported" } else { "other failure reported" });
            if !failing && !r.fired() {
                return Ok(Some(bad("fails", format!("{about}: fails without a fault: {}", r.err()), sc(&[c2]), &[&r])));
            }
            if out_file.is_none() && !r.stdout.is_empty() {
                return Ok(Some(bad("partial", format!("{about}: fails ({}) but printed {}", r.err(), show(Some(&r.stdout))), sc(&[c2]), &[&r])));
            }
            for o in &w.outs {
                if data(&t, o) != data(&b.t0, o) {
                    // A failure after the new content is in place may be reported.
                    if !failing && data(&t, o) == Some(&whole[..]) {
                        continue;
                    }
                    return Ok(Some(bad("partial", format!("{about}: fails ({}) but wrote {}", r.err(), show(data(&t, o))), sc(&[c2]), &[&r])));
                }
            }
        }
        Ok(None)
    }
}

/// Compares an imported PDF statement with the rows it was made from.
fn compare_rows(rs: &[Row], out: &[u8]) -> Option<String> {
    let Some(j) = ledger::parse_bytes(out) else {
        return Some(format!("the output is not a journal: {}", show(Some(out))));
    };
    let d = |t: &Trn| format!("{} {} {:?}", t.date, t.desc, t.posts.first().and_then(|p| p.amount.clone()));
    for i in 0..rs.len().max(j.len()) {
        let (Some(r), Some(t)) = (rs.get(i), j.get(i)) else {
            return Some(format!("{} transactions on the statement, {} imported", rs.len(), j.len()));
        };
        let date = format!("{:04}-{:02}-{:02}", r.date.0, r.date.1, r.date.2);
        let desc = r.desc.split_whitespace().collect::<Vec<_>>().join(" ");
        let p = t.posts.iter().find(|p| p.comment.has("import-self"));
        let amount = p.and_then(|p| p.amount.as_deref()).and_then(pence);
        if t.date != date || !t.desc.starts_with(&desc) || amount != Some(r.pence) {
            return Some(format!("transaction {} is {:?}, the statement has {date} {desc} {}", i + 1, d(t), r.pence));
        }
        let (below, effective) = gen::pdf_below(r);
        let desc = std::iter::once(desc).chain(below).collect::<Vec<_>>().join(" ");
        if t.desc.split_whitespace().collect::<Vec<_>>().join(" ") != desc {
            return Some(format!("transaction {} is {:?}, the statement describes it as {desc:?}", i + 1, d(t)));
        }
        let want = effective.then_some("2020-01-03");
        if t.eff.as_deref().map(|e| e.replace('/', "-")).as_deref() != want {
            return Some(format!("transaction {} {:?} has the effective date {:?}, on the statement it is {want:?}", i + 1, d(t), t.eff));
        }
        let balance = p.and_then(|p| p.balance.as_deref()).and_then(pence);
        if balance != gen::pdf_balance(r) {
            return Some(format!("transaction {} {:?} has the balance {balance:?}, on the statement it is {:?}", i + 1, d(t), gen::pdf_balance(r)));
        }
    }
    None
}

/// GBP-1.20 as -120.
pub fn pence(a: &str) -> Option<i64> {
    let a = a.strip_prefix("GBP")?;
    let (neg, a) = match a.strip_prefix('-') {
        Some(a) => (true, a),
        None => (false, a),
    };
    let a = a.trim().replace(',', "");
    let (w, f) = a.split_once('.').unwrap_or((&a, ""));
    if f.len() > 2 && f[2..].bytes().any(|b| b != b'0') {
        return None;
    }
    let f = format!("{:0<2}", &f[..f.len().min(2)]);
    let v = w.parse::<i64>().ok()? * 100 + f.parse::<i64>().ok()?;
    Some(if neg { -v } else { v })
}

// ------------------------------------------------------------------------ C14
pub struct C14;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct Job {
    cmd: Cmd,
    /// Journals it reads, and files it writes.
    reads: Vec<String>,
    writes: Vec<String>,
}

fn jobs(rng: &mut Rng, n: usize) -> (Vec<FileSpec>, Vec<Job>) {
    let mut files = vec![];
    let trns = if rng.chance(1, 10) { 150 } else { 3 + rng.usize(4) };
    let js = gen::merge_journals(rng, 3, trns, false);
    let shared = ["main.journal", "b.journal", "books/c.journal"];
    for (i, j) in js.iter().enumerate() {
        let text = if rng.chance(1, 2) { ledger::render(j) } else { gen::sloppy(rng, j, false) };
        files.push(FileSpec::file(shared[i], text));
    }
    let (r, mut extra) = gen::rules(rng);
    files.push(FileSpec::file("rules/main.ron", r));
    files.append(&mut extra);
    let rs = gen::rows(rng, 6, 300);
    let st = gen::csv_style(rng);
    files.push(FileSpec { path: "statement.csv".into(), node: Node::File { data: Bytes(gen::nationwide(&rs, &st)), mode: 0o644 } });
    files.push(FileSpec::file("statement.pdf", gen::pdf(rng, &rs, 2)));
    let rs2 = gen::rows(rng, 5, 300);
    files.push(FileSpec::file("statement2.pdf", gen::pdf(rng, &rs2, 2)));
    let entropy = rng.next() >> 16;
    let same = rng.chance(1, 2);
    let mut out = vec![];
    for k in 0..n {
        let a = *rng.pick(&["main.journal", "main.journal", "main.journal", "b.journal"]);
        let b = *rng.pick(&["b.journal", "books/c.journal"]);
        let sv = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<String>>();
        let (args, reads, writes): (Vec<String>, Vec<String>, Vec<String>) = match rng.below(10) {
            0 => (sv(&["fmt", a]), sv(&[a]), sv(&[a])),
            1 if a != b => (sv(&["fmt", b, a]), sv(&[a, b]), sv(&[a, b])),
            2 => (sv(&["generate-fingerprints", a]), sv(&[a]), sv(&[a])),
            3 => (sv(&["apply-rules", "-o", a, a, "table", "rules/main.ron"]), sv(&[a]), sv(&[a])),
            4 => (sv(&["apply-rules", a, "table", "rules/main.ron"]), sv(&[a]), vec![]),
            5 if a != b => (sv(&["merge", "-o", a, a, b]), sv(&[a, b]), sv(&[a])),
            6 if a != b => (sv(&["merge", a, b]), sv(&[a, b]), vec![]),
            7 => (sv(&["import", "-o", a, "nationwide-csv", "--fp-namespace", "fixed:x", "statement.csv"]), vec![], sv(&[a])),
            8 => {
                let p = *rng.pick(&["statement.pdf", "statement2.pdf"]);
                let o = *rng.pick(&[a, "-", "private.journal"]);
                (sv(&["import", "-o", o, "nationwide-pdf", "--fp-namespace", "fixed:x", p]), vec![], if o == "-" { vec![] } else { sv(&[o]) })
            }
            9 if a != b => (sv(&["merge", "-o", b, "-u", "unmerged.journal", a, b]), sv(&[a, b]), sv(&[b, "unmerged.journal"])),
            _ => (sv(&["fmt", a]), sv(&[a]), sv(&[a])),
        };
        let mut cmd = Cmd::new(&args);
        cmd.entropy = if same && args[0] != "generate-fingerprints" { entropy } else { rng.next() >> 16 };
        cmd.pid = if same { 4242 } else { 1000 + 10 * k as i32 };
        cmd.dirseed = rng.below(1000);
        cmd.layout = rng.below(64);
        out.push(Job { cmd, reads, writes });
    }
    (files, out)
}

type Version = Option<Vec<u8>>;

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "A case is two or three commands on the same files, interleaved at their system calls by a seeded scheduler, some with one of them killed or with shortened calls; non-trivial when the scheduler switched between two unfinished commands; distinct by files, commands and the schedule with all call outcomes."
    }
    fn quick_runs(&self) -> u64 {
        1800
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = if rng.chance(1, 3) { 3 } else { 2 };
        let (files, js) = jobs(rng, n);
        let k = if thorough { 40 } else { 16 };
        let scheds: Vec<Value> = (0..k)
            .map(|_| {
                let s = Sched::Random { seed: rng.next() >> 16, switch: *rng.pick(&[20, 60, 150, 300, 500]) };
                let plans: Vec<Plan> = (0..n)
                    .map(|i| {
                        if i == 0 && rng.chance(1, 4) {
                            gen::plan(rng, Fam::Kill)
                        } else if rng.chance(1, 4) {
                            Plan::Random(RandomPlan { seed: rng.next() >> 16, short: 300, eintr: 50, max_short: 1 + rng.below(300), ..Default::default() })
                        } else {
                            Plan::None
                        }
                    })
                    .collect();
                json!({"sched": s, "plans": plans})
            })
            .collect();
        json!({"files": files, "jobs": js, "runs": scheds})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(js), Some(runs)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<Job>>(v, "jobs"), parse::<Vec<Value>>(v, "runs")) else { return Ok(None) };
        if js.is_empty() {
            return Ok(None);
        }
        m.reset(&files);
        let t0 = m.tree();
        // All versions each file can have, by running the commands one at a
        // time on every combination of versions of what they read.
        let mut versions: BTreeMap<String, BTreeSet<Version>> = BTreeMap::new();
        for j in &js {
            for p in j.reads.iter().chain(&j.writes) {
                versions.entry(p.clone()).or_default().insert(data(&t0, p).map(|d| d.to_vec()));
            }
        }
        let mut written: BTreeMap<String, BTreeSet<Version>> = BTreeMap::new();
        let mut outputs: Vec<BTreeSet<Vec<u8>>> = vec![BTreeSet::new(); js.len()];
        let mut fails: Vec<bool> = vec![false; js.len()];
        let mut tried: BTreeSet<(usize, Vec<Version>)> = BTreeSet::new();
        let mut totals = vec![0u32; js.len()];
        let mut singles = 0;
        for _round in 0..js.len() {
            let snapshot = versions.clone();
            for (k, j) in js.iter().enumerate() {
                let mut combos: Vec<Vec<Version>> = vec![vec![]];
                for p in &j.reads {
                    let mut next = vec![];
                    for c in &combos {
                        for x in &snapshot[p] {
                            let mut c = c.clone();
                            c.push(x.clone());
                            next.push(c);
                        }
                    }
                    combos = next;
                }
                for c in combos {
                    if !tried.insert((k, c.clone())) {
                        continue;
                    }
                    singles += 1;
                    if singles > 200 {
                        st.skip("too many versions");
                        return Ok(None);
                    }
                    m.restore(&t0);
                    for (p, x) in j.reads.iter().zip(&c) {
                        match x {
                            Some(d) => m.write(p, d),
                            None => m.remove(p),
                        }
                    }
                    let r = m.run(&j.cmd.with_plan(Plan::None), 0)?;
                    totals[k] = totals[k].max(r.ops.len() as u32);
                    if !r.ok() {
                        fails[k] = true;
                        if js.len() > 0 {
                            // Not a workable combination: nothing to compare with.
                            st.skip("a command fails on its own");
                            return Ok(None);
                        }
                    }
                    outputs[k].insert(r.stdout.clone());
                    for p in &j.writes {
                        let d = m.read(p);
                        let x: Version = d;
                        if x.is_some() || data(&t0, p).is_some() {
                            written.entry(p.clone()).or_default().insert(x.clone());
                            versions.entry(p.clone()).or_default().insert(x);
                        }
                    }
                }
            }
        }
        st.note(&format!("{} commands", js.len()));
        let private: BTreeSet<String> = js.iter().flat_map(|j| j.writes.iter().cloned()).collect();
        for run in runs {
            let Some(mut sched) = parse::<Sched>(&run, "sched") else { continue };
            let ps: Vec<Plan> = parse(&run, "plans").unwrap_or_default();
            m.restore(&t0);
            let cmds: Vec<Cmd> = js.iter().enumerate().map(|(k, j)| j.cmd.with_plan(ps.get(k).cloned().unwrap_or_default())).collect();
            let before = m.count.switches;
            let rs = m.run_many(&cmds, &totals, &mut sched)?;
            let t = m.tree();
            st.next();
            let mut h = Hash::new();
            for r in &rs {
                h.u64(r.trace_hash());
            }
            h.add(serde_json::to_string(&sched).unwrap().as_bytes());
            h.add(serde_json::to_string(&js).unwrap().as_bytes());
            st.traces.insert(h.0);
            st.states.insert(crate::disk::hash_tree(&t));
            if m.count.switches > before + 1 {
                st.mark(h.0);
            }
            if let Some(l) = &mut st.log {
                l.push(format!("{sched:?}\n{}", rs.iter().map(|r| r.trace_text()).collect::<String>()));
            }
            let applied: Vec<Plan> = rs.iter().map(|r| if r.faults.is_empty() { Plan::None } else { r.applied() }).collect();
            let sc = json!({"files": files, "jobs": js, "runs": [{"sched": sched, "plans": applied}]});
            let refs: Vec<_> = rs.iter().collect();
            let about = format!("{:?} at the same time", js.iter().map(|j| j.cmd.args.join(" ")).collect::<Vec<_>>());
            for (k, r) in rs.iter().enumerate() {
                if r.died() {
                    st.note("one command killed");
                    continue;
                }
                if !r.ok() {
                    return Ok(Some(bad("fails", format!("{about}: {:?} fails: {}", js[k].cmd.args, r.err()), sc, &refs)));
                }
                if !outputs[k].contains(&r.stdout) {
                    return Ok(Some(bad("wrong-output", format!("{about}: {:?} prints what it prints for no complete version of its input: {}", js[k].cmd.args, show(Some(&r.stdout))), sc, &refs)));
                }
            }
            for p in &private {
                let now: Version = data(&t, p).map(|d| d.to_vec());
                let done = js.iter().zip(&rs).any(|(j, r)| r.ok() && j.writes.contains(p) && !p.contains("unmerged"));
                let none = BTreeSet::new();
                let w = written.get(p).unwrap_or(&none);
                if w.contains(&now) || (!done && now == data(&t0, p).map(|d| d.to_vec())) {
                    continue;
                }
                let msg = format!("{about}: {p} finally holds no writer's complete output ({} possible): {}", w.len(), show(now.as_deref()));
                return Ok(Some(bad("wrong-file", msg, sc, &refs)));
            }
            for (p, n) in &t0 {
                if !private.contains(p) && t.get(p) != Some(n) {
                    return Ok(Some(bad("other-file", format!("{about}: {p} was changed"), sc, &refs)));
                }
            }
            if rs.iter().all(|r| r.ok()) {
                let outs: Vec<String> = private.iter().cloned().collect();
                let l = leftovers(&t0, &t, &outs);
                if !l.is_empty() {
                    return Ok(Some(bad("left-behind", format!("{about} leaves behind {l:?}"), sc, &refs)));
                }
            }
            st.note("runs as if on complete versions");
        }
        Ok(None)
    }
}
