//! Histories of merge sessions: C08 (again), C09 (in parts), C10 (ambiguous
//! matches), C16 (the matching rules).
use crate::common::*;
use crate::disk::Tree;
use crate::engine::{Bad, Prop, Stats};
use crate::gen;
use crate::ledger::{self, Post, Trn};
use crate::machine::{Machine, Run, R};
use crate::model::{self, Merged};
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session {
    pub inputs: Vec<String>,
    pub out: String,
    pub un: Option<String>,
    pub plan: Plan,
    pub entropy: u64,
}
impl Session {
    fn cmd(&self) -> Cmd {
        let mut a: Vec<String> = vec!["merge".into()];
        if let Some(u) = &self.un {
            a.extend(["-u".to_string(), u.clone()]);
        }
        a.extend(["-o".to_string(), self.out.clone()]);
        a.extend(self.inputs.iter().cloned());
        let mut c = Cmd::new(&a);
        c.plan = self.plan.clone();
        c.entropy = self.entropy;
        c
    }
}

fn new_session(rng: &mut Rng, inputs: &[&str], out: &str, un: Option<&str>) -> Session {
    Session {
        inputs: inputs.iter().map(|s| s.to_string()).collect(),
        out: out.into(),
        un: un.map(|s| s.to_string()),
        plan: Plan::None,
        entropy: rng.next() >> 16,
    }
}

/// What the model says about a session in this state; None if an input cannot
/// be read by the checker.
fn predict(t: &Tree, s: &Session) -> Option<Result<Merged, String>> {
    let mut v = vec![];
    for i in &s.inputs {
        match data(t, i) {
            None => return Some(Err(format!("{i} does not exist"))),
            Some(d) => v.push((i.clone(), ledger::parse_bytes(d)?)),
        }
    }
    Some(model::merge(&v).and_then(|m| if !m.unmerged.is_empty() && s.un.is_none() { Err("unmerged transactions and no place for them".into()) } else { Ok(m) }))
}

pub struct Done {
    pub run: Run,
    pub pre: Tree,
    pub post: Tree,
    pub pred: Result<Merged, String>,
}

fn first_diff(want: &[Trn], got: &[Trn]) -> String {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let f = |t: Option<&Trn>| t.map_or("(nothing)\n".to_string(), |t| t.render());
            return format!("transaction {} should be\n{}but is\n{}", i + 1, f(want.get(i)), f(got.get(i)));
        }
    }
    "no difference".into()
}

/// Runs a session and compares its result with the model.
fn session(m: &mut Machine, st: &mut Stats, s: &mut Session, total: &mut u32, k: u64) -> R<Result<Done, (String, String, Option<Run>)>> {
    let pre = m.tree();
    let Some(pred) = predict(&pre, s) else {
        return Ok(Err(("unreadable".into(), format!("an input of {:?} is no longer a journal", s.inputs), None)));
    };
    let r = m.run(&s.cmd(), *total)?;
    *total = (*total).max(r.ops.len() as u32);
    s.plan = if r.faults.is_empty() { Plan::None } else { r.applied() };
    let post = m.tree();
    record(st, &r, &post, k);
    let args = s.cmd().args;
    let about = format!("{args:?} with {} (exit {:?})", faults_text(&r), r.exit);
    let outs: Vec<String> = std::iter::once(s.out.clone()).chain(s.un.clone()).collect();
    if let Some(c) = changed_other(&pre, &post, &outs) {
        return Ok(Err(("other-file".into(), format!("{about}: {c}"), Some(r))));
    }
    let old = |p: &str| data(&pre, p) == data(&post, p);
    let is = |p: &str, want: &[Trn]| data(&post, p).map_or(false, |d| ledger::parse_bytes(d).map_or(false, |g| g == want));
    let wrong = |p: &str, want: &[Trn]| match data(&post, p) {
        None => format!("{p} does not exist"),
        Some(d) => match ledger::parse_bytes(d) {
            None => format!("{p} is not a journal: {}", show(Some(d))),
            Some(g) => format!("{p}: {}", first_diff(want, &g)),
        },
    };
    match &pred {
        Err(why) => {
            st.note("sessions refused");
            if r.ok() {
                return Ok(Err(("not-refused".into(), format!("{about}: succeeds, although: {why}"), Some(r))));
            }
            for o in &outs {
                if !old(o) {
                    return Ok(Err(("not-whole".into(), format!("{about}: must fail as a whole ({why}), but {o} has changed: {}", show(data(&post, o))), Some(r))));
                }
            }
        }
        Ok(p) => {
            if r.ok() {
                st.note(if p.unmerged.is_empty() { "sessions merged" } else { "sessions partly unmerged" });
                if !is(&s.out, &p.merged) {
                    return Ok(Err(("wrong-merge".into(), format!("{about}: {}", wrong(&s.out, &p.merged)), Some(r))));
                }
                if let (Some(u), false) = (&s.un, p.unmerged.is_empty()) {
                    if !is(u, &p.unmerged) {
                        return Ok(Err(("wrong-unmerged".into(), format!("{about}: {}", wrong(u, &p.unmerged)), Some(r))));
                    }
                } else if let Some(u) = &s.un {
                    if !old(u) && *u != s.out && !is(u, &[]) {
                        return Ok(Err(("wrong-unmerged".into(), format!("{about}: nothing is unmerged, but {u} is now {}", show(data(&post, u))), Some(r))));
                    }
                }
            } else {
                st.note("sessions interrupted");
                if !r.fired() {
                    return Ok(Err(("refused".into(), format!("{about}: fails, and should merge: {}", r.err()), Some(r))));
                }
                if !old(&s.out) && !is(&s.out, &p.merged) {
                    return Ok(Err(("half-run".into(), format!("{about}: {}", wrong(&s.out, &p.merged)), Some(r))));
                }
                if let Some(u) = &s.un {
                    if !old(u) && !is(u, &p.unmerged) {
                        return Ok(Err(("half-run".into(), format!("{about}: {}", wrong(u, &p.unmerged)), Some(r))));
                    }
                }
            }
        }
    }
    Ok(Ok(Done { run: r, pre, post, pred }))
}

// ------------------------------------------------------------- generators

/// The same value for the same tag everywhere.
fn agree(js: &mut [Vec<Trn>]) {
    for t in js.iter_mut().flatten() {
        for p in t.posts.iter_mut() {
            for (k, v) in p.comment.kv.iter_mut() {
                *v = format!("the {k}");
            }
        }
    }
}

/// Other ways of writing amounts: fewer decimals, other commodities, none.
fn vary(rng: &mut Rng, js: &mut [Vec<Trn>]) {
    gen::restyle_fps(rng, js);
    let other = rng.chance(1, 3);
    for t in js.iter_mut().flatten() {
        for p in t.posts.iter_mut() {
            for a in [&mut p.amount, &mut p.balance] {
                if let Some(x) = a {
                    if x.contains(['{', '@']) {
                        continue;
                    }
                    if other && x.starts_with("GBP2") {
                        *x = format!("{} EUR", &x[3..]);
                    }
                    if other && x.starts_with("GBP-2") {
                        *x = format!("${}", &x[3..]);
                    }
                    if rng.chance(1, 5) && x.ends_with('0') {
                        x.pop();
                    }
                }
            }
        }
    }
    let elided = rng.chance(1, 4);
    for t in js.iter_mut().flatten() {
        let n = t.posts.len();
        for (i, p) in t.posts.iter_mut().enumerate() {
            if elided && i + 1 == n && i > 0 && p.balance.is_none() && rng.chance(1, 3) {
                p.amount = None;
            }
        }
    }
}

/// Comments as people write them.
fn odd(rng: &mut Rng, text: &str) -> String {
    let mut s = String::new();
    for l in text.split_inclusive('\n') {
        s.push_str(l);
        if l.trim_start().starts_with(';') && rng.chance(1, 6) {
            s.push_str("  ; ");
            s.push_str(rng.pick(&[":odd: memo, see receipt", "key:", "half :odd: paid", ":odd2:", "see: this: too", "::", "x:y", ":a::b:", "  indented", "tags :a:b: in :c: text", "(1/2): done", ";", "A: B"]));
            s.push('\n');
        }
    }
    s
}

fn texts(rng: &mut Rng, js: &[Vec<Trn>]) -> Vec<String> {
    let o = rng.chance(1, 4);
    js.iter()
        .map(|j| {
            let t = if rng.chance(1, 2) { ledger::render(j) } else { gen::sloppy(rng, j, false) };
            if o {
                odd(rng, &t)
            } else {
                t
            }
        })
        .collect()
}

/// Journals of one or two dates with few amounts: much to confuse.
fn confusing(rng: &mut Rng, files: usize) -> Vec<Vec<Trn>> {
    let dates = 1 + rng.usize(2);
    let mut n = 0;
    let mut all_fps: Vec<String> = vec![];
    let un = *rng.pick(&[100u64, 300, 600]);
    let prices = rng.chance(1, 4);
    (0..files)
        .map(|f| {
            let trns = 1 + rng.usize(4);
            let mut used: BTreeSet<String> = BTreeSet::new();
            (0..trns)
                .map(|k| {
                    let mut t = Trn { date: gen::date(rng, dates), desc: format!("F{f}T{k}"), ..Default::default() };
                    for s in 0..1 + rng.usize(3) {
                        let mut p = Post {
                            account: rng.pick(&["assets:bank", "expenses:food", "assets:cash", "assets:bank", "expenses:food", "assets:bank:x", "Assets:bank"]).to_string(),
                            amount: Some(gen::money(if s % 2 == 0 { 100 } else { -100 })),
                            ..Default::default()
                        };
                        if rng.chance(1, 8) {
                            p.amount = Some(gen::money(55));
                        }
                        if rng.chance(1, 10) {
                            p.amount = p.amount.map(|a| a.replace("GBP", rng.pick(&["EUR", "Gbp"])));
                        }
                        if prices && rng.chance(1, 4) {
                            p.amount = p.amount.map(|a| format!("{a}{}", gen::price(rng)));
                        }
                        if rng.chance(1, 5) {
                            p.balance = Some(gen::money(*rng.pick(&[1000, 1100])));
                            if rng.chance(1, 6) {
                                p.balance = p.balance.map(|a| a.replace("GBP", "EUR"));
                            }
                        }
                        if rng.chance(1, 4) {
                            p.comment = gen::comment(rng, true);
                        }
                        p.status = gen::status(rng);
                        for _ in 0..1 + rng.usize(2) {
                            n += 1;
                            let fp = if !all_fps.is_empty() && rng.chance(1, 5) { rng.pick(&all_fps).clone() } else { format!("fp-{}-{n}", rng.pick(&["a", "zz", "m.1.x"])) };
                            if used.insert(fp.clone()) || rng.chance(1, 30) {
                                p.comment.tags.insert(fp);
                            }
                        }
                        if p.comment.fps().is_empty() {
                            n += 1;
                            p.comment.tags.insert(format!("fp-only-{n}"));
                        }
                        if rng.chance(un, 1000) {
                            p.comment.tags.insert(ledger::UNKNOWN.into());
                        }
                        t.posts.push(p);
                    }
                    if rng.chance(1, 4) {
                        t.comment.kv.insert("source-file".into(), rng.pick(&["q", "b", "B", "Q"]).to_string());
                    }
                    all_fps.extend(t.fps());
                    t
                })
                .collect()
        })
        .collect()
}

fn files_of(texts: &[String]) -> (Vec<FileSpec>, Vec<String>) {
    let names: Vec<String> = (0..texts.len()).map(|i| format!("{}f{i}.journal", if i % 3 == 2 { "in/" } else { "" })).collect();
    (names.iter().zip(texts).map(|(n, t)| FileSpec::file(n, t.clone())).collect(), names)
}

fn disturbed(rng: &mut Rng, p: u64) -> Plan {
    if rng.chance(p, 100) {
        gen::any_plan(rng)
    } else {
        Plan::None
    }
}

/// The user's choice among the candidates: the `pick`-th of each posting, or,
/// if possible and wanted, ones of a single transaction of `main`.
pub fn resolve(un: &[Trn], main: &[Trn], pick: u64, same_trn: bool) -> Vec<Trn> {
    let mut rng = Rng::new(pick);
    let mut taken: BTreeSet<String> = BTreeSet::new();
    un.iter()
        .map(|t| {
            let mut t = t.clone();
            // Transactions of `main` with a candidate for each posting.
            let sets: Vec<BTreeSet<String>> = t.posts.iter().map(|p| p.comment.candidates().into_iter().collect::<BTreeSet<_>>()).filter(|c| !c.is_empty()).collect();
            let owners: Vec<&Trn> = main.iter().filter(|d| sets.iter().all(|c| d.fps().iter().any(|f| c.contains(f)))).collect();
            let within: Option<BTreeSet<String>> = if same_trn && !owners.is_empty() { Some(owners[rng.usize(owners.len())].fps().into_iter().collect()) } else { None };
            for p in t.posts.iter_mut() {
                let c = p.comment.candidates();
                p.comment.tags.retain(|t| !t.starts_with("candidate-"));
                let mut ok: Vec<&String> = c.iter().filter(|f| within.as_ref().map_or(true, |w| w.contains(*f)) && (!same_trn || !taken.contains(*f))).collect();
                if ok.is_empty() {
                    ok = c.iter().collect();
                }
                if !ok.is_empty() {
                    let f = ok[rng.usize(ok.len())].clone();
                    taken.insert(f.clone());
                    p.comment.tags.insert(f);
                }
            }
            t
        })
        .collect()
}

// ------------------------------------------------------------------------ C16
pub struct C16;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "op")]
enum Step {
    Merge(Session),
    /// The user resolves the unmerged file into `to`.
    Resolve { from: String, to: String, main: String, pick: u64, same: bool },
    Fmt { file: String, plan: Plan },
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "A case is one session in a history of merge sessions (with resolutions of ambiguities, reformatting, crashes and failing calls between and inside sessions); each is compared with an independent model of the matching rules; non-trivial when a fault took effect or the journal changed; distinct by the journals before it and its call trace."
    }
    fn quick_runs(&self) -> u64 {
        9000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = 2 + rng.usize(4);
        let mut js = match rng.below(6) {
            0 | 1 => confusing(rng, n),
            2 => {
                let (mut ms, new) = ambiguous(rng);
                ms.push(new);
                ms
            }
            _ => {
                let per = if rng.chance(1, 30) { 60 } else { 6 };
                let conflict = rng.chance(1, 4);
                gen::merge_journals(rng, n, per, conflict)
            }
        };
        vary(rng, &mut js);
        let t = texts(rng, &js);
        let (mut files, names) = files_of(&t);
        let main = "main.journal";
        let mut steps = vec![];
        let start_empty = rng.chance(1, 3);
        if start_empty {
            files.push(FileSpec::file(main, ""));
        } else {
            let mut s = new_session(rng, &[&names[0]], main, Some("un0.journal"));
            s.plan = disturbed(rng, 30);
            steps.push(Step::Merge(s.clone()));
            steps.push(Step::Merge(Session { plan: Plan::None, ..s }));
        }
        let k = 1 + rng.usize(if thorough { 8 } else { 4 });
        let mut un_no = 0;
        for _ in 0..k {
            match rng.below(10) {
                0 => steps.push(Step::Fmt { file: main.into(), plan: disturbed(rng, 60) }),
                1..=3 if un_no > 0 => {
                    let from = format!("un{un_no}.journal");
                    steps.push(Step::Resolve { from: from.clone(), to: "resolved.journal".into(), main: main.into(), pick: rng.next() >> 16, same: rng.chance(2, 3) });
                    un_no += 1;
                    let mut s = new_session(rng, &[main, "resolved.journal"], main, Some(&format!("un{un_no}.journal")));
                    s.plan = disturbed(rng, 30);
                    steps.push(Step::Merge(s.clone()));
                    steps.push(Step::Merge(Session { plan: Plan::None, ..s }));
                }
                _ => {
                    let mut ins = vec![main.to_string()];
                    for _ in 0..1 + rng.usize(2) {
                        ins.push(rng.pick(&names).clone());
                    }
                    if rng.chance(1, 10) {
                        ins.rotate_left(1);
                    }
                    un_no += 1;
                    let un = if rng.chance(1, 8) { None } else { Some(format!("un{un_no}.journal")) };
                    let i: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                    let mut s = new_session(rng, &i, main, un.as_deref());
                    let again = rng.chance(1, 2);
                    s.plan = disturbed(rng, 40);
                    let disturbed = s.plan != Plan::None;
                    steps.push(Step::Merge(s.clone()));
                    if disturbed || again {
                        steps.push(Step::Merge(Session { plan: Plan::None, entropy: s.entropy + 1, ..s }));
                    }
                }
            }
        }
        json!({"files": files, "steps": steps})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(steps)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<Step>>(v, "steps")) else { return Ok(None) };
        m.reset(&files);
        let mut total = 40;
        let mut done: Vec<Step> = vec![];
        let mut runs: Vec<Run> = vec![];
        for s in steps {
            match s {
                Step::Merge(mut s) => {
                    let pre = m.tree();
                    let k = crate::disk::hash_tree(&pre);
                    let r = session(m, st, &mut s, &mut total, k)?;
                    done.push(Step::Merge(s.clone()));
                    match r {
                        Err((class, _, _)) if class == "unreadable" => {
                            st.skip("an input this checker does not read");
                            return Ok(None);
                        }
                        Err((class, msg, r)) => {
                            runs.extend(r);
                            let refs: Vec<_> = runs.iter().collect();
                            return Ok(Some(bad(&class, format!("session {}: {msg}", done.len()), json!({"files": files, "steps": done}), &refs)));
                        }
                        Ok(d) => {
                            if d.pre != d.post {
                                let mut h = Hash::new();
                                h.u64(k);
                                h.u64(d.run.trace_hash());
                                st.mark(h.0);
                            }
                            runs.push(d.run);
                        }
                    }
                }
                Step::Resolve { from, to, main, pick, same } => {
                    let t = m.tree();
                    // The latest file with something to resolve.
                    let from = if t.contains_key(&from) { from } else { t.keys().filter(|k| k.starts_with("un")).last().cloned().unwrap_or(from) };
                    done.push(Step::Resolve { from: from.clone(), to: to.clone(), main: main.clone(), pick, same });
                    let (Some(u), Some(j)) = (data(&t, &from).and_then(ledger::parse_bytes), data(&t, &main).and_then(ledger::parse_bytes)) else {
                        continue;
                    };
                    st.note("unmerged files resolved");
                    m.write(&to, ledger::render(&resolve(&u, &j, pick, same)).as_bytes());
                }
                Step::Fmt { file, plan } => {
                    let pre = m.tree();
                    if data(&pre, &file).is_none() {
                        continue;
                    }
                    let mut c = Cmd::new(&["fmt", &file]).with_plan(plan);
                    let r = m.run_rec(&mut c, total)?;
                    let post = m.tree();
                    record(st, &r, &post, crate::disk::hash_tree(&pre));
                    done.push(Step::Fmt { file: file.clone(), plan: c.plan });
                    let (a, b) = (data(&pre, &file).and_then(ledger::parse_bytes), data(&post, &file).and_then(ledger::parse_bytes));
                    runs.push(r);
                    if a.is_some() && a != b {
                        let refs: Vec<_> = runs.iter().collect();
                        return Ok(Some(bad("fmt", format!("fmt {file} changes what the journal says"), json!({"files": files, "steps": done}), &refs)));
                    }
                }
            }
        }
        Ok(None)
    }
}

/// Text next to a flag tag that will be a value tag once it is written on a
/// line of its own: reading a journal back then changes it.
fn text_like_value_tag(t: &Tree, names: &[String]) -> bool {
    names.iter().filter_map(|n| data(t, n).and_then(ledger::parse_bytes)).flatten().any(|t| {
        t.posts.iter().map(|p| &p.comment).chain([&t.comment]).any(|c| c.lines.iter().any(|l| ledger::value_tag(l).is_some()))
    })
}
const TEXT_KEY: &str = "text-like-value-tag";

// ------------------------------------------------------------------------ C08
pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A case is a merge of generated journals that leaves nothing unmerged, followed by merges of the result with inputs merged before, some interrupted and retried; non-trivial when a re-merge ran with at least one posting matching; distinct by journals, choice of inputs and call trace."
    }
    fn quick_runs(&self) -> u64 {
        6000
    }
    fn known(&self) -> Vec<(&'static str, Value)> {
        vec![(TEXT_KEY, serde_json::from_str(include_str!("../known/C08-text.json")).unwrap())]
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = 1 + rng.usize(4);
        let mut js = if rng.chance(1, 5) { confusing(rng, n) } else { let per = if rng.chance(1, 30) { 60 } else { 5 }; gen::merge_journals(rng, n, per, false) };
        let agreed = rng.chance(2, 3);
        if agreed {
            agree(&mut js);
        }
        vary(rng, &mut js);
        let t = texts(rng, &js);
        let (files, names) = files_of(&t);
        let k = if thorough { 8 } else { 4 };
        let again: Vec<Session> = (0..k)
            .map(|_| {
                let mut ins = vec!["main.journal".to_string()];
                if agreed {
                    for _ in 0..1 + rng.usize(n + 1) {
                        ins.push(rng.pick(&names).clone());
                    }
                    if rng.chance(1, 5) {
                        ins.truncate(1);
                    }
                } else {
                    ins.extend(names.iter().cloned());
                }
                let i: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                let out = if rng.chance(3, 4) { "main.journal" } else { "copy.journal" };
                let un = if rng.chance(1, 2) { Some("un.journal") } else { None };
                let mut s = new_session(rng, &i, out, un);
                s.plan = disturbed(rng, 25);
                s
            })
            .collect();
        json!({"files": files, "fixed_names": names, "agreed": agreed, "again": again})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(names), Some(again)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<String>>(v, "fixed_names"), parse::<Vec<Session>>(v, "again")) else { return Ok(None) };
        m.reset(&files);
        let i: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let first = new_session(&mut Rng::new(7), &i, "main.journal", None);
        let r = m.run(&first.cmd(), 0)?;
        if !r.ok() {
            st.skip("the first merge fails or leaves something unmerged");
            return Ok(None);
        }
        let t1 = m.tree();
        let Some(want) = data(&t1, "main.journal").map(|d| d.to_vec()) else {
            return Ok(Some(bad("no-output", "the merge succeeds without writing its output".into(), v.clone(), &[&r])));
        };
        if ledger::parse_bytes(&want).is_none() {
            st.skip("a result this checker does not read");
            return Ok(None);
        }
        let mut k = Hash::new();
        k.add(&want);
        let total = r.ops.len() as u32;
        let mut runs = vec![r];
        let mut done = vec![];
        // The values of a tag must agree if only some of the inputs are merged again.
        let agreed = names.iter().all(|n| {
            let js = data(&t1, n).and_then(ledger::parse_bytes).unwrap_or_default();
            js.iter().flat_map(|t| &t.posts).flat_map(|p| &p.comment.kv).all(|(k, v)| *v == format!("the {k}"))
        });
        for s in again {
            if s.inputs.first().map_or(true, |i| i != "main.journal") || s.inputs[1..].iter().any(|i| !names.contains(i)) {
                continue;
            }
            let partial = s.inputs.len() != names.len() + 1 || s.inputs[1..] != names[..];
            if partial && !agreed && s.inputs.len() > 1 {
                st.skip("inputs that give a tag different values, not all merged again");
                continue;
            }
            let mut tries = vec![s.plan.clone()];
            if s.plan != Plan::None {
                tries.push(Plan::None);
            }
            for p in tries {
                let mut s = Session { plan: p, ..s.clone() };
                let r = m.run(&s.cmd(), total)?;
                s.plan = if r.faults.is_empty() { Plan::None } else { r.applied() };
                let t = m.tree();
                let mut h = k.clone();
                h.add(format!("{:?}", s.inputs).as_bytes());
                record(st, &r, &t, h.0);
                h.u64(r.trace_hash());
                if s.inputs.len() > 1 {
                    st.mark(h.0);
                }
                done.push(s.clone());
                let (ok, fired) = (r.ok(), r.fired());
                let about = format!("merging again, {:?} with {} (exit {:?})", s.cmd().args, faults_text(&r), r.exit);
                let err = r.err();
                runs.push(r);
                let refs: Vec<_> = runs.iter().collect();
                let sc = json!({"files": files, "fixed_names": names, "again": done});
                if !ok && !fired {
                    return Ok(Some(bad("fails", format!("{about}: fails: {err}"), sc, &refs)));
                }
                for o in ["main.journal", "copy.journal"] {
                    let got = data(&t, o);
                    if got == Some(&want[..]) || (o == "copy.journal" && (got.is_none() && !(ok && s.out == o))) {
                        continue;
                    }
                    let mut b = bad("changes", format!("{about}: {o} differs from the result: {}", diff(&want, got.unwrap_or(b""))), sc, &refs);
                    if text_like_value_tag(&t1, &names) {
                        b.known = Some(TEXT_KEY.into());
                    }
                    return Ok(Some(b));
                }
                if data(&t, "un.journal").map_or(false, |d| !d.is_empty()) {
                    return Ok(Some(bad("unmerged", format!("{about}: leaves transactions unmerged: {}", show(data(&t, "un.journal"))), sc, &refs)));
                }
                if let Some(c) = changed_other(&t1, &t, &["main.journal".into(), "copy.journal".into(), "un.journal".into()]) {
                    return Ok(Some(bad("other-file", format!("{about}: {c}"), sc, &refs)));
                }
                if ok {
                    st.note("same result");
                }
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C09
pub struct C09;

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A case is a sequence of journals that merges completely in one run, cut into sessions in several ways, with sessions interrupted and retried; non-trivial when there is more than one session; distinct by journals, cuts and call traces."
    }
    fn quick_runs(&self) -> u64 {
        6000
    }
    fn known(&self) -> Vec<(&'static str, Value)> {
        vec![(TEXT_KEY, serde_json::from_str(include_str!("../known/C09-text.json")).unwrap())]
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = 2 + rng.usize(4);
        let mut js = if rng.chance(1, 5) { confusing(rng, n) } else { let per = if rng.chance(1, 30) { 60 } else { 5 }; gen::merge_journals(rng, n, per, false) };
        vary(rng, &mut js);
        let t = texts(rng, &js);
        let (files, names) = files_of(&t);
        let k = if thorough { 8 } else { 3 };
        let cuts: Vec<Value> = (0..k)
            .map(|i| {
                let all = i == 0;
                let sizes: Vec<usize> = {
                    let mut left = n;
                    let mut v = vec![];
                    while left > 0 {
                        let s = if all { 1 } else { 1 + rng.usize(left) };
                        v.push(s);
                        left -= s;
                    }
                    v
                };
                let plans: Vec<Plan> = sizes.iter().map(|_| disturbed(rng, 20)).collect();
                json!({"sizes": sizes, "plans": plans, "fmt": rng.chance(1, 4), "fresh": rng.chance(1, 4), "entropy": rng.next() >> 16})
            })
            .collect();
        json!({"files": files, "names": names, "cuts": cuts})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(names), Some(cuts)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<String>>(v, "names"), parse::<Vec<Value>>(v, "cuts")) else { return Ok(None) };
        if names.is_empty() {
            return Ok(None);
        }
        m.reset(&files);
        let t0 = m.tree();
        let i: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let first = new_session(&mut Rng::new(7), &i, "main.journal", None);
        let r0 = m.run(&first.cmd(), 0)?;
        if !r0.ok() {
            st.skip("merging at once fails or leaves something unmerged");
            return Ok(None);
        }
        let want = data(&m.tree(), "main.journal").unwrap_or(b"").to_vec();
        if ledger::parse_bytes(&want).is_none() {
            st.skip("a result this checker does not read");
            return Ok(None);
        }
        let total = r0.ops.len() as u32;
        let mut key = Hash::new();
        key.add(&want);
        for c in cuts {
            let sizes: Vec<usize> = parse(&c, "sizes").unwrap_or_default();
            let plans: Vec<Plan> = parse(&c, "plans").unwrap_or_default();
            let fresh = c["fresh"] == json!(true);
            m.restore(&t0);
            let mut at = 0;
            let mut runs = vec![];
            let mut rec = c.clone();
            let mut used: Vec<Plan> = vec![];
            let mut main = "main.journal".to_string();
            for (k, s) in sizes.iter().enumerate() {
                let s = (*s).min(names.len() - at);
                if s == 0 {
                    continue;
                }
                let mut ins: Vec<String> = if at == 0 { vec![] } else { vec![main.clone()] };
                ins.extend(names[at..at + s].iter().cloned());
                at += s;
                if fresh {
                    main = format!("main{k}.journal");
                }
                let i: Vec<&str> = ins.iter().map(|s| s.as_str()).collect();
                let mut se = new_session(&mut Rng::new(7 + k as u64), &i, &main, None);
                se.entropy = c["entropy"].as_u64().unwrap_or(0) + k as u64;
                let p = plans.get(k).cloned().unwrap_or_default();
                let mut tries = vec![p.clone()];
                if p != Plan::None {
                    tries.push(Plan::None);
                }
                for (a, p) in tries.into_iter().enumerate() {
                    // What an interrupted session has saved is merged again.
                    let r = m.run(&Session { plan: p, ..se.clone() }.cmd(), total)?;
                    let t = m.tree();
                    let mut h = key.clone();
                    h.add(format!("{sizes:?}").as_bytes());
                    record(st, &r, &t, h.0);
                    h.u64(r.trace_hash());
                    if sizes.len() > 1 {
                        st.mark(h.0);
                    }
                    let (ok, fired) = (r.ok(), r.fired());
                    if a == 0 {
                        used.push(if fired { r.applied() } else { Plan::None });
                    }
                    let err = r.err();
                    let ft = faults_text(&r);
                    runs.push(r);
                    if ok {
                        break;
                    }
                    if !fired {
                        rec["plans"] = json!(used);
                        let refs: Vec<_> = runs.iter().collect();
                        return Ok(Some(bad("fails", format!("session {} of {sizes:?}, {:?} with {ft}, fails although merging all at once does not: {err}", k + 1, se.cmd().args), json!({"files": files, "names": names, "cuts": [rec]}), &refs)));
                    }
                }
                if c["fmt"] == json!(true) {
                    let r = m.run(&Cmd::new(&["fmt", &main]), 0)?;
                    runs.push(r);
                }
            }
            if at < names.len() {
                continue;
            }
            let t = m.tree();
            let got = data(&t, &main).unwrap_or(b"");
            // fmt leaves out trailing spaces.
            let same = got == &want[..] || (c["fmt"] == json!(true) && ledger::parse_bytes(got) == ledger::parse_bytes(&want));
            if !same {
                rec["plans"] = json!(used);
                let refs: Vec<_> = runs.iter().collect();
                let mut b = bad("differs", format!("merging {names:?} in sessions of {sizes:?} files differs from merging at once: {}", diff(&want, got)), json!({"files": files, "names": names, "cuts": [rec]}), &refs);
                if text_like_value_tag(&t0, &names) {
                    b.known = Some(TEXT_KEY.into());
                }
                return Ok(Some(b));
            }
            st.note("same as at once");
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C10
pub struct C10;

/// Journals with equal postings, and a newcomer that could be several of them.
fn ambiguous(rng: &mut Rng) -> (Vec<Vec<Trn>>, Vec<Trn>) {
    let main: Vec<Trn> = confusing(rng, 1).pop().unwrap();
    let mut main = main;
    let copies = if rng.chance(1, 12) { 5 + rng.usize(30) } else { 1 + rng.usize(4) };
    let base = main[0].clone();
    for c in 0..copies {
        let mut t = base.clone();
        t.desc = format!("Same{c}");
        t.comment.kv.clear();
        for (i, p) in t.posts.iter_mut().enumerate() {
            p.comment.tags.retain(|t| !t.starts_with("fp-"));
            for f in 0..1 + rng.usize(2) {
                p.comment.tags.insert(format!("fp-{}-copy{c}-{i}-{f}", rng.pick(&["a", "zz", "m.1.x"])));
            }
            if rng.chance(1, 3) {
                p.comment.tags.insert(ledger::UNKNOWN.into());
            }
        }
        main.push(t);
    }
    let n = 1 + rng.usize(3);
    let mut new = vec![];
    for k in 0..n {
        let src = main[rng.usize(main.len())].clone();
        let mut t = Trn { date: src.date.clone(), desc: format!("New{k}"), ..Default::default() };
        for (i, p) in src.posts.iter().enumerate() {
            let mut q = Post { account: p.account.clone(), amount: p.amount.clone(), status: gen::status(rng), ..Default::default() };
            for f in 0..1 + rng.usize(2) {
                q.comment.tags.insert(format!("fp-new-{k}-{i}-{f}"));
            }
            if rng.chance(1, 4) {
                q.comment.tags.insert(ledger::UNKNOWN.into());
            }
            if rng.chance(1, 4) {
                q.comment.kv.insert("note".into(), "new".into());
            }
            if rng.chance(1, 6) {
                q.amount = Some(gen::money(4321));
            }
            if rng.chance(1, 12) {
                q.amount = q.amount.map(|a| a.replace("GBP", "EUR"));
            }
            t.posts.push(q);
        }
        if rng.chance(1, 3) {
            t.comment.kv.insert("source-file".into(), rng.pick(&["q", "b", "one.csv"]).to_string());
        }
        new.push(t);
    }
    (vec![main], new)
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "A case is a merge in which postings could each be several existing ones, with hash seeds and faults varied, and the merge after a user's choice of candidates; non-trivial when at least one transaction was left unmerged; distinct by journals, choices and call traces."
    }
    fn quick_runs(&self) -> u64 {
        7000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let (mut ms, mut new) = ambiguous(rng);
        let mut two = vec![std::mem::take(&mut ms[0]), std::mem::take(&mut new)];
        gen::restyle_fps(rng, &mut two);
        // Sources in main would make several merge sets of it.
        for t in two[0].iter_mut() {
            if rng.chance(4, 5) {
                t.comment.kv.remove("source-file");
            }
        }
        let t = [ledger::render(&two[0]), ledger::render(&two[1])];
        let files = vec![FileSpec::file("main.journal", t[0].clone()), FileSpec::file("new.journal", t[1].clone())];
        let k = if thorough { 8 } else { 3 };
        let tries: Vec<Value> = (0..k)
            .map(|_| {
                json!({
                    "merge": disturbed(rng, 30), "entropy": rng.next() >> 16, "pick": rng.next() >> 16, "same": !rng.chance(1, 4),
                    "resolve": disturbed(rng, 30), "entropy2": rng.next() >> 16,
                    "inplace": rng.chance(1, 2), "together": rng.chance(1, 4),
                })
            })
            .collect();
        json!({"files": files, "tries": tries})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(files), Some(tries)) = (parse::<Vec<FileSpec>>(v, "files"), parse::<Vec<Value>>(v, "tries")) else { return Ok(None) };
        m.reset(&files);
        let t0 = m.tree();
        let (Some(main0), Some(new0)) = (data(&t0, "main.journal").and_then(ledger::parse_bytes), data(&t0, "new.journal").and_then(ledger::parse_bytes)) else {
            return Ok(None);
        };
        let mut total = 40;
        for c in tries {
            m.restore(&t0);
            let mut rec = c.clone();
            let mut runs: Vec<Run> = vec![];
            // First the merge that finds the ambiguities.
            let mut s = new_session(&mut Rng::new(1), &["main.journal", "new.journal"], "main.journal", Some("un.journal"));
            s.entropy = c["entropy"].as_u64().unwrap_or(0);
            s.plan = parse(&c, "merge").unwrap_or_default();
            let was_disturbed = s.plan != Plan::None;
            let key = crate::disk::hash_tree(&t0);
            let mut last: Option<Done> = None;
            macro_rules! fail {
                ($class:expr, $msg:expr) => {{
                    let refs: Vec<_> = runs.iter().collect();
                    return Ok(Some(bad($class, $msg, json!({"files": files, "tries": [rec]}), &refs)));
                }};
            }
            for k in 0..if was_disturbed { 2 } else { 1 } {
                if k == 1 {
                    s.plan = Plan::None;
                }
                let r = session(m, st, &mut s, &mut total, key)?;
                if k == 0 {
                    rec["merge"] = json!(s.plan);
                }
                match r {
                    Err((class, msg, r)) => {
                        runs.extend(r);
                        fail!(&class, msg);
                    }
                    Ok(d) => last = Some(d),
                }
                // Undisturbed after all.
                if s.plan == Plan::None {
                    break;
                }
            }
            let d = last.unwrap();
            let refused = !d.run.ok();
            let mut h = Hash::new();
            h.u64(key);
            h.u64(d.run.trace_hash());
            runs.push(d.run);
            if refused {
                st.note("refused");
                continue;
            }
            let (main1, mut un) = (data(&d.post, "main.journal").and_then(ledger::parse_bytes).unwrap_or_default(), data(&d.post, "un.journal").and_then(ledger::parse_bytes).unwrap_or_default());
            if d.pred.as_ref().map_or(false, |p| p.unmerged.is_empty()) {
                // What is there is left from an interrupted run whose results
                // settled the question.
                un.clear();
            }
            // Directly, without the model: whatever is left is left whole and
            // marked, and has not touched the journal.
            let pre_main = data(&d.pre, "main.journal").and_then(ledger::parse_bytes).unwrap_or_default();
            let in_main: BTreeSet<String> = main1.iter().flat_map(|t| t.fps()).collect();
            let had: BTreeSet<String> = pre_main.iter().flat_map(|t| t.fps()).collect();
            for t in &un {
                let marks: Vec<&Post> = t.posts.iter().filter(|p| !p.comment.candidates().is_empty()).collect();
                if t.posts.is_empty() {
                    continue;
                }
                if marks.is_empty() {
                    fail!("unmarked", format!("{:?} is left unmerged without a candidate mark", t.desc));
                }
                let orig = new0.iter().chain(main0.iter()).find(|o| o.desc == t.desc).map(|o| o.posts.len());
                if orig != Some(t.posts.len()) {
                    fail!("not-whole", format!("{:?} is left unmerged with {} of {orig:?} postings", t.desc, t.posts.len()));
                }
                for p in marks {
                    let cs = p.comment.candidates();
                    let owners: BTreeSet<usize> = cs
                        .iter()
                        .filter_map(|c| main1.iter().flat_map(|t| &t.posts).position(|q| q.comment.has(c)))
                        .collect();
                    if cs.len() < 2 || owners.len() != cs.len() {
                        fail!("marks", format!("{:?}: candidates {cs:?} do not each name a posting of the journal", t.desc));
                    }
                }
                if t.fps().iter().any(|f| in_main.contains(f) && !had.contains(f)) {
                    fail!("guessed", format!("{:?} is unmerged, but one of its postings has been merged", t.desc));
                }
            }
            if un.is_empty() {
                st.note("nothing ambiguous");
                continue;
            }
            st.mark(h.0);
            st.note("ambiguous transactions left to the user");
            // The user chooses.
            let pick = c["pick"].as_u64().unwrap_or(0);
            let same = c["same"] == json!(true);
            let chosen = resolve(&un, &main1, pick, same);
            let file = if c["inplace"] == json!(true) { "un.journal" } else { "chosen.journal" };
            m.write(file, ledger::render(&chosen).as_bytes());
            if file != "un.journal" {
                m.remove("un.journal");
            }
            let ins: Vec<&str> = if c["together"] == json!(true) { vec!["main.journal", file, "new.journal"] } else { vec!["main.journal", file] };
            let mut s = new_session(&mut Rng::new(1), &ins, "main.journal", Some("un2.journal"));
            s.entropy = c["entropy2"].as_u64().unwrap_or(0);
            s.plan = parse(&c, "resolve").unwrap_or_default();
            let was_disturbed = s.plan != Plan::None;
            let t2 = m.tree();
            let key2 = crate::disk::hash_tree(&t2);
            let mut last: Option<Done> = None;
            for k in 0..if was_disturbed { 2 } else { 1 } {
                if k == 1 {
                    s.plan = Plan::None;
                }
                let r = session(m, st, &mut s, &mut total, key2)?;
                if k == 0 {
                    rec["resolve"] = json!(s.plan);
                }
                match r {
                    Err((class, msg, r)) => {
                        runs.extend(r);
                        fail!(&class, format!("after the user's choice: {msg}"));
                    }
                    Ok(d) => last = Some(d),
                }
                // Undisturbed after all.
                if s.plan == Plan::None {
                    break;
                }
            }
            let d = last.unwrap();
            let ok = d.run.ok();
            runs.push(d.run);
            // Choices within one existing transaction, each of another posting,
            // must go through, when nothing else of the newcomer matches.
            let main2 = data(&d.post, "main.journal").and_then(ledger::parse_bytes).unwrap_or_default();
            let mut place: BTreeMap<String, (usize, usize)> = BTreeMap::new();
            for (i, t) in main1.iter().enumerate() {
                for (j, p) in t.posts.iter().enumerate() {
                    for f in p.comment.fps() {
                        place.insert(f, (i, j));
                    }
                }
            }
            let mut simple = ins.len() == 2;
            let mut dests: BTreeSet<(usize, usize)> = BTreeSet::new();
            // Two records of one event cannot be two postings.
            let mut events: BTreeSet<String> = BTreeSet::new();
            for p in un.iter().flat_map(|t| &t.posts) {
                simple &= p.comment.fps().into_iter().all(|f| events.insert(f));
            }
            for (t, u) in chosen.iter().zip(&un) {
                let mut owner: BTreeSet<usize> = BTreeSet::new();
                for (p, q) in t.posts.iter().zip(&u.posts) {
                    let w: BTreeSet<(usize, usize)> = p.comment.fps().iter().filter_map(|f| place.get(f).copied()).collect();
                    if q.comment.candidates().is_empty() {
                        let m = main1.iter().enumerate().filter(|(_, x)| x.date == t.date).flat_map(|(i, x)| x.posts.iter().enumerate().map(move |(j, y)| (i, j, y))).filter(|(_, _, y)| model::soft(y, p)).count();
                        // What is added for the others may match as well.
                        let o = chosen.iter().filter(|x| *x != t).flat_map(|x| &x.posts).filter(|y| model::soft(y, p)).count();
                        if m + o > 0 || !w.is_empty() {
                            simple = false;
                        }
                        continue;
                    }
                    if w.len() != 1 {
                        simple = false;
                    }
                    for x in w {
                        owner.insert(x.0);
                        if !dests.insert(x) {
                            simple = false;
                        }
                    }
                }
                if owner.len() > 1 {
                    simple = false;
                }
            }
            // Choices in transactions changed by nothing else in this session.
            if simple {
                st.note("choices within one transaction");
                if !ok {
                    fail!("choice-refused", format!("the user's choice is refused: {}", runs.last().unwrap().err()));
                }
                for (t, u) in chosen.iter().zip(&un) {
                    for (p, q) in t.posts.iter().zip(&u.posts) {
                        if q.comment.candidates().is_empty() {
                            continue;
                        }
                        let Some((i, j)) = p.comment.fps().iter().find_map(|f| place.get(f).copied()) else { continue };
                        let dest = main2.iter().flat_map(|t| &t.posts).find(|x| main1[i].posts[j].comment.fps().iter().any(|f| x.comment.has(f)));
                        if dest.map_or(true, |x| !p.comment.fps().iter().all(|f| x.comment.has(f))) {
                            fail!("choice-ignored", format!("the posting {:?} of {:?} is not merged into the chosen posting", p.comment.fps(), t.desc));
                        }
                    }
                }
                if data(&d.post, "un2.journal").map_or(false, |x| !x.is_empty()) {
                    fail!("still-unmerged", format!("after the user's choice these are still unmerged: {}", show(data(&d.post, "un2.journal"))));
                }
                let a: usize = main1.iter().map(|t| t.posts.iter().filter(|p| !p.comment.fps().is_empty()).count()).sum::<usize>();
                let extra: usize = un.iter().flat_map(|t| &t.posts).filter(|p| p.comment.candidates().is_empty()).count();
                let b: usize = main2.iter().map(|t| t.posts.len()).sum();
                if b != a + extra || main2.len() != main1.len() {
                    fail!("duplicated", format!("after the user's choice the journal has {b} postings in {} transactions, expected {} in {}", main2.len(), a + extra, main1.len()));
                }
            } else {
                st.note("choices that may conflict");
            }
        }
        Ok(None)
    }
}
