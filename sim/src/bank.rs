//! Histories of bank statements (C07) and statements cut short (C15).
use crate::common::*;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, CsvStyle, Row};
use crate::ledger::{self, Trn};
use crate::machine::{Machine, Run, R};
use crate::multi::pence;
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------ C07
pub struct C07;

/// A record of the bank, as the user's journal should show it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Truth {
    account: String,
    date: String,
    pence: i64,
    desc: String,
    /// The accounts the rules give to the two postings, if any.
    own: String,
    peer: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Step {
    /// A file appears: a download, or something the user writes.
    File { path: String, fixed_data: Bytes },
    /// The user adds a transaction by hand, for this record.
    Manual { fixed_text: String, fixed_id: usize, fixed_own: String, fixed_peer: String },
    /// A command.
    Run { cmd: Cmd, act: Act },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Act {
    /// Writes a journal with these records. `fixed_needs`: files it reads.
    Import { fixed_needs: Vec<String>, out: String, fixed_covers: Vec<usize> },
    /// Rules applied to an imported journal.
    Rules { file: String },
    /// Rules for the counter-postings applied to the main journal.
    RulesMain,
    Merge { fixed_imports: Vec<String>, un: String },
    Fmt,
    Fingerprint,
}

const MAIN: &str = "main.journal";
const CATEGORIES: &[(&str, &str)] = &[("TESCO", "expenses:food"), ("RENT", "expenses:housing:rent"), ("SMITH", "income:work")];

fn category(desc: &str) -> Option<String> {
    CATEGORIES.iter().find(|(k, _)| desc.contains(k)).map(|(_, a)| a.to_string())
}

/// Rule tables that give a posting of the account itself the account `own`,
/// and its counter-posting the first category that fits, in one of the many
/// forms such a table can take. Files with their paths, the table itself last.
fn rules_files(rng: &mut Rng, own: Option<&str>, stem: &str) -> Vec<(String, String)> {
    let mut files: Vec<(String, String)> = vec![];
    let plain = rng.chance(1, 4);
    let mut chains: Vec<(String, Vec<String>)> = vec![];
    let rule = |action: String, pred: String, result: &str| format!("    Rule(action: {action}, predicate: {pred}, result: {result}),\n");
    let unmark = "RemovePostingFlagTag(\"unknown-account\")".to_string();
    let jump = |c: &str| format!("JumpChain({c:?})");
    // The mark as unknown is taken away with the account, by a chain of its
    // own, or at the end of the start chain.
    let settle = if plain { 0 } else { rng.below(4) };
    let extras = !plain && rng.chance(1, 2);
    let set = |rng: &mut Rng, a: &str| -> String {
        let set = format!("SetAccount({a:?})");
        if plain {
            return format!("All([{set}, {unmark}])");
        }
        let mut v = match settle {
            1 => vec![set, jump("settle")],
            2 => vec![set],
            _ => vec![set, unmark.clone()],
        };
        rng.shuffle(&mut v);
        for _ in 0..if extras { rng.usize(3) } else { 0 } {
            let i = rng.usize(v.len() + 1);
            let x = rng.pick(&["Noop", "All([])", "JumpChain(\"nothing\")", "JumpChain(\"returns\")", "AddPostingFlagTag(\"ruled\")", "All([Noop, JumpChain(\"nothing\")])"]).to_string();
            v.insert(i, x);
        }
        if v.len() > 1 && rng.chance(1, 3) {
            let tail = v.split_off(1 + rng.usize(v.len() - 1));
            v.push(format!("All([{}])", tail.join(", ")));
        }
        if v.len() == 1 && rng.chance(1, 2) { v.remove(0) } else { format!("All([{}])", v.join(", ")) }
    };
    let dress = |rng: &mut Rng, p: String| -> String {
        if plain {
            return p;
        }
        match rng.below(8) {
            0 => format!("All([{p}, True])"),
            1 => format!("Any([Not(True), {p}])"),
            2 => format!("Not(Not({p}))"),
            3 => format!("Any([All([{p}]), Any([])])"),
            4 => format!("All([All([]), {p}, Not(Account(Eq(\"no such account\")))])"),
            _ => p,
        }
    };
    let flag = |rng: &mut Rng, f: &str| -> String {
        match if plain { 9 } else { rng.below(5) } {
            0 => format!("PostingFlagTag(Eq({f:?}))"),
            1 => format!("PostingFlagTag(Matches(\"^{f}$\"))"),
            2 => format!("All([PostingHasFlagTag({f:?}), Not(PostingHasValueTag({f:?}))])"),
            _ => format!("PostingHasFlagTag({f:?})"),
        }
    };
    let about = |rng: &mut Rng, k: &str| -> String {
        match if plain { 9 } else { rng.below(6) } {
            0 => format!("TransactionDescription(AsLower(Contains({:?})))", k.to_lowercase()),
            1 => format!("TransactionDescription(Matches({:?}))", format!("(XX|{k})")),
            2 => format!("TransactionDescription(AsLower(Matches({:?})))", format!("^.*{}", k.to_lowercase())),
            _ => format!("TransactionDescription(Contains({k:?}))"),
        }
    };
    // What must not be reached: a rule that matched has ended the chain.
    let never = |rng: &mut Rng| *rng.pick(&["SetAccount(\"expenses:wrong\")", "Error(\"not reached\")", "All([JumpChain(\"nothing\"), SetAccount(\"expenses:wrong\")])"]);

    let mut start: Vec<String> = vec![];
    if extras {
        start.push(rule(jump(*rng.pick(&["nothing", "returns"])), "True".into(), "Continue"));
        start.push(rule("Error(\"no\")".into(), rng.pick(&["Any([])", "Not(True)", "Account(Eq(\"Assets\"))", "PostingValueTag(\"bank\", Eq(\"\"))"]).to_string(), "Return"));
    }
    if let Some(own) = own {
        let p = flag(rng, "import-self");
        let p = dress(rng, p);
        let a = set(rng, own);
        if settle == 2 {
            start.push(rule(a, p, "Continue"));
        } else if !plain && rng.chance(1, 2) {
            chains.push(("self".into(), vec![rule(a, "True".into(), rng.pick(&["Return", "Continue"]))]));
            start.push(rule(jump("self"), p.clone(), "Return"));
            start.push(rule(never(rng).into(), p, "Return"));
        } else {
            start.push(rule(a, p.clone(), "Return"));
            if extras {
                start.push(rule(never(rng).into(), p, "Continue"));
            }
        }
    }
    let mut cats: Vec<(&str, &str)> = CATEGORIES.to_vec();
    rng.shuffle(&mut cats);
    let mut peers: Vec<String> = vec![];
    for (k, a) in &cats {
        let p = about(rng, k);
        let p = dress(rng, p);
        let act = set(rng, a);
        peers.push(rule(act, p, "Return"));
    }
    if extras {
        let (k, _) = cats[rng.usize(cats.len())];
        peers.push(rule(never(rng).into(), format!("TransactionDescription(Contains({k:?}))"), "Return"));
    }
    let p = flag(rng, "import-peer");
    let p = dress(rng, p);
    // Chains that call chains.
    let deep = if plain { 0 } else { rng.below(4) };
    let mut callee = "peers".to_string();
    for d in 0..deep {
        let name = format!("to peers {d}");
        let act = if rng.chance(1, 2) { jump(&callee) } else { format!("All([Noop, {}, Noop])", jump(&callee)) };
        chains.push((name.clone(), vec![rule(act, "True".into(), rng.pick(&["Return", "Continue"]))]));
        callee = name;
    }
    start.push(rule(jump(&callee), p, "Continue"));
    if settle == 2 {
        // Each rule above has let the chain go on.
        let p = rng.pick(&["Not(Account(Matches(\":unknown$\")))", "Not(Any([Account(Eq(\"expenses:unknown\")), Account(Eq(\"income:unknown\")), Account(Eq(\"assets:unknown\"))]))"]).to_string();
        start.push(rule(unmark.clone(), p, "Continue"));
    }
    chains.push(("peers".into(), peers));
    if !plain {
        chains.push(("nothing".into(), vec![]));
        chains.push(("returns".into(), vec![rule("Noop".into(), "True".into(), "Return"), rule("Error(\"returned\")".into(), "True".into(), "Continue")]));
        chains.push(("settle".into(), vec![rule(unmark, "True".into(), rng.pick(&["Return", "Continue"]))]));
        chains.push(("unused".into(), vec![rule("Error(\"unused\")".into(), "True".into(), "Return")]));
    }
    chains.push(("start".into(), start));
    rng.shuffle(&mut chains);
    // Some of the chains live in files of their own, which may be included
    // more than once.
    let mut top: Vec<String> = vec![];
    let mut inc: Vec<String> = vec![];
    let split = !plain && rng.chance(1, 2);
    for (n, r) in &chains {
        let c = format!("  Chain({n:?}, [\n{}  ]),\n", r.concat());
        if split && rng.chance(1, 2) { inc.push(c) } else { top.push(c) }
    }
    if split {
        let back = rng.chance(1, 3);
        let (sub, up) = if rng.chance(1, 2) { ("sub/", "../") } else { ("", "") };
        let name = format!("{stem}-inc.ron");
        if back {
            inc.insert(0, format!("  Include(\"{up}{stem}.ron\"),\n"));
        }
        files.push((format!("rules/{sub}{name}"), format!("[\n{}]\n", inc.concat())));
        for _ in 0..1 + rng.usize(2) {
            let i = rng.usize(top.len() + 1);
            top.insert(i, format!("  Include(\"{sub}{name}\"),\n"));
        }
    }
    files.push((format!("rules/{stem}.ron"), format!("[\n{}]\n", top.concat())));
    files
}

/// Is there a rule file, with all it includes?
fn rules_there(t: &crate::disk::Tree, path: &str, depth: u32) -> bool {
    let Some(d) = data(t, path) else { return false };
    let text = String::from_utf8_lossy(d);
    let dir = &path[..path.rfind('/').map_or(0, |i| i + 1)];
    depth > 3 || text.split("Include(\"").skip(1).all(|x| {
        let mut p = format!("{dir}{}", x.split('"').next().unwrap_or(""));
        if let Some(i) = p.find("sub/../") {
            p.replace_range(i..i + 7, "");
        }
        rules_there(t, &p, depth + 1)
    })
}

fn next_day(d: (i32, u32, u32)) -> (i32, u32, u32) {
    let len = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][d.1 as usize - 1];
    let len = if d.1 == 2 && d.0 % 4 != 0 { 28 } else { len };
    if d.2 < len {
        (d.0, d.1, d.2 + 1)
    } else if d.1 < 12 {
        (d.0, d.1 + 1, 1)
    } else {
        (d.0 + 1, 1, 1)
    }
}
fn iso(d: (i32, u32, u32)) -> String {
    format!("{:04}-{:02}-{:02}", d.0, d.1, d.2)
}

/// What a bank knows about one account: consecutive days with records.
fn bank_history(rng: &mut Rng, k: i64, days: &[(i32, u32, u32)], busy: u64) -> Vec<Row> {
    let mut v: Vec<Row> = vec![];
    let mut bal = rng.range(0, 500000);
    // A day with a long run of records that look alike.
    let toll = if rng.chance(1, 6) { Some((*rng.pick(days), *rng.pick(&[9u64, 12, 15, 40, 90]), rng.chance(1, 2))) } else { None };
    for d in days {
        let mut secs = if rng.chance(1, 6) { 60 } else { 3600 + rng.below(20000) as u32 };
        let mut n = if rng.chance(busy, 10) { 1 + rng.usize(3) } else { 0 };
        let (mut alike, mut step) = (3, 50000);
        if let Some((t, most, _)) = toll {
            if t == *d {
                n = 5 + rng.usize(most as usize);
                (alike, step) = (9, 600);
            }
        }
        for i in 0..n {
            let again = i > 0 && rng.chance(alike, if alike == 3 { 9 } else { 10 });
            if i > 0 && !rng.chance(1, 3) {
                secs += 1 + rng.below(step) as u32;
            }
            let prev = v.last().cloned();
            // Amounts of the accounts are disjoint.
            let mut p = match rng.below(3) {
                0 => *rng.pick(&[100i64, 400, 1000, 99996]),
                1 if rng.chance(1, 20) => 4 * rng.range(25_000_000, 90_000_000),
                _ => 4 * rng.range(1, 30000),
            } + k;
            if rng.chance(2, 3) {
                p = -p;
            }
            let mut r = Row {
                date: *d,
                time: ((secs / 3600).min(23), secs / 60 % 60, secs % 60),
                kind: rng.pick(&["Direct debit", "Visa purchase", "Bank credit", "Transfer to"]).to_string(),
                desc: rng.pick(&["Grocer", "TESCO STORES 1234", "J SMITH & SONS", "Café Zoë", "Gas, water", "RENT", "RENT 07/12"]).to_string(),
                loc: rng.pick(&["", "London", "LEEDS GB"]).to_string(),
                pence: p,
                balance: 0,
                cleared: !rng.chance(1, 4),
            };
            if let (true, Some(q)) = (again, prev) {
                // The same purchase twice, or bought and given back.
                let t = r.time;
                r = q;
                if rng.chance(1, 2) {
                    r.time = t;
                }
                // ... but all tolls may be equal.
                if rng.chance(1, 4) && !(alike == 9 && toll.map_or(false, |t| t.2)) {
                    r.pence = -r.pence;
                }
            }
            bal += r.pence;
            r.balance = bal;
            v.push(r);
        }
    }
    v
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of sessions over two or three bank accounts: overlapping downloads imported, rules applied, merged, the journal reformatted or extended by hand, commands interrupted and retried; after each completed merge the journal is compared with the bank's records; non-trivial when a fault took effect or a record was downloaded again; distinct by the history and the call traces."
    }
    fn quick_runs(&self) -> u64 {
        2400
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let start = *rng.pick(&[(2020, 2, 20), (2020, 3, 24), (2020, 10, 20), (2020, 6, 1)]);
        let n_days = 6 + rng.usize(if thorough { 30 } else { 14 });
        let mut days = vec![start];
        // Now and then months or years lie between days with records.
        let sparse = if rng.chance(1, 4) { 1 + rng.below(6) } else { 0 };
        while days.len() < n_days {
            let mut d = days[days.len() - 1];
            if rng.chance(sparse, 8) {
                let months = *rng.pick(&[1, 1, 1, 2, 12]);
                let m = d.1 as i32 - 1 + months;
                d = (d.0 + m / 12, m as u32 % 12 + 1, d.2.min(28));
                if rng.chance(1, 4) {
                    d = next_day(d);
                }
            } else {
                d = next_day(d);
            }
            days.push(d);
        }
        let n_acc = 2 + rng.usize(2);
        let mut kinds = vec!["nwcsv5", "nwcsv6", "pdf", "paypal"];
        if rng.chance(1, 4) {
            // Two accounts of the same kind.
            kinds = vec!["nwcsv5", "nwcsv6", "nwcsv5", "nwcsv6"];
        }
        rng.shuffle(&mut kinds);
        let busy = 3 + rng.below(7);
        let mut truth: Vec<Truth> = vec![];
        let mut steps: Vec<Step> = vec![Step::File { path: MAIN.into(), fixed_data: "".into() }];
        for (path, text) in rules_files(rng, None, "main") {
            steps.push(Step::File { path, fixed_data: text.into() });
        }
        steps.push(Step::File { path: "tz.csv".into(), fixed_data: gen::TZFILE.into() });
        steps.push(Step::File { path: "ns.ron".into(), fixed_data: "{\"Savings 0\": \"looked0\", \"Savings 1\": \"looked1\", \"Savings 2\": \"looked2\", \"12-34-56 12345678\": \"lookedp\"}".into() });
        struct Acc {
            kind: &'static str,
            name: String,
            ns: String,
            rows: Vec<Row>,
            ids: Vec<usize>,
            style: CsvStyle,
            legacy: bool,
        }
        let mut accs: Vec<Acc> = vec![];
        for i in 0..n_acc {
            let kind = kinds[i];
            let rows = bank_history(rng, i as i64, &days, busy);
            let name = if kind == "pdf" { "12-34-56 12345678".to_string() } else { format!("Savings {i}") };
            let own = format!("{}{i}", rng.pick(&["assets:bank ", "Assets:Bank ", "Assets:Current Account:Bank-", "Vermögen:Bank "]));
            let mut ids = vec![];
            let mut group_desc = String::new();
            for (j, r) in rows.iter().enumerate() {
                let p = if j > 0 { Some(&rows[j - 1]) } else { None };
                let same = kind == "paypal" && p.map_or(false, |p| p.date == r.date && p.time == r.time);
                if !same {
                    group_desc = r.desc.clone();
                }
                ids.push(truth.len());
                truth.push(Truth { account: format!("{i} {kind}"), date: iso(r.date), pence: r.pence, desc: group_desc.clone(), own: own.clone(), peer: category(&group_desc) });
            }
            let ns = match rng.below(3) {
                0 => format!("fixed:acc{i}"),
                1 => "generated".into(),
                _ => "lookup:ns.ron".into(),
            };
            for (path, text) in rules_files(rng, Some(&own), &format!("acc{i}")) {
                steps.push(Step::File { path, fixed_data: text.into() });
            }
            let mut style = gen::csv_style(rng);
            style.six = kind == "nwcsv6";
            style.account = name.clone();
            accs.push(Acc { kind, name, ns, rows, ids, style, legacy: rng.chance(1, 3) });
        }
        // Hand-written transactions only where they can be told apart.
        let mut manual: Vec<usize> = vec![];
        if rng.chance(1, 2) {
            for _ in 0..1 + rng.usize(3) {
                if truth.is_empty() {
                    break;
                }
                let id = rng.usize(truth.len());
                let t = &truth[id];
                let taken = manual.iter().any(|m: &usize| truth[*m].account == t.account && truth[*m].date == t.date);
                if !taken && truth.iter().filter(|u| u.date == t.date && u.pence.abs() == t.pence.abs()).count() == 1 {
                    manual.push(id);
                }
            }
        }
        let mut disturb = |rng: &mut Rng, c: Cmd, pct: u64| -> Cmd {
            let mut c = c;
            c.entropy = rng.next() >> 16;
            c.dirseed = rng.below(1000);
            c.layout = rng.below(64);
            if rng.chance(pct, 100) {
                c.plan = gen::any_plan(rng);
            }
            c
        };
        let sessions = 2 + rng.usize(if thorough { 6 } else { 3 });
        let mut ends = vec![0usize; n_acc];
        let pct = *rng.pick(&[0u64, 15, 30]);
        for s in 0..sessions {
            let today = (days.len() * (s + 1) / sessions).max(1);
            if s > 0 && rng.chance(1, 4) {
                let c = disturb(rng, Cmd::new(&["fmt", MAIN]), pct);
                steps.push(Step::Run { cmd: c, act: Act::Fmt });
            }
            // By hand, before the bank's record arrives.
            let now: Vec<usize> = manual.iter().copied().filter(|id| {
                let a: usize = accs.iter().position(|a| a.ids.contains(id)).unwrap();
                let d = days.iter().position(|d| iso(*d) == truth[*id].date).unwrap();
                d >= ends[a] && d < today
            }).collect();
            if !now.is_empty() {
                for id in &now {
                    let t = &truth[*id];
                    let peer = t.peer.clone().unwrap_or("expenses:by hand".into());
                    let text = format!("{} {}\n  {}  {}\n  {}  {}\n\n", t.date, t.desc, t.own, gen::money(t.pence), peer, gen::money(-t.pence));
                    steps.push(Step::Manual { fixed_text: text, fixed_id: *id, fixed_own: t.own.clone(), fixed_peer: peer });
                }
                manual.retain(|id| !now.contains(id));
                let c = disturb(rng, Cmd::new(&["generate-fingerprints", MAIN]), pct);
                steps.push(Step::Run { cmd: c, act: Act::Fingerprint });
            }
            let mut imps: Vec<String> = vec![];
            for (i, a) in accs.iter_mut().enumerate() {
                if !rng.chance(4, 5) {
                    continue;
                }
                let from = rng.usize(ends[i] + 1);
                let to = if rng.chance(1, 6) { (from + 1 + rng.usize(today)).min(today) } else { today };
                if to <= from {
                    continue;
                }
                // Records still pending on the day of the download.
                let inside: Vec<usize> = (0..a.rows.len()).filter(|j| days[from..to].contains(&a.rows[*j].date)).collect();
                let rows: Vec<Row> = inside
                    .iter()
                    .map(|j| {
                        let mut r = a.rows[*j].clone();
                        let age = today - days.iter().position(|d| *d == r.date).unwrap();
                        r.cleared |= age > 3;
                        r
                    })
                    .collect();
                if a.kind == "pdf" && rows.is_empty() {
                    continue;
                }
                ends[i] = ends[i].max(to);
                let imp = format!("imp{i}.journal");
                let mut args: Vec<String> = vec!["import".into(), "-o".into(), imp.clone()];
                let mut cmd_in = None;
                let (path, bytes): (String, Vec<u8>) = match a.kind {
                    "paypal" => {
                        args.extend(["paypal-csv", "--output-timezone", "Europe/London"].map(String::from));
                        if a.ns.starts_with("fixed") {
                            args.extend(["--fingerprint-namespace".to_string(), format!("pp{i}")]);
                        }
                        if a.legacy {
                            args.push("--include-legacy-fingerprint".into());
                        }
                        (format!("dl{}.csv", steps.len()), gen::paypal(rng, &rows).into_bytes())
                    }
                    "pdf" => {
                        args.extend(["nationwide-pdf", "--fp-namespace", &a.ns].map(String::from));
                        let per = 1 + rng.usize(6);
                        (format!("dl{}.pdf", steps.len()), gen::pdf(rng, &rows, per).into_bytes())
                    }
                    _ => {
                        args.extend(["nationwide-csv", "--fp-namespace", &a.ns].map(String::from));
                        if rng.chance(1, 3) {
                            args.push("--include-legacy-fingerprint".into());
                        }
                        a.style.quoted = rng.chance(1, 2);
                        a.style.crlf = rng.chance(1, 3);
                        a.style.final_newline = rng.chance(1, 2);
                        assert_eq!(a.style.account, a.name);
                        (format!("dl{}.csv", steps.len()), gen::nationwide(&rows, &a.style))
                    }
                };
                let mut needs = vec![path.clone(), "ns.ron".to_string(), "tz.csv".to_string()];
                if a.kind != "pdf" && rng.chance(1, 5) {
                    args.push("-".into());
                    cmd_in = Some(Bytes(bytes));
                    needs.remove(0);
                } else {
                    args.push(path.clone());
                    steps.push(Step::File { path, fixed_data: Bytes(bytes) });
                }
                if a.kind == "paypal" {
                    args.push("tz.csv".into());
                }
                let mut c = disturb(rng, Cmd::new(&args), pct);
                c.stdin = cmd_in;
                c.pipe = rng.chance(1, 2);
                steps.push(Step::Run { cmd: c, act: Act::Import { fixed_needs: needs, out: imp.clone(), fixed_covers: inside.iter().map(|j| a.ids[*j]).collect() } });
                if rng.chance(1, 2) {
                    let c = disturb(rng, Cmd::new(&["apply-rules", "-o", &imp, &imp, "table", &format!("rules/acc{i}.ron")]), pct);
                    steps.push(Step::Run { cmd: c, act: Act::Rules { file: imp.clone() } });
                }
                imps.push(imp);
                if rng.chance(1, 2) {
                    merge_step(rng, &mut steps, &mut imps, &mut disturb, pct);
                }
            }
            if !imps.is_empty() {
                rng.shuffle(&mut imps);
                merge_step(rng, &mut steps, &mut imps, &mut disturb, pct);
            }
            if rng.chance(1, 5) {
                let c = disturb(rng, Cmd::new(&["apply-rules", "-o", MAIN, MAIN, "table", "rules/main.ron"]), pct);
                steps.push(Step::Run { cmd: c, act: Act::RulesMain });
            }
        }
        fn merge_step(rng: &mut Rng, steps: &mut Vec<Step>, imps: &mut Vec<String>, disturb: &mut dyn FnMut(&mut Rng, Cmd, u64) -> Cmd, pct: u64) {
            let un = "unmerged.journal".to_string();
            let mut args: Vec<String> = ["merge", "-o", MAIN, "-u", &un, MAIN].map(String::from).to_vec();
            args.extend(imps.iter().cloned());
            let c = disturb(rng, Cmd::new(&args), pct);
            steps.push(Step::Run { cmd: c, act: Act::Merge { fixed_imports: std::mem::take(imps), un } });
        }
        json!({"fixed_truth": truth, "steps": steps})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(truth), Some(steps)) = (parse::<Vec<Truth>>(v, "fixed_truth"), parse::<Vec<Step>>(v, "steps")) else { return Ok(None) };
        m.reset(&[]);
        let mut done: Vec<Step> = vec![];
        let mut runs: Vec<Run> = vec![];
        // What the imported files hold, and whether rules have been applied.
        let mut imports: BTreeMap<String, (Vec<usize>, bool)> = BTreeMap::new();
        // Covered records: (own account known, counter-account known).
        let mut covered: BTreeMap<usize, (bool, bool)> = BTreeMap::new();
        let mut by_hand: BTreeMap<usize, (String, String)> = BTreeMap::new();
        let mut hand_fps = true;
        let mut key = Hash::new();
        key.u64(truth.len() as u64);
        for (i, s) in steps.iter().enumerate() {
            macro_rules! fail {
                ($class:expr, $msg:expr) => {{
                    let refs: Vec<_> = runs.iter().collect();
                    let mut all = done.clone();
                    all.extend(steps[(i + 1).min(steps.len())..].iter().cloned());
                    let all: Vec<Step> = all.into_iter().take(i + 1).collect();
                    return Ok(Some(bad($class, $msg, json!({"fixed_truth": truth, "steps": all}), &refs)));
                }};
            }
            match s {
                Step::File { path, fixed_data } => {
                    m.write(path, &fixed_data.0);
                    done.push(s.clone());
                }
                Step::Manual { fixed_text, fixed_id, fixed_own, fixed_peer } => {
                    let Some(mut t) = m.read(MAIN) else { return Ok(None) };
                    t.extend(fixed_text.as_bytes());
                    m.write(MAIN, &t);
                    by_hand.insert(*fixed_id, (fixed_own.clone(), fixed_peer.clone()));
                    hand_fps = false;
                    done.push(s.clone());
                }
                Step::Run { cmd, act } => {
                    let t0 = m.tree();
                    let needs: Vec<String> = match act {
                        Act::Import { fixed_needs: needs, .. } => needs.clone(),
                        Act::Rules { file } => vec![file.clone()],
                        Act::Merge { fixed_imports: imports, .. } => imports.clone(),
                        _ => vec![],
                    };
                    // Not a history of ours (any more).
                    if needs.iter().any(|n| !t0.contains_key(n)) || !t0.contains_key(MAIN) || cmd.args.iter().any(|a| a.ends_with(".ron") && a.starts_with("rules/") && !rules_there(&t0, a, 0)) {
                        return Ok(None);
                    }
                    if let Act::Merge { fixed_imports: ims, .. } = act {
                        if !hand_fps || ims.iter().any(|i| !imports.contains_key(i)) {
                            return Ok(None);
                        }
                        m.remove("unmerged.journal");
                    }
                    if let Act::Rules { file } = act {
                        if !imports.contains_key(file) {
                            return Ok(None);
                        }
                    }
                    let mut c = cmd.clone();
                    let total = 60;
                    let r = m.run_rec(&mut c, total)?;
                    record(st, &r, &m.tree(), key.0);
                    let mut ok = r.ok();
                    let disturbed = r.fired();
                    if disturbed {
                        st.note("disturbed commands");
                    }
                    if let Some(b) = escape_check(&r, v) {
                        return Ok(Some(b));
                    }
                    done.push(Step::Run { cmd: c.clone(), act: act.clone() });
                    runs.push(r);
                    if !ok && disturbed {
                        let again = m.run(&cmd.with_plan(Plan::None), 0)?;
                        record(st, &again, &m.tree(), key.0);
                        st.note("retried commands");
                        ok = again.ok();
                        runs.push(again);
                    }
                    if !ok {
                        let r = runs.last().unwrap();
                        let (exit, err) = (r.exit, r.err());
                        fail!("stuck", format!("step {i}, {:?}, undisturbed, fails (exit {exit:?}): {err}", cmd.args));
                    }
                    match act {
                        Act::Import { out, fixed_covers, .. } => {
                            imports.insert(out.clone(), (fixed_covers.clone(), false));
                        }
                        Act::Rules { file } => {
                            if let Some(x) = imports.get_mut(file) {
                                x.1 = true;
                            }
                        }
                        Act::RulesMain => {
                            for (id, c) in covered.iter_mut() {
                                c.1 |= truth.get(*id).map_or(false, |t| t.peer.is_some());
                            }
                        }
                        Act::Fingerprint => hand_fps = true,
                        Act::Fmt => {}
                        Act::Merge { fixed_imports: ims, .. } => {
                            for f in ims {
                                let Some((ids, ruled)) = imports.get(f) else { return Ok(None) };
                                for id in ids {
                                    if covered.contains_key(id) {
                                        st.note("records downloaded again");
                                        st.mark(key.0 ^ runs.last().unwrap().trace_hash());
                                    } else {
                                        st.note("records booked");
                                    }
                                    let hand = by_hand.contains_key(id);
                                    if hand {
                                        st.note("records entered by hand before");
                                    }
                                    let c = covered.entry(*id).or_insert((hand, hand));
                                    if *ruled {
                                        c.0 = true;
                                        c.1 |= truth.get(*id).map_or(false, |t| t.peer.is_some());
                                    }
                                }
                            }
                        }
                    }
                    key.u64(crate::disk::hash_tree(&m.tree()));
                    if !hand_fps || matches!(act, Act::Import { .. } | Act::Rules { .. }) {
                        continue;
                    }
                    // The books against the bank.
                    let t = m.tree();
                    let Some(main) = data(&t, MAIN).and_then(ledger::parse_bytes) else {
                        fail!("no-journal", format!("after step {i}, {:?}: {MAIN} is not a journal: {}", cmd.args, show(data(&t, MAIN))))
                    };
                    let un = match data(&t, "unmerged.journal") {
                        None => vec![],
                        Some(d) => match ledger::parse_bytes(d) {
                            Some(u) => u,
                            None => fail!("no-journal", format!("after step {i}, {:?}: the unmerged file is not a journal: {}", cmd.args, show(Some(d)))),
                        },
                    };
                    if !un.is_empty() {
                        st.note("merges that left something unmerged");
                    }
                    if let Some(msg) = compare(&truth, &covered, &by_hand, &main, &un) {
                        fail!("books", format!("after step {i}, {:?}: {msg}", cmd.args));
                    }
                    if !un.is_empty() {
                        // For the user to resolve; the history ends here.
                        return Ok(None);
                    }
                }
            }
        }
        Ok(None)
    }
}

type Line = (String, i64, String);

fn compare(truth: &[Truth], covered: &BTreeMap<usize, (bool, bool)>, by_hand: &BTreeMap<usize, (String, String)>, main: &[Trn], un: &[Trn]) -> Option<String> {
    let mut want: BTreeMap<Line, i64> = BTreeMap::new();
    for (id, (own, peer)) in covered {
        let t = truth.get(*id)?;
        let sort = |p: i64| if p < 0 { "expenses:unknown" } else { "income:unknown" };
        let (o, p) = match by_hand.get(id) {
            Some((o, p)) => (o.clone(), p.clone()),
            None => (
                if *own { t.own.clone() } else { "assets:unknown".into() },
                if *peer { t.peer.clone().unwrap_or(sort(t.pence).into()) } else { sort(t.pence).into() },
            ),
        };
        *want.entry((t.date.clone(), t.pence, o)).or_default() += 1;
        *want.entry((t.date.clone(), -t.pence, p)).or_default() += 1;
    }
    for (id, (o, p)) in by_hand {
        if !covered.contains_key(id) {
            let t = truth.get(*id)?;
            *want.entry((t.date.clone(), t.pence, o.clone())).or_default() += 1;
            *want.entry((t.date.clone(), -t.pence, p.clone())).or_default() += 1;
        }
    }
    let mut got: BTreeMap<Line, i64> = BTreeMap::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for t in main.iter().chain(un) {
        let mut sum = 0;
        for p in &t.posts {
            let Some(a) = p.amount.as_deref().and_then(pence) else {
                return Some(format!("a posting without a readable amount: {}", t.render()));
            };
            sum += a;
            *got.entry((t.date.clone(), a, p.account.clone())).or_default() += 1;
            let unknown = p.comment.has(ledger::UNKNOWN);
            if unknown != p.account.ends_with(":unknown") {
                return Some(format!("the account and its mark as unknown disagree: {}", t.render()));
            }
        }
        if sum != 0 {
            return Some(format!("a transaction that does not balance: {}", t.render()));
        }
        for f in t.fps() {
            if !seen.insert(f.clone()) {
                return Some(format!("the fingerprint {f} appears twice"));
            }
        }
    }
    for (k, n) in &want {
        let g = got.get(k).copied().unwrap_or(0);
        if g != *n {
            return Some(format!("{n} postings of {} on {} to {} should be booked, but there are {g}; booked on that day: {:?}", gen::money(k.1), k.0, k.2, got.iter().filter(|x| x.0 .0 == k.0).collect::<Vec<_>>()));
        }
    }
    for (k, g) in &got {
        if !want.contains_key(k) {
            return Some(format!("{g} postings of {} on {} to {} are booked, but the bank has none", gen::money(k.1), k.0, k.2));
        }
    }
    None
}

// ------------------------------------------------------------------------ C15
pub struct C15;

/// The last number of a PayPal statement may be cut without a trace.
const TAIL_KEY: &str = "paypal-tail";
const OUT: &str = "out.journal";

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Cut {
    at: usize,
    plan: Plan,
    entropy: u64,
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "A case is an import of a statement that ends early at a seeded byte, read in seeded pieces or with failing reads; non-trivial when the statement was cut or a fault took effect; distinct by the statement up to the cut, the arguments and the call trace."
    }
    fn quick_runs(&self) -> u64 {
        2500
    }
    fn known(&self) -> Vec<(&'static str, Value)> {
        vec![(TAIL_KEY, serde_json::from_str(include_str!("../known/C15-tail.json")).unwrap())]
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, thorough: bool) -> Value {
        let n = if rng.chance(1, 20) { 60 } else { 1 + rng.usize(6) };
        let rs = gen::rows(rng, n, 300);
        let paypal = rng.chance(1, 3);
        let mut args: Vec<String> = ["import", "-o", OUT].map(String::from).to_vec();
        let data = if paypal {
            args.extend(["paypal-csv", "--output-timezone", rng.pick(&["Europe/London", "Asia/Tokyo"])].map(String::from));
            gen::paypal(rng, &rs).into_bytes()
        } else {
            args.extend(["nationwide-csv", "--fp-namespace", rng.pick(&["fixed:chk", "generated"])].map(String::from));
            let s = gen::csv_style(rng);
            gen::nationwide(&rs, &s)
        };
        if rng.chance(1, 3) {
            args.push("--include-legacy-fingerprint".into());
        }
        let stdin = rng.chance(1, 4);
        args.push(if stdin { "-" } else { "statement.csv" }.into());
        if paypal {
            args.push("tz.csv".into());
        }
        let ends: Vec<usize> = data.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i).collect();
        let k = if thorough { 200 } else { 40 };
        let cuts: Vec<Cut> = (0..k)
            .map(|_| {
                let near = *rng.pick(&ends);
                let at = match rng.below(8) {
                    5 => near + 1,
                    6 => near + rng.usize(3),
                    0 | 1 => rng.usize(data.len() + 1),
                    2 | 3 => near.saturating_sub(rng.usize(16)),
                    4 => data.len().saturating_sub(rng.usize(40)),
                    _ => (near + rng.usize(30)).min(data.len()),
                };
                let plan = match rng.below(10) {
                    0 | 1 => Plan::Random(RandomPlan { seed: rng.next() >> 16, short: 700, max_short: 1 + rng.below(40), eintr: 150, eintr_reads: true, classes: vec![Class::Read], ..Default::default() }),
                    2 => Plan::Random(RandomPlan { seed: rng.next() >> 16, short: 700, max_short: 1 + rng.below(60), fail_at: Some((rng.next() >> 32) as u32), classes: vec![Class::Read], ..Default::default() }),
                    _ => Plan::None,
                };
                Cut { at, plan, entropy: rng.next() >> 16 }
            })
            .collect();
        json!({"args": args, "fixed_data": Bytes(data), "cuts": cuts})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(args), Some(d), Some(cuts)) = (parse::<Vec<String>>(v, "args"), parse::<Bytes>(v, "fixed_data"), parse::<Vec<Cut>>(v, "cuts")) else { return Ok(None) };
        let d = d.0;
        let paypal = args.iter().any(|a| a == "paypal-csv");
        let stdin = args.iter().any(|a| a == "-");
        m.reset(&[FileSpec::file("tz.csv", gen::TZFILE)]);
        let t0 = m.tree();
        let mut go = |m: &mut Machine, part: &[u8], plan: &Plan, entropy: u64, total: u32| -> R<(Run, Option<Vec<Trn>>, Cmd)> {
            m.restore(&t0);
            let mut c = Cmd::new(&args);
            c.plan = plan.clone();
            c.entropy = entropy;
            if stdin {
                c.stdin = Some(Bytes(part.to_vec()));
                c.pipe = true;
            } else {
                m.write("statement.csv", part);
            }
            let r = m.run_rec(&mut c, total)?;
            let o = m.read(OUT).and_then(|d| ledger::parse_bytes(&d));
            Ok((r, o, c))
        };
        let (r0, full, _) = go(m, &d, &Plan::None, 1, 0)?;
        let total = r0.ops.len() as u32;
        let (true, Some(full)) = (r0.ok(), full) else {
            st.skip("the complete statement is not imported");
            return Ok(None);
        };
        let mut h = Hash::new();
        for a in &args {
            h.add(a.as_bytes());
        }
        for c in cuts {
            let at = c.at.min(d.len());
            let part = &d[..at];
            let (r, got, cmd) = go(m, part, &c.plan, c.entropy, total)?;
            let mut k = Hash::new();
            k.u64(h.0);
            k.add(part);
            let t = m.tree();
            record(st, &r, &t, k.0);
            if at < d.len() && !r.fired() {
                st.mark(k.0 ^ r.trace_hash());
            }
            let sc = json!({"args": args, "fixed_data": Bytes(d.clone()), "cuts": [Cut { at, plan: if r.faults.is_empty() { Plan::None } else { cmd.plan.clone() }, entropy: c.entropy }]});
            if !r.ok() {
                st.note("rejected");
                continue;
            }
            st.note("imported");
            let about = format!("{args:?} of the first {at} of {} bytes, ending in {:?}", d.len(), String::from_utf8_lossy(&part[at.saturating_sub(30)..]));
            let Some(got) = got else {
                return Ok(Some(bad("no-output", format!("{about}: succeeds, but its output is {}", show(data(&t, OUT))), sc, &[&r])));
            };
            // How many records are there in full?
            let head = if paypal { 1 } else { d.split(|b| *b == b'\n').position(|l| l.windows(12).any(|w| w == b"Transactions") || l.windows(11).any(|w| w == b"Description")).map_or(4, |i| i + 1) };
            let lines = part.iter().filter(|b| **b == b'\n').count();
            let whole = lines.saturating_sub(head);
            if let Some((msg, tail)) = compare_cut(paypal, &full, &got, whole) {
                let mut b = bad("wrong-records", format!("{about}: {msg}"), sc, &[&r]);
                if tail && in_last_number(&d, at) {
                    b.known = Some(TAIL_KEY.into());
                }
                return Ok(Some(b));
            }
        }
        Ok(None)
    }
}

/// Is the cut inside the last column of a record, and that column the balance?
fn in_last_number(d: &[u8], at: usize) -> bool {
    let head = d.split(|b| *b == b'\n').next().unwrap_or(b"");
    let head = String::from_utf8_lossy(head).trim().replace('"', "");
    if !head.ends_with(",Balance") || at == 0 {
        return false;
    }
    let line_end = d[at - 1..].iter().position(|b| *b == b'\n').map_or(d.len(), |i| at - 1 + i);
    let cell = d[..at].iter().rposition(|b| *b == b',').map_or(0, |i| i + 1);
    !d[at..line_end].contains(&b',') && d[cell..at].iter().any(u8::is_ascii_digit)
}

/// The message, and whether only the balance of the last record differs.
fn compare_cut(paypal: bool, full: &[Trn], got: &[Trn], whole: usize) -> Option<(String, bool)> {
    let n = if paypal { got.iter().map(|t| t.posts.len()).sum::<usize>() / 2 } else { got.len() };
    if n < whole {
        return Some((format!("{whole} records are complete, but {n} are imported"), false));
    }
    for (i, g) in got.iter().enumerate() {
        let Some(f) = full.get(i) else {
            return Some((format!("a transaction that the complete statement does not have:\n{}", g.render()), false));
        };
        if f == g {
            continue;
        }
        let show = format!("transaction {} should be\n{}but is\n{}", i + 1, f.render(), g.render());
        if !paypal || i + 1 != got.len() || g.posts.len() > f.posts.len() || g.posts.len() % 2 != 0 {
            return Some((show, false));
        }
        // The last instant may lack its last records.
        let mut f2 = f.clone();
        f2.posts.truncate(g.posts.len());
        if f2 == *g {
            continue;
        }
        let strip = |t: &Trn| {
            let mut t = t.clone();
            let n = t.posts.len();
            for p in t.posts.iter_mut().skip(n.saturating_sub(2)) {
                p.balance = None;
                p.comment.tags.retain(|x| !x.starts_with("fp-"));
            }
            t
        };
        return Some((show, strip(&f2) == strip(g)));
    }
    None
}
