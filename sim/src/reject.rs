//! C03: a command that must reject its input changes nothing.
use crate::common::*;
use crate::disk::Tree;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, WOpts, Work};
use crate::io::merge_inputs;
use crate::ledger::{self, Trn};
use crate::machine::{Machine, R};
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// What is wrong with the input. Applied to a command that succeeds without
/// it; `n` selects where.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sab {
    /// The n-th file the command reads is gone / a directory / not UTF-8 /
    /// damaged in a way its format does not allow.
    Gone(u64),
    Directory(u64),
    NotUtf8(u64, u64),
    Malformed(u64, u64),
    /// Merge: see `merge_sabotage`.
    Merge(String, u64),
    /// Opening or reading the n-th read file fails with this errno.
    OpenFails(u64, i32),
    ReadFails(u64, u64, i32),
    Rule(u64),
    UnknownAccount,
    Row(u64),
}

pub struct C03;

#[derive(Clone)]
struct Input {
    /// None: standard input.
    path: Option<String>,
    kind: &'static str,
}

/// The files the command reads, in the order of its arguments.
fn inputs(w: &Work) -> Vec<Input> {
    let mut v = vec![];
    let mut add = |p: &str, kind: &'static str| {
        v.push(Input { path: if p == "-" { None } else { Some(p.to_string()) }, kind });
    };
    let a = &w.cmd.args;
    match w.kind.as_str() {
        "fmt" | "fpgen" => a[1..].iter().for_each(|p| add(p, "journal")),
        "merge" => merge_inputs(w).iter().for_each(|p| add(p, "journal")),
        "rules" => {
            if let Some(i) = a.iter().position(|x| x == "table") {
                add(&a[i - 1], "journal");
                add(&a[i + 1], "ron");
                let main = w.files.iter().find(|f| f.path == a[i + 1]);
                if let Some(FileSpec { node: Node::File { data, .. }, .. }) = main {
                    if data.lossy().contains("Include(\"inc.ron\")") {
                        add("rules/inc.ron", "ron");
                    }
                }
            }
        }
        _ => {
            for x in a {
                match x.as_str() {
                    "statement.csv" => add(x, "nwcsv"),
                    "download.csv" => add(x, "paypal"),
                    "tz.csv" => add(x, "tz"),
                    "statement.pdf" => add(x, "pdf"),
                    "lookup:ns.ron" => add("ns.ron", "ron"),
                    _ => {}
                }
            }
            if w.cmd.stdin.is_some() {
                add("-", if w.kind == "nwcsv" { "nwcsv" } else { "paypal" });
            }
        }
    }
    v
}

fn resolve(w: &Work, p: &str) -> String {
    for f in &w.files {
        if f.path == p {
            if let Node::Symlink(t) = &f.node {
                return t.trim_start_matches("../").to_string();
            }
        }
    }
    p.to_string()
}

fn content<'a>(w: &'a mut Work, i: &Input) -> Option<&'a mut Vec<u8>> {
    match &i.path {
        None => w.cmd.stdin.as_mut().map(|b| &mut b.0),
        Some(p) => {
            let r = resolve(w, p);
            w.files.iter_mut().find(|f| f.path == r).and_then(|f| match &mut f.node {
                Node::File { data, .. } => Some(&mut data.0),
                _ => None,
            })
        }
    }
}

fn ends_line(d: &mut Vec<u8>) {
    if !d.is_empty() && d.last() != Some(&b'\n') {
        d.push(b'\n');
    }
}

fn trn(desc: &str, posts: &[(&str, &[&str])]) -> Trn {
    let mut t = Trn { date: "1999-01-01".into(), desc: desc.into(), ..Default::default() };
    for (amount, tags) in posts {
        let mut p = ledger::Post { account: "assets:sabotage".into(), amount: Some(amount.to_string()), ..Default::default() };
        p.comment.tags.extend(tags.iter().map(|t| t.to_string()));
        t.posts.push(p);
    }
    t
}

fn merge_sabotage(w: &mut Work, what: &str, n: u64) -> Option<()> {
    let ins: Vec<Input> = inputs(w);
    if ins.is_empty() {
        return None;
    }
    let target = ins[n as usize % ins.len()].clone();
    let append = |w: &mut Work, i: &Input, t: &Trn| -> Option<()> {
        let d = content(w, i)?;
        ends_line(d);
        d.push(b'\n');
        d.extend(t.render().into_bytes());
        Some(())
    };
    let prepend = |w: &mut Work, i: &Input, t: &Trn| -> Option<()> {
        let d = content(w, i)?;
        let mut x = t.render().into_bytes();
        x.push(b'\n');
        x.append(d);
        *d = x;
        Some(())
    };
    let extra = |w: &mut Work, t: &Trn| -> Option<()> {
        w.files.push(FileSpec::file("sabotage.journal", t.render()));
        w.cmd.args.push("sabotage.journal".into());
        Some(())
    };
    match what {
        // The same fingerprint twice in one source.
        "duplicate" => {
            let t = trn("Duplicate", &[("GBP1.00", &["fp-sab-1"])]);
            append(w, &target, &t)?;
            append(w, &target, &trn("Duplicate again", &[("GBP2.00", &["fp-sab-2", "fp-sab-1"])]))
        }
        "duplicate-within" => append(w, &target, &trn("Duplicate", &[("GBP1.00", &["fp-sab-1"]), ("GBP-1.00", &["fp-sab-1"])])),
        "no-fingerprint" => {
            let mut t = trn("None", &[("GBP1.00", &["fp-sab-1"]), ("GBP-1.00", &["trip"])]);
            // The posting without one may also lack an amount, or be marked.
            if n % 3 == 1 {
                t.posts[1].amount = None;
            } else if n % 3 == 2 {
                t.posts[1].comment.tags.extend(["unknown-account", "import-peer"].map(String::from));
            }
            append(w, &target, &t)
        }
        "candidate" => append(w, &target, &trn("Mark", &[("GBP1.00", &["fp-sab-1", "candidate-fp-sab-2"])])),
        // One posting with the fingerprints of two different postings.
        "two-destinations" => {
            prepend(w, &ins[0], &trn("First", &[("GBP1.00", &["fp-sab-1"]), ("GBP-1.00", &["fp-sab-2"])]))?;
            extra(w, &trn("Both", &[("GBP1.00", &["fp-sab-1", "fp-sab-2"])]))
        }
        // Two postings claim one posting.
        "same-destination" => {
            prepend(w, &ins[0], &trn("First", &[("GBP1.00", &["fp-sab-1", "fp-sab-2"])]))?;
            extra(w, &trn("Twice", &[("GBP1.00", &["fp-sab-1"]), ("GBP1.00", &["fp-sab-2"])]))
        }
        // One transaction whose postings belong to two transactions.
        "two-transactions" => {
            prepend(w, &ins[0], &trn("First", &[("GBP1.00", &["fp-sab-1"])]))?;
            prepend(w, &ins[0], &trn("Second", &[("GBP2.00", &["fp-sab-2"])]))?;
            extra(w, &trn("Both", &[("GBP1.00", &["fp-sab-1"]), ("GBP2.00", &["fp-sab-2"])]))
        }
        // Ambiguous, and nowhere to put it; or only where the merged journal
        // goes, which would replace it.
        "unmerged" | "one-output" => {
            if let Some(i) = w.cmd.args.iter().position(|a| a == "-u") {
                let p = w.cmd.args.remove(i + 1);
                w.cmd.args.remove(i);
                w.outs.retain(|o| *o != p || w.cmd.args.contains(o));
            }
            if what == "one-output" {
                let out = match w.cmd.args.iter().position(|a| a == "-o") {
                    Some(i) => w.cmd.args[i + 1].clone(),
                    None => {
                        w.cmd.args.extend(["-o".to_string(), "one.journal".to_string()]);
                        "one.journal".to_string()
                    }
                };
                if out == "-" || out == "/dev/stdout" {
                    return None;
                }
                let un = match n / 7 % 3 {
                    0 => out,
                    1 => format!("./{out}"),
                    _ => {
                        w.files.push(FileSpec { path: "one-link".into(), node: Node::Symlink(out) });
                        "one-link".to_string()
                    }
                };
                w.cmd.args.extend(["-u".to_string(), un]);
            }
            prepend(w, &ins[0], &trn("First", &[("GBP1.00", &["fp-sab-1"])]))?;
            prepend(w, &ins[0], &trn("Second", &[("GBP1.00", &["fp-sab-2"])]))?;
            extra(w, &trn("Either", &[("GBP1.00", &["fp-sab-3"])]))
        }
        // A journal for merging contains transactions only.
        "directive" => {
            let d = content(w, &target)?;
            ends_line(d);
            d.extend_from_slice(b"\ninclude other.journal\n");
            Some(())
        }
        _ => None,
    }
}
const MERGE: &[&str] = &["duplicate", "duplicate-within", "no-fingerprint", "candidate", "two-destinations", "same-destination", "two-transactions", "unmerged", "one-output", "directive"];

fn malformed(d: &mut Vec<u8>, kind: &str, n: u64, w_kind: &str) -> Option<()> {
    let pick = |v: &[&str]| v[n as usize % v.len()].to_string();
    match kind {
        "journal" => {
            ends_line(d);
            let mut v = vec![
                "\n2020-13-45 Bad date\n  a  GBP1.00\n",
                "\n2020-02-30 No such day\n  a  GBP1.00\n",
                "\n2020-01-01 Bad amount\n  a  GBP1.x.y\n",
                "\n2020-01-01 Bad amount\n  a  GBP\n",
                "\nthis line is neither transaction nor directive\n",
                "\n  stray:posting  GBP1.00\n",
            ];
            if w_kind != "fmt" {
                v.push("\ninclude other.journal\n");
                v.push("\nP 2020-01-01 EUR GBP0.90\n");
            }
            d.extend(pick(&v).into_bytes());
        }
        "ron" => match n % 3 {
            0 => {
                ends_line(d);
                d.extend_from_slice(b"]])\n");
            }
            1 => {
                let p = d.iter().rposition(|b| *b == b']' || *b == b'}')?;
                d.truncate(p);
            }
            _ => d.clear(),
        },
        "nwcsv" => {
            let s: String = d.iter().map(|b| *b as char).collect();
            let t = match n % 6 {
                0 => s.replacen("Account Name", "Name", 1),
                1 => s.replacen("Paid out", "Paid", 1),
                2 => s.replacen("Available Balance", "Balance", 1),
                3 => s.replacen("Date", "When", 1),
                4 => String::new(),
                _ => s.lines().take(2).map(|l| format!("{l}\n")).collect(),
            };
            if t == s {
                return None;
            }
            *d = gen::latin1(&t);
        }
        "paypal" => {
            let s = String::from_utf8_lossy(d).into_owned();
            let head = s.lines().next()?.to_string();
            if s.lines().count() < 2 && n % 3 != 2 {
                // Headers are only looked at together with a record.
                return None;
            }
            let t = match n % 3 {
                0 => s.replacen("Time zone", "Zone", 1),
                1 => s.replacen("Amount", "Money", 1),
                _ => {
                    let cells = head.matches(',').count();
                    let mut t = s.trim_end().to_string();
                    t.push('\n');
                    t += &"x,".repeat(cells.saturating_sub(3));
                    t + "\n"
                }
            };
            *d = t.into_bytes();
        }
        "tz" => {
            let extra = pick(&["XST,+5\n", "XST\n", "BST,UTC+02\n", "XST,UTC+99\n", "XST,UTC+01,more\n", "XST,\n"]);
            ends_line(d);
            d.extend(extra.into_bytes());
        }
        "pdf" if n % 4 == 0 => {
            let p = d.len() / 2;
            d.truncate(p);
            d.insert(0, b'x');
        }
        "pdf" => {
            let text = String::from_utf8(d.clone()).ok()?;
            let mut pages: Vec<Vec<serde_json::Value>> = serde_json::from_str(text.strip_prefix(crate::helpers::PDF_MAGIC)?).ok()?;
            misread(&mut pages, n / 4)?;
            *d = format!("{}{}", crate::helpers::PDF_MAGIC, serde_json::to_string(&pages).ok()?).into_bytes();
        }
        _ => return None,
    }
    Some(())
}

/// A word of a PDF statement that is recognised as something impossible.
fn misread(pages: &mut [Vec<serde_json::Value>], n: u64) -> Option<()> {
    const LEFT: usize = 5;
    const TEXT: usize = 10;
    let line = |r: &serde_json::Value| (r[1].as_i64(), r[2].as_i64(), r[3].as_i64());
    let is_word = |r: &serde_json::Value| r[0] == 5;
    // Lines of records: those with an amount, but not the one below the table.
    let mut records: Vec<(usize, usize)> = vec![];
    for (i, pg) in pages.iter().enumerate() {
        for (j, r) in pg.iter().enumerate() {
            let footer = || pg.iter().any(|q| is_word(q) && line(q) == line(r) && q[TEXT] == "Interest");
            if is_word(r) && (r[LEFT] == 1210 || r[LEFT] == 1510) && !footer() {
                records.push((i, j));
            }
        }
    }
    let mut with = |pages: &mut [Vec<serde_json::Value>], left: i64, to: &str| {
        let all: Vec<(usize, usize)> = records.iter().filter_map(|(i, j)| {
            let l = line(&pages[*i][*j]);
            pages[*i].iter().position(|r| is_word(r) && line(r) == l && r[LEFT] == left).map(|k| (*i, k))
        }).collect();
        let (i, k) = *all.get(n as usize / 16 % all.len().max(1))?;
        pages[i][k][TEXT] = to.into();
        Some(())
    };
    match n % 16 {
        0 => with(pages, 105, "32"),
        1 => with(pages, 105, "O1"),
        2 => with(pages, 130, "Jam"),
        3 => with(pages, 1210, "1O.00"),
        4 => with(pages, 1510, "1.0.0"),
        5 => with(pages, 1210, "-5.00"),
        6 => with(pages, 1510, "five"),
        7 => with(pages, 1805, "1O0.00"),
        8 | 9 => {
            // No number of an account.
            for r in pages.iter_mut().flatten().filter(|r| is_word(r) && r[TEXT] == "12345678") {
                r[TEXT] = if n % 16 == 8 { "1234567" } else { "l2345678" }.into();
            }
            Some(())
        }
        10 | 11 => {
            // Both paid out and paid in.
            let (i, j) = *records.get(n as usize / 16 % records.len().max(1))?;
            let (l, at) = (line(&pages[i][j]), pages[i][j][LEFT].clone());
            let last = pages[i].iter().rposition(|r| is_word(r) && line(r) == l)?;
            let mut r = pages[i][last].clone();
            r[4] = (r[4].as_i64()? + 1).into();
            r[LEFT] = if at == 1210 { 1510 } else { 1210 }.into();
            r[TEXT] = if n % 16 == 10 { "1.00" } else { "0.00" }.into();
            pages[i].insert(last + 1, r);
            Some(())
        }
        12 | 13 => {
            let to = *["20l9", "3020", "1020", "x"].get(n as usize / 16 % 4)?;
            let r = pages.iter_mut().flatten().find(|r| is_word(r) && r[LEFT] == 110 && r[TEXT].as_str().is_some_and(|t| t.len() == 4))?;
            r[TEXT] = to.into();
            Some(())
        }
        14 => {
            let (i, k) = pages.iter().enumerate().find_map(|(i, pg)| pg.iter().position(|r| is_word(r) && r[TEXT] == "Effective").map(|k| (i, k)))?;
            pages[i].get_mut(k + 2)?[TEXT] = (*["99", "3O", "00"].get(n as usize / 16 % 3)?).into();
            Some(())
        }
        _ => {
            // A line that belongs to no paragraph.
            let (i, j) = *records.get(n as usize / 16 % records.len().max(1))?;
            let l = line(&pages[i][j]);
            pages[i].retain(|r| !(r[0] == 4 && line(r) == l));
            Some(())
        }
    }
}

/// A bad record after the good ones.
fn bad_row(d: &mut Vec<u8>, kind: &str, n: u64) -> Option<()> {
    let s: String = d.iter().map(|b| *b as char).collect();
    if kind == "nwcsv" {
        let six = s.contains("Transaction type");
        if !six && !s.contains("Location") {
            return None;
        }
        let row = |date: &str, out: &str, inn: &str, bal: &str| if six { format!("{date},Type,Desc,{out},{inn},{bal}\n") } else { format!("{date},Desc,Loc,{out},{inn}\n") };
        let mut v = vec![
            row("32 Jan 2020", "£1.00", "", "£1.00"),
            row("30 Feb 2020", "", "£1.00", "£1.00"),
            row("", "£1.00", "", "£1.00"),
            row("2020-01-02", "£1.00", "", "£1.00"),
            row("02 Jan 2020", "£1.00", "£2.00", "£1.00"),
            row("02 Jan 2020", "", "", "£1.00"),
            row("02 Jan 2020", "£0.00", "£2.00", "£1.00"),
            row("02 Jan 2020", "£2.00", "£0.00", "£1.00"),
            row("02 Jan 2020", "£one", "", "£1.00"),
            row("02 Jan 2020", "1.00", "", "£1.00"),
            row("02 Jan 2020", "£1.0.0", "", "£1.00"),
            row("02 Jan 2020", "£", "", "£1.00"),
            "02 Jan 2020,x\n".to_string(),
            "02 Jan 2020,a,b,c,d,e,f,g,h\n".to_string(),
        ];
        if six {
            v.push(row("02 Jan 2020", "£1.00", "", "£x"));
            v.push(row("02 Jan 2020", "£1.00", "", ""));
        }
        ends_line(d);
        d.extend(gen::latin1(&v[n as usize % v.len()]));
        return Some(());
    }
    // PayPal: damage one field of a copy of the first record.
    let mut lines = s.lines();
    let head = lines.next()?.to_string();
    let first = lines.next()?.to_string();
    if first.matches(',').count() != head.matches(',').count() {
        return None;
    }
    let cols: Vec<&str> = head.split(',').collect();
    let mut cells: Vec<String> = first.split(',').map(|c| c.to_string()).collect();
    let quoted = cols.first()?.starts_with('"');
    let (col, val) = [
        ("Date", "31/02/2020"),
        ("Currency", "G-P"),
        ("Currency", "B P"),
        ("Currency", ""),
        ("Date", ""),
        ("Time", "25:00:00"),
        ("Time", "noon"),
        ("Time zone", "XYZ"),
        ("Time zone", ""),
        ("Amount", "ten"),
        ("Amount", ""),
        ("Balance", "x"),
        ("Balance", ""),
        ("Date", "2020-01-02"),
        ("Name", ""),
        ("Status", "Denied"),
        ("Status", ""),
    ][n as usize % 17];
    let i = cols.iter().position(|c| c.trim_matches('"') == col)?;
    let cell = |v: &str| if quoted { format!("\"{v}\"") } else { v.to_string() };
    cells[i] = cell(val);
    if col == "Name" {
        // Not at the time of a record that has one.
        let t = cols.iter().position(|c| c.trim_matches('"') == "Time")?;
        cells[t] = cell("23:58:57");
    }
    ends_line(d);
    d.extend(gen::latin1(&(cells.join(",") + "\n")));
    Some(())
}

fn sabotage(w: &mut Work, s: &Sab) -> Option<(String, Option<usize>)> {
    let ins = inputs(w);
    if ins.is_empty() {
        return None;
    }
    let at = |n: u64| n as usize % ins.len();
    let name = |i: &Input| i.path.clone().unwrap_or("standard input".into());
    match s {
        Sab::Gone(n) | Sab::Directory(n) => {
            let i = &ins[at(*n)];
            let p = resolve(w, i.path.as_ref()?);
            let k = w.files.iter().position(|f| f.path == p)?;
            if matches!(s, Sab::Gone(_)) {
                w.files.remove(k);
                // Nothing else may leave its place to be created by somebody.
                gen::ensure_dir(&mut w.files, &p);
                Some((format!("{} does not exist", name(i)), Some(at(*n))))
            } else {
                w.files[k].node = Node::Dir;
                Some((format!("{} is a directory", name(i)), Some(at(*n))))
            }
        }
        Sab::NotUtf8(n, pos) => {
            let i = &ins[at(*n)];
            if matches!(i.kind, "nwcsv" | "pdf") {
                return None;
            }
            let d = content(w, i)?;
            if i.kind == "paypal" && d.iter().filter(|b| **b == b'\n').count() < 2 {
                return None;
            }
            let p = *pos as usize % (d.len() + 1);
            d.insert(p, 0xff);
            Some((format!("{} is not UTF-8", name(i)), Some(at(*n))))
        }
        Sab::Malformed(n, k) => {
            let i = ins[at(*n)].clone();
            let wk = w.kind.clone();
            malformed(content(w, &i)?, i.kind, *k, &wk)?;
            Some((format!("{} is malformed ({} {})", name(&i), i.kind, k), Some(at(*n))))
        }
        Sab::Merge(what, n) => {
            if w.kind != "merge" {
                return None;
            }
            merge_sabotage(w, what, *n)?;
            Some((format!("conflict: {what}"), None))
        }
        Sab::Rule(n) => {
            let i = ins.iter().find(|i| i.kind == "ron" && w.kind == "rules")?.clone();
            let j = ins.iter().find(|i| i.kind == "journal")?.clone();
            let jd = content(w, &j)?;
            if ledger::parse_bytes(jd).map_or(true, |t| t.iter().all(|t| t.posts.is_empty())) {
                return None;
            }
            let d = content(w, &i)?;
            let s = String::from_utf8_lossy(d).into_owned();
            let head = "Chain(\"start\", [\n";
            if s.matches(head).count() != 1 {
                return None;
            }
            let (new, what) = match n % 8 {
                0 => (s.replacen(head, &format!("{head}    Rule(action: Error(\"told so\"), predicate: True, result: Continue),\n"), 1), "a rule reports an error"),
                1 => (s.replacen("[\n", "[\n  Include(\"nowhere.ron\"),\n", 1), "an included file is missing"),
                2 => (s.replacen(head, &format!("{head}    Rule(action: JumpChain(\"nowhere\"), predicate: True, result: Continue),\n"), 1), "a rule jumps to a missing chain"),
                5 => (s.replacen(head, &format!("{head}    Rule(action: All([Noop, All([JumpChain(\"nowhere\")])]), predicate: Any([]), result: Continue),\n"), 1), "a rule jumps to a missing chain, if ever"),
                6 => (s.replacen(head, &format!("{head}    Rule(action: JumpChain(\"start\"), predicate: True, result: Continue),\n"), 1), "a chain jumps to itself"),
                7 => (
                    s.replacen("[\n", "[\n  Chain(\"round\", [\n    Rule(action: All([Noop, JumpChain(\"start\")]), predicate: True, result: Return),\n  ]),\n", 1)
                        .replacen(head, &format!("{head}    Rule(action: JumpChain(\"round\"), predicate: True, result: Continue),\n"), 1),
                    "chains jump to each other",
                ),
                3 => (s.replacen("Chain(\"start\"", "Chain(\"begin\"", 1), "there is no start chain"),
                _ => (s.replacen(head, &format!("{head}    Rule(action: All([Noop, Error(\"told so\")]), predicate: Any([True]), result: Return),\n"), 1), "a rule reports an error"),
            };
            *d = new.into_bytes();
            Some((what.to_string(), None))
        }
        Sab::UnknownAccount => {
            let i = ins.iter().find(|i| i.path.as_deref() == Some("ns.ron"))?.clone();
            *content(w, &i)? = b"{\"somebody else\": \"x\"}".to_vec();
            Some(("the account has no namespace".into(), None))
        }
        Sab::Row(n) => {
            let i = ins.iter().find(|i| matches!(i.kind, "nwcsv" | "paypal"))?.clone();
            bad_row(content(w, &i)?, i.kind, *n)?;
            Some((format!("bad record {n} in the statement"), None))
        }
        Sab::OpenFails(..) | Sab::ReadFails(..) => None,
    }
}

fn regular(t: &Tree) -> Vec<&String> {
    t.iter().filter(|(_, n)| !matches!(n, Node::Dir)).map(|(p, _)| p).collect()
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "A case is a command that succeeds, run again with one thing wrong: an input missing, unreadable (failing open or read at a seeded call), malformed or conflicting. Non-trivial when that takes effect; distinct by files, arguments, what is wrong, and call trace."
    }
    fn quick_runs(&self) -> u64 {
        4500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 4) { "merge" } else { gen::KINDS[idx as usize % gen::KINDS.len()] };
        let o = WOpts { stdio: rng.chance(1, 3), symlinks: true, big: rng.chance(1, 8) };
        let w = gen::work(rng, k, &o);
        let n = if thorough { 24 } else { 10 };
        let sabs: Vec<Sab> = (0..n)
            .map(|_| match rng.below(10) {
                0 => Sab::Gone(rng.below(6)),
                1 => Sab::Directory(rng.below(6)),
                2 => Sab::NotUtf8(rng.below(6), rng.below(100000)),
                3 => Sab::OpenFails(rng.below(6), *rng.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::ELOOP])),
                4 => Sab::ReadFails(rng.below(6), rng.below(4), *rng.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM])),
                5 => Sab::Malformed(rng.below(6), rng.below(60)),
                _ => match k {
                    "merge" => Sab::Merge(rng.pick(MERGE).to_string(), rng.below(6)),
                    "rules" => Sab::Rule(rng.below(60)),
                    "nwcsv" | "paypal" => {
                        if rng.chance(1, 6) {
                            Sab::UnknownAccount
                        } else {
                            Sab::Row(rng.below(840))
                        }
                    }
                    _ => Sab::Malformed(rng.below(6), rng.below(60)),
                },
            })
            .collect();
        json!({"work": w, "sabotage": sabs})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w0), Some(sabs)) = (parse::<Work>(v, "work"), parse::<Vec<Sab>>(v, "sabotage")) else { return Ok(None) };
        let Some(b) = baseline(m, &w0)? else {
            st.skip("the undisturbed command fails");
            return Ok(None);
        };
        for s in sabs {
            let mut w = w0.clone();
            let ins = inputs(&w0);
            let multi = w.kind == "fmt" || w.kind == "fpgen";
            let (what, index) = match &s {
                Sab::OpenFails(n, e) | Sab::ReadFails(n, _, e) => {
                    if ins.is_empty() {
                        continue;
                    }
                    let i = *n as usize % ins.len();
                    let name = ins[i].path.clone().unwrap_or("stdin".into());
                    let real = resolve(&w0, &name);
                    let open = matches!(s, Sab::OpenFails(..));
                    let hits: Vec<u32> = b
                        .run
                        .ops
                        .iter()
                        .enumerate()
                        .filter(|(_, o)| {
                            let words: String = o.what.clone();
                            if open {
                                o.class == Class::OpenRead && (words == format!("open {name} R") || words == format!("open {real} R"))
                            } else {
                                o.class == Class::Read && (words == format!("read {name}") || words == format!("read {real}"))
                            }
                        })
                        .map(|(k, _)| k as u32)
                        .collect();
                    let k = if let Sab::ReadFails(_, k, _) = &s { *k as usize } else { 0 };
                    if hits.is_empty() {
                        st.skip("the input is not opened by that name");
                        continue;
                    }
                    w.cmd.plan = Plan::Explicit(vec![Fault { op: hits[k % hits.len()], kind: FaultKind::Errno(*e) }]);
                    (format!("{} {} fails with {}", if open { "opening" } else { "reading" }, name, crate::machine::errname(*e)), Some(i))
                }
                _ => match sabotage(&mut w, &s) {
                    Some(x) => x,
                    None => {
                        st.skip("not applicable to this command");
                        continue;
                    }
                },
            };
            m.reset(&w.files);
            let t0 = m.tree();
            let r = m.run(&w.cmd, b.total)?;
            let t = m.tree();
            record(st, &r, &t, 0);
            let label = serde_json::to_string(&s).unwrap();
            let label = label.split(['(', ':', '[']).next().unwrap_or("").trim_matches(['{', '"']).to_string();
            st.note(&format!("rejected: {label}"));
            let mut h = Hash::new();
            h.u64(r.trace_hash());
            h.add(what.as_bytes());
            h.add(serde_json::to_string(&w.files).unwrap().as_bytes());
            h.add(w.cmd.args.join("\0").as_bytes());
            st.mark(h.0);
            let sc = json!({"work": w0, "sabotage": [s]});
            if r.ok() {
                return Ok(Some(bad(&format!("accepted {label}"), format!("{:?} succeeds although {what}", w.cmd.args), sc, &[&r])));
            }
            // Which journals of a list may already have been rewritten?
            let mut may: Vec<String> = vec![];
            let mut may_print = false;
            if multi {
                let stop = index.unwrap_or(0);
                for i in &ins[..stop.min(ins.len())] {
                    match &i.path {
                        Some(p) => may.push(resolve(&w0, p)),
                        None => may_print = true,
                    }
                }
            }
            for (p, n) in &t0 {
                if t.get(p) == Some(n) {
                    continue;
                }
                if may.contains(p) && masked(&w, &t0, p, data(&t, p)) == masked(&w, &b.t0, p, data(&b.t1, p)) {
                    continue;
                }
                let msg = format!("{:?} fails ({}) as {what}, but {p} was changed: {}", w.cmd.args, r.err(), diff(data(&t0, p).unwrap_or(b""), data(&t, p).unwrap_or(b"")));
                return Ok(Some(bad(&format!("changed {label}"), msg, sc, &[&r])));
            }
            if let Some((p, _)) = t.iter().find(|(p, n)| !t0.contains_key(*p) && (!matches!(n, Node::Dir) || !p.starts_with("tmp"))) {
                let msg = format!("{:?} fails ({}) as {what}, but created {p}: {}", w.cmd.args, r.err(), show(data(&t, p)));
                return Ok(Some(bad(&format!("created {label}"), msg, sc, &[&r])));
            }
            if !r.stdout.is_empty() && !may_print {
                let msg = format!("{:?} fails ({}) as {what}, but printed {}", w.cmd.args, r.err(), show(Some(&r.stdout)));
                return Ok(Some(bad(&format!("printed {label}"), msg, sc, &[&r])));
            }
        }
        Ok(None)
    }
}
