//! C19: whatever happens, and whatever its files contain, a command ends by
//! itself and in order.
use crate::common::*;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, WOpts, Work};
use crate::io::{helper_fault, key, kind_of};
use crate::machine::{Machine, R};
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde_json::{json, Value};

pub struct C19;

const ODD: &[&str] = &[
    "", "0", "-1", "-0.00", "00", "99999", "79228162514264337593543950335", "-79228162514264337593543950335", "99999999999999999999999999999999999999", "9223372036854775807",
    "0.0000000000000000000000000001", "1e400", "NaN", "1_000", "+1", "1,2,3", ".5", "5.", "£", "£-1.00", "-£1.00", "£1.005", "£999999999999999999.00", "£92233720368547758.08", "31/12/+262142", "01/01/-262143", "01/01/+262142", "31 Dec +262142", "01 Jan -262143", "+262142", "-262143", "GBP", "GBP1", "1 GBP", "(1)", "é", "日本", "\u{1F4B0}", "\u{feff}", "\u{0}", "\u{7f}",
    "\u{a0}", "\u{2028}", "\r", "\n", "\n\n", "\r\n", "\t", " ", "   ", ";", ":", "::", ":a:", "-", ",", "\"", "\"\"", "'", "[", "]", "(", ")", "{", "}", "@", "@@", "@ GBP2.00", "= GBP1.00", "=", "!", "*", "(code)", "%", "\\",
    "9999-12-31", "0000-01-01", "0001-01-01", "2020-02-30", "262143-12-31", "262144-01-01", "-262144-01-01", "31 Dec 9999", "01 Jan 0000", "31 Dec 262143", "29/02/2021", "31/12/9999", "01/01/0001", "31/12/262143", "24:00:00", "23:59:60",
    "00:00:00", "UTC+24", "UTC-24", "UTC+23:59", "UTC-00:00", "UTC+00:60", "UTC", "Feb", "Date", "Balance", "fp-", "fp", ":fp-:", "candidate-", ":candidate-fp-:", "note:", "note: fp-1", "include x", "P 2020-01-01 EUR GBP1",
    "= /x/", "~ monthly", "comment", "end comment", "Some(", "None", "All([])", "JumpChain(\"start\")", "Include(\"main.ron\")", "\"(\"", "\"(a+)+$\"", "r#\"", "/*", "//",
];

/// Damages a file's content.
pub fn rot(rng: &mut Rng, d: &mut Vec<u8>, times: usize) {
    for _ in 0..times {
        let n = d.len();
        let at = rng.usize(n + 1);
        let most = if rng.chance(1, 4) { 200 } else { 8 };
        let len = (1 + rng.usize(most)).min(n - at);
        match rng.below(15) {
            0 if n > 0 => d[at.min(n - 1)] ^= 1 << rng.below(8),
            1 if n > 0 => d[at.min(n - 1)] = rng.below(256) as u8,
            2 => {
                d.drain(at..at + len);
            }
            3 => {
                let x = d[at..at + len].to_vec();
                let to = rng.usize(n + 1);
                d.splice(to..to, x);
            }
            4 => {
                // Lines change places.
                let mut l: Vec<Vec<u8>> = d.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                let (a, b) = (rng.usize(l.len()), rng.usize(l.len()));
                l.swap(a, b);
                *d = l.join(&b'\n');
            }
            5 => d.truncate(at),
            6 => {
                let x = rng.pick(ODD).as_bytes().to_vec();
                d.splice(at..at, x);
            }
            7 => {
                let c = *rng.pick(b"a9 :;,\"([-\n");
                let k = *rng.pick(&[10usize, 100, 5000]);
                d.splice(at..at, vec![c; k]);
            }
            9 => {
                // Characters of several bytes, at even and odd places.
                let c = *rng.pick(&["é", "£", "日", "\u{1F4B0}"]);
                let x = "x".repeat(rng.usize(4)) + &c.repeat(*rng.pick(&[20usize, 60, 200]));
                d.splice(at..at, x.into_bytes());
            }
            8 => {
                // One word becomes another word of the file.
                let word = |b: &u8| !b" \t\n\r,\"[]();:".contains(b);
                let span = |rng: &mut Rng| {
                    let a = (rng.usize(n + 1)..n).find(|i| word(&d[*i]))?;
                    let start = (0..a).rev().take_while(|i| word(&d[*i])).last().unwrap_or(a);
                    Some((start, (a..n).find(|i| !word(&d[*i])).unwrap_or(n)))
                };
                if let (Some((a, b)), Some((x, y))) = (span(rng), span(rng)) {
                    let w = d[x..y].to_vec();
                    d.splice(a..b, w);
                }
            }
            // One word or number becomes something else.
            k => {
                let word = |b: u8| if k % 2 == 0 { b.is_ascii_digit() || b == b'.' || b == b'-' } else { !b" \t\n\r,\"[]();:".contains(&b) };
                let mut a = at;
                while a < n && !word(d[a]) {
                    a += 1;
                }
                let mut b = a;
                while b < n && word(d[b]) {
                    b += 1;
                }
                let mut x = rng.pick(ODD).as_bytes().to_vec();
                if rng.chance(1, 4) && b > a {
                    x = d[a..b].to_vec();
                    let c = x.clone();
                    x.extend(c);
                }
                d.splice(a..b, x);
            }
        }
        if d.len() > 60_000 {
            d.truncate(60_000);
        }
    }
}

/// The files and the standard input that the command looks at.
pub fn damage(rng: &mut Rng, w: &mut Work, rules: bool) {
    let k = w.files.len();
    let hit = rng.usize(k + 1);
    for (i, f) in w.files.iter_mut().enumerate() {
        if f.path == "notes.txt" || f.path.ends_with(".ron") && !rules || !(i == hit || rng.chance(1, 3)) {
            continue;
        }
        let times = 1 + rng.usize(4);
        if let Node::File { data, .. } = &mut f.node {
            let magic = crate::helpers::PDF_MAGIC.len();
            if f.path.ends_with(".ron") && rng.chance(1, 3) {
                table(rng, &mut data.0);
            } else if f.path.ends_with(".pdf") && rng.chance(7, 8) {
                pages(rng, &mut data.0, magic, times);
            } else {
                rot(rng, &mut data.0, times);
            }
        }
    }
    if let Some(s) = &mut w.cmd.stdin {
        if hit == k || rng.chance(1, 2) {
            let times = 1 + rng.usize(4);
            rot(rng, &mut s.0, times);
        }
    }
}

/// A rule table says something else that can be said in rules.
fn table(rng: &mut Rng, d: &mut Vec<u8>) {
    let s = String::from_utf8_lossy(d).into_owned();
    let at: Vec<usize> = s.match_indices(", [\n").map(|(i, m)| i + m.len()).collect();
    let Some(at) = (!at.is_empty()).then(|| *rng.pick(&at)) else { return };
    let jump = format!("JumpChain(\"{}\")", rng.pick(&["start", "more", "start", "nowhere"]));
    let action = match rng.below(4) {
        0 => format!("All([Noop, {jump}])"),
        1 => format!("All([{jump}, All([{jump}, {jump}])])"),
        2 => format!("ReplaceTransactionDescription((regex: \"{}\", replacement: \"{}\"))", rng.pick(&["", "^", "(.)", "x*", "(a|b)*$"]), rng.pick(&["", "$1$1", "$9", "\\\\n", "$0$0$0", "${x}"])),
        _ => jump,
    };
    let pred = *rng.pick(&["True", "All([])", "Any([])", "Not(Any([]))", "Account(Contains(\"\"))", "PostingFlagTag(Matches(\"^\"))", "Not(Account(Eq(\"expenses:ruled\")))"]);
    let rule = format!("    Rule(action: {action}, predicate: {pred}, result: {}),\n", rng.pick(&["Continue", "Return"]));
    d.splice(at..at, rule.into_bytes());
}

/// The OCR misreads a statement.
fn pages(rng: &mut Rng, d: &mut Vec<u8>, magic: usize, times: usize) {
    let Ok(mut v) = serde_json::from_slice::<Value>(&d[magic.min(d.len())..]) else { return };
    for _ in 0..times {
        let Some(pg) = v.as_array_mut().filter(|p| !p.is_empty()) else { return };
        let i = rng.usize(pg.len());
        if rng.chance(1, 12) {
            let x = pg[i].clone();
            if rng.chance(1, 2) {
                pg.remove(i);
            } else {
                pg.push(x);
            }
            continue;
        }
        let Some(rows) = pg[i].as_array_mut().filter(|r| !r.is_empty()) else { continue };
        let j = rng.usize(rows.len());
        match rng.below(5) {
            0 => {
                rows.remove(j);
            }
            1 => {
                let x = rows[j].clone();
                let to = rng.usize(rows.len());
                rows.insert(to, x);
            }
            2 => {
                let to = rng.usize(rows.len());
                rows.swap(j, to);
            }
            _ => {
                let Some(r) = rows[j].as_array_mut().filter(|r| !r.is_empty()) else { continue };
                let c = if rng.chance(1, 2) { r.len() - 1 } else { rng.usize(r.len()) };
                if c + 1 == r.len() {
                    r[c] = json!(rng.pick(ODD).replace(['\t', '\n', '\r'], " "));
                } else {
                    r[c] = json!(*rng.pick(&[0i64, -1, 1, 5, 6, 100000, 2147483647, -2147483648, 4294967296]));
                }
            }
        }
    }
    d.truncate(magic);
    d.extend(serde_json::to_vec(&v).unwrap());
}

fn odd_args(rng: &mut Rng, w: &mut Work) {
    let a = &mut w.cmd.args;
    if a.iter().any(|x| x.starts_with("/dev/")) {
        // Nothing is ever to be read from one's own standard output.
        return;
    }
    match if w.kind == "pdf" && rng.chance(1, 3) { 6 } else { rng.below(7) } {
        5 => {
            // A name that is no UTF-8.
            let i = rng.usize(a.len());
            let old = a[i].clone();
            let new = format!("{old}\u{f7e9}.x");
            for f in w.files.iter_mut().filter(|f| f.path == old) {
                f.path = new.clone();
            }
            a[i] = new;
        }
        6 => {
            let d = *rng.pick(&["tmp\u{f7ff}", "tmp/\u{f780}\u{f7a0}", "no/such/dir", "notes.txt", "tmp%d", "tmp/..", "tmp\n"]);
            if d.contains(['\u{f7ff}', '\u{f780}', '%', '\n']) {
                w.files.push(FileSpec { path: d.into(), node: Node::Dir });
            }
            w.cmd.tmpdir = Some(d.into());
        }
        0 => {
            let x = rng.pick(ODD).replace(['\0', '/', '.'], "_");
            if let Some(i) = a.iter().position(|x| x == "--fp-namespace" || x == "--fingerprint-namespace") {
                a[i + 1] = rng.pick(&["fixed:", "lookup:", "", "x:"]).to_string() + &x;
            } else if let Some(i) = a.iter().position(|x| x == "--output-timezone") {
                a[i + 1] = rng.pick(&["UTC", "Pacific/Apia", "Europe/Nowhere", "", "america/new_york", "Etc/GMT+12"]).to_string();
            }
        }
        1 => {
            if let Some(i) = a.iter().position(|x| x == "-o") {
                a[i + 1] = rng.pick(&["", ".", "tmp", "no/such/dir/x", "notes.txt/x", "%FP_NS%", "é%FP_NS%/%FP_NS%"]).to_string();
            }
        }
        2 => {
            let i = 1 + rng.usize(a.len());
            a.insert(i.min(a.len()), rng.pick(&["--help", "--no-such-option", "-", "--", "-o", "extra", "--make-parent-dirs"]).to_string());
        }
        3 => {
            let i = rng.usize(a.len());
            a.remove(i);
        }
        _ => {
            // The same file again.
            let i = rng.usize(a.len());
            let x = a[i].clone();
            a.push(x);
        }
    }
}

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A case is one command whose files, standard input and arguments are damaged at seeded places, run with seeded failing, short and interrupted calls and failing helpers; non-trivial when something was damaged or failed; distinct by files, arguments and call trace."
    }
    fn quick_runs(&self) -> u64 {
        2000
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 6) { "pdf" } else { kind_of(rng, idx) };
        let big = rng.chance(1, 10);
        let w = gen::work(rng, k, &WOpts { stdio: true, symlinks: true, big });
        let n = if thorough { 60 } else { 16 };
        let cases: Vec<Value> = (0..n)
            .map(|_| {
                let mut x = w.clone();
                if rng.chance(9, 10) {
                    damage(rng, &mut x, true);
                }
                if rng.chance(1, 6) {
                    odd_args(rng, &mut x);
                }
                if rng.chance(1, 4) {
                    x.cmd.plan = gen::any_plan(rng);
                }
                if x.kind == "pdf" && rng.chance(1, 6) {
                    if rng.chance(1, 2) {
                        x.cmd.gm = helper_fault(rng);
                    } else {
                        x.cmd.tess = helper_fault(rng);
                    }
                }
                json!(x)
            })
            .collect();
        json!({"work": w, "cases": cases})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w0), Some(cases)) = (parse::<Work>(v, "work"), parse::<Vec<Work>>(v, "cases")) else { return Ok(None) };
        for w in cases {
            m.reset(&w.files);
            let mut c = w.cmd.clone();
            let r = m.run_rec(&mut c, 60)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            let mut h = Hash::new();
            h.u64(r.trace_hash());
            h.u64(key(&w));
            h.add(serde_json::to_string(&w.files).unwrap().as_bytes());
            st.mark(h.0);
            let mut w2 = w.clone();
            w2.cmd = c;
            let sc = json!({"work": w0, "cases": [w2]});
            let about = format!("{:?} after {}", w.cmd.args, faults_text(&r));
            let died = r.died() || r.faults.iter().any(|f| matches!(f.kind, FaultKind::Oom(_)));
            let err = r.err();
            if String::from_utf8_lossy(&r.stderr).contains("panicked at") && !r.faults.iter().any(|f| matches!(f.kind, FaultKind::Oom(_))) {
                return Ok(Some(bad("panics", format!("{about}: {err}"), sc, &[&r])));
            }
            match r.exit {
                Exit::Code(0) => st.note("succeeds"),
                Exit::Code(1) | Exit::Code(2) => {
                    st.note("fails in order");
                    if r.stderr.iter().all(|b| b.is_ascii_whitespace()) {
                        return Ok(Some(bad("silent", format!("{about}: fails without saying why"), sc, &[&r])));
                    }
                }
                _ if died => st.note("killed"),
                e => return Ok(Some(bad(&format!("{e:?}"), format!("{about}: ends with {e:?}: {err}"), sc, &[&r]))),
            }
        }
        Ok(None)
    }
}
