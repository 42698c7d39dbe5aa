//! Generators: journals, statements, rule tables, and commands on them.
use crate::ledger::{self, Comment, Post, Trn, UNKNOWN};
use crate::rng::Rng;
use crate::types::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// One command in a small world.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Work {
    pub kind: String,
    pub files: Vec<FileSpec>,
    pub cmd: Cmd,
    /// Regular files the command is asked to write.
    pub outs: Vec<String>,
}

// ---------------------------------------------------------------- journals

pub struct JOpts {
    pub dates: usize,
    pub trns: usize,
    /// None: no fingerprints; Some(n): n per mille of the postings have one.
    pub fp: u32,
    pub rich: bool,
    pub unknown: u32,
    pub prefix: String,
}

pub const ACCOUNTS: &[&str] = &[
    "assets:bank:current", "assets:bank:savings", "assets:cash", "expenses:food", "expenses:my travel", "income:salary", "expenses:unknown",
    "assets:unknown", "liabilities:visa", "equity:öffnung", "assets:bank", "assets:bank:current2", "Assets:Cash", "expenses:food:out",
];
const TAGS: &[&str] = &["a", "bb", "trip", "tax2020", "reviewed", "a-very-long-tag-name-that-is-alone", "import-self", "import-peer", "étiquette", "x1", "x2", "A", "Trip", "TRIP", "x10", "x-fp-1", "Import-Self"];
const KEYS: &[&str] = &["note", "url", "bank", "account", "trn_type", "seq", "receipt_id", "Note", "NOTE", "notes", "Bank"];
const VALUES: &[&str] = &["one", "two words", "http://example.org/a?b=c", "07:30", "naïve ☕ text", "12-34-56 12345678", "x"];
const LINES: &[&str] = &["some text", "another remark, longer than the others", "paid in cash (2 of 3)", "déjà vu", "z", "Z", "some text, and more", "Some text", "1", "10"];
const DESCS: &[&str] = &[
    "Grocer", "Café Müller", "TESCO STORES 1234", "Transfer", "J Smith & Sons Ltd", "AMZN Mktp UK*1A2B3", "Opening balance", "O'Neill / rent", "Bäckerei", "ATM 12:30",
];

pub fn date(rng: &mut Rng, pool: usize) -> String {
    let n = rng.usize(pool.max(1));
    nth_date(n)
}
pub fn nth_date(n: usize) -> String {
    // Spread over month and year ends.
    let base = [(2020, 2, 28), (2020, 2, 29), (2020, 3, 1), (2019, 12, 31), (2020, 1, 1), (2021, 6, 15)];
    let (y, m, d) = base[n % base.len()];
    let y = y + (n / base.len()) as i32 * 4;
    format!("{y:04}-{m:02}-{d:02}")
}

pub fn money(pence: i64) -> String {
    let s = if pence < 0 { "-" } else { "" };
    format!("GBP{s}{}.{:02}", pence.abs() / 100, pence.abs() % 100)
}

/// What an amount of shares or of another currency cost.
pub fn price(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" {USD1.00}", " {USD1.50}", " {USD1.00}", " @ USD1.00", " @@ USD1.00", " @ USD1.20", " {{USD1.00}}", " {USD1.00} @ USD2", " {USD1.00} @@ 2 EUR", " {{3 EUR}} @ $1"])
}

pub fn comment(rng: &mut Rng, rich: bool) -> Comment {
    let mut c = Comment::default();
    if !rich {
        if rng.chance(1, 4) {
            c.kv.insert("note".into(), "one".into());
        }
        return c;
    }
    for _ in 0..rng.usize(3) {
        c.tags.insert(rng.pick(TAGS).to_string());
    }
    for _ in 0..rng.usize(3) {
        c.kv.insert(rng.pick(KEYS).to_string(), rng.pick(VALUES).to_string());
    }
    for _ in 0..rng.usize(2) {
        c.lines.push(rng.pick(LINES).to_string());
    }
    c
}

pub struct FpSource {
    pub prefix: String,
    pub n: u64,
}
impl FpSource {
    pub fn new(prefix: &str) -> Self {
        FpSource { prefix: prefix.into(), n: 0 }
    }
    pub fn next(&mut self, rng: &mut Rng) -> String {
        self.n += 1;
        match rng.below(4) {
            0 => format!("fp-{}.1.acc-{:04}Zz+/{}", self.prefix, (self.n * 7919) % 10000, self.n),
            1 => format!("fp-{}-{}", self.prefix, self.n),
            2 => format!("fp-uuidb64-{}{:06}", self.prefix, self.n * 31),
            _ => format!("fp-nwcsv6.1.{}-k{}a", self.prefix, self.n),
        }
    }
}

pub fn status(rng: &mut Rng) -> Option<char> {
    match rng.below(6) {
        0 => Some('*'),
        1 => Some('!'),
        _ => None,
    }
}

pub fn trn(rng: &mut Rng, o: &JOpts, fps: &mut FpSource) -> Trn {
    let mut t = Trn { date: date(rng, o.dates), desc: rng.pick(DESCS).to_string(), ..Default::default() };
    if o.rich {
        t.status = status(rng);
        if rng.chance(1, 6) {
            t.code = Some(rng.pick(&["101", "CHQ 7", "a-1"]).to_string());
        }
        if rng.chance(1, 8) {
            t.eff = Some(date(rng, o.dates));
        }
        if rng.chance(1, 4) {
            t.comment = comment(rng, true);
        }
    }
    let amt = *rng.pick(&[100i64, 250, 1000, 1234, 5, -100, -250, -1234, 999999]);
    let n = if rng.chance(1, 6) { 3 } else if rng.chance(1, 12) { 1 } else { 2 };
    for i in 0..n {
        let a = if i == 0 { amt } else if n == 3 { -amt / 2 } else { -amt };
        let mut p = Post {
            account: rng.pick(ACCOUNTS).to_string(),
            amount: Some(money(a)),
            comment: comment(rng, o.rich),
            ..Default::default()
        };
        if o.rich && rng.chance(1, 15) {
            p.amount = p.amount.map(|a| format!("{a}{}", price(rng)));
        }
        if o.rich && rng.chance(1, 15) {
            p.account = if rng.chance(1, 2) { format!("({})", p.account) } else { format!("[{}]", p.account) };
        }
        if o.rich && rng.chance(1, 6) {
            p.balance = Some(money(rng.range(-50000, 500000)));
        }
        if o.rich && rng.chance(1, 5) {
            p.status = status(rng);
        }
        if rng.chance(o.fp as u64, 1000) {
            p.comment.tags.insert(fps.next(rng));
            if rng.chance(1, 10) {
                p.comment.tags.insert(fps.next(rng));
            }
        }
        if rng.chance(o.unknown as u64, 1000) {
            p.comment.tags.insert(UNKNOWN.into());
        }
        t.posts.push(p);
    }
    t
}

pub fn journal(rng: &mut Rng, o: &JOpts) -> Vec<Trn> {
    let mut fps = FpSource::new(&o.prefix);
    (0..o.trns).map(|_| trn(rng, o, &mut fps)).collect()
}

/// A way a person may have typed the journal: spacing, comment placement.
pub fn sloppy(rng: &mut Rng, trns: &[Trn], directives: bool) -> String {
    let mut s = String::new();
    for t in trns {
        if directives && rng.chance(1, 6) {
            s.push_str("; a remark on its own\n\n");
        }
        let r = t.render();
        for (i, line) in r.lines().enumerate() {
            if i > 0 {
                let l = line.trim_start();
                let ind = *rng.pick(&["  ", "    ", "\t", "   "]);
                s.push_str(ind);
                s.push_str(l);
            } else {
                s.push_str(line);
            }
            s.push('\n');
        }
        for _ in 0..1 + rng.usize(2) {
            // White space that an editor left there.
            if rng.chance(1, 8) {
                s.push_str(*rng.pick(&[" ", "    ", "\t"]));
            }
            s.push('\n');
        }
    }
    if rng.chance(1, 6) {
        // No end of the last line.
        s.truncate(s.trim_end().len());
    }
    if rng.chance(1, 12) {
        s = s.replace('\n', "\r\n");
    }
    s
}

/// Another source's view of the same event.
pub fn review(rng: &mut Rng, t: &Trn, fps: &mut FpSource, dates: usize) -> Trn {
    let mut n = t.clone();
    n.comment = Comment::default();
    if rng.chance(1, 10) {
        n.date = date(rng, dates);
    }
    n.desc = rng.pick(DESCS).to_string();
    n.status = status(rng);
    n.posts = vec![];
    for p in &t.posts {
        let mut q = Post { account: p.account.clone(), amount: p.amount.clone(), ..Default::default() };
        if rng.chance(1, 12) {
            continue;
        }
        if rng.chance(2, 3) {
            let f = p.comment.fps();
            if !f.is_empty() {
                q.comment.tags.insert(rng.pick(&f).clone());
            }
        }
        if q.comment.tags.is_empty() || rng.chance(1, 5) {
            q.comment.tags.insert(fps.next(rng));
        }
        if rng.chance(1, 3) {
            q.account = rng.pick(ACCOUNTS).to_string();
            if rng.chance(4, 5) {
                q.comment.tags.insert(UNKNOWN.into());
            }
        }
        if rng.chance(1, 4) {
            q.balance = if p.balance.is_some() && rng.chance(3, 4) { p.balance.clone() } else { Some(money(rng.range(0, 9) * 1000)) };
        }
        if rng.chance(1, 12) {
            q.amount = Some(money(777));
        }
        q.status = status(rng);
        let extra = comment(rng, true);
        q.comment.tags.extend(extra.tags);
        q.comment.kv.extend(extra.kv);
        q.comment.lines.extend(extra.lines);
        n.posts.push(q);
    }
    if n.posts.is_empty() || rng.chance(1, 10) {
        let mut q = Post { account: rng.pick(ACCOUNTS).to_string(), amount: Some(money(rng.range(1, 9) * 100)), ..Default::default() };
        q.comment.tags.insert(fps.next(rng));
        n.posts.push(q);
    }
    n
}

/// Journals for merging: each file sees some of the same events.
pub fn merge_journals(rng: &mut Rng, files: usize, trns: usize, conflict: bool) -> Vec<Vec<Trn>> {
    let dates = 2 + rng.usize(4);
    let mut all: Vec<Trn> = vec![];
    let mut out = vec![];
    let unknown = *rng.pick(&[0, 100, 400]);
    for f in 0..files {
        let mut fps = FpSource::new(&format!("s{f}"));
        let o = JOpts { dates, trns, fp: 1000, rich: true, unknown, prefix: format!("s{f}") };
        let mut v: Vec<Trn> = vec![];
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..rng.usize(trns + 1).max(if f == 0 { 1 } else { 0 }) {
            let mut t;
            if !all.is_empty() && rng.chance(3, 5) {
                let i = rng.usize(all.len());
                if !conflict && !seen.insert(i) {
                    continue;
                }
                let d = if conflict || rng.chance(1, 8) { dates } else { 1 };
                t = review(rng, &all[i], &mut fps, d);
                if !conflict && t.date != all[i].date && rng.chance(3, 4) {
                    t.date = all[i].date.clone();
                }
            } else {
                t = trn(rng, &o, &mut fps);
                if rng.chance(1, 3) {
                    t.comment.kv.insert("source-file".into(), rng.pick(&["bank.csv", "a other.journal", "zz", "ZZ", "Bank.csv", "bank.csv.2", "10", "9"]).to_string());
                }
            }
            let mine: Vec<String> = t.fps();
            if !conflict && mine.iter().any(|x| used.contains(x)) {
                continue;
            }
            used.extend(mine);
            v.push(t);
        }
        all.extend(v.iter().cloned());
        out.push(v);
    }
    out
}

// -------------------------------------------------------------- statements

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Row {
    pub date: (i32, u32, u32),
    pub time: (u32, u32, u32),
    pub kind: String,
    pub desc: String,
    pub loc: String,
    /// Positive: paid in.
    pub pence: i64,
    pub balance: i64,
    pub cleared: bool,
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// As much as fits between the columns of a PDF statement.
const LONG: &str = "INTERNATIONAL PAYMENT REFERENCE 0123456789ABCDEF PROFESSIONAL-SERVICES CONSULTANCY LIMITED QUARTERLY-RETAINER INVOICE/2019/00042 ENDS";

pub fn rows(rng: &mut Rng, n: usize, days: u32) -> Vec<Row> {
    let mut v = vec![];
    let mut bal = rng.range(0, 100000);
    let mut day = 1 + rng.below(5) as u32;
    let month = 1 + rng.below(12) as u32;
    let mut secs = 3600;
    for i in 0..n {
        if i > 0 && rng.chance(days.min(900) as u64, 1000) && day < 28 {
            day += 1 + rng.below(2) as u32;
            day = day.min(28);
            secs = 3600;
        }
        secs += if rng.chance(1, 3) && i > 0 { 0 } else { 1 + rng.below(600) as u32 };
        let mut p = *rng.pick(&[100i64, 250, 1999, 123456, 5, 1, 10000000, 700, 123456789, 100000000]);
        if rng.chance(1, 2) {
            p = rng.range(1, 99999);
        }
        if rng.chance(2, 3) {
            p = -p;
        }
        bal += p;
        v.push(Row {
            date: (2020, month, day),
            time: (secs / 3600 % 24, secs / 60 % 60, secs % 60),
            kind: rng.pick(&["Direct debit", "Visa purchase", "Bank credit", "Transfer to", "ATM Withdrawal", "Payment to"]).to_string(),
            desc: rng.pick(&["Grocer", "TESCO STORES 1234", "J SMITH & SONS", "Café Zoë", "Gas, water and power", "O'NEILL 07/12", "RENT", LONG]).to_string(),
            loc: rng.pick(&["", "London", "LEEDS GB", "Saint-Étienne"]).to_string(),
            pence: p,
            balance: bal,
            cleared: !rng.chance(1, 8),
        });
    }
    v
}

fn q(s: &str, always: bool) -> String {
    if always || s.contains(',') || s.contains('"') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect()
}

fn pounds(p: i64) -> String {
    format!("£{}{}.{:02}", if p < 0 { "-" } else { "" }, p.abs() / 100, p.abs() % 100)
}

pub struct CsvStyle {
    pub six: bool,
    pub quoted: bool,
    pub crlf: bool,
    pub account: String,
    pub final_newline: bool,
}

pub fn nationwide(rows: &[Row], st: &CsvStyle) -> Vec<u8> {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let l = |cells: &[String]| cells.iter().map(|c| q(c, st.quoted)).collect::<Vec<_>>().join(",") + nl;
    let bal = rows.last().map_or(0, |r| r.balance);
    let mut s = String::new();
    s += &l(&["Account Name:".into(), st.account.clone()]);
    s += &l(&["Account Balance:".into(), pounds(bal)]);
    s += &l(&["Available Balance:".into(), pounds(bal)]);
    if !st.quoted {
        s += nl;
    }
    let heads: &[&str] = if st.six {
        &["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"]
    } else {
        &["Date", "Transactions", "Location", "Paid out", "Paid in"]
    };
    s += &l(&heads.iter().map(|h| h.to_string()).collect::<Vec<_>>());
    for r in rows {
        let d = format!("{:02} {} {}", r.date.2, MONTHS[r.date.1 as usize - 1], r.date.0);
        let (out, inn) = if r.pence < 0 { (pounds(-r.pence), String::new()) } else { (String::new(), pounds(r.pence)) };
        if st.six {
            s += &l(&[d, r.kind.clone(), r.desc.clone(), out, inn, pounds(r.balance)]);
        } else {
            s += &l(&[d, r.desc.clone(), r.loc.clone(), out, inn]);
        }
    }
    if !st.final_newline {
        s = s.trim_end().to_string();
    }
    latin1(&s)
}

pub fn csv_style(rng: &mut Rng) -> CsvStyle {
    CsvStyle {
        six: rng.chance(1, 2),
        quoted: rng.chance(1, 2),
        crlf: rng.chance(1, 3),
        account: rng.pick(&["Current Account ****12345", "FlexAccount", "Savings 2"]).to_string(),
        final_newline: !rng.chance(1, 5),
    }
}

/// The last Sunday of a month of 31 days.
fn last_sunday(y: i32, m: i32) -> u32 {
    // Zeller's congruence for the 31st; 1 is Sunday.
    let h = (31 + 13 * (m + 1) / 5 + y % 100 + y % 100 / 4 + y / 400 + 5 * (y / 100)) % 7;
    (31 - (h + 6) % 7) as u32
}

pub fn paypal(rng: &mut Rng, rows: &[Row]) -> String {
    // Extra columns and their order vary between exports.
    let quoted = rng.chance(1, 2);
    let nl = if rng.chance(1, 3) { "\r\n" } else { "\n" };
    let mut cols = vec!["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"];
    if rng.chance(1, 3) {
        cols.insert(8, "Fees");
    }
    if rng.chance(1, 4) {
        cols.swap(4, 5);
    }
    let last_text = rng.chance(1, 3);
    if last_text {
        cols.push("Item Title");
    }
    let mut s = cols.iter().map(|c| q(c, quoted)).collect::<Vec<_>>().join(",") + nl;
    let mut prev: Option<&Row> = None;
    for r in rows {
        // The first record at an instant must have a name.
        let follows = prev.map_or(false, |p| p.date == r.date && p.time == r.time);
        prev = Some(r);
        let name = if follows && (r.pence + r.balance).rem_euclid(2) == 0 { String::new() } else { r.desc.clone() };
        let cell = |c: &str| match c {
            "Date" => format!("{:02}/{:02}/{:04}", r.date.2, r.date.1, r.date.0),
            "Time" => format!("{:02}:{:02}:{:02}", r.time.0, r.time.1, r.time.2),
            "Time zone" => if (r.date, r.time) >= ((r.date.0, 3, last_sunday(r.date.0, 3)), (2, 0, 0)) && (r.date, r.time) < ((r.date.0, 10, last_sunday(r.date.0, 10)), (1, 0, 0)) { "BST".into() } else { "GMT".to_string() },
            "Name" => name.clone(),
            "Type" => r.kind.clone(),
            "Status" => if r.cleared { "Completed".into() } else { "Pending".to_string() },
            "Currency" => "GBP".into(),
            "Amount" => plain(r.pence),
            "Fees" => "0.00".into(),
            "Receipt ID" => if r.pence % 3 == 0 { format!("R{:06}", r.pence.abs() % 1000000) } else { String::new() },
            "Balance" => plain(r.balance),
            "Item Title" => "thing".into(),
            _ => String::new(),
        };
        s += &(cols.iter().map(|c| q(&cell(c), quoted)).collect::<Vec<_>>().join(",") + nl);
    }
    if rng.chance(1, 5) {
        s = s.trim_end().to_string();
    }
    s
}
fn plain(p: i64) -> String {
    format!("{}{}.{:02}", if p < 0 { "-" } else { "" }, p.abs() / 100, p.abs() % 100)
}

pub const TZFILE: &str = "abbreviation,utc_offset\nBST,UTC+01\nGMT,UTC+00\nCET,UTC+01:00\n";

/// What a statement PDF says below a record: the rest of its description and
/// maybe the effective date.
pub fn pdf_below(r: &Row) -> (Vec<String>, bool) {
    let n = r.balance / 3;
    let (mut words, mut date) = (vec![], false);
    if n.rem_euclid(4) == 0 {
        if r.pence.rem_euclid(2) == 0 {
            date = true;
        } else {
            words.push(r.kind.split(' ').next().unwrap().to_string());
        }
    }
    if n.rem_euclid(7) == 0 {
        words.push(format!("Ref {}", r.balance.rem_euclid(1000)));
        if n.rem_euclid(14) == 0 {
            words.push("at TERMINAL".to_string());
        }
    }
    (words, date)
}
/// The balance, if the statement PDF gives it with this record.
pub fn pdf_balance(r: &Row) -> Option<i64> {
    (r.balance.rem_euclid(3) == 0).then_some(r.balance)
}
fn thousands(p: i64) -> String {
    let mut s = (p.abs() / 100).to_string();
    let mut i = s.len();
    while i > 3 {
        i -= 3;
        s.insert(i, ',');
    }
    format!("{}{s}.{:02}", if p < 0 { "-" } else { "" }, p.abs() % 100)
}

/// A statement PDF of several pages: the text with positions that the
/// simulated OCR "recognises". What is said of a record depends on the record
/// alone; where it stands does not.
pub fn pdf(rng: &mut Rng, rows: &[Row], per_page: usize) -> String {
    let mut pages: Vec<Vec<Vec<serde_json::Value>>> = vec![];
    let mut it = rows.chunks(per_page.max(1)).peekable();
    let mut first = true;
    let two_tables = rng.chance(1, 6);
    let footers = rng.chance(1, 4);
    let spills = rng.chance(1, 4);
    // The account number: at the top, a bit below, on the last page.
    let number_at = *rng.pick(&[0, 0, 0, 0, 1, 2]);
    let preamble = if rng.chance(1, 4) { rng.usize(7) } else { 0 };
    // Lines of the last record of the previous page.
    let mut spilt: Vec<Vec<(i32, String)>> = vec![];
    while it.peek().is_some() || first || !spilt.is_empty() {
        let mut pg: Vec<Vec<serde_json::Value>> = vec![];
        let mut row = |level: i32, b: i32, p: i32, l: i32, w: i32, left: i32, top: i32, width: i32, height: i32, text: &str| {
            pg.push(vec![level.into(), b.into(), p.into(), l.into(), w.into(), left.into(), top.into(), width.into(), height.into(), (if level == 5 { 90 } else { -1 }).into(), text.into()]);
        };
        row(1, 0, 0, 0, 0, 0, 0, 2480, 3508, "");
        let mut block = 1;
        let mut top = 100;
        let mut banner = |lines: &[&[&str]], block: &mut i32, row: &mut dyn FnMut(i32, i32, i32, i32, i32, i32, i32, i32, i32, &str)| {
            row(2, *block, 0, 0, 0, 0, 0, 2000, 40, "");
            row(3, *block, 1, 0, 0, 0, 0, 2000, 40, "");
            for (l, words) in lines.iter().enumerate() {
                row(4, *block, 1, l as i32 + 1, 0, 0, 10, 2000, 40, "");
                for (i, w) in words.iter().enumerate() {
                    row(5, *block, 1, l as i32 + 1, i as i32 + 1, 100 + 200 * i as i32, 10, 150, 40, w);
                }
            }
            *block += 1;
        };
        const ACCOUNT: &[&str] = &["Account", "Number", "12-34-56", "12345678"];
        if first && number_at == 0 {
            banner(&[ACCOUNT], &mut block, &mut row);
        } else if first {
            // Not the number of this account.
            banner(&[&["Your", "statement"], &["Account", "Number", "see", "below"], &["Account", "Number"], &["Sort", "Code", "12-34-57", "87654321"]], &mut block, &mut row);
            if number_at == 1 {
                banner(&[&["Page", "1"], &["Account", "Number", "12-34-56", "12345678", "GBP"]], &mut block, &mut row);
            }
        }
        for _ in 0..if two_tables { 2 } else { 1 } {
            let chunk: &[Row] = it.next().unwrap_or(&[]);
            if chunk.is_empty() && spilt.is_empty() && block > 1 && !first {
                break;
            }
            row(2, block, 0, 0, 0, 0, 100, 2000, 3000, "");
            row(3, block, 1, 0, 0, 0, 100, 2000, 3000, "");
            let mut line = 0;
            let mut put = |words: &[(i32, String)], skip: i32, row: &mut dyn FnMut(i32, i32, i32, i32, i32, i32, i32, i32, i32, &str)| {
                line += 1;
                top += 50 + skip;
                row(4, block, 1, line, 0, 100, top, 2000, 40, "");
                for (i, (left, w)) in words.iter().enumerate() {
                    row(5, block, 1, line, i as i32 + 1, *left, top, 60, 40, w);
                }
            };
            for t in ["Your transactions", "Date", "in Pounds Sterling and other words", "Date Details Balance", "Statement no 12", "Page 1"].iter().take(preamble) {
                let w: Vec<(i32, String)> = t.split(' ').enumerate().map(|(i, w)| (100 + 300 * i as i32, w.to_string())).collect();
                put(&w, 0, &mut row);
            }
            put(&[(100, "Date".into()), (400, "Details".into()), (1200, "Payments".into()), (1500, "Receipts".into()), (1800, "Balance".into())], 0, &mut row);
            // Within the horizontal bounds of "Date": 100..160.
            let mut year = chunk.first().map_or(2020, |r| r.date.0);
            put(&[(110, year.to_string()), (400, "Balance".into()), (1800, "100.00".into())], 0, &mut row);
            let any = !chunk.is_empty();
            for w in std::mem::take(&mut spilt) {
                put(&w, 0, &mut row);
            }
            let mut prev: Option<(i32, u32, u32)> = None;
            for (k, r) in chunk.iter().enumerate() {
                if r.date.0 != year {
                    year = r.date.0;
                    put(&[(110, year.to_string())], 0, &mut row);
                }
                let mut words: Vec<(i32, String)> = vec![];
                if prev != Some(r.date) {
                    words.push((105, format!("{:02}", r.date.2)));
                    words.push((130, MONTHS[r.date.1 as usize - 1].to_string()));
                }
                prev = Some(r.date);
                for (i, w) in r.desc.split(' ').enumerate() {
                    words.push((400 + 70 * i as i32, w.to_string()));
                }
                words.push((if r.pence < 0 { 1210 } else { 1510 }, thousands(r.pence.abs())));
                if let Some(b) = pdf_balance(r) {
                    words.push((1805, if r.pence.rem_euclid(3) == 0 { plain(b) } else { thousands(b) }));
                }
                put(&words, 0, &mut row);
                let (more, effective) = pdf_below(r);
                let mut below: Vec<String> = more;
                if effective {
                    // Before or after the other lines.
                    let at = if r.pence.rem_euclid(4) == 0 { 0 } else { below.len() };
                    below.insert(at, "Effective Date 03 Jan 2020".into());
                }
                let spill = spills && k + 1 == chunk.len() && rng.chance(1, 2);
                for l in below {
                    let w: Vec<(i32, String)> = l.split(' ').enumerate().map(|(i, w)| (400 + 70 * i as i32, w.to_string())).collect();
                    if spill {
                        spilt.push(w);
                    } else {
                        put(&w, 0, &mut row);
                    }
                }
            }
            if footers && any {
                put(&[(400, "Interest".into()), (470, "earned".into()), (1510, "12.34".into())], 200, &mut row);
            }
            block += 1;
            first = false;
        }
        if number_at == 2 && it.peek().is_none() && spilt.is_empty() {
            banner(&[ACCOUNT], &mut block, &mut row);
        }
        pages.push(pg);
        if rng.chance(1, 12) {
            // A page without records.
            let mut pg: Vec<Vec<serde_json::Value>> = vec![];
            for (level, b, text) in [(1, 0, ""), (2, 1, ""), (3, 1, ""), (4, 1, ""), (5, 1, "Intentionally"), (5, 1, "blank")].iter().take(if rng.chance(1, 2) { 1 } else { 6 }) {
                let n = |from: i32| if *level >= from { 1 } else { 0 };
                let w = if *level == 5 { if text.len() > 6 { 1 } else { 2 } } else { 0 };
                pg.push(vec![(*level).into(), (*b).into(), n(3).into(), n(4).into(), w.into(), (100 * w).into(), 100.into(), 90.into(), 40.into(), (if *level == 5 { 90 } else { -1 }).into(), (*text).into()]);
            }
            pages.push(pg);
        }
    }
    format!("{}{}", crate::helpers::PDF_MAGIC, serde_json::to_string(&pages).unwrap())
}

// -------------------------------------------------------------------- rules

pub fn rules(rng: &mut Rng) -> (String, Vec<FileSpec>) {
    let mut extra = vec![];
    let mut s = String::from("[\n");
    if rng.chance(1, 2) {
        s += "  Include(\"inc.ron\"),\n";
        let mut inc = String::from("[\n  Chain(\"more\", [\n");
        for _ in 0..1 + rng.usize(3) {
            inc += &rule(rng, false);
        }
        inc += "  ]),\n]\n";
        extra.push(FileSpec::file("rules/inc.ron", inc));
    }
    let jump = !extra.is_empty();
    s += "  Chain(\"start\", [\n";
    for _ in 0..1 + rng.usize(5) {
        s += &rule(rng, jump);
    }
    s += "  ]),\n]\n";
    (s, extra)
}
fn rule(rng: &mut Rng, jump: bool) -> String {
    let m = |rng: &mut Rng| match rng.below(4) {
        0 => "Eq(\"assets:cash\")".to_string(),
        1 => "Contains(\"food\")".to_string(),
        2 => "AsLower(Contains(\"tesco\"))".into(),
        _ => "Matches(\"^(assets|Caf).*\")".into(),
    };
    let simple = |rng: &mut Rng| match rng.below(7) {
        0 => "True".to_string(),
        1 => format!("Account({})", m(rng)),
        2 => format!("TransactionDescription({})", m(rng)),
        3 => "PostingHasFlagTag(\"trip\")".into(),
        4 => "PostingHasValueTag(\"note\")".into(),
        5 => "PostingValueTag(\"bank\", Contains(\"two\"))".into(),
        _ => "Not(Account(Contains(\"assets\")))".into(),
    };
    let pred = match rng.below(4) {
        0 => format!("All([{}, {}])", simple(rng), simple(rng)),
        1 => format!("Any([{}, {}])", simple(rng), simple(rng)),
        _ => simple(rng),
    };
    let act = |rng: &mut Rng| match rng.below(10) {
        0 => "AddPostingFlagTag(\"ruled\")".to_string(),
        1 => "AddPostingValueTag(\"note\", \"by rule\")".into(),
        2 => "AddTransactionFlagTag(\"trn-ruled\")".into(),
        3 => "AddTransactionValueTag(\"why\", \"because\")".into(),
        4 => "SetAccount(\"expenses:ruled\")".into(),
        5 => "RemovePostingFlagTag(\"trip\")".into(),
        6 => "RemovePostingValueTag(\"bank\")".into(),
        7 => "ReplaceTransactionDescription((regex: \"[0-9]+\", replacement: \"#\"))".into(),
        8 if jump => "JumpChain(\"more\")".into(),
        _ => "Noop".into(),
    };
    let action = if rng.chance(1, 3) { format!("All([{}, {}])", act(rng), act(rng)) } else { act(rng) };
    let res = if rng.chance(1, 4) { "Return" } else { "Continue" };
    format!("    Rule(action: {action}, predicate: {pred}, result: {res}),\n")
}

// ---------------------------------------------------------------- workloads

pub const KINDS: &[&str] = &["fmt", "fpgen", "nwcsv", "paypal", "pdf", "rules", "merge"];

fn name(rng: &mut Rng, stem: &str) -> String {
    match rng.below(8) {
        0 => format!("books/{stem}.journal"),
        1 => format!("my {stem}.journal"),
        2 => format!("{stem}"),
        3 => format!("deep/er/{stem}é.ledger"),
        _ => format!("{stem}.journal"),
    }
}

pub fn size(rng: &mut Rng) -> usize {
    match rng.below(20) {
        0 => 0,
        1 | 2 => 60 + rng.usize(60),
        3 => 250,
        4 | 5 | 6 => 20,
        _ => 1 + rng.usize(6),
    }
}

pub fn decoys(rng: &mut Rng, files: &mut Vec<FileSpec>, path: &str) {
    // Names an implementation might be tempted to use for itself.
    let (dir, base) = match path.rfind('/') {
        Some(i) => (&path[..i + 1], &path[i + 1..]),
        None => ("", path),
    };
    let stem = base.split('.').next().unwrap_or(base);
    for n in [format!("{base}.tmp"), format!("{base}~"), format!("{base}.bak"), format!(".{base}.swp"), format!("{base}.new"), format!("{stem}.tmp"), format!(".{base}.tmp"), format!("{base}.old")] {
        if rng.chance(1, 3) {
            let p = format!("{dir}{n}");
            if files.iter().all(|f| f.path != p) {
                files.push(FileSpec::file(&p, format!("user file {n}\n")));
            }
        }
    }
}

fn preexisting(rng: &mut Rng, files: &mut Vec<FileSpec>, path: &str) {
    let body = match rng.below(4) {
        0 => return,
        1 => "2001-01-01 Old\n  assets:cash  GBP1.00\n    ; :fp-old-1:\n".to_string(),
        2 => "2001-01-01 Old\n  assets:cash  GBP1.00\n\n".repeat(400),
        _ => String::new(),
    };
    let mode = *rng.pick(&[0o644u32, 0o600, 0o664]);
    files.push(FileSpec { path: path.into(), node: Node::File { data: body.into(), mode } });
}

pub fn ensure_dir(files: &mut Vec<FileSpec>, path: &str) {
    if let Some(i) = path.rfind('/') {
        let d = &path[..i];
        if files.iter().all(|f| f.path != d) {
            files.push(FileSpec { path: d.into(), node: Node::Dir });
        }
    }
}

pub struct WOpts {
    /// Give every generated merge a chance of leaving transactions unmerged.
    pub stdio: bool,
    pub symlinks: bool,
    pub big: bool,
}

fn jopts(rng: &mut Rng, big: bool, fp: u32) -> JOpts {
    let trns = if big { size(rng) } else { 1 + rng.usize(6) };
    JOpts { dates: 3 + rng.usize(4), trns, fp, rich: true, unknown: 100, prefix: "g".into() }
}

pub fn work(rng: &mut Rng, kind: &str, o: &WOpts) -> Work {
    let mut files: Vec<FileSpec> = vec![];
    let mut outs: Vec<String> = vec![];
    let mut stdin: Option<Bytes> = None;
    let mut args: Vec<String> = vec![];
    let push = |args: &mut Vec<String>, v: &[&str]| args.extend(v.iter().map(|s| s.to_string()));
    match kind {
        "fmt" | "fpgen" => {
            args.push(if kind == "fmt" { "fmt" } else { "generate-fingerprints" }.into());
            let n = 1 + rng.usize(3);
            for i in 0..n {
                let fp = *rng.pick(&[0u32, 500, 1000]);
                let jo = jopts(rng, o.big && i == 0, fp);
                let j = journal(rng, &jo);
                let text = sloppy(rng, &j, kind == "fmt");
                if o.stdio && i == 0 && rng.chance(1, 4) {
                    stdin = Some(text.into());
                    args.push("-".into());
                    continue;
                }
                let p = name(rng, &format!("j{i}"));
                if o.symlinks && rng.chance(1, 6) {
                    let real = format!("real/r{i}.journal");
                    files.push(FileSpec::file(&real, text));
                    let up = "../".repeat(p.matches('/').count());
                    ensure_dir(&mut files, &p);
                    files.push(FileSpec { path: p.clone(), node: Node::Symlink(format!("{up}{real}")) });
                    outs.push(real.clone());
                    decoys(rng, &mut files, &real);
                } else {
                    files.push(FileSpec::file(&p, text));
                    decoys(rng, &mut files, &p);
                    outs.push(p.clone());
                }
                args.push(p);
            }
        }
        "nwcsv" | "paypal" | "pdf" => {
            args.push("import".into());
            let n = if o.big { size(rng) } else { 1 + rng.usize(8) };
            let n = if kind == "pdf" { n.clamp(1, 60) } else { n };
            let rs = rows(rng, n, 300);
            let mode = if o.stdio { rng.below(5) } else { 1 + rng.below(4) };
            let mut out = "-".to_string();
            let ns = *rng.pick(&["fixed:chk", "fixed:a/b", "generated", "lookup:ns.ron"]);
            let st = csv_style(rng);
            let account = if kind == "pdf" { "12-34-56 12345678".to_string() } else { st.account.clone() };
            let nsval = match (kind, ns) {
                ("paypal", _) => "paypal".to_string(),
                (_, "fixed:chk") => "chk".into(),
                (_, "fixed:a/b") => "a/b".into(),
                (_, "lookup:ns.ron") => "looked_up".into(),
                _ => String::new(),
            };
            if mode > 0 {
                out = name(rng, "out");
                let mut made = false;
                if mode == 2 && !nsval.is_empty() {
                    push(&mut args, &["--sub-output-path"]);
                    let pat = format!("gen/%FP_NS%/{}", out);
                    args.push("-o".into());
                    args.push(pat.clone());
                    out = pat.replace("%FP_NS%", &nsval);
                    made = rng.chance(3, 4);
                } else {
                    args.push("-o".into());
                    args.push(out.clone());
                    if mode == 3 {
                        made = true;
                    }
                }
                if made {
                    push(&mut args, &["--make-parent-dirs"]);
                    if rng.chance(1, 3) {
                        preexisting(rng, &mut files, &out);
                    }
                } else {
                    ensure_dir(&mut files, &out);
                    preexisting(rng, &mut files, &out);
                    decoys(rng, &mut files, &out);
                }
                outs.push(out.clone());
            }
            if ns.starts_with("lookup") && kind != "paypal" {
                files.push(FileSpec::file("ns.ron", format!("{{\"{account}\": \"looked_up\", \"other\": \"x\"}}")));
            }
            match kind {
                "nwcsv" => {
                    push(&mut args, &["nationwide-csv", "--fp-namespace", ns]);
                    if rng.chance(1, 3) {
                        push(&mut args, &["--include-legacy-fingerprint"]);
                    }
                    let data = nationwide(&rs, &st);
                    if o.stdio && rng.chance(1, 4) {
                        stdin = Some(Bytes(data));
                        args.push("-".into());
                    } else {
                        files.push(FileSpec { path: "statement.csv".into(), node: Node::File { data: Bytes(data), mode: 0o644 } });
                        args.push("statement.csv".into());
                    }
                }
                "paypal" => {
                    push(&mut args, &["paypal-csv", "--output-timezone", rng.pick(&["Europe/London", "America/New_York", "Asia/Tokyo"])]);
                    if rng.chance(1, 3) {
                        push(&mut args, &["--include-legacy-fingerprint"]);
                    }
                    let data = paypal(rng, &rs);
                    if o.stdio && rng.chance(1, 4) {
                        stdin = Some(data.into());
                        args.push("-".into());
                    } else {
                        files.push(FileSpec::file("download.csv", data));
                        args.push("download.csv".into());
                    }
                    files.push(FileSpec::file("tz.csv", TZFILE));
                    args.push("tz.csv".into());
                }
                _ => {
                    push(&mut args, &["nationwide-pdf", "--fp-namespace", ns]);
                    let per = 1 + rng.usize(6);
                    files.push(FileSpec::file("statement.pdf", pdf(rng, &rs, per)));
                    args.push("statement.pdf".into());
                }
            }
        }
        "rules" => {
            push(&mut args, &["apply-rules"]);
            let jo = jopts(rng, o.big, 700);
            let j = journal(rng, &jo);
            let text = sloppy(rng, &j, false);
            let (r, extra) = rules(rng);
            files.push(FileSpec::file("rules/main.ron", r));
            files.extend(extra);
            let input = name(rng, "in");
            let same = rng.chance(1, 4);
            let out = if same { input.clone() } else { name(rng, "out") };
            let stdio_out = o.stdio && rng.chance(1, 5);
            if !stdio_out {
                args.push("-o".into());
                args.push(out.clone());
                outs.push(out.clone());
            }
            if o.stdio && !same && rng.chance(1, 4) {
                stdin = Some(text.into());
                args.push("-".into());
            } else {
                files.push(FileSpec::file(&input, text));
                args.push(input.clone());
            }
            if !stdio_out {
                ensure_dir(&mut files, &out);
                if !same {
                    preexisting(rng, &mut files, &out);
                }
                decoys(rng, &mut files, &out);
            }
            push(&mut args, &["table", "rules/main.ron"]);
        }
        "merge" => {
            args.push("merge".into());
            let n = 1 + rng.usize(3);
            let big = o.big && rng.chance(1, 8);
            let per = if big { 60 } else { 5 };
            let js = merge_journals(rng, n, per, false);
            let mut names = vec![];
            for (i, j) in js.iter().enumerate() {
                let p = name(rng, &format!("m{i}"));
                let text = if rng.chance(1, 2) { ledger::render(j) } else { sloppy(rng, j, false) };
                if o.stdio && i == 0 && rng.chance(1, 6) {
                    stdin = Some(text.into());
                    names.push("-".to_string());
                } else {
                    files.push(FileSpec::file(&p, text));
                    names.push(p);
                }
            }
            let mut out = "-".to_string();
            if !(o.stdio && rng.chance(1, 4)) {
                out = if rng.chance(1, 3) && names[0] != "-" { names[0].clone() } else { name(rng, "merged") };
                args.push("-o".into());
                args.push(out.clone());
                if !names.contains(&out) {
                    ensure_dir(&mut files, &out);
                    preexisting(rng, &mut files, &out);
                }
                decoys(rng, &mut files, &out);
                outs.push(out.clone());
            }
            if rng.chance(5, 6) {
                let un = if rng.chance(1, 5) && names.last().map_or(false, |l| l != "-" && *l != out) { names.last().unwrap().clone() } else { name(rng, "unmerged") };
                args.push("-u".into());
                args.push(un.clone());
                if !names.contains(&un) {
                    ensure_dir(&mut files, &un);
                    preexisting(rng, &mut files, &un);
                }
                decoys(rng, &mut files, &un);
                outs.push(un);
            }
            args.extend(names);
        }
        _ => unreachable!(),
    }
    if o.big && rng.chance(1, 5) {
        let (k, n) = (rng.usize(files.len().max(1)), 1200 + rng.usize(3000));
        bulk(&mut files, k, n);
    }
    if o.symlinks {
        other_names(rng, &mut files, &mut outs);
    }
    // Some unrelated files of the user's.
    files.push(FileSpec::file("notes.txt", "unrelated\n"));
    if rng.chance(1, 3) {
        files.push(FileSpec::file("tmp/other-program.dat", "someone else's\n"));
    }
    // Standard input and output by their names as files.
    let mut pipe = false;
    if o.stdio && rng.chance(1, 2) {
        if matches!(kind, "nwcsv" | "paypal" | "pdf" | "rules" | "merge") && !args.iter().any(|a| a == "-o") {
            for (k, a) in ["-o", "/dev/stdout"].iter().enumerate() {
                args.insert(1 + k, a.to_string());
            }
            pipe = true;
        }
        if matches!(kind, "nwcsv" | "paypal" | "rules") && stdin.is_some() && rng.chance(1, 2) {
            if let Some(i) = args.iter().rposition(|a| a == "-") {
                args[i] = "/dev/stdin".into();
                pipe = true;
            }
        }
    }
    let mut cmd = Cmd::new(&args);
    cmd.stdin = stdin;
    cmd.pipe = pipe;
    cmd.entropy = rng.next() >> 16;
    cmd.dirseed = rng.below(1000);
    cmd.layout = rng.below(64);
    Work { kind: kind.into(), files, cmd, outs }
}

/// Gives a transaction of a journal a comment of `lines` lines, beyond what
/// any buffer holds.
fn bulk(files: &mut [FileSpec], from: usize, lines: usize) {
    let n = files.len();
    for k in 0..n {
        let f = &mut files[(from + k) % n];
        let Node::File { data, .. } = &mut f.node else { continue };
        if !data.0.starts_with(b"20") || f.path.ends_with(".csv") {
            continue;
        }
        let Some(at) = data.0.iter().position(|b| *b == b'\n') else { continue };
        let text: String = (0..lines).map(|i| format!("    ; {} in the comment that never ends {i}\n", ["Aline", "Bline", "line"][i % 3])).collect();
        data.0.splice(at + 1..at + 1, text.into_bytes());
        return;
    }
}

/// Files with another name: behind a symbolic link, or with a hard link.
fn other_names(rng: &mut Rng, files: &mut Vec<FileSpec>, outs: &mut Vec<String>) {
    let mut more = vec![];
    for (k, f) in files.iter_mut().enumerate() {
        let is_out = outs.contains(&f.path);
        if !matches!(f.node, Node::File { .. }) || f.path.starts_with("rules/") || f.path.starts_with("real/") || !rng.chance(if is_out { 1 } else { 0 }, 7) {
            continue;
        }
        let up = "../".repeat(f.path.matches('/').count());
        if rng.chance(1, 2) {
            // The name becomes a link, perhaps to a file that is yet to be.
            let real = format!("real/t{k}.journal");
            if f.path.contains("..") {
                continue;
            }
            more.push(FileSpec { path: real.clone(), node: std::mem::replace(&mut f.node, Node::Symlink(format!("{up}{real}"))) });
            for o in outs.iter_mut().filter(|o| **o == f.path) {
                *o = real.clone();
            }
        } else if let Node::File { data, .. } = &f.node {
            let alias = format!("links/n{k}");
            more.push(FileSpec { path: alias.clone(), node: Node::Hard(f.path.clone(), data.clone()) });
            outs.push(alias);
        }
    }
    files.extend(more);
}

/// A random disturbance. `what` selects the families.
#[derive(Clone, Copy, PartialEq)]
pub enum Fam {
    Kill,
    Power,
    Fail,
    Mixed,
    Oom,
}
pub fn plan(rng: &mut Rng, fam: Fam) -> Plan {
    let mut p = RandomPlan { seed: rng.next() >> 16, ..Default::default() };
    let at = |rng: &mut Rng| (rng.next() >> 32) as u32;
    match fam {
        Fam::Kill | Fam::Power => {
            // Most of a run is start-up; favour the end.
            let a = at(rng);
            let b = at(rng);
            p.die_at = Some(if rng.chance(2, 3) { a.max(b) } else { a });
            p.power = fam == Fam::Power;
            if rng.chance(1, 3) {
                p.short = 500;
                p.max_short = 1 + rng.below(200);
                p.eintr = 100;
            }
        }
        Fam::Fail => match rng.below(6) {
            0 => {
                p.disk = Some(if rng.chance(1, 3) { 0 } else { rng.below(3000) });
            }
            1 => {
                p.lost = 1000;
            }
            2 => {
                p.classes = vec![*rng.pick(&[Class::Write, Class::StdoutWrite, Class::Close, Class::Sync, Class::Rename, Class::OpenWrite, Class::Unlink, Class::Truncate, Class::Meta])];
                p.fail_at = Some(0);
                p.sticky = rng.chance(1, 2);
            }
            _ => {
                let a = at(rng);
                let b = at(rng);
                p.fail_at = Some(a.max(b));
                p.sticky = rng.chance(1, 3);
                if rng.chance(1, 3) {
                    p.short = 300;
                    p.max_short = 1 + rng.below(500);
                    p.eintr = 50;
                }
            }
        },
        Fam::Mixed => {
            p.short = 200;
            p.max_short = 1 + rng.below(300);
            p.eintr = 50;
            p.err = 30 + rng.below(100) as u32;
        }
        Fam::Oom => {
            p.oom = 5 + rng.below(30) as u32;
        }
    }
    Plan::Random(p)
}
pub fn any_plan(rng: &mut Rng) -> Plan {
    let f = match rng.below(20) {
        0..=6 => Fam::Kill,
        7..=11 => Fam::Power,
        12..=17 => Fam::Fail,
        18 => Fam::Mixed,
        _ => Fam::Oom,
    };
    plan(rng, f)
}

/// Sometimes gives the fingerprints another form: ones that begin or end
/// alike for long, that differ in case only, or begin one another.
pub fn restyle_fps(rng: &mut Rng, js: &mut [Vec<Trn>]) {
    let style = rng.below(12);
    if style > 4 {
        return;
    }
    let stem: String = (0..3 + rng.usize(6)).map(|_| *rng.pick(&["nwcsv6.", "1.", "c4f1d8e0-", "Savings+Joint/", "2020-", "0000", "abcdefghij", "é"])).collect();
    let mut seen: std::collections::BTreeMap<String, String> = Default::default();
    for t in js.iter_mut().flatten() {
        for p in t.posts.iter_mut() {
            for f in p.comment.fps() {
                let n = seen.len();
                let new = seen
                    .entry(f.clone())
                    .or_insert_with(|| match style {
                        0 | 1 => format!("fp-{stem}{}", &f[3..]),
                        2 => format!("{f}{stem}"),
                        3 => {
                            let s: String = "fingerprintofa".chars().enumerate().map(|(i, c)| if n >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                            format!("fp-{s}{}", n >> 14)
                        }
                        _ => format!("fp-p{}-{}", n / 12, "x".repeat(n % 12 + 1)),
                    })
                    .clone();
                p.comment.tags.remove(&f);
                p.comment.tags.insert(new);
            }
        }
    }
}
