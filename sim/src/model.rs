//! What a merge does, from the README's description of the matching algorithm.
use crate::ledger::{Comment, Post, Trn, UNKNOWN};
use std::collections::{BTreeMap, BTreeSet};

pub struct Merged {
    pub merged: Vec<Trn>,
    pub unmerged: Vec<Trn>,
}

struct DPost {
    p: Post,
    trn: usize,
}
#[derive(Default)]
pub struct State {
    posts: Vec<DPost>,
    trns: Vec<(Trn, Vec<usize>)>,
    by_fp: BTreeMap<String, usize>,
}

enum Act {
    New,
    Into(usize),
}

/// (commodity, before the number, number without trailing zeros)
pub fn canon(a: &str) -> (String, bool, String) {
    let num = |c: char| c.is_ascii_digit() || c == '.' || c == '-';
    let s = a.find(num).unwrap_or(a.len());
    let e = a.rfind(num).map_or(s, |e| e + 1);
    let left = s > 0;
    let com = if left { a[..s].trim() } else { a[e..].trim() };
    let mut n = a[s..e].to_string();
    if n.contains('.') {
        n = n.trim_end_matches('0').trim_end_matches('.').to_string();
    }
    if n.trim_start_matches('-').chars().all(|c| c == '0') {
        n = "0".into();
    }
    (com.to_string(), left, n)
}
/// An amount and the prices that go with it, each with what introduces it.
fn priced(a: &str) -> Vec<(&str, (String, bool, String))> {
    let mut out = vec![];
    let mut rest = a;
    let mut mark = "";
    loop {
        let e = rest.find(['{', '@']).unwrap_or(rest.len());
        out.push((mark, canon(rest[..e].trim_end().trim_end_matches('}').trim())));
        rest = &rest[e..];
        mark = match ["{{", "{", "@@", "@"].into_iter().find(|m| rest.starts_with(m)) {
            Some(m) => m,
            None => return out,
        };
        rest = &rest[mark.len()..];
    }
}

fn same(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => priced(a) == priced(b),
        (None, None) => true,
        _ => false,
    }
}

/// The account of a posting, which may be virtual: opening bracket, name, closing bracket.
pub fn parts(a: &str) -> (&str, &str, &str) {
    match (a.chars().next(), a.chars().last()) {
        (Some('('), Some(')')) | (Some('['), Some(']')) => (&a[..1], &a[1..a.len() - 1], &a[a.len() - 1..]),
        _ => ("", a, ""),
    }
}

/// Could the two be the same posting, going by their values?
pub fn soft(a: &Post, b: &Post) -> bool {
    let known = |p: &Post| !p.comment.has(UNKNOWN);
    if known(a) && known(b) && parts(&a.account).1 != parts(&b.account).1 {
        return false;
    }
    if a.balance.is_some() && b.balance.is_some() && !same(&a.balance, &b.balance) {
        return false;
    }
    same(&a.amount, &b.amount)
}

fn update(d: &mut Post, s: &Post) {
    if d.status.is_none() || (d.status == Some('!') && s.status == Some('*')) {
        d.status = s.status;
    }
    if d.balance.is_none() {
        d.balance = s.balance.clone();
    }
    if d.comment.has(UNKNOWN) && !s.comment.has(UNKNOWN) {
        d.comment.tags.remove(UNKNOWN);
        let (l, _, r) = parts(&d.account);
        d.account = format!("{l}{}{r}", parts(&s.account).1);
    }
    for l in &s.comment.lines {
        if !d.comment.lines.contains(l) {
            d.comment.lines.push(l.clone());
        }
    }
    d.comment.tags.extend(s.comment.tags.iter().filter(|t| *t != UNKNOWN).cloned());
    d.comment.kv.extend(s.comment.kv.clone());
}

impl State {
    fn matches(&self, date: &str, p: &Post) -> Result<Vec<usize>, String> {
        let f: BTreeSet<usize> = p.comment.fps().iter().filter_map(|f| self.by_fp.get(f).copied()).collect();
        match f.len() {
            0 => {}
            1 => return Ok(f.into_iter().collect()),
            _ => return Err("fingerprints of several postings".into()),
        }
        Ok((0..self.posts.len()).filter(|i| self.trns[self.posts[*i].trn].0.date == date && soft(&self.posts[*i].p, p)).collect())
    }

    /// Merges one source; returns the transactions left unmerged.
    pub fn merge(&mut self, src: &[Trn]) -> Result<Vec<Trn>, String> {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<(Trn, Vec<Act>, Option<usize>)> = vec![];
        let mut unmerged = vec![];
        for t in src {
            let mut t = t.clone();
            if t.posts.is_empty() {
                unmerged.push(t);
                continue;
            }
            let mut acts = vec![];
            let mut left = false;
            for p in t.posts.iter_mut() {
                if !p.comment.candidates().is_empty() {
                    return Err("candidate tag".into());
                }
                if p.comment.fps().is_empty() {
                    return Err("no fingerprint".into());
                }
                for f in p.comment.fps() {
                    if !seen.insert(f) {
                        return Err("fingerprint twice in one source".into());
                    }
                }
                let by_fp = p.comment.fps().iter().any(|f| self.by_fp.contains_key(f));
                let m = self.matches(&t.date, p)?;
                match m.len() {
                    0 => acts.push(Act::New),
                    1 => acts.push(Act::Into(m[0])),
                    _ => {
                        assert!(!by_fp);
                        for i in m {
                            let c = self.posts[i].p.comment.fps().into_iter().min().unwrap();
                            p.comment.tags.insert(format!("candidate-{c}"));
                        }
                        left = true;
                    }
                }
            }
            if left {
                unmerged.push(t);
                continue;
            }
            let d: BTreeSet<usize> = acts.iter().filter_map(|a| if let Act::Into(i) = a { Some(self.posts[*i].trn) } else { None }).collect();
            if d.len() > 1 {
                return Err("several existing transactions".into());
            }
            todo.push((t, acts, d.into_iter().next()));
        }
        let mut dest: BTreeSet<usize> = BTreeSet::new();
        for (_, acts, _) in &todo {
            for a in acts {
                if let Act::Into(i) = a {
                    if !dest.insert(*i) {
                        return Err("several postings for the same posting".into());
                    }
                }
            }
        }
        for (mut t, acts, d) in todo {
            let posts = std::mem::take(&mut t.posts);
            let d = d.unwrap_or_else(|| {
                self.trns.push((t, vec![]));
                self.trns.len() - 1
            });
            for (p, a) in posts.into_iter().zip(acts) {
                let i = match a {
                    Act::Into(i) => {
                        update(&mut self.posts[i].p, &p);
                        i
                    }
                    Act::New => {
                        self.posts.push(DPost { p: p.clone(), trn: d });
                        let i = self.posts.len() - 1;
                        self.trns[d].1.push(i);
                        i
                    }
                };
                for f in p.comment.fps() {
                    if *self.by_fp.entry(f).or_insert(i) != i {
                        return Err("fingerprint of another posting".into());
                    }
                }
            }
        }
        Ok(unmerged)
    }

    pub fn build(self) -> Vec<Trn> {
        let State { posts, trns, .. } = self;
        let mut v: Vec<Trn> = trns
            .into_iter()
            .map(|(mut t, ps)| {
                t.posts = ps.iter().map(|i| posts[*i].p.clone()).collect();
                t.comment.kv.remove("source-file");
                t
            })
            .collect();
        v.sort_by(|a, b| a.date.cmp(&b.date));
        v
    }
}

/// The sources of one file, in order.
pub fn sources(name: &str, trns: &[Trn]) -> Vec<Vec<Trn>> {
    let default = if name == "-" { "<stdio>".to_string() } else { format!("{name:?}") };
    let mut m: BTreeMap<String, Vec<Trn>> = BTreeMap::new();
    for t in trns {
        let mut t = t.clone();
        let s = t.comment.kv.entry("source-file".into()).or_insert_with(|| default.clone()).clone();
        m.entry(s).or_default().push(t);
    }
    m.into_values().collect()
}

pub fn merge(inputs: &[(String, Vec<Trn>)]) -> Result<Merged, String> {
    let mut s = State::default();
    let mut unmerged = vec![];
    for (n, t) in inputs {
        for set in sources(n, t) {
            unmerged.extend(s.merge(&set)?);
        }
    }
    Ok(Merged { merged: s.build(), unmerged })
}

pub fn comment_is_subset(a: &Comment, b: &Comment) -> bool {
    a.tags.iter().all(|t| b.tags.contains(t) || t == UNKNOWN) && a.kv.keys().all(|k| b.kv.contains_key(k)) && a.lines.iter().all(|l| b.lines.contains(l))
}
