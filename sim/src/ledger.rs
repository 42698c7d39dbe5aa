//! An independent reader and writer for the journals the checks deal with.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Comment {
    pub tags: BTreeSet<String>,
    pub kv: BTreeMap<String, String>,
    pub lines: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Post {
    pub status: Option<char>,
    pub account: String,
    pub amount: Option<String>,
    pub balance: Option<String>,
    pub comment: Comment,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Trn {
    pub date: String,
    pub eff: Option<String>,
    pub status: Option<char>,
    pub code: Option<String>,
    pub desc: String,
    pub comment: Comment,
    pub posts: Vec<Post>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Trn(Trn),
    Other(String),
}

pub const UNKNOWN: &str = "unknown-account";

impl Comment {
    pub fn add_line(&mut self, line: &str) {
        if let Some((k, v)) = value_tag(line) {
            self.kv.insert(k, v);
            return;
        }
        let c: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut text_from = 0;
        let push = |me: &mut Self, s: usize, e: usize| {
            let t: String = c[s..e].iter().collect();
            if !t.trim().is_empty() {
                me.lines.push(t.trim().to_string());
            }
        };
        while i < c.len() {
            if c[i] == ':' {
                // :a:b:c:
                let mut tags = vec![];
                let mut j = i + 1;
                let mut end = None;
                let mut word = String::new();
                while j < c.len() && c[j] != ' ' {
                    if c[j] == ':' {
                        if word.is_empty() {
                            break;
                        }
                        tags.push(std::mem::take(&mut word));
                        end = Some(j + 1);
                    } else {
                        word.push(c[j]);
                    }
                    j += 1;
                }
                if let Some(e) = end {
                    push(self, text_from, i);
                    self.tags.extend(tags);
                    i = e;
                    text_from = e;
                    continue;
                }
            }
            i += 1;
        }
        push(self, text_from, c.len());
    }
    pub fn fps(&self) -> Vec<String> {
        self.tags.iter().filter(|t| t.starts_with("fp-")).cloned().collect()
    }
    pub fn candidates(&self) -> Vec<String> {
        self.tags.iter().filter_map(|t| t.strip_prefix("candidate-")).map(|s| s.to_string()).collect()
    }
    pub fn has(&self, t: &str) -> bool {
        self.tags.contains(t)
    }
    pub fn is_empty(&self) -> bool {
        self.tags.is_empty() && self.kv.is_empty() && self.lines.is_empty()
    }
    /// The canonical lines.
    pub fn format(&self) -> Vec<String> {
        let (short, long): (Vec<&String>, Vec<&String>) = self.tags.iter().partition(|t| t.len() <= 12);
        let mut out = vec![];
        if !short.is_empty() {
            out.push(format!(":{}:", short.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(":")));
        }
        out.extend(long.iter().map(|t| format!(":{t}:")));
        for (i, l) in self.lines.iter().enumerate() {
            if i == 0 && !out.is_empty() {
                out[0].push(' ');
                out[0].push_str(l);
            } else {
                out.push(l.clone());
            }
        }
        for (k, v) in &self.kv {
            out.push(format!("{k}: {v}"));
        }
        out
    }
}

pub fn value_tag(line: &str) -> Option<(String, String)> {
    let l = line.trim_start_matches(' ');
    let p = l.find(':')?;
    let k = &l[..p];
    if k.is_empty() || k.contains(' ') {
        return None;
    }
    let rest = &l[p + 1..];
    if rest.is_empty() {
        return Some((k.to_string(), String::new()));
    }
    let v = rest.trim_start_matches(' ');
    if v.len() == rest.len() {
        return None;
    }
    if v.is_empty() {
        return None;
    }
    Some((k.to_string(), v.trim().to_string()))
}

impl Trn {
    pub fn fps(&self) -> Vec<String> {
        self.posts.iter().flat_map(|p| p.comment.fps()).collect()
    }
    pub fn render(&self) -> String {
        let mut s = self.date.clone();
        if let Some(e) = &self.eff {
            s.push_str(&format!("={e}"));
        }
        if let Some(c) = self.status {
            s.push_str(&format!(" {c}"));
        }
        if let Some(c) = &self.code {
            s.push_str(&format!(" ({c})"));
        }
        if !self.desc.is_empty() {
            s.push_str(&format!(" {}", self.desc));
        }
        for l in self.comment.format() {
            s.push_str(&format!("\n  ; {l}"));
        }
        for p in &self.posts {
            s.push_str("\n  ");
            if let Some(c) = p.status {
                s.push_str(&format!("{c} "));
            }
            s.push_str(&p.account);
            if p.amount.is_some() || p.balance.is_some() {
                s.push_str("  ");
            }
            if let Some(a) = &p.amount {
                s.push_str(a);
            }
            if let Some(b) = &p.balance {
                s.push_str(&format!(" = {b}"));
            }
            for l in p.comment.format() {
                s.push_str(&format!("\n  ; {l}"));
            }
        }
        s.push('\n');
        s
    }
}

pub fn render(trns: &[Trn]) -> String {
    trns.iter().map(|t| t.render()).collect::<Vec<_>>().join("\n")
}

/// Reads a journal; None if it is not one this reader understands completely.
pub fn parse_items(text: &str) -> Option<Vec<Item>> {
    let mut items: Vec<Item> = vec![];
    let mut in_trn = false;
    for line in text.split('\n') {
        if line.trim().is_empty() {
            in_trn = false;
            continue;
        }
        if line.starts_with(' ') || line.starts_with('\t') {
            if !in_trn {
                return None;
            }
            let Some(Item::Trn(t)) = items.last_mut() else { return None };
            let l = line.trim();
            if let Some(c) = l.strip_prefix(';') {
                let c = c.strip_prefix(' ').unwrap_or(c);
                match t.posts.last_mut() {
                    Some(p) => p.comment.add_line(c),
                    None => t.comment.add_line(c),
                }
                continue;
            }
            t.posts.push(posting(l)?);
            continue;
        }
        if line.as_bytes()[0].is_ascii_digit() {
            items.push(Item::Trn(header(line)?));
            in_trn = true;
        } else {
            items.push(Item::Other(line.trim_end().to_string()));
            in_trn = false;
        }
    }
    Some(items)
}

pub fn parse(text: &str) -> Option<Vec<Trn>> {
    parse_items(text)?
        .into_iter()
        .map(|i| match i {
            Item::Trn(t) => Some(t),
            Item::Other(_) => None,
        })
        .collect()
}

pub fn parse_bytes(b: &[u8]) -> Option<Vec<Trn>> {
    parse(std::str::from_utf8(b).ok()?)
}

fn is_date(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 10 && b.iter().enumerate().all(|(i, c)| if i == 4 || i == 7 { *c == b'-' || *c == b'/' } else { c.is_ascii_digit() })
}

fn header(line: &str) -> Option<Trn> {
    let mut t = Trn::default();
    let line = line.trim_end();
    let (body, comment) = match line.find("  ;") {
        Some(p) => (line[..p].trim_end(), Some(line[p + 3..].trim())),
        None => (line, None),
    };
    if let Some(c) = comment {
        t.comment.add_line(c);
    }
    let (d, rest) = body.split_once(' ').unwrap_or((body, ""));
    let (d, e) = match d.split_once('=') {
        Some((d, e)) => (d, Some(e)),
        None => (d, None),
    };
    if !is_date(d) || e.map_or(false, |e| !is_date(e)) {
        return None;
    }
    t.date = d.replace('/', "-");
    t.eff = e.map(|e| e.replace('/', "-"));
    let mut rest = rest.trim();
    for c in ['*', '!'] {
        if t.status.is_none() {
            if let Some(r) = rest.strip_prefix(c) {
                if r.is_empty() || r.starts_with(' ') {
                    t.status = Some(c);
                    rest = r.trim_start();
                }
            }
        }
    }
    if rest.starts_with('(') {
        if let Some(p) = rest.find(')') {
            t.code = Some(rest[1..p].to_string());
            rest = rest[p + 1..].trim_start();
        }
    }
    t.desc = rest.to_string();
    Some(t)
}

fn posting(l: &str) -> Option<Post> {
    let mut p = Post::default();
    let mut l = l;
    let comment;
    if let Some(i) = l.find(" ;") {
        comment = Some(l[i + 2..].trim().to_string());
        l = l[..i].trim_end();
    } else {
        comment = None;
    }
    if let Some(c) = comment {
        p.comment.add_line(&c);
    }
    for c in ['*', '!'] {
        if p.status.is_none() {
            if let Some(r) = l.strip_prefix(c) {
                p.status = Some(c);
                l = r.trim_start();
            }
        }
    }
    match l.find("  ") {
        None => p.account = l.to_string(),
        Some(i) => {
            p.account = l[..i].to_string();
            let rest = l[i..].trim();
            match rest.split_once('=') {
                Some((a, b)) => {
                    let a = a.trim();
                    if !a.is_empty() {
                        p.amount = Some(a.to_string());
                    }
                    p.balance = Some(b.trim().to_string());
                }
                None => {
                    if !rest.is_empty() {
                        p.amount = Some(rest.to_string());
                    }
                }
            }
        }
    }
    if p.account.is_empty() {
        return None;
    }
    Some(p)
}

/// Replaces generated fingerprints which are not in `old` by a placeholder.
pub fn mask_new_fps(data: &[u8], old: &[u8]) -> Vec<u8> {
    let text = String::from_utf8_lossy(data).into_owned();
    let old = String::from_utf8_lossy(old).into_owned();
    const P: &str = ":fp-uuidb64-";
    let mut out = String::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find(P) {
        out.push_str(&rest[..i]);
        let tail = &rest[i + 1..];
        let end = tail.find(|c: char| c == ':' || c.is_whitespace()).unwrap_or(tail.len());
        let tag = &tail[..end];
        out.push(':');
        if old.contains(&format!(":{tag}:")) {
            out.push_str(tag);
        } else {
            out.push_str("fp-uuidb64-*");
        }
        rest = &tail[end..];
    }
    out.push_str(rest);
    out.into_bytes()
}
