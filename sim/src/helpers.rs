//! The simulated helper programs: Graphics Magick and Tesseract.
//!
//! A "PDF" is JSON: a list of pages, each a list of Tesseract rows without the
//! page number. `gm convert` writes one "PNG" per page which carries the page;
//! `tesseract` reads the listed images and writes the TSV.
use crate::rng::mix;
use crate::types::{dec, enc, HelperPlan};
use std::fs;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Gm,
    Tesseract,
}

pub const PDF_MAGIC: &str = "%PDF-sim\n";
pub const PNG_MAGIC: &str = "%PNG-sim\n";
pub const TSV_HEAD: &str = "level\tpage_num\tblock_num\tpar_num\tline_num\tword_num\tleft\ttop\twidth\theight\tconf\ttext\n";

enum Step {
    /// Create (truncate) the file and write data.
    Write(PathBuf, Vec<u8>),
    Append(PathBuf, Vec<u8>),
}

pub struct Helper {
    steps: Vec<Step>,
    at: usize,
    limit: usize,
    plan: HelperPlan,
    natural_exit: i32,
    finished: bool,
    calls: u64,
}

impl Helper {
    pub fn new(role: Role, argv: Vec<String>, plan: HelperPlan, root: &Path) -> Helper {
        let mut h = Helper { steps: vec![], at: 0, limit: 0, plan, natural_exit: 0, finished: false, calls: 0 };
        let r = match role {
            Role::Gm => gm(&argv, root),
            Role::Tesseract => Err(0),
        };
        match role {
            Role::Gm => match r {
                Ok(s) => h.steps = s,
                Err(e) => h.natural_exit = e,
            },
            Role::Tesseract => match tess(&argv, root) {
                Ok(s) => h.steps = s,
                Err(e) => h.natural_exit = e,
            },
        }
        h.limit = h.plan.stop_after.map_or(h.steps.len(), |n| (n as usize).min(h.steps.len()));
        h
    }
    fn step(&mut self) {
        match &self.steps[self.at] {
            Step::Write(p, d) => {
                let _ = fs::write(p, d);
            }
            Step::Append(p, d) => {
                use std::io::Write;
                if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(p) {
                    let _ = f.write_all(d);
                }
            }
        }
        self.at += 1;
    }
    /// The helper runs concurrently: it may do something at any call of the
    /// command, or only when it is waited for.
    pub fn maybe_progress(&mut self, root: &Path, seed: u64) {
        self.calls += 1;
        if !self.finished && mix(seed ^ mix(self.calls)) % 8 == 0 {
            if self.at < self.limit {
                self.step();
            } else {
                self.finish(root);
            }
        }
    }
    pub fn finish(&mut self, _root: &Path) {
        if self.finished {
            return;
        }
        while self.at < self.limit {
            self.step();
        }
        if self.plan.torn && self.at < self.steps.len() {
            let torn = match &self.steps[self.at] {
                Step::Write(p, d) => Step::Write(p.clone(), d[..d.len() / 2].to_vec()),
                Step::Append(p, d) => Step::Append(p.clone(), d[..d.len() / 2].to_vec()),
            };
            self.steps[self.at] = torn;
            self.step();
        }
        self.finished = true;
    }
    pub fn done(&self) -> bool {
        self.finished || (self.at >= self.limit && !self.plan.torn)
    }
    pub fn kill(&mut self) {
        self.finished = true;
        self.plan.signal = Some(9);
    }
    /// Wait status.
    pub fn status(&self) -> i32 {
        if let Some(s) = self.plan.signal {
            return s;
        }
        let code = if self.plan.exit != 0 { self.plan.exit } else { self.natural_exit };
        code << 8
    }
}

fn at(root: &Path, p: &str) -> PathBuf {
    if p.starts_with('/') {
        PathBuf::from(dec(p))
    } else {
        root.join(dec(p))
    }
}

fn contained(root: &Path, p: &Path) -> bool {
    p.parent().and_then(|d| fs::canonicalize(d).ok()).map_or(false, |d| d.starts_with(root))
}

fn gm(argv: &[String], root: &Path) -> Result<Vec<Step>, i32> {
    if argv.get(1).map(|s| s.as_str()) != Some("convert") {
        return Err(1);
    }
    let mut pos = vec![];
    let mut i = 2;
    while i < argv.len() {
        let a = &argv[i];
        if a == "-density" || a == "-quality" || a == "-resize" || a == "-depth" || a == "-colorspace" {
            i += 2;
            continue;
        }
        if a.starts_with('-') || a.starts_with('+') {
            i += 1;
            continue;
        }
        pos.push(a.clone());
        i += 1;
    }
    if pos.len() != 2 {
        return Err(1);
    }
    let data = fs::read_to_string(at(root, &pos[0])).map_err(|_| 1)?;
    let body = data.strip_prefix(PDF_MAGIC).ok_or(1)?;
    let pages: Vec<serde_json::Value> = serde_json::from_str(body).map_err(|_| 1)?;
    let mut steps = vec![];
    for (n, page) in pages.iter().enumerate() {
        let out = at(root, &printf(&pos[1], n, pages.len()));
        if !contained(root, &out) {
            return Err(1);
        }
        steps.push(Step::Write(out, format!("{PNG_MAGIC}{page}").into_bytes()));
    }
    Ok(steps)
}

fn printf(pat: &str, n: usize, _total: usize) -> String {
    // %d, %02d, %5d ... once.
    let b = pat.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'%' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j < b.len() && b[j] == b'd' {
                let spec = &pat[i + 1..j];
                let width: usize = spec.parse().unwrap_or(0);
                let num = if spec.starts_with('0') { format!("{n:0width$}") } else { format!("{n:width$}") };
                return format!("{}{}{}", &pat[..i], num, &pat[j + 1..]);
            }
        }
    }
    // Without a format every page goes to the same name with a suffix.
    format!("{pat}.{n}")
}

fn tess(argv: &[String], root: &Path) -> Result<Vec<Step>, i32> {
    let mut pos = vec![];
    let mut i = 1;
    while i < argv.len() {
        let a = &argv[i];
        if matches!(a.as_str(), "-l" | "--dpi" | "--psm" | "--oem" | "-c") {
            i += 2;
            continue;
        }
        if a.starts_with('-') && a.len() > 1 {
            i += 1;
            continue;
        }
        pos.push(a.clone());
        i += 1;
    }
    if pos.len() < 3 || !pos[2..].iter().any(|c| c == "tsv") {
        return Err(1);
    }
    let input = enc(&fs::read(at(root, &pos[0])).map_err(|_| 1)?);
    let images: Vec<String> = if input.starts_with(PNG_MAGIC) { vec![pos[0].clone()] } else { input.lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect() };
    let out = at(root, &format!("{}.tsv", pos[1]));
    if !contained(root, &out) {
        return Err(1);
    }
    let mut steps = vec![Step::Write(out.clone(), TSV_HEAD.as_bytes().to_vec())];
    for (n, img) in images.iter().enumerate() {
        let data = fs::read_to_string(at(root, img)).map_err(|_| 1)?;
        let body = data.strip_prefix(PNG_MAGIC).ok_or(1)?;
        let rows: Vec<Vec<serde_json::Value>> = serde_json::from_str(body).map_err(|_| 1)?;
        let mut s = String::new();
        for r in rows {
            // level block par line word left top width height conf text
            let cell = |i: usize| match r.get(i) {
                Some(serde_json::Value::String(s)) => s.clone(),
                Some(v) => v.to_string(),
                None => String::new(),
            };
            s.push_str(&format!(
                "{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
                cell(0), n + 1, cell(1), cell(2), cell(3), cell(4), cell(5), cell(6), cell(7), cell(8), cell(9), cell(10)
            ));
        }
        steps.push(Step::Append(out.clone(), s.into_bytes()));
    }
    Ok(steps)
}
