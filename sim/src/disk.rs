//! Volatile and durable state of the simulated disk.
//!
//! The volatile state is a real scratch directory. After every mutating call
//! it is compared with its last known state; the differences feed a durability
//! model in the style of a journalling file system without special cases:
//! directory operations become durable in order, on each volume (any directory
//! may be one) independently of the others; file data becomes durable at
//! fsync (which also commits the directory operations before it); unsynced
//! data may be present, absent, of zero length, zero-filled or torn.
use crate::rng::{Hash, Rng};
use crate::types::{dec, enc_os, Bytes, FileSpec, Node};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ent {
    File { ino: u64, mode: u32 },
    Dir { ino: u64 },
    Symlink(String),
    Special,
}
pub type Ns = BTreeMap<String, Ent>;

#[derive(Clone, Debug)]
struct InodeHist {
    /// (namespace epoch at which this content was first seen, content)
    versions: Vec<Vec<u8>>,
    /// Index into versions of the last synced content; None: never synced.
    synced: Option<usize>,
}

pub struct Disk {
    pub root: PathBuf,
    ns: Vec<Ns>,
    /// What fsync has made durable if all is on one volume.
    committed: usize,
    /// The same for each directory that is a volume of its own.
    committed_of: BTreeMap<String, usize>,
    inodes: BTreeMap<u64, InodeHist>,
    tracking: bool,
}

/// What a user sees: path to content, for files only plus markers for others.
pub type Tree = BTreeMap<String, Node>;

pub fn read_tree(root: &Path) -> Tree {
    let mut t = Tree::new();
    let mut first: BTreeMap<u64, String> = BTreeMap::new();
    walk(root, "", &mut |path, md, full| {
        let node = if md.is_dir() {
            Node::Dir
        } else if md.file_type().is_symlink() {
            Node::Symlink(fs::read_link(full).map(|p| enc_os(p.as_os_str())).unwrap_or_default())
        } else {
            let data = Bytes(fs::read(full).unwrap_or_default());
            match first.get(&md.ino()) {
                Some(p) if md.nlink() > 1 => Node::Hard(p.clone(), data),
                _ => {
                    first.insert(md.ino(), path.to_string());
                    Node::File { data, mode: md.mode() & 0o7777 }
                }
            }
        };
        t.insert(path.to_string(), node);
    });
    t
}

pub fn walk(root: &Path, rel: &str, f: &mut dyn FnMut(&str, &fs::Metadata, &Path)) {
    let mut names: Vec<String> = match fs::read_dir(root) {
        Ok(d) => d.flatten().map(|e| enc_os(&e.file_name())).collect(),
        Err(_) => return,
    };
    names.sort();
    for n in names {
        let full = root.join(dec(&n));
        let r = if rel.is_empty() { n.clone() } else { format!("{rel}/{n}") };
        if let Ok(md) = fs::symlink_metadata(&full) {
            f(&r, &md, &full);
            if md.is_dir() {
                walk(&full, &r, f);
            }
        }
    }
}

fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |(d, _)| d)
}

pub fn wipe(root: &Path) {
    if let Ok(d) = fs::read_dir(root) {
        for e in d.flatten() {
            let p = e.path();
            match fs::symlink_metadata(&p) {
                Ok(md) if md.is_dir() => {
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o755));
                    let _ = fs::remove_dir_all(&p);
                }
                _ => {
                    let _ = fs::remove_file(&p);
                }
            }
        }
    }
}

pub fn write_tree(root: &Path, files: &[FileSpec]) {
    let hard = |f: &&FileSpec| matches!(f.node, Node::Hard(..));
    for f in files.iter().filter(|f| !hard(f)).chain(files.iter().filter(hard)) {
        let p = root.join(dec(&f.path));
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).expect("scratch mkdir");
        }
        match &f.node {
            Node::Dir => fs::create_dir_all(&p).expect("scratch mkdir"),
            Node::Symlink(t) => {
                let _ = std::os::unix::fs::symlink(dec(t), &p);
            }
            Node::Hard(to, data) => {
                if fs::hard_link(root.join(dec(to)), &p).is_err() {
                    fs::write(&p, &data.0).expect("scratch write");
                }
            }
            Node::File { data, mode } => {
                fs::write(&p, &data.0).expect("scratch write");
                if *mode != 0o644 {
                    fs::set_permissions(&p, fs::Permissions::from_mode(*mode)).expect("scratch chmod");
                }
            }
        }
    }
}

pub fn hash_tree(t: &Tree) -> u64 {
    let mut h = Hash::new();
    for (k, v) in t {
        h.add(k.as_bytes());
        match v {
            Node::File { data, .. } | Node::Hard(_, data) => h.add(&data.0),
            Node::Dir => h.add(b"d"),
            Node::Symlink(s) => h.add(s.as_bytes()),
        }
    }
    h.0
}

impl Disk {
    pub fn new(root: PathBuf) -> Self {
        Disk { root, ns: vec![], committed: 0, committed_of: BTreeMap::new(), inodes: BTreeMap::new(), tracking: false }
    }
    /// Starts the durability model from the present state, all of it durable.
    pub fn begin(&mut self, tracking: bool) {
        self.ns.clear();
        self.inodes.clear();
        self.committed = 0;
        self.committed_of.clear();
        self.tracking = tracking;
        if tracking {
            self.observe();
            let all: Vec<u64> = self.inodes.keys().copied().collect();
            for i in all {
                self.sync_ino(i);
            }
            self.committed = self.ns.len() - 1;
        }
    }
    /// Compares the scratch directory with the model.
    pub fn observe(&mut self) {
        if !self.tracking {
            return;
        }
        let mut ns = Ns::new();
        let root = self.root.clone();
        let inodes = &mut self.inodes;
        walk(&root, "", &mut |path, md, full| {
            let ent = if md.is_dir() {
                Ent::Dir { ino: md.ino() }
            } else if md.file_type().is_symlink() {
                Ent::Symlink(fs::read_link(full).map(|p| enc_os(p.as_os_str())).unwrap_or_default())
            } else if md.is_file() {
                let data = fs::read(full).unwrap_or_default();
                let h = inodes.entry(md.ino()).or_insert(InodeHist { versions: vec![], synced: None });
                if h.versions.last() != Some(&data) {
                    h.versions.push(data);
                }
                Ent::File { ino: md.ino(), mode: md.mode() & 0o7777 }
            } else {
                Ent::Special
            };
            ns.insert(path.to_string(), ent);
        });
        if self.ns.last() != Some(&ns) {
            self.ns.push(ns);
        }
    }
    fn sync_ino(&mut self, ino: u64) {
        if let Some(h) = self.inodes.get_mut(&ino) {
            h.synced = h.versions.len().checked_sub(1);
        }
    }
    pub fn fsync(&mut self, ino: u64) {
        if self.tracking {
            self.sync_ino(ino);
            let last = self.ns.len() - 1;
            self.committed = last;
            let mut dirs: Vec<String> = vec![];
            for (p, e) in &self.ns[last] {
                match e {
                    Ent::File { ino: i, .. } if *i == ino => dirs.push(parent(p).to_string()),
                    Ent::Dir { ino: i } if *i == ino => dirs.push(p.clone()),
                    _ => {}
                }
            }
            if fs::metadata(&self.root).is_ok_and(|md| md.ino() == ino) {
                dirs.push(String::new());
            }
            for d in dirs {
                let v = self.volume(&d).to_string();
                self.committed_of.insert(v, last);
            }
        }
    }
    /// The directory that is the volume of a directory: new directories are on
    /// the volume of the one they are in.
    fn volume<'a>(&self, mut dir: &'a str) -> &'a str {
        while !dir.is_empty() && !matches!(self.ns[0].get(dir), Some(Ent::Dir { .. })) {
            dir = parent(dir);
        }
        dir
    }
    /// A file that was in two directories cannot have been on two volumes.
    fn moved_between_directories(&self) -> bool {
        let mut home: BTreeMap<u64, &str> = BTreeMap::new();
        self.ns.iter().flatten().any(|(p, e)| match e {
            Ent::File { ino, .. } => {
                let v = self.volume(parent(p));
                *home.entry(*ino).or_insert(v) != v
            }
            _ => false,
        })
    }
    pub fn sync_all(&mut self) {
        if self.tracking {
            let all: Vec<u64> = self.inodes.keys().copied().collect();
            for i in all {
                self.sync_ino(i);
            }
            self.committed = self.ns.len() - 1;
            let dirs: Vec<String> = self.ns[0].iter().filter(|(_, e)| matches!(e, Ent::Dir { .. })).map(|(p, _)| p.clone()).collect();
            for d in dirs.into_iter().chain([String::new()]) {
                self.committed_of.insert(d, self.committed);
            }
        }
    }
    pub fn has_unsynced(&self, ino: u64) -> bool {
        self.inodes.get(&ino).map_or(false, |h| h.synced.map_or(!h.versions.last().map_or(true, |v| v.is_empty()), |s| s + 1 != h.versions.len()))
    }
    /// The data written to this inode since it was last synced disappears.
    pub fn lose_writes(&mut self, ino: u64) -> bool {
        let Some(h) = self.inodes.get(&ino) else { return false };
        let data = h.synced.map(|s| h.versions[s].clone()).unwrap_or_default();
        let Some(ns) = self.ns.last() else { return false };
        let path = ns.iter().find_map(|(p, e)| match e {
            Ent::File { ino: i, .. } if *i == ino => Some(p.clone()),
            _ => None,
        });
        if let Some(p) = path {
            let p = self.root.join(dec(&p));
            // In place, so that open descriptors see it too.
            if let Ok(f) = fs::OpenOptions::new().write(true).open(&p) {
                use std::io::Write;
                let _ = f.set_len(0);
                let _ = (&f).write_all(&data);
                self.observe();
                return true;
            }
        }
        false
    }
    /// Replaces the scratch directory by a state the disk may have after a
    /// power loss now.
    pub fn power_loss(&mut self, seed: u64) -> String {
        let mut rng = Rng::new(seed);
        self.observe();
        let last = self.ns.len() - 1;
        // Favour the extremes: everything so far, or only what was committed.
        let mut pick = |committed: usize| match rng.below(4) {
            0 => committed,
            1 => last,
            _ => rng.range(committed as i64, last as i64) as usize,
        };
        let mut desc;
        let ns = if seed % 2 == 0 || self.moved_between_directories() {
            let cut = pick(self.committed);
            desc = format!("directory operations kept: {} of {} (committed {})", cut, last, self.committed);
            self.ns[cut].clone()
        } else {
            desc = "each directory a volume, operations kept:".to_string();
            let mut ns = Ns::new();
            let mut dirs: Vec<String> = self.ns[0].iter().filter(|(_, e)| matches!(e, Ent::Dir { .. })).map(|(p, _)| p.clone()).collect();
            dirs.push(String::new());
            for d in &dirs {
                let c = self.committed_of.get(d).copied().unwrap_or(0);
                let cut = pick(c);
                if c != last {
                    desc.push_str(&format!(" {d:?} {cut} of {last} (committed {c})"));
                }
                for (p, e) in &self.ns[cut] {
                    if self.volume(parent(p)) == d {
                        ns.insert(p.clone(), e.clone());
                    }
                }
            }
            // What is in a directory that was removed or not made is gone.
            let all: Vec<String> = ns.keys().cloned().collect();
            for p in all {
                let d = parent(&p);
                if !d.is_empty() && !matches!(ns.get(d), Some(Ent::Dir { .. })) {
                    ns.remove(&p);
                }
            }
            ns
        };
        let mut out: Vec<FileSpec> = vec![];
        let style = rng.below(4);
        for (p, e) in &ns {
            let node = match e {
                Ent::Dir { .. } => Node::Dir,
                Ent::Symlink(s) => Node::Symlink(s.clone()),
                Ent::Special => continue,
                Ent::File { ino, mode } => {
                    let h = &self.inodes[ino];
                    let lo = h.synced;
                    let lastv = h.versions.len() - 1;
                    let data = if lo == Some(lastv) {
                        h.versions[lastv].clone()
                    } else {
                        let (d, w) = match if style == 3 { rng.below(5) } else { style.min(2) * 2 } {
                            0 => (lo.map(|s| h.versions[s].clone()).unwrap_or_default(), "old data"),
                            1 => (h.versions[lastv].clone(), "new data"),
                            2 => (vec![], "zero length"),
                            3 => (vec![0u8; h.versions[lastv].len()], "zero filled"),
                            _ => {
                                let v = &h.versions[rng.range(lo.map_or(0, |s| s as i64 + 1), lastv as i64) as usize];
                                let n = rng.usize(v.len() + 1);
                                (v[..n].to_vec(), "torn")
                            }
                        };
                        desc.push_str(&format!("; {p}: {w} ({} bytes)", d.len()));
                        d
                    };
                    Node::File { data: Bytes(data), mode: *mode }
                }
            };
            out.push(FileSpec { path: p.clone(), node });
        }
        wipe(&self.root);
        write_tree(&self.root, &out);
        desc
    }
}
