//! The data a scenario is made of. Everything here is (de)serialisable: a
//! replay file is a scenario whose plans are all explicit.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// File content: text where possible, so that replay files can be read.
#[derive(Clone, Debug, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("latin1:") => s.serialize_str(t),
            _ => {
                let t: String = self.0.iter().map(|b| *b as char).collect();
                s.serialize_str(&format!("latin1:{t}"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(match s.strip_prefix("latin1:") {
            Some(t) => Bytes(t.chars().map(|c| c as u32 as u8).collect()),
            None => Bytes(s.into_bytes()),
        })
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        Bytes(s.into_bytes())
    }
}
impl Bytes {
    pub fn lossy(&self) -> String {
        String::from_utf8_lossy(&self.0).into_owned()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultKind {
    /// SIGKILL before the call is executed.
    Kill,
    /// SIGKILL, and the machine loses power: the disk keeps one of the states
    /// its durability model allows, chosen by the seed.
    PowerLoss(u64),
    /// The call fails with this errno without any effect.
    Errno(i32),
    /// The call transfers at most this many bytes.
    Short(u64),
    /// close(): executed, but reports this errno.
    CloseErr(i32),
    /// fsync() or close(): the data written since the last fsync is lost and
    /// the call reports EIO (a delayed write-back error).
    LostWrites(i32),
    /// The n-th memory allocation after this call fails.
    Oom(i32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub op: u32,
    pub kind: FaultKind,
}

/// How the simulator disturbs one command.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub enum Plan {
    #[default]
    None,
    Explicit(Vec<Fault>),
    Random(RandomPlan),
}

/// Fractions are out of 2^32 of the number of calls of the undisturbed run.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct RandomPlan {
    pub seed: u64,
    /// Die at this point (before the call).
    pub die_at: Option<u32>,
    pub power: bool,
    /// Fail one eligible call at or after this point.
    pub fail_at: Option<u32>,
    /// ... and every eligible call after it with the same errno class.
    pub sticky: bool,
    /// Per-mille of transfers cut short / calls interrupted / calls failing.
    pub short: u32,
    pub eintr: u32,
    pub err: u32,
    /// Bytes that still fit on the disk.
    pub disk: Option<u64>,
    /// Per-mille of fsync/close calls that report lost writes.
    pub lost: u32,
    /// Per-mille of calls after which a memory allocation fails.
    pub oom: u32,
    /// Only calls of these classes are eligible for errors (empty: all).
    pub classes: Vec<Class>,
    /// Largest piece when transfers are cut short.
    pub max_short: u64,
    /// Reads may be interrupted as well.
    pub eintr_reads: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Class {
    OpenRead,
    OpenWrite,
    Read,
    Write,
    StdoutWrite,
    Close,
    Sync,
    Rename,
    Unlink,
    Mkdir,
    Stat,
    Dir,
    Seek,
    Truncate,
    Meta,
    Link,
    Random,
    Spawn,
    Wait,
    Clock,
    Exit,
    Other,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct HelperPlan {
    /// errno of the spawn call.
    pub missing: Option<i32>,
    /// Stop after this many output steps (pages; for tesseract the first step
    /// creates the file).
    pub stop_after: Option<u32>,
    /// Half of the next step's bytes are written before stopping.
    pub torn: bool,
    /// Exit status, if not killed.
    pub exit: i32,
    pub signal: Option<i32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmd {
    pub args: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stdin: Option<Bytes>,
    /// Standard input and output behave as pipes (not seekable).
    #[serde(default)]
    pub pipe: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    #[serde(default)]
    pub tmpdir: Option<String>,
    /// Seeds of the simulated entropy, layout and directory order; pid; clock.
    pub entropy: u64,
    #[serde(default)]
    pub layout: u64,
    #[serde(default)]
    pub dirseed: u64,
    #[serde(default = "dflt_pid")]
    pub pid: i32,
    #[serde(default)]
    pub clock: Option<i64>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub gm: HelperPlan,
    #[serde(default, skip_serializing_if = "is_default")]
    pub tess: HelperPlan,
    #[serde(default)]
    pub plan: Plan,
}
fn dflt_pid() -> i32 {
    4242
}
fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

impl Cmd {
    pub fn new<S: AsRef<str>>(args: &[S]) -> Self {
        Cmd {
            args: args.iter().map(|s| s.as_ref().to_string()).collect(),
            stdin: None,
            pipe: false,
            env: vec![],
            tmpdir: None,
            entropy: 1,
            layout: 0,
            dirseed: 1,
            pid: 4242,
            clock: None,
            gm: HelperPlan::default(),
            tess: HelperPlan::default(),
            plan: Plan::None,
        }
    }
    pub fn with_plan(&self, plan: Plan) -> Cmd {
        let mut c = self.clone();
        c.plan = plan;
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    File { data: Bytes, mode: u32 },
    Dir,
    Symlink(String),
    /// Another name of the file at this path, and what that holds.
    Hard(String, Bytes),
}
/// To the user a file is its content, whatever other names it has.
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        use Node::*;
        match (self, o) {
            (File { data: a, mode: m }, File { data: b, mode: n }) => a == b && m == n,
            (Dir, Dir) => true,
            (Symlink(a), Symlink(b)) => a == b,
            (Hard(_, a), Hard(_, b)) | (File { data: a, .. }, Hard(_, b)) | (Hard(_, a), File { data: b, .. }) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    pub path: String,
    pub node: Node,
}
impl FileSpec {
    pub fn file(path: &str, data: impl Into<Bytes>) -> Self {
        FileSpec { path: path.to_string(), node: Node::File { data: data.into(), mode: 0o644 } }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// Killed by the simulator.
    Killed,
    Hang,
}
impl Exit {
    pub fn ok(self) -> bool {
        self == Exit::Code(0)
    }
}

/// File names and arguments are bytes. Those that are no UTF-8 are written
/// as characters of a private range.
pub fn dec(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    let mut buf = [0; 4];
    for c in s.chars() {
        match c as u32 {
            x @ 0xF780..=0xF7FF => b.push((x - 0xF700) as u8),
            _ => b.extend(c.encode_utf8(&mut buf).as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(b)
}
pub fn enc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().map(|x| char::from_u32(0xF700 + *x as u32).unwrap()));
    }
    s
}
pub fn enc_os(s: &std::ffi::OsStr) -> String {
    enc(std::os::unix::ffi::OsStrExt::as_bytes(s))
}
