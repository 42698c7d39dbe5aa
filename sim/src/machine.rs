//! The simulated machine: runs real commands under the shim and decides every
//! system call they make.
use crate::disk::{self, Disk, Tree};
use crate::helpers::{Helper, Role};
use crate::rng::{Hash, Rng};
use crate::types::*;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::fs;
use std::os::fd::RawFd;
use std::path::{Path, PathBuf};

const AM_FD: i32 = 900;
const K_CLOCK: u32 = 2;
const K_SPAWN: u32 = 3;
const K_HELLO: u32 = 4;
const A_EXEC: u32 = 0;
const A_CLIP: u32 = 1;
const A_RET: u32 = 2;
const A_EXECRET: u32 = 3;
const A_SHUFFLE: u32 = 4;
const NOPREV: i64 = i64::MIN;
/// 2021-03-04T05:06:07Z
pub const CLOCK0: i64 = 1_614_834_367_000_000_000;

#[derive(Debug)]
pub struct HarnessError(pub String);
pub type R<T> = Result<T, HarnessError>;

#[derive(Clone, Debug)]
pub struct OpRec {
    pub class: Class,
    pub nr: i64,
    pub what: String,
    pub ret: i64,
    pub fault: Option<FaultKind>,
    /// Changes the disk or a stream (the points between which crashes differ).
    pub mutating: bool,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub exit: Exit,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub ops: Vec<OpRec>,
    pub faults: Vec<Fault>,
    pub note: String,
    pub escapes: Vec<String>,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.exit.ok()
    }
    pub fn err(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr);
        let s: String = s.lines().take(6).collect::<Vec<_>>().join(" | ");
        s.chars().take(400).collect()
    }
    pub fn trace_hash(&self) -> u64 {
        let mut h = Hash::new();
        for o in &self.ops {
            h.u64(o.nr as u64);
            h.add(o.what.as_bytes());
            h.u64(o.ret as u64);
            if let Some(f) = &o.fault {
                h.add(format!("{f:?}").as_bytes());
            }
        }
        h.0
    }
    pub fn applied(&self) -> Plan {
        Plan::Explicit(self.faults.clone())
    }
    pub fn fired(&self) -> bool {
        !self.faults.is_empty()
    }
    pub fn died(&self) -> bool {
        self.exit == Exit::Killed
    }
    pub fn trace_text(&self) -> String {
        let mut s = String::new();
        for (i, o) in self.ops.iter().enumerate() {
            s.push_str(&format!("{i:4} {:?} {} = {}", o.class, o.what, o.ret));
            if let Some(f) = &o.fault {
                s.push_str(&format!("   <== {f:?}"));
            }
            s.push('\n');
        }
        s
    }
}

#[derive(Default, Clone, Debug)]
pub struct Counters {
    pub commands: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub fault_sites: BTreeMap<String, u64>,
    pub helpers: u64,
    pub power_losses: u64,
    pub switches: u64,
}
impl Counters {
    pub fn add(&mut self, o: &Counters) {
        self.commands += o.commands;
        self.ops += o.ops;
        self.sim_ns += o.sim_ns;
        self.helpers += o.helpers;
        self.power_losses += o.power_losses;
        self.switches += o.switches;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.fault_sites {
            *self.fault_sites.entry(k.clone()).or_default() += v;
        }
    }
}

pub struct Config {
    pub bin: PathBuf,
    pub shim: PathBuf,
}

pub struct Machine {
    cfg: std::sync::Arc<Config>,
    pub root: PathBuf,
    io: PathBuf,
    pub disk: Disk,
    pub now: i64,
    pub count: Counters,
    /// If set: every file with data and who may open it, with the call after
    /// which that was first so.
    pub watch: Option<std::collections::BTreeMap<Seen, u32>>,
}

/// A file and its protection.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seen {
    pub path: String,
    pub ino: u64,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    /// The mode, less what the directories above it refuse.
    pub eff: u32,
}

/// How concurrent commands are interleaved.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Sched {
    /// Seeded choices; per-mille probability of switching at each call.
    Random { seed: u64, switch: u32 },
    /// The process to run next at each scheduling point.
    Explicit(Vec<u8>),
}

struct Req {
    kind: u32,
    nr: i64,
    a: [i64; 6],
    prev: i64,
    hasstat: bool,
    mode: u32,
    ino: u64,
    p1: String,
    p2: Vec<u8>,
}

struct Proc {
    pid: i32,
    sock: RawFd,
    pend: Option<Req>,
    /// Last call that was granted, waiting for its result.
    granted: Option<Granted>,
    exit: Option<Exit>,
    cmd: Cmd,
    rng_entropy: Rng,
    entropy_buf: Vec<u8>,
    planner: Planner,
    ops: Vec<OpRec>,
    faults: Vec<Fault>,
    note: String,
    escapes: Vec<String>,
    helpers: HashMap<i32, Helper>,
    next_pid: i32,
    out: PathBuf,
    err: PathBuf,
    fsynced_clean: HashMap<u64, bool>,
    clock_skew: i64,
    stdout_ino: u64,
    stdin_ino: u64,
    /// Standard input and output are pipes; what comes out is collected.
    pipe: bool,
    drain: Option<std::thread::JoinHandle<Vec<u8>>>,
}

impl Proc {
    /// Inode numbers of pipes and of files may coincide.
    fn is_stream(&self, r: &Req, ino: u64) -> bool {
        r.hasstat && r.ino == ino && (r.mode & libc::S_IFMT == libc::S_IFIFO) == self.pipe
    }
}

/// System calls of one command.
const MAX_OPS: usize = 400_000;
const PIPE_SIZE: usize = 1 << 20;

/// A pipe that holds `PIPE_SIZE` bytes.
fn big_pipe() -> R<(RawFd, RawFd)> {
    let mut f = [0i32; 2];
    unsafe {
        if libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err(HarnessError(format!("pipe: {}", last_errno())));
        }
        if libc::fcntl(f[1], libc::F_SETPIPE_SZ, PIPE_SIZE as i32) < PIPE_SIZE as i32 {
            libc::close(f[0]);
            libc::close(f[1]);
            return Err(HarnessError(format!("pipe size: {}", last_errno())));
        }
    }
    Ok((f[0], f[1]))
}

fn ino_of(fd: RawFd) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st);
        st.st_ino
    }
}

#[derive(Clone)]
struct Granted {
    mutating: bool,
    sync_ino: Option<u64>,
    sync_all: bool,
    rec: Option<usize>,
}

enum Planner {
    None,
    Explicit(HashMap<u32, Vec<FaultKind>>),
    Random { p: RandomPlan, rng: Rng, die: Option<u32>, fail: Option<u32>, sticky: Option<i32>, disk: Option<i64>, done: bool },
}

impl Planner {
    fn new(plan: &Plan, total: u32) -> Planner {
        let at = |f: u32| ((f as u64 * (total as u64 + 1)) >> 32) as u32;
        match plan {
            Plan::None => Planner::None,
            Plan::Explicit(v) => {
                let mut m: HashMap<u32, Vec<FaultKind>> = HashMap::new();
                for f in v {
                    m.entry(f.op).or_default().push(f.kind.clone());
                }
                Planner::Explicit(m)
            }
            Plan::Random(p) => Planner::Random {
                rng: Rng::new(p.seed),
                die: p.die_at.map(at),
                fail: p.fail_at.map(at),
                sticky: None,
                disk: p.disk.map(|d| d as i64),
                done: false,
                p: p.clone(),
            },
        }
    }
    fn decide(&mut self, op: u32, c: Class, count: i64, dirty: bool, is_stdin: bool) -> Vec<FaultKind> {
        match self {
            Planner::None => vec![],
            Planner::Explicit(m) => m.get(&op).cloned().unwrap_or_default(),
            Planner::Random { p, rng, die, fail, sticky, disk, done } => {
                if let Some(d) = die {
                    if op >= *d {
                        return vec![if p.power { FaultKind::PowerLoss(rng.next()) } else { FaultKind::Kill }];
                    }
                }
                let mut v = vec![];
                let eligible = p.classes.is_empty() || p.classes.contains(&c);
                if let (Class::Write | Class::StdoutWrite, Some(d)) = (c, disk.as_mut()) {
                    if c == Class::Write {
                        if *d <= 0 && count > 0 {
                            return vec![FaultKind::Errno(libc::ENOSPC)];
                        }
                        if count > *d {
                            let n = *d;
                            *d = 0;
                            return vec![FaultKind::Short(n as u64)];
                        }
                        *d -= count;
                    }
                }
                if c == Class::OpenWrite && matches!(disk, Some(d) if *d <= 0) && rng.chance(1, 4) {
                    return vec![FaultKind::Errno(libc::ENOSPC)];
                }
                if let Some(e) = sticky {
                    if eligible && errnos(c).contains(e) {
                        return vec![FaultKind::Errno(*e)];
                    }
                }
                if let Some(f) = fail {
                    if op >= *f && !*done && eligible {
                        let es = errnos(c);
                        if !es.is_empty() {
                            let e = *rng.pick(es);
                            *done = true;
                            if p.sticky {
                                *sticky = Some(e);
                            }
                            if c == Class::Close {
                                return vec![FaultKind::CloseErr(e)];
                            }
                            if c == Class::Sync && dirty && rng.chance(1, 2) {
                                return vec![FaultKind::LostWrites(e)];
                            }
                            return vec![FaultKind::Errno(e)];
                        }
                    }
                }
                let pm = |rng: &mut Rng, n: u32| n > 0 && rng.chance(n as u64, 1000);
                if pm(rng, p.lost) && dirty && matches!(c, Class::Sync | Class::Close) && eligible {
                    return vec![FaultKind::LostWrites(*rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]))];
                }
                if pm(rng, p.err) && eligible {
                    let es = errnos(c);
                    if !es.is_empty() {
                        let e = *rng.pick(es);
                        return vec![if c == Class::Close { FaultKind::CloseErr(e) } else { FaultKind::Errno(e) }];
                    }
                }
                // After that many calls the rest goes in one piece: a large
                // file in pieces of one byte would take for ever.
                let pieces = op < 20_000;
                if pieces && pm(rng, p.eintr) {
                    let ok = match c {
                        Class::Read => p.eintr_reads,
                        Class::Write | Class::StdoutWrite | Class::OpenRead | Class::OpenWrite | Class::Wait | Class::Random => true,
                        _ => false,
                    };
                    if ok {
                        return vec![FaultKind::Errno(libc::EINTR)];
                    }
                }
                if pieces && pm(rng, p.short) && matches!(c, Class::Read | Class::Write | Class::StdoutWrite | Class::Random) && count > 1 {
                    let _ = is_stdin;
                    let hi = (count - 1).min(p.max_short.max(1) as i64);
                    let n = if rng.chance(1, 3) { 1 } else { rng.range(1, hi) };
                    v.push(FaultKind::Short(n as u64));
                }
                if pm(rng, p.oom) {
                    v.push(FaultKind::Oom(rng.range(1, 30) as i32));
                }
                v
            }
        }
    }
}

pub fn errnos(c: Class) -> &'static [i32] {
    use libc::*;
    match c {
        Class::OpenRead => &[EIO, EACCES, EMFILE, ENFILE, ENOENT],
        Class::OpenWrite => &[ENOSPC, EACCES, EROFS, EMFILE, EIO, EDQUOT],
        Class::Read => &[EIO],
        Class::Write => &[ENOSPC, EIO, EDQUOT, EFBIG],
        Class::StdoutWrite => &[EPIPE, ENOSPC, EIO],
        Class::Close => &[EIO, EDQUOT],
        Class::Sync => &[EIO, ENOSPC, EDQUOT],
        Class::Rename => &[EIO, EACCES, ENOSPC, EROFS, EBUSY],
        Class::Unlink => &[EIO, EACCES, EROFS],
        Class::Mkdir => &[ENOSPC, EACCES, EIO, EROFS],
        Class::Stat => &[EIO, EACCES],
        Class::Dir => &[EIO],
        Class::Truncate => &[ENOSPC, EIO],
        Class::Meta => &[EPERM, EIO],
        Class::Link => &[EPERM, EIO, ENOSPC],
        Class::Spawn => &[ENOENT, EACCES, ENOMEM, EAGAIN],
        _ => &[],
    }
}

fn last_errno() -> i32 {
    std::io::Error::last_os_error().raw_os_error().unwrap_or(0)
}

impl Machine {
    pub fn new(cfg: std::sync::Arc<Config>, base: &Path, name: &str) -> Machine {
        let root = base.join(name);
        let io = base.join(format!("{name}.io"));
        fs::create_dir_all(&root).expect("scratch");
        fs::create_dir_all(&io).expect("scratch");
        let root = fs::canonicalize(root).expect("scratch");
        Machine { cfg, disk: Disk::new(root.clone()), root, io, now: CLOCK0, count: Counters::default(), watch: None }
    }

    /// A fresh world containing these files (and an empty tmp directory).
    pub fn reset(&mut self, files: &[FileSpec]) {
        disk::wipe(&self.root);
        fs::create_dir_all(self.root.join("tmp")).expect("scratch");
        disk::write_tree(&self.root, files);
        self.now = CLOCK0;
    }
    pub fn tree(&self) -> Tree {
        disk::read_tree(&self.root)
    }
    pub fn restore(&mut self, t: &Tree) {
        disk::wipe(&self.root);
        let v: Vec<FileSpec> = t.iter().map(|(p, n)| FileSpec { path: p.clone(), node: n.clone() }).collect();
        disk::write_tree(&self.root, &v);
    }
    pub fn read(&self, p: &str) -> Option<Vec<u8>> {
        fs::read(self.root.join(dec(p))).ok()
    }
    pub fn write(&self, p: &str, data: &[u8]) {
        let f = self.root.join(dec(p));
        if let Some(d) = f.parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(f, data).expect("scratch write");
    }
    pub fn protect(&self, p: &str, mode: u32, uid: u32, gid: u32) {
        let f = self.root.join(dec(p));
        std::os::unix::fs::chown(&f, Some(uid), Some(gid)).expect("scratch chown");
        fs::set_permissions(&f, std::os::unix::fs::PermissionsExt::from_mode(mode)).expect("scratch chmod");
    }
    pub fn protection(&self, p: &str) -> Option<Seen> {
        use std::os::unix::fs::MetadataExt;
        let md = fs::symlink_metadata(self.root.join(dec(p))).ok()?;
        let mode = md.mode() & 0o7777;
        Some(Seen { path: p.into(), ino: md.ino(), mode, uid: md.uid(), gid: md.gid(), eff: mode })
    }
    fn look(&mut self, op: u32) {
        use std::os::unix::fs::MetadataExt;
        let Some(w) = &mut self.watch else { return };
        let mut dirs: std::collections::BTreeMap<String, u32> = Default::default();
        disk::walk(&self.root, "", &mut |path, md, _| {
            let up = path.rfind('/').map_or(0o777, |i| dirs.get(&path[..i]).copied().unwrap_or(0));
            let mode = md.mode() & 0o7777;
            if md.is_dir() {
                // Search permission is needed on every directory of the way.
                let x = (mode & 0o111) * 7;
                dirs.insert(path.to_string(), up & x);
            } else if md.is_file() && md.len() > 0 {
                let s = Seen { path: path.into(), ino: md.ino(), mode, uid: md.uid(), gid: md.gid(), eff: mode & up };
                w.entry(s).or_insert(op);
            }
        });
    }
    pub fn remove(&self, p: &str) {
        let _ = fs::remove_file(self.root.join(dec(p)));
    }

    /// Runs one command to its end under its plan. `total` is the number of
    /// calls fractions in random plans refer to.
    pub fn run(&mut self, cmd: &Cmd, total: u32) -> R<Run> {
        let mut v = self.run_many(std::slice::from_ref(cmd), &[total], &mut Sched::Explicit(vec![]))?;
        Ok(v.pop().unwrap())
    }

    /// Runs the command; records the faults that fired as its explicit plan.
    pub fn run_rec(&mut self, cmd: &mut Cmd, total: u32) -> R<Run> {
        let r = self.run(cmd, total)?;
        cmd.plan = if r.faults.is_empty() { Plan::None } else { r.applied() };
        Ok(r)
    }

    fn start(&mut self, cmd: &Cmd, total: u32, k: usize) -> R<Proc> {
        let out = self.io.join(format!("out{k}"));
        let err = self.io.join(format!("err{k}"));
        let inp = self.io.join(format!("in{k}"));
        fs::write(&out, b"").map_err(he)?;
        fs::write(&err, b"").map_err(he)?;
        fs::write(&inp, cmd.stdin.as_ref().map(|b| &b.0[..]).unwrap_or(b"")).map_err(he)?;
        let mut sv = [0i32; 2];
        if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) } != 0 {
            return Err(HarnessError(format!("socketpair: {}", last_errno())));
        }
        let tv = libc::timeval { tv_sec: 30, tv_usec: 0 };
        unsafe {
            libc::setsockopt(sv[0], libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const libc::c_void, std::mem::size_of_val(&tv) as u32);
        }
        let input: &[u8] = cmd.stdin.as_ref().map(|b| &b.0[..]).unwrap_or(b"");
        // What is read from the pipe does not depend on timing: it holds all
        // of the input before the command starts.
        let pipe = (cmd.pipe || cmd.args.iter().any(|a| a.starts_with("/dev/std"))) && input.len() < PIPE_SIZE;
        let (mut pin, mut pout) = (None, None);
        if pipe {
            let (r, w) = big_pipe()?;
            let n = unsafe { libc::write(w, input.as_ptr() as *const _, input.len()) };
            unsafe { libc::close(w) };
            if n != input.len() as isize {
                return Err(HarnessError("cannot fill a pipe".into()));
            }
            pin = Some(r);
            pout = Some(big_pipe()?);
        }
        let cs = |s: &str| CString::new(std::os::unix::ffi::OsStringExt::into_vec(dec(&s.replace('\0', "?")))).unwrap();
        let mut args = vec![cs("accountmerge")];
        args.extend(cmd.args.iter().map(|a| cs(&a.replace("@ROOT@", self.root.to_str().unwrap()))));
        let tmp = cmd.tmpdir.as_deref().unwrap_or("tmp");
        let mut env = vec![
            cs(&format!("LD_PRELOAD={}", self.cfg.shim.display())),
            cs("AM_SIM=1"),
            cs(&format!("AM_LAYOUT={}", cmd.layout)),
            cs("PATH=/usr/bin:/bin"),
            cs("HOME=/root"),
            cs(&format!("TMPDIR={}/{tmp}", self.root.display())),
        ];
        for (a, b) in &cmd.env {
            env.push(cs(&format!("{a}={b}")));
        }
        let mut argv: Vec<*mut libc::c_char> = args.iter().map(|c| c.as_ptr() as *mut _).collect();
        argv.push(std::ptr::null_mut());
        let mut envp: Vec<*mut libc::c_char> = env.iter().map(|c| c.as_ptr() as *mut _).collect();
        envp.push(std::ptr::null_mut());
        let bin = cs(self.cfg.bin.to_str().unwrap());
        let rootc = cs(self.root.to_str().unwrap());
        let (oc, ec, ic) = (cs(out.to_str().unwrap()), cs(err.to_str().unwrap()), cs(inp.to_str().unwrap()));
        let mut pid = 0;
        let rc = unsafe {
            let mut fa: libc::posix_spawn_file_actions_t = std::mem::zeroed();
            libc::posix_spawn_file_actions_init(&mut fa);
            match (pin, pout) {
                (Some(i), Some((_, o))) => {
                    libc::posix_spawn_file_actions_adddup2(&mut fa, i, 0);
                    libc::posix_spawn_file_actions_adddup2(&mut fa, o, 1);
                }
                _ => {
                    libc::posix_spawn_file_actions_addopen(&mut fa, 0, ic.as_ptr(), libc::O_RDONLY, 0);
                    libc::posix_spawn_file_actions_addopen(&mut fa, 1, oc.as_ptr(), libc::O_WRONLY | libc::O_APPEND, 0);
                }
            }
            libc::posix_spawn_file_actions_addopen(&mut fa, 2, ec.as_ptr(), libc::O_WRONLY | libc::O_APPEND, 0);
            libc::posix_spawn_file_actions_adddup2(&mut fa, sv[1], AM_FD);
            posix_spawn_file_actions_addchdir_np(&mut fa, rootc.as_ptr());
            let r = libc::posix_spawn(&mut pid, bin.as_ptr(), &fa, std::ptr::null(), argv.as_ptr(), envp.as_ptr());
            libc::posix_spawn_file_actions_destroy(&mut fa);
            libc::close(sv[1]);
            r
        };
        let (mut stdin_pipe, mut stdout_pipe, mut drain) = (0, 0, None);
        if let (Some(i), Some((o, w))) = (pin, pout) {
            (stdin_pipe, stdout_pipe) = (ino_of(i), ino_of(w));
            unsafe {
                libc::close(i);
                libc::close(w);
            }
            let mut f = unsafe { <fs::File as std::os::fd::FromRawFd>::from_raw_fd(o) };
            drain = Some(std::thread::spawn(move || {
                let mut v = vec![];
                let _ = std::io::Read::read_to_end(&mut f, &mut v);
                v
            }));
        }
        if rc != 0 {
            unsafe { libc::close(sv[0]) };
            return Err(HarnessError(format!("cannot start {:?}: errno {rc}", self.cfg.bin)));
        }
        use std::os::unix::fs::MetadataExt;
        let stdout_ino = if pipe { stdout_pipe } else { fs::metadata(&out).map(|m| m.ino()).unwrap_or(0) };
        let stdin_ino = if pipe { stdin_pipe } else { fs::metadata(&inp).map(|m| m.ino()).unwrap_or(0) };
        self.count.commands += 1;
        let mut p = Proc {
            pid,
            sock: sv[0],
            pend: None,
            granted: None,
            exit: None,
            cmd: cmd.clone(),
            rng_entropy: Rng::from_parts(&[cmd.entropy, 77]),
            entropy_buf: vec![],
            planner: Planner::new(&cmd.plan, total),
            ops: vec![],
            faults: vec![],
            note: String::new(),
            escapes: vec![],
            helpers: HashMap::new(),
            next_pid: cmd.pid + 1,
            out,
            err,
            fsynced_clean: HashMap::new(),
            clock_skew: cmd.clock.map_or(0, |c| c - self.now),
            stdout_ino,
            stdin_ino,
            pipe,
            drain,
        };
        // HELLO, then the first request.
        self.receive(&mut p)?;
        match &p.pend {
            Some(r) if r.kind == K_HELLO => {}
            _ => return Err(HarnessError(format!("the shim did not start: {:?}", String::from_utf8_lossy(&fs::read(&p.err).unwrap_or_default())))),
        }
        p.pend = None;
        self.reply(&p, A_RET, CLOCK0 / 1_000_000_000, 0, &[]);
        self.receive(&mut p)?;
        Ok(p)
    }

    fn reply(&self, p: &Proc, action: u32, n: i64, oom: i32, data: &[u8]) {
        let mut b = Vec::with_capacity(24 + data.len());
        b.extend_from_slice(&action.to_le_bytes());
        b.extend_from_slice(&oom.to_le_bytes());
        b.extend_from_slice(&n.to_le_bytes());
        b.extend_from_slice(&(data.len() as u32).to_le_bytes());
        b.extend_from_slice(&0u32.to_le_bytes());
        b.extend_from_slice(data);
        unsafe { libc::send(p.sock, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
    }

    /// Waits until the (only running) process parks at its next call or ends.
    fn receive(&mut self, p: &mut Proc) -> R<()> {
        let mut b = vec![0u8; 33000];
        let n = loop {
            let n = unsafe { libc::recv(p.sock, b.as_mut_ptr() as *mut _, b.len(), 0) };
            if n < 0 && last_errno() == libc::EINTR {
                continue;
            }
            break n;
        };
        if n < 0 && last_errno() != libc::ECONNRESET {
            // No call for a long time: the command hangs in a computation.
            unsafe { libc::kill(p.pid, libc::SIGKILL) };
            self.reap(p);
            p.exit = Some(Exit::Hang);
            return Ok(());
        }
        if n <= 0 {
            let e = self.reap(p);
            p.exit = Some(e);
        } else {
            let b = &b[..n as usize];
            let u32at = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
            let i64at = |o: usize| i64::from_le_bytes(b[o..o + 8].try_into().unwrap());
            let mut a = [0i64; 6];
            for (i, x) in a.iter_mut().enumerate() {
                *x = i64at(8 + 8 * i);
            }
            let l1 = u32at(96) as usize;
            let l2 = u32at(100) as usize;
            let p1 = enc(&b[104..104 + l1]);
            let p2 = b.get(105 + l1..105 + l1 + l2).unwrap_or(&[]).to_vec();
            p.pend = Some(Req {
                kind: u32at(0),
                nr: u32at(4) as i32 as i64,
                a,
                prev: i64at(56),
                hasstat: u32at(64) != 0,
                mode: u32at(68),
                ino: i64at(80) as u64,
                p1,
                p2,
            });
        }
        // The effects of the last granted call are complete now.
        if let Some(g) = p.granted.take() {
            if let Some(i) = g.rec {
                if let Some(r) = &p.pend {
                    if r.prev != NOPREV {
                        p.ops[i].ret = r.prev;
                    }
                }
            }
            if g.mutating {
                self.disk.observe();
            }
            if self.watch.is_some() {
                self.look(g.rec.unwrap_or(0) as u32);
            }
            let okay = p.pend.as_ref().map_or(false, |r| r.prev == 0);
            if okay {
                if let Some(i) = g.sync_ino {
                    self.disk.fsync(i);
                    p.fsynced_clean.insert(i, true);
                }
                if g.sync_all {
                    self.disk.sync_all();
                }
            }
        }
        Ok(())
    }

    fn reap(&self, p: &mut Proc) -> Exit {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(p.pid, &mut st, 0) };
            if r < 0 && last_errno() == libc::EINTR {
                continue;
            }
            break;
        }
        unsafe { libc::close(p.sock) };
        if libc::WIFEXITED(st) {
            Exit::Code(libc::WEXITSTATUS(st))
        } else {
            Exit::Signal(libc::WTERMSIG(st))
        }
    }

    fn kill(&mut self, p: &mut Proc) {
        unsafe { libc::kill(p.pid, libc::SIGKILL) };
        self.reap(p);
        p.pend = None;
        p.granted = None;
        p.exit = Some(Exit::Killed);
    }

    pub fn run_many(&mut self, cmds: &[Cmd], totals: &[u32], sched: &mut Sched) -> R<Vec<Run>> {
        let track = cmds.iter().any(|c| match &c.plan {
            Plan::None => false,
            Plan::Explicit(v) => v.iter().any(|f| matches!(f.kind, FaultKind::PowerLoss(_) | FaultKind::LostWrites(_))),
            Plan::Random(p) => p.power || p.lost > 0 || p.fail_at.is_some(),
        });
        self.disk.begin(track);
        let t0 = self.now;
        let mut procs: Vec<Proc> = vec![];
        let mut failed: Option<HarnessError> = None;
        for (k, c) in cmds.iter().enumerate() {
            match self.start(c, totals.get(k).copied().unwrap_or(0), k) {
                Ok(p) => procs.push(p),
                Err(e) => {
                    failed = Some(e);
                    break;
                }
            }
        }
        if failed.is_none() {
            if let Err(e) = self.drive(&mut procs, sched) {
                failed = Some(e);
            }
        }
        for p in procs.iter_mut() {
            if p.exit.is_none() {
                self.kill(p);
            }
        }
        self.look(u32::MAX);
        if let Some(e) = failed {
            return Err(e);
        }
        self.count.sim_ns += (self.now - t0).max(0) as u64;
        let mut v = vec![];
        for p in procs {
            self.count.ops += p.ops.len() as u64;
            for f in &p.faults {
                let name = match &f.kind {
                    FaultKind::Kill => "crash (SIGKILL)".to_string(),
                    FaultKind::PowerLoss(_) => "power loss".into(),
                    FaultKind::Errno(e) => errname(*e),
                    FaultKind::Short(_) => "short transfer".into(),
                    FaultKind::CloseErr(e) => format!("close reports {}", errname(*e)),
                    FaultKind::LostWrites(e) => format!("lost writes, {}", errname(*e)),
                    FaultKind::Oom(_) => "allocation failure".into(),
                };
                *self.count.faults.entry(name).or_default() += 1;
                if let Some(o) = p.ops.get(f.op as usize) {
                    *self.count.fault_sites.entry(format!("{:?}", o.class)).or_default() += 1;
                }
            }
            v.push(Run {
                exit: p.exit.unwrap(),
                stdout: match p.drain {
                    Some(d) => d.join().map_err(|_| HarnessError("reading a pipe failed".into()))?,
                    None => fs::read(&p.out).map_err(he)?,
                },
                stderr: fs::read(&p.err).map_err(he)?,
                ops: p.ops,
                faults: p.faults,
                note: p.note,
                escapes: p.escapes,
            });
        }
        Ok(v)
    }

    fn drive(&mut self, procs: &mut [Proc], sched: &mut Sched) -> R<()> {
        let mut cur = 0usize;
        let mut taken: Vec<u8> = vec![];
        let (mut rng, switch, script) = match sched {
            Sched::Random { seed, switch } => (Rng::new(*seed), *switch, None),
            Sched::Explicit(v) => (Rng::new(0), 0, Some(v.clone())),
        };
        let mut point = 0usize;
        loop {
            let alive: Vec<usize> = (0..procs.len()).filter(|i| procs[*i].exit.is_none()).collect();
            if alive.is_empty() {
                break;
            }
            let mut next = cur;
            if procs.len() > 1 {
                // A scheduling point: the current process is at a call that
                // others can notice, or it has ended.
                let ended = procs[cur].exit.is_some();
                if ended || visible(&procs[cur]) {
                    next = match &script {
                        Some(s) => s.get(point).map(|x| *x as usize).unwrap_or(cur),
                        None => {
                            if ended || rng.chance(switch as u64, 1000) {
                                alive[rng.usize(alive.len())]
                            } else {
                                cur
                            }
                        }
                    };
                    if next >= procs.len() || procs[next].exit.is_some() {
                        next = alive[0];
                    }
                    if next != cur {
                        self.count.switches += 1;
                    }
                    taken.push(next as u8);
                    point += 1;
                }
            } else {
                next = alive[0];
            }
            cur = next;
            let power = self.step(&mut procs[cur])?;
            if let Some(seed) = power {
                for i in 0..procs.len() {
                    if procs[i].exit.is_none() {
                        self.kill(&mut procs[i]);
                    }
                }
                let d = self.disk.power_loss(seed);
                self.count.power_losses += 1;
                procs[cur].note = d;
                break;
            }
        }
        if procs.len() > 1 {
            *sched = Sched::Explicit(taken);
        }
        Ok(())
    }

    /// Decides the pending call of one process and lets it run to the next.
    fn step(&mut self, p: &mut Proc) -> R<Option<u64>> {
        let r = p.pend.take().expect("parked");
        self.now += 200_000 + (r.nr as i64 % 7) * 13_000;
        if r.kind == K_CLOCK {
            let n = self.now + p.clock_skew;
            self.reply(p, A_RET, n, 0, &[]);
            self.receive(p)?;
            return Ok(None);
        }
        let (class, mutating, what) = self.classify(p, &r);
        let rooted = self.root.to_string_lossy().into_owned() + "/";
        let what = what.replace(&rooted, "").replace(rooted.trim_end_matches('/'), ".");
        // Calls that carry no information about the outside world.
        if matches!(r.nr, libc::SYS_getpid | libc::SYS_gettid) && r.kind != K_SPAWN {
            self.reply(p, A_RET, p.cmd.pid as i64, 0, &[]);
            return self.receive(p).map(|_| None);
        }
        if matches!(r.nr, libc::SYS_fork | libc::SYS_vfork | libc::SYS_clone | libc::SYS_execve | libc::SYS_execveat) && r.kind != K_SPAWN {
            return Err(HarnessError(format!("the command creates a process in a way that is not simulated (syscall {})", r.nr)));
        }
        if r.nr == libc::SYS_clock_gettime && r.kind != K_SPAWN {
            return Err(HarnessError("raw clock_gettime is not simulated".into()));
        }
        if matches!(r.nr, libc::SYS_nanosleep | libc::SYS_clock_nanosleep) && r.kind != K_SPAWN {
            self.now += 1_000_000;
            self.reply(p, A_RET, 0, 0, &[]);
            return self.receive(p).map(|_| None);
        }
        let is_stderr = class == Class::Other && what.starts_with("stderr");
        if is_stderr {
            self.reply(p, A_EXEC, 0, 0, &[]);
            return self.receive(p).map(|_| None);
        }
        // Helpers make progress while the command runs.
        let seed = p.cmd.dirseed;
        let root = self.root.clone();
        for h in p.helpers.values_mut() {
            h.maybe_progress(&root, seed);
        }
        if p.ops.len() > MAX_OPS {
            // No command comes near this; it goes round in circles.
            unsafe { libc::kill(p.pid, libc::SIGKILL) };
            self.reap(p);
            p.exit = Some(Exit::Hang);
            return Ok(None);
        }
        let op = p.ops.len() as u32;
        let count = match class {
            Class::Read | Class::Write | Class::StdoutWrite => {
                if matches!(r.nr, libc::SYS_readv | libc::SYS_writev) {
                    r.a[3]
                } else {
                    r.a[2]
                }
            }
            Class::Random => r.a[1],
            _ => 0,
        };
        let dirty = r.hasstat && self.disk.has_unsynced(r.ino);
        let is_stdin = p.is_stream(&r, p.stdin_ino);
        let mut fs_ = p.planner.decide(op, class, count, dirty, is_stdin);
        // A fault that cannot happen at this call does not happen.
        fs_.retain(|f| match f {
            FaultKind::Short(n) => matches!(class, Class::Read | Class::Write | Class::StdoutWrite | Class::Random) && (*n as i64) < count,
            FaultKind::CloseErr(_) => class == Class::Close,
            FaultKind::LostWrites(_) => matches!(class, Class::Close | Class::Sync) && dirty,
            FaultKind::Errno(_) => !matches!(class, Class::Exit | Class::Clock),
            _ => true,
        });
        let mut rec = OpRec { class, nr: r.nr, what, ret: 0, fault: fs_.first().cloned(), mutating };
        for f in &fs_ {
            p.faults.push(Fault { op, kind: f.clone() });
        }
        let mut oom = 0;
        let mut clip: Option<u64> = None;
        let mut lost: Option<i32> = None;
        let mut closeerr: Option<i32> = None;
        let mut errno: Option<i32> = None;
        for f in &fs_ {
            match f {
                FaultKind::Kill | FaultKind::PowerLoss(_) => {
                    p.ops.push(rec);
                    self.kill(p);
                    self.disk.observe();
                    if let FaultKind::PowerLoss(s) = f {
                        return Ok(Some(*s));
                    }
                    return Ok(None);
                }
                FaultKind::Errno(e) => errno = Some(*e),
                FaultKind::Short(n) => clip = Some(*n),
                FaultKind::CloseErr(e) => closeerr = Some(*e),
                FaultKind::LostWrites(e) => lost = Some(*e),
                FaultKind::Oom(n) => oom = *n,
            }
        }
        let mut g = Granted { mutating, sync_ino: None, sync_all: false, rec: Some(p.ops.len()) };
        let (action, n, data): (u32, i64, Vec<u8>);
        if let Some(e) = lost {
            self.disk.lose_writes(r.ino);
            if class == Class::Close {
                (action, n, data) = (A_EXECRET, -(e as i64), vec![]);
            } else {
                (action, n, data) = (A_RET, -(e as i64), vec![]);
            }
        } else if let Some(e) = errno {
            (action, n, data) = (A_RET, -(e as i64), vec![]);
        } else if let Some(e) = closeerr {
            (action, n, data) = (A_EXECRET, -(e as i64), vec![]);
        } else if r.kind == K_SPAWN {
            let v = self.spawn_helper(p, &r);
            (action, n, data) = (A_RET, v, vec![]);
        } else {
            match r.nr {
                libc::SYS_getrandom => {
                    let want = clip.map(|c| c as i64).unwrap_or(r.a[1]).clamp(0, 4096) as usize;
                    while p.entropy_buf.len() < want {
                        let v = p.rng_entropy.next();
                        p.entropy_buf.extend_from_slice(&v.to_le_bytes());
                    }
                    let d: Vec<u8> = p.entropy_buf.drain(..want).collect();
                    (action, n, data) = (A_RET, want as i64, d);
                }
                libc::SYS_wait4 | libc::SYS_waitid => {
                    (action, n, data) = self.wait_helper(p, &r);
                }
                libc::SYS_kill => {
                    if let Some(h) = p.helpers.get_mut(&(r.a[0] as i32)) {
                        h.kill();
                    }
                    (action, n, data) = (A_RET, 0, vec![]);
                }
                libc::SYS_getdents64 => (action, n, data) = (A_SHUFFLE, p.cmd.dirseed as i64, vec![]),
                libc::SYS_socket | libc::SYS_io_uring_setup | libc::SYS_ptrace | libc::SYS_mount | libc::SYS_umount2 | libc::SYS_reboot
                | libc::SYS_unshare | libc::SYS_setns | libc::SYS_pivot_root | libc::SYS_chroot => {
                    (action, n, data) = (A_RET, -(libc::EPERM as i64), vec![]);
                }
                libc::SYS_chdir | libc::SYS_fchdir => {
                    (action, n, data) = (A_RET, -(libc::EACCES as i64), vec![]);
                }
                libc::SYS_flock => {
                    (action, n, data) = (A_EXEC, 0, vec![]);
                }
                _ => {
                    if mutating && !self.contained(&r) {
                        p.escapes.push(rec.what.clone());
                        (action, n, data) = (A_RET, -(libc::EACCES as i64), vec![]);
                    } else if let Some(c) = clip {
                        (action, n, data) = (A_CLIP, c as i64, vec![]);
                    } else {
                        (action, n, data) = (A_EXEC, 0, vec![]);
                        if matches!(r.nr, libc::SYS_fsync | libc::SYS_fdatasync) {
                            g.sync_ino = Some(r.ino);
                        }
                        if matches!(r.nr, libc::SYS_sync | libc::SYS_syncfs) {
                            g.sync_all = true;
                        }
                    }
                }
            }
        }
        rec.ret = n;
        p.ops.push(rec);
        p.granted = Some(g);
        self.reply(p, action, n, oom, &data);
        self.receive(p)?;
        Ok(None)
    }

    fn abspath(&self, s: &str) -> PathBuf {
        if s.starts_with('/') {
            PathBuf::from(dec(s))
        } else {
            self.root.join(dec(s))
        }
    }

    fn inside(&self, s: &str, follow: bool) -> bool {
        if matches!(s, "/dev/null" | "/dev/stdout" | "/dev/stderr" | "/dev/tty" | "/proc/self/fd/1" | "/proc/self/fd/2" | "/dev/fd/1") {
            return true;
        }
        let p = self.abspath(s);
        if follow {
            if let Ok(c) = fs::canonicalize(&p) {
                return c.starts_with(&self.root);
            }
            if fs::symlink_metadata(&p).is_ok() {
                // Dangling link: judge where it points to.
                if let Ok(t) = fs::read_link(&p) {
                    let t = p.parent().unwrap_or(Path::new("/")).join(t);
                    return t.parent().and_then(|d| fs::canonicalize(d).ok()).map_or(false, |c| c.starts_with(&self.root));
                }
            }
        }
        let mut d = p.parent();
        while let Some(x) = d {
            if let Ok(c) = fs::canonicalize(x) {
                return c.starts_with(&self.root);
            }
            d = x.parent();
        }
        false
    }

    fn contained(&self, r: &Req) -> bool {
        let p2 = enc(&r.p2);
        match r.nr {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat | libc::SYS_openat2 | libc::SYS_truncate | libc::SYS_chmod | libc::SYS_chown
            | libc::SYS_fchmodat | libc::SYS_fchownat | libc::SYS_utime | libc::SYS_utimes | libc::SYS_utimensat | libc::SYS_setxattr => {
                r.p1.is_empty() || self.inside(&r.p1, true)
            }
            libc::SYS_mkdir | libc::SYS_mkdirat | libc::SYS_rmdir | libc::SYS_unlink | libc::SYS_unlinkat | libc::SYS_mknod | libc::SYS_mknodat
            | libc::SYS_lchown | libc::SYS_lsetxattr | libc::SYS_removexattr | libc::SYS_symlink | libc::SYS_symlinkat => self.inside(&r.p1, false),
            libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => self.inside(&r.p1, false) && self.inside(&p2, false),
            // /proc/self/fd/N as the source materialises an O_TMPFILE.
            libc::SYS_link | libc::SYS_linkat => (r.p1.starts_with("/proc/self/fd/") || self.inside(&r.p1, false)) && self.inside(&p2, false),
            _ => true,
        }
    }

    fn classify(&self, p: &Proc, r: &Req) -> (Class, bool, String) {
        use libc::*;
        if r.kind == K_SPAWN {
            let argv: Vec<String> = r.p2.split(|b| *b == 0).filter(|s| !s.is_empty()).map(|s| enc(s)).collect();
            return (Class::Spawn, true, format!("spawn {:?}", argv));
        }
        let p2 = enc(&r.p2);
        let fd = r.a[0];
        let fdname = || {
            if p.is_stream(r, p.stdout_ino) {
                "stdout".to_string()
            } else if p.is_stream(r, p.stdin_ino) {
                "stdin".to_string()
            } else if fd == 2 {
                "stderr".to_string()
            } else {
                self.fd_path(p, fd)
            }
        };
        match r.nr {
            SYS_open | SYS_openat | SYS_openat2 | SYS_creat => {
                let fl = match r.nr {
                    SYS_open => r.a[1],
                    SYS_creat => (O_CREAT | O_WRONLY | O_TRUNC) as i64,
                    _ => r.a[2],
                } as i32;
                let w = (fl & O_ACCMODE) != O_RDONLY || fl & (O_CREAT | O_TRUNC) != 0;
                let c = if w {
                    Class::OpenWrite
                } else if fl & O_DIRECTORY != 0 {
                    Class::Dir
                } else {
                    Class::OpenRead
                };
                (c, w, format!("open {} {}", r.p1, flags(fl)))
            }
            SYS_read | SYS_readv | SYS_pread64 | SYS_preadv | SYS_preadv2 => (Class::Read, false, format!("read {}", fdname())),
            SYS_write | SYS_writev | SYS_pwrite64 | SYS_pwritev | SYS_pwritev2 => {
                let n = fdname();
                let c = if n == "stdout" {
                    Class::StdoutWrite
                } else if n == "stderr" {
                    Class::Other
                } else {
                    Class::Write
                };
                (c, true, format!("{}write {}", if n == "stderr" { "stderr " } else { "" }, n))
            }
            SYS_copy_file_range | SYS_sendfile | SYS_splice => (Class::Write, true, format!("copy #{}", r.nr)),
            // Closing a directory cannot fail.
            SYS_close if r.mode & S_IFMT == S_IFDIR => (Class::Other, false, format!("close {}", fdname())),
            SYS_close => (Class::Close, false, format!("close {}", fdname())),
            SYS_fsync | SYS_fdatasync => (Class::Sync, false, format!("fsync {}", fdname())),
            SYS_sync | SYS_syncfs | SYS_sync_file_range => (Class::Sync, false, "sync".into()),
            SYS_rename | SYS_renameat | SYS_renameat2 => (Class::Rename, true, format!("rename {} -> {}", r.p1, p2)),
            SYS_link | SYS_linkat => (Class::Link, true, format!("link {} -> {}", r.p1, p2)),
            SYS_symlink | SYS_symlinkat => (Class::Link, true, format!("symlink {} -> {}", r.p1, p2)),
            SYS_unlink | SYS_unlinkat | SYS_rmdir => (Class::Unlink, true, format!("unlink {}", r.p1)),
            SYS_mkdir | SYS_mkdirat => (Class::Mkdir, true, format!("mkdir {}", r.p1)),
            SYS_mknod | SYS_mknodat => (Class::Meta, true, format!("mknod {}", r.p1)),
            SYS_stat | SYS_lstat | SYS_newfstatat | SYS_statx | SYS_access | SYS_faccessat | SYS_faccessat2 | SYS_readlink | SYS_readlinkat
            | SYS_statfs => {
                if r.p1.is_empty() {
                    (Class::Stat, false, format!("fstat {}", fdname()))
                } else if r.p1.len() > 1 && r.p1.starts_with('/') && self.root.starts_with(&r.p1) {
                    (Class::Stat, false, "stat (above)".into())
                } else {
                    (Class::Stat, false, format!("stat {}", r.p1))
                }
            }
            SYS_fstat => (Class::Stat, false, format!("fstat {}", fdname())),
            SYS_getdents | SYS_getdents64 => (Class::Dir, false, format!("readdir {}", fdname())),
            SYS_lseek => (Class::Seek, false, format!("lseek {}", fdname())),
            SYS_ftruncate | SYS_fallocate => (Class::Truncate, true, format!("truncate {}", fdname())),
            SYS_truncate => (Class::Truncate, true, format!("truncate {}", r.p1)),
            SYS_chmod | SYS_fchmodat | SYS_chown | SYS_lchown | SYS_fchownat | SYS_utime | SYS_utimes | SYS_utimensat | SYS_setxattr
            | SYS_lsetxattr | SYS_removexattr => (Class::Meta, true, format!("meta {}", r.p1)),
            SYS_fchmod | SYS_fchown => (Class::Meta, true, format!("meta {}", fdname())),
            SYS_getrandom => (Class::Random, false, "getrandom".into()),
            // A wait that does not block cannot be interrupted.
            SYS_wait4 | SYS_waitid if (if r.nr == SYS_wait4 { r.a[2] } else { r.a[3] }) & WNOHANG as i64 != 0 => (Class::Other, true, "wait (polled)".into()),
            SYS_wait4 | SYS_waitid => (Class::Wait, true, "wait".into()),
            SYS_exit_group => (Class::Exit, false, format!("exit {}", r.a[0])),
            _ => (Class::Other, true, format!("syscall {}", r.nr)),
        }
    }

    fn fd_path(&self, p: &Proc, fd: i64) -> String {
        match fs::read_link(format!("/proc/{}/fd/{}", p.pid, fd)) {
            Ok(t) => {
                let s = enc_os(t.as_os_str());
                if s.starts_with("pipe:") || s.starts_with("socket:") || s.starts_with("anon_inode:") {
                    "pipe".into()
                } else {
                    s
                }
            }
            Err(_) => format!("fd{fd}"),
        }
    }

    fn spawn_helper(&mut self, p: &mut Proc, r: &Req) -> i64 {
        let argv: Vec<String> = r.p2.split(|b| *b == 0).map(|s| enc(s)).collect();
        let argv = if argv.last().map_or(false, |s| s.is_empty()) { argv[..argv.len() - 1].to_vec() } else { argv };
        let name = r.p1.rsplit('/').next().unwrap_or("").to_string();
        let (role, plan) = if name == "gm" {
            (Role::Gm, &p.cmd.gm)
        } else if name == "tesseract" {
            (Role::Tesseract, &p.cmd.tess)
        } else {
            return -(libc::ENOENT as i64);
        };
        if let Some(e) = plan.missing {
            *self.count.faults.entry(format!("helper {name}: spawn {}", errname(e))).or_default() += 1;
            return -(e as i64);
        }
        if plan.stop_after.is_some() || plan.exit != 0 || plan.signal.is_some() {
            *self.count.faults.entry(format!("helper {name}: {}", if plan.signal.is_some() { "killed" } else if plan.exit != 0 { "reports failure" } else { "stops early" })).or_default() += 1;
        }
        self.count.helpers += 1;
        let pid = p.next_pid;
        p.next_pid += 1;
        p.helpers.insert(pid, Helper::new(role, argv, plan.clone(), &self.root));
        pid as i64
    }

    fn wait_helper(&mut self, p: &mut Proc, r: &Req) -> (u32, i64, Vec<u8>) {
        let pid = if r.nr == libc::SYS_wait4 {
            r.a[0] as i32
        } else if r.a[0] == 1 {
            r.a[1] as i32
        } else {
            -1
        };
        let pid = if pid <= 0 { p.helpers.keys().copied().min().unwrap_or(-1) } else { pid };
        let opts = if r.nr == libc::SYS_wait4 { r.a[2] } else { r.a[3] };
        let root = self.root.clone();
        let Some(h) = p.helpers.get_mut(&pid) else {
            return (A_RET, -(libc::ECHILD as i64), vec![]);
        };
        if opts & libc::WNOHANG as i64 != 0 && !h.done() {
            return (A_RET, 0, vec![]);
        }
        h.finish(&root);
        let status = h.status();
        p.helpers.remove(&pid);
        self.now += 3_000_000_000;
        if r.nr == libc::SYS_wait4 {
            (A_RET, pid as i64, (status as i32).to_le_bytes().to_vec())
        } else {
            let mut si = vec![0u8; 128];
            si[0..4].copy_from_slice(&libc::SIGCHLD.to_le_bytes());
            let (code, st) = if status & 0x7f == 0 { (1i32, (status >> 8) & 0xff) } else { (2, status & 0x7f) };
            si[8..12].copy_from_slice(&code.to_le_bytes());
            si[16..20].copy_from_slice(&pid.to_le_bytes());
            si[24..28].copy_from_slice(&st.to_le_bytes());
            (A_RET, 0, si)
        }
    }
}

/// Whether other processes can notice or influence the pending call.
fn visible(p: &Proc) -> bool {
    match &p.pend {
        None => true,
        Some(r) if r.kind == K_CLOCK => false,
        Some(r) if r.kind == K_SPAWN => true,
        Some(r) => !matches!(r.nr, libc::SYS_getpid | libc::SYS_gettid | libc::SYS_getrandom | libc::SYS_exit_group | libc::SYS_fadvise64),
    }
}

fn flags(fl: i32) -> String {
    let mut s = String::new();
    s.push_str(match fl & libc::O_ACCMODE {
        libc::O_RDONLY => "R",
        libc::O_WRONLY => "W",
        _ => "RW",
    });
    for (f, n) in [(libc::O_CREAT, "+creat"), (libc::O_TRUNC, "+trunc"), (libc::O_EXCL, "+excl"), (libc::O_APPEND, "+append"), (libc::O_DIRECTORY, "+dir")] {
        if fl & f != 0 {
            s.push_str(n);
        }
    }
    s
}

pub fn errname(e: i32) -> String {
    use libc::*;
    for (v, n) in [
        (EIO, "EIO"), (ENOSPC, "ENOSPC"), (EACCES, "EACCES"), (EPERM, "EPERM"), (EINTR, "EINTR"), (EPIPE, "EPIPE"), (EMFILE, "EMFILE"),
        (ENFILE, "ENFILE"), (EROFS, "EROFS"), (EDQUOT, "EDQUOT"), (EFBIG, "EFBIG"), (EBUSY, "EBUSY"), (ENOENT, "ENOENT"), (ENOMEM, "ENOMEM"),
        (EAGAIN, "EAGAIN"),
    ] {
        if v == e {
            return n.into();
        }
    }
    format!("errno {e}")
}

fn he(e: std::io::Error) -> HarnessError {
    HarnessError(e.to_string())
}

extern "C" {
    fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, path: *const libc::c_char) -> libc::c_int;
}
