//! Who may see a file while and after it is rewritten (C18).
use crate::common::*;
use crate::engine::{Prop, Bad, Stats};
use crate::gen::{self, Fam, WOpts, Work};
use crate::io::{helper_fault, key, kind_of, plans};
use crate::machine::{Machine, Seen, R};
use crate::rng::Rng;
use crate::types::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct C18;

/// How the files of a case are protected.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Guard {
    /// Of the files to be rewritten.
    mode: u32,
    uid: u32,
    gid: u32,
    /// Of the files that are only read.
    fixed_in_mode: u32,
    umask: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Who {
    Anyone,
    Group(u32),
    User(u32),
}

/// Who gets in with these permission bits, other than root.
fn who(mode: u32, uid: u32, gid: u32, bit: u32) -> BTreeSet<Who> {
    let mut s = BTreeSet::new();
    if mode & bit != 0 {
        s.insert(Who::Anyone);
    }
    if mode & (bit << 3) != 0 {
        s.insert(Who::Group(gid));
    }
    if mode & (bit << 6) != 0 && uid != 0 {
        s.insert(Who::User(uid));
    }
    s
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "A case is one command over files with seeded owners and permissions, under a seeded umask, with kills, failing calls and failing helpers at seeded points; who may open each file is looked at after every system call; non-trivial when a fault took effect or the case has private files; distinct by files, arguments, protection and call trace."
    }
    fn quick_runs(&self) -> u64 {
        2500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 5) { "pdf" } else { kind_of(rng, idx) };
        let w = { let o = WOpts { stdio: rng.chance(1, 6), symlinks: true, big: rng.chance(1, 4) }; gen::work(rng, k, &o) };
        let n = if thorough { 30 } else { 9 };
        let mut p = plans(rng, n, &mut |r| {
            let mut p = if r.chance(1, 2) { gen::plan(r, Fam::Fail) } else { gen::any_plan(r) };
            if let Plan::Random(q) = &mut p {
                // Who may see what on a disk after a power loss is not said.
                q.power = false;
                if r.chance(1, 6) {
                    q.classes = vec![Class::Meta];
                    q.fail_at = Some(0);
                    q.err = *r.pick(&[300, 1000]);
                }
            }
            p
        });
        p.insert(0, Plan::None);
        let hs: Vec<(HelperPlan, HelperPlan)> = p
            .iter()
            .map(|_| {
                if k != "pdf" || rng.chance(1, 2) {
                    Default::default()
                } else if rng.chance(1, 2) {
                    (helper_fault(rng), Default::default())
                } else {
                    (Default::default(), helper_fault(rng))
                }
            })
            .collect();
        let own = rng.chance(1, 2);
        let g = Guard {
            mode: *rng.pick(&[0o600, 0o600, 0o640, 0o660, 0o644, 0o664, 0o604, 0o666, 0o400, 0o700]),
            uid: if own { *rng.pick(&[1000, 1001]) } else { 0 },
            gid: if own || rng.chance(1, 3) { *rng.pick(&[100, 1000, 2000]) } else { 0 },
            fixed_in_mode: *rng.pick(&[0o600, 0o640, 0o644]),
            umask: *rng.pick(&[0o022, 0o022, 0o077, 0o002, 0, 0o027]),
        };
        json!({"work": w, "guard": g, "plans": p, "helpers": hs})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(mut w), Some(g), Some(plans), Some(hs)) =
            (parse::<Work>(v, "work"), parse::<Guard>(v, "guard"), parse::<Vec<Plan>>(v, "plans"), parse::<Vec<(HelperPlan, HelperPlan)>>(v, "helpers"))
        else {
            return Ok(None);
        };
        w.cmd.env.retain(|e| e.0 != "AM_UMASK");
        w.cmd.env.push(("AM_UMASK".into(), format!("{:o}", g.umask)));
        let Some(b) = baseline(m, &w)? else {
            st.skip("the undisturbed command fails");
            return Ok(None);
        };
        st.note(&format!("work {}", w.kind));
        let outs: BTreeSet<String> = w.outs.iter().map(|o| resolve(&b.t0, o)).collect();
        let inputs: BTreeSet<String> = w.cmd.args.iter().map(|a| resolve(&b.t0, a)).filter(|a| data(&b.t0, a).is_some() && !outs.contains(a)).collect();
        // A command that rewrites what it reads has no other inputs.
        let read: BTreeSet<String> = if inputs.is_empty() { outs.iter().filter(|o| b.t0.contains_key(*o)).cloned().collect() } else { inputs.clone() };
        let parent = |p: &str| p.rfind('/').map_or(String::new(), |i| p[..i].to_string());
        for (i, p) in plans.into_iter().enumerate() {
            m.restore(&b.t0);
            let mut old: BTreeMap<String, Seen> = BTreeMap::new();
            for f in b.t0.keys().filter(|f| data(&b.t0, f).is_some()) {
                if outs.contains(f) {
                    m.protect(f, g.mode, g.uid, g.gid);
                } else if inputs.contains(f) {
                    m.protect(f, g.fixed_in_mode, 0, 0);
                }
            }
            // Several names of one file have its protection.
            for f in b.t0.keys().filter(|f| data(&b.t0, f).is_some()) {
                if let Some(s) = m.protection(f) {
                    old.insert(f.clone(), s);
                }
            }
            let h = hs.get(i).cloned().unwrap_or_default();
            let mut c = w.cmd.with_plan(p);
            (c.gm, c.tess) = h.clone();
            m.watch = Some(Default::default());
            let r = m.run(&c, b.total);
            let seen = m.watch.take().unwrap_or_default();
            let r = r?;
            let t = m.tree();
            record(st, &r, &t, key(&w) ^ ((g.mode as u64) << 40 | (g.umask as u64) << 20 | g.uid as u64));
            if g.mode & 0o044 == 0 {
                st.note("private outputs");
            }
            let sc = || json!({"work": w, "guard": g, "plans": [r.applied()], "helpers": [h]});
            let fresh = |bit| who(0o666 & !g.umask, 0, 0, bit);
            for (s, op) in &seen {
                // What the user's files allowed.
                let allow = |bit: u32| -> Option<BTreeSet<Who>> {
                    let of = |p: &str| match old.get(p) {
                        Some(o) => who(o.mode, o.uid, o.gid, bit),
                        None => fresh(bit),
                    };
                    if let Some(o) = old.get(&s.path) {
                        return Some(who(o.mode, o.uid, o.gid, bit));
                    }
                    // The same file under another name.
                    if let Some(o) = old.values().find(|o| o.ino == s.ino) {
                        return Some(who(o.mode, o.uid, o.gid, bit));
                    }
                    if outs.contains(&s.path) {
                        return Some(fresh(bit));
                    }
                    let near: Vec<&String> = outs.iter().filter(|o| parent(o) == parent(&s.path)).collect();
                    let near: Vec<&String> = if !near.is_empty() || !s.path.starts_with("tmp") && w.cmd.tmpdir.as_deref().map_or(true, |d| !s.path.starts_with(d)) {
                        if near.is_empty() { outs.iter().collect() } else { near }
                    } else {
                        // Copies of what is read.
                        return read.iter().map(|i| of(i)).reduce(|a, b| a.union(&b).cloned().collect());
                    };
                    near.iter().map(|o| of(o)).reduce(|a, b| a.union(&b).cloned().collect())
                };
                for (bit, verb) in [(4, "read"), (2, "change")] {
                    let Some(a) = allow(bit) else { continue };
                    let now = who(s.eff, s.uid, s.gid, bit);
                    if a.contains(&Who::Anyone) {
                        continue;
                    }
                    if let Some(x) = now.iter().find(|x| !a.contains(x)) {
                        let what = r.ops.get(*op as usize).map_or("the end".to_string(), |o| o.what.clone());
                        let msg = format!(
                            "{:?} with umask {:03o}, {} (exit {:?}), rewriting files of mode {:03o} of user {} and group {}: after call {op} ({what}) {:?} may {verb} {} (mode {:03o}, user {}, group {}), which holds data, but before only {:?} could",
                            w.cmd.args, g.umask, faults_text(&r), r.exit, g.mode, g.uid, g.gid, x, s.path, s.mode, s.uid, s.gid, a
                        );
                        return Ok(Some(bad("exposed", msg, sc(), &[&r])));
                    }
                }
            }
            let meta_failed = r.faults.iter().any(|f| r.ops.get(f.op as usize).map_or(true, |o| o.class == Class::Meta));
            if !r.ok() || meta_failed {
                continue;
            }
            st.note("completed");
            for o in &outs {
                let Some(now) = m.protection(o) else { continue };
                let (mode, uid, gid) = match old.get(o) {
                    Some(p) => (p.mode, p.uid, p.gid),
                    None => (0o666 & !g.umask, 0, 0),
                };
                if (now.mode, now.uid, now.gid) != (mode, uid, gid) {
                    let msg = format!(
                        "{:?} with umask {:03o}, {}: {o} has mode {:03o}, user {}, group {}; it should have {:03o}, {uid}, {gid}",
                        w.cmd.args, g.umask, faults_text(&r), now.mode, now.uid, now.gid, mode
                    );
                    return Ok(Some(bad("changed", msg, sc(), &[&r])));
                }
            }
            for (p, n) in &b.t0 {
                if matches!(n, Node::Symlink(_)) && t.get(p) != Some(n) {
                    let msg = format!("{:?}, {}: the symbolic link {p} is gone", w.cmd.args, faults_text(&r));
                    return Ok(Some(bad("link", msg, sc(), &[&r])));
                }
            }
        }
        Ok(None)
    }
}
