//! Properties about files and streams under faults: C01 C02 C03 C04 C05 C13 C17.
use crate::common::*;
use crate::disk::Tree;
use crate::engine::{Bad, Prop, Stats};
use crate::gen::{self, Fam, WOpts, Work};
use crate::machine::{Machine, Run, R};
use crate::rng::{Hash, Rng};
use crate::types::*;
use serde_json::{json, Value};

pub fn key(w: &Work) -> u64 {
    let mut h = Hash::new();
    h.add(w.kind.as_bytes());
    h.add(serde_json::to_string(&w.files).unwrap_or_default().as_bytes());
    h.add(w.cmd.args.join(" ").as_bytes());
    h.0
}

pub fn kind_of(rng: &mut Rng, idx: u64) -> &'static str {
    // Every kind in turn, so that short runs cover all of them.
    if rng.chance(4, 5) {
        gen::KINDS[(idx as usize) % gen::KINDS.len()]
    } else {
        *rng.pick(gen::KINDS)
    }
}

pub fn plans(rng: &mut Rng, n: usize, f: &mut dyn FnMut(&mut Rng) -> Plan) -> Vec<Plan> {
    (0..n).map(|_| f(rng)).collect()
}

/// A helper program that fails, for PDF imports.
pub fn helper_fault(rng: &mut Rng) -> HelperPlan {
    let mut h = HelperPlan::default();
    match rng.below(4) {
        0 => h.missing = Some(*rng.pick(&[libc::ENOENT, libc::EACCES, libc::ENOMEM])),
        1 => {
            h.signal = Some(*rng.pick(&[9, 11, 15]));
            h.stop_after = Some(rng.below(4) as u32);
            h.torn = rng.chance(1, 2);
        }
        _ => {
            h.exit = *rng.pick(&[1, 2, 127, 255]);
            if rng.chance(2, 3) {
                h.stop_after = Some(rng.below(4) as u32);
                h.torn = rng.chance(1, 2);
            }
        }
    }
    h
}

// ------------------------------------------------------------------------ C01
pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "A case is one command run with faults (kill, power loss, failing or shortened calls) at seeded points; it is non-trivial when at least one fault took effect, and distinct by its files, arguments and the trace of its system calls with their outcomes."
    }
    fn quick_runs(&self) -> u64 {
        3300
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = kind_of(rng, idx);
        let w = { let o = WOpts { stdio: rng.chance(1, 5), symlinks: true, big: rng.chance(1, 4) }; gen::work(rng, k, &o) };
        let n = if thorough { 40 } else { 14 };
        let p = plans(rng, n, &mut |r| gen::any_plan(r));
        json!({"work": w, "plans": p})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(plans)) = (parse::<Work>(v, "work"), parse::<Vec<Plan>>(v, "plans")) else { return Ok(None) };
        let Some(b) = baseline(m, &w)? else {
            st.skip("the undisturbed command fails");
            return Ok(None);
        };
        st.note(&format!("work {}", w.kind));
        if let Some(x) = escape_check(&b.run, &one_plan(&w, Plan::None)) {
            return Ok(Some(x));
        }
        if let Some(x) = changed_other(&b.t0, &b.t1, &w.outs) {
            return Ok(Some(bad("other-file", format!("{:?} changed a file it was not asked to write: {x}", w.cmd.args), one_plan(&w, Plan::None), &[&b.run])));
        }
        for p in plans {
            m.restore(&b.t0);
            let r = m.run(&w.cmd.with_plan(p), b.total)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            let sc = one_plan(&w, r.applied());
            if let Some(x) = escape_check(&r, &sc) {
                return Ok(Some(x));
            }
            for o in &w.outs {
                let got = data(&t, o);
                let (a, z) = (data(&b.t0, o), data(&b.t1, o));
                if got == a || masked(&w, &b.t0, o, got) == masked(&w, &b.t0, o, z) {
                    st.note(if got == a { "output as before" } else { "output complete" });
                    continue;
                }
                let msg = format!(
                    "{:?}: after {} (exit {:?}) {o} holds neither its previous nor the complete new content.\nprevious: {}\ncomplete: {}\nfound: {}",
                    w.cmd.args, faults_text(&r), r.exit, show(a), show(z), show(got)
                );
                return Ok(Some(bad("torn", msg, sc, &[&r])));
            }
            if let Some(x) = changed_other(&b.t0, &t, &w.outs) {
                let msg = format!("{:?}: after {} (exit {:?}) another file of the user's was changed: {x}", w.cmd.args, faults_text(&r), r.exit);
                return Ok(Some(bad("other-file", msg, sc, &[&r])));
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C02
pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "A case is one command run with failing, shortened or interrupted calls, a full disk or lost writes; non-trivial when at least one fault took effect; distinct by files, arguments and call trace."
    }
    fn quick_runs(&self) -> u64 {
        3000
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = kind_of(rng, idx);
        let mut w = { let o = WOpts { stdio: rng.chance(1, 2), symlinks: true, big: rng.chance(1, 3) }; gen::work(rng, k, &o) };
        w.cmd.pipe |= rng.chance(1, 3);
        let n = if thorough { 40 } else { 14 };
        let p = plans(rng, n, &mut |r| {
            let f = if r.chance(5, 6) { Fam::Fail } else if r.chance(3, 4) { Fam::Mixed } else { Fam::Oom };
            let mut p = gen::plan(r, f);
            if let Plan::Random(q) = &mut p {
                // Streams of standard output deserve their own faults.
                if r.chance(1, 8) {
                    q.classes = vec![Class::StdoutWrite];
                    q.fail_at = Some(0);
                    q.err = if r.chance(1, 2) { 500 } else { 0 };
                }
            }
            p
        });
        json!({"work": w, "plans": p})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(plans)) = (parse::<Work>(v, "work"), parse::<Vec<Plan>>(v, "plans")) else { return Ok(None) };
        let Some(b) = baseline(m, &w)? else {
            st.skip("the undisturbed command fails");
            return Ok(None);
        };
        st.note(&format!("work {}", w.kind));
        let so = masked_stdout(&w, &b.run.stdout);
        if w.outs.is_empty() && so.is_empty() && w.kind != "merge" && !(w.kind == "fmt" || w.kind == "fpgen") && b.run.ok() && false {
            return Ok(None);
        }
        for p in plans {
            m.restore(&b.t0);
            let r = m.run(&w.cmd.with_plan(p), b.total)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            st.note(if r.ok() { "succeeded" } else { "reported failure" });
            if !r.ok() {
                continue;
            }
            let sc = one_plan(&w, r.applied());
            for o in &w.outs {
                let (want, got) = (data(&b.t1, o), data(&t, o));
                if masked(&w, &b.t0, o, want) != masked(&w, &b.t0, o, got) {
                    let msg = format!("{:?} exits with success after {} but {o} is not the complete output.\nexpected: {}\nfound: {}", w.cmd.args, faults_text(&r), show(want), show(got));
                    return Ok(Some(bad("undelivered-file", msg, sc, &[&r])));
                }
            }
            if masked_stdout(&w, &r.stdout) != so {
                let msg = format!(
                    "{:?} exits with success after {} but standard output is incomplete.\nexpected: {}\nfound: {}",
                    w.cmd.args, faults_text(&r), show(Some(&b.run.stdout)), show(Some(&r.stdout))
                );
                return Ok(Some(bad("undelivered-stdout", msg, sc, &[&r])));
            }
            if let Some(x) = changed_other(&b.t0, &t, &w.outs) {
                return Ok(Some(bad("other-file", format!("{:?} exits with success after {} and changed another file: {x}", w.cmd.args, faults_text(&r)), sc, &[&r])));
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C13
pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "A case is one command that ended by itself after failing calls or failing helper programs; non-trivial when a fault took effect; distinct by files, arguments, helper behaviour and call trace."
    }
    fn quick_runs(&self) -> u64 {
        2500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 2) { "pdf" } else { kind_of(rng, idx) };
        let w = { let o = WOpts { stdio: rng.chance(1, 5), symlinks: true, big: rng.chance(1, 8) }; gen::work(rng, k, &o) };
        let n = if thorough { 40 } else { 12 };
        let p = plans(rng, n, &mut |r| {
            if r.chance(1, 12) {
                return Plan::None;
            }
            let f = if r.chance(5, 6) { Fam::Fail } else { Fam::Mixed };
            gen::plan(r, f)
        });
        let helpers: Vec<(HelperPlan, HelperPlan)> = (0..n)
            .map(|_| {
                if k != "pdf" || rng.chance(1, 2) {
                    Default::default()
                } else if rng.chance(1, 2) {
                    (helper_fault(rng), Default::default())
                } else {
                    (Default::default(), helper_fault(rng))
                }
            })
            .collect();
        json!({"work": w, "plans": p, "helpers": helpers})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(plans), Some(hs)) = (parse::<Work>(v, "work"), parse::<Vec<Plan>>(v, "plans"), parse::<Vec<(HelperPlan, HelperPlan)>>(v, "helpers")) else {
            return Ok(None);
        };
        let b = baseline_any(m, &w)?;
        let sc0 = |p: Plan, h: &(HelperPlan, HelperPlan)| json!({"work": w, "plans": [p], "helpers": [h]});
        let l = leftovers(&b.t0, &b.t1, &w.outs);
        if !l.is_empty() {
            return Ok(Some(bad("left-behind", format!("{:?} (exit {:?}) leaves {:?} behind", w.cmd.args, b.run.exit, l), sc0(Plan::None, &Default::default()), &[&b.run])));
        }
        for (i, p) in plans.into_iter().enumerate() {
            m.restore(&b.t0);
            let h = hs.get(i).cloned().unwrap_or_default();
            let mut c = w.cmd.with_plan(p);
            (c.gm, c.tess) = h.clone();
            let r = m.run(&c, b.total)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            if h != Default::default() {
                let mut k = Hash::new();
                k.u64(r.trace_hash());
                k.add(format!("{h:?}").as_bytes());
                st.mark(k.0);
            }
            let l = leftovers(&b.t0, &t, &w.outs);
            if l.is_empty() {
                st.note("nothing left behind");
                continue;
            }
            if !matches!(r.exit, Exit::Code(_)) {
                st.skip("the command did not end by itself");
                continue;
            }
            // Was the clean-up itself disturbed?
            let about = |what: &str| l.iter().any(|p| what.contains(p.as_str()) || p.split('/').next().map_or(false, |x| x.starts_with('.') && what.contains(x)));
            let last_wait = r.ops.iter().rposition(|o| o.class == Class::Wait || o.what == "wait (polled)" || (o.class == Class::Write && l.iter().any(|p| o.what.contains(p.as_str()))));
            let cleanup = r.ops.iter().enumerate().any(|(i, o)| {
                matches!(&o.fault, Some(FaultKind::Errno(_)))
                    && (o.class == Class::Unlink || (o.class == Class::Dir && last_wait.map_or(true, |w| w < i)) || (o.class == Class::Stat && about(&o.what)))
            });
            if cleanup {
                st.skip("removing it was what failed");
                continue;
            }
            let msg = format!("{:?} after {} (exit {:?}, helpers {:?}) leaves behind: {:?}", w.cmd.args, faults_text(&r), r.exit, h, l);
            return Ok(Some(bad("left-behind", msg, sc0(r.applied(), &h), &[&r])));
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------------ C17
pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of one to three disturbed runs of a command followed by an undisturbed run; non-trivial when a fault took effect; distinct by files, arguments and call traces."
    }
    fn quick_runs(&self) -> u64 {
        2500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 8) { "merge" } else { kind_of(rng, idx) };
        let mut w = { let o = WOpts { stdio: rng.chance(1, 5), symlinks: true, big: rng.chance(1, 8) }; gen::work(rng, k, &o) };
        if k == "merge" && rng.chance(1, 2) {
            // With something to leave unmerged.
            ambiguous_merge(rng, &mut w);
        }
        let n = if thorough { 20 } else { 7 };
        let h: Vec<Vec<Plan>> = (0..n)
            .map(|_| {
                let k = *rng.pick(&[1usize, 1, 1, 2, 3]);
                plans(rng, k, &mut |r| gen::any_plan(r))
            })
            .collect();
        json!({"work": w, "histories": h})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(hs)) = (parse::<Work>(v, "work"), parse::<Vec<Vec<Plan>>>(v, "histories")) else { return Ok(None) };
        let Some(b) = baseline(m, &w)? else {
            st.skip("the undisturbed command fails");
            return Ok(None);
        };
        // What running it again on its own results gives.
        let mut versions: Vec<(Tree, Vec<u8>)> = vec![(b.t1.clone(), b.run.stdout.clone())];
        let inputs_overwritten = w.outs.iter().any(|o| b.t0.contains_key(o));
        if inputs_overwritten {
            let aliased = w.kind == "merge" && merge_inputs(&w).iter().map(|i| resolve(&b.t0, i)).any(|i| data(&b.t0, &i) != data(&b.t1, &i));
            if aliased {
                let mut c = w.cmd.with_plan(Plan::None);
                if let Some(i) = c.args.iter().position(|a| a == "-u") {
                    c.args.drain(i..i + 2);
                }
                m.restore(&b.t0);
                if !m.run(&c, 0)?.ok() {
                    st.skip("a merge over its own input leaves transactions unmerged");
                    return Ok(None);
                }
            }
            let longest = hs.iter().map(|h| h.len()).max().unwrap_or(0);
            for _ in 0..longest {
                m.restore(&versions.last().unwrap().0.clone());
                let r = m.run(&w.cmd.with_plan(Plan::None), 0)?;
                let t = m.tree();
                if !r.ok() {
                    let msg = format!("{:?} succeeds, but running it again on its result fails: {}", w.cmd.args, r.err());
                    return Ok(Some(bad("rerun-fails", msg, json!({"work": w, "histories": hs}), &[&b.run, &r])));
                }
                let same = w.outs.iter().all(|o| data(&t, o) == data(&versions.last().unwrap().0, o));
                if same {
                    break;
                }
                versions.push((t, r.stdout));
            }
        }
        st.note(&format!("work {}", w.kind));
        for h in hs {
            m.restore(&b.t0);
            let mut runs: Vec<Run> = vec![];
            let mut explicit = vec![];
            for p in h {
                let r = m.run(&w.cmd.with_plan(p), b.total)?;
                explicit.push(r.applied());
                runs.push(r);
            }
            let mid = m.tree();
            let last = m.run(&w.cmd.with_plan(Plan::None), 0)?;
            let t = m.tree();
            for r in &runs {
                record(st, r, &mid, key(&w));
            }
            let sc = json!({"work": w, "histories": [explicit]});
            let what = runs.iter().map(faults_text).collect::<Vec<_>>().join("; then ");
            runs.push(last);
            let last = runs.last().unwrap();
            let rr: Vec<&Run> = runs.iter().collect();
            if !last.ok() {
                let msg = format!("{:?}: after {what}, running it again fails ({:?}): {}", w.cmd.args, last.exit, last.err());
                return Ok(Some(bad("rerun-fails", msg, sc, &rr)));
            }
            for o in &w.outs {
                let got = masked(&w, &b.t0, o, data(&t, o));
                if !versions.iter().any(|(v, _)| masked(&w, &b.t0, o, data(v, o)) == got) {
                    let msg = format!(
                        "{:?}: after {what} and an undisturbed run, {o} differs from the result of an undisturbed run: {}",
                        w.cmd.args,
                        diff(&masked(&w, &b.t0, o, data(&b.t1, o)).unwrap_or_default(), &got.unwrap_or_default())
                    );
                    return Ok(Some(bad("rerun-differs", msg, sc, &rr)));
                }
            }
            let so = masked_stdout(&w, &last.stdout);
            if !versions.iter().any(|(_, s)| masked_stdout(&w, s) == so) {
                let msg = format!("{:?}: after {what}, the undisturbed run prints something else: {}", w.cmd.args, diff(&b.run.stdout, &last.stdout));
                return Ok(Some(bad("rerun-differs", msg, sc, &rr)));
            }
            if let Some(x) = changed_other(&b.t0, &t, &w.outs) {
                return Ok(Some(bad("other-file", format!("{:?}: after {what} and an undisturbed run: {x}", w.cmd.args), sc, &rr)));
            }
            st.note("re-run completed the work");
        }
        Ok(None)
    }
}

pub fn merge_inputs(w: &Work) -> Vec<String> {
    let a = &w.cmd.args;
    let mut v = vec![];
    let mut i = 1;
    while i < a.len() {
        if a[i] == "-u" || a[i] == "-o" {
            i += 2;
            continue;
        }
        v.push(a[i].clone());
        i += 1;
    }
    v
}

// ------------------------------------------------------------------------ C04
pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A case is one command whose reads and writes are cut into seeded pieces, interrupted, or go through pipes; non-trivial when at least one call was cut or interrupted or a file was replaced by a pipe; distinct by files, arguments and call trace."
    }
    fn quick_runs(&self) -> u64 {
        1200
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = kind_of(rng, idx);
        let mut w = { let o = WOpts { stdio: rng.chance(1, 2), symlinks: false, big: rng.chance(1, 3) }; gen::work(rng, k, &o) };
        if rng.chance(1, 4) {
            odd_bytes(rng, &mut w);
        }
        let n = if thorough { 40 } else { 12 };
        let p = plans(rng, n, &mut |r| {
            let mut q = RandomPlan { seed: r.next() >> 16, ..Default::default() };
            q.short = *r.pick(&[1000, 1000, 700, 300]);
            q.max_short = *r.pick(&[1, 2, 3, 7, 64, 1000, 5000]);
            q.eintr = *r.pick(&[0, 100, 400]);
            q.eintr_reads = r.chance(1, 4);
            Plan::Random(q)
        });
        let pipes: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
        json!({"work": w, "plans": p, "pipes": pipes, "variants": true})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(plans), Some(pipes)) = (parse::<Work>(v, "work"), parse::<Vec<Plan>>(v, "plans"), parse::<Vec<bool>>(v, "pipes")) else { return Ok(None) };
        let b = baseline_any(m, &w)?;
        if !matches!(b.run.exit, Exit::Code(_)) {
            return Ok(None);
        }
        st.note(&format!("work {}", w.kind));
        let so = masked_stdout(&w, &b.run.stdout);
        for (i, p) in plans.into_iter().enumerate() {
            m.restore(&b.t0);
            let pipe = pipes.get(i).copied().unwrap_or(false);
            let mut c = w.cmd.with_plan(p);
            c.pipe |= pipe;
            let r = m.run(&c, b.total)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            let sc = json!({"work": w, "plans": [r.applied()], "pipes": [pipe], "variants": false});
            let eintr_read = r.ops.iter().any(|o| matches!(o.class, Class::Read | Class::OpenRead) && matches!(o.fault, Some(FaultKind::Errno(libc::EINTR))));
            if r.exit != b.run.exit {
                if eintr_read && !r.ok() {
                    st.note("an interrupted read made the command fail");
                    continue;
                }
                let msg = format!("{:?}: exit {:?} instead of {:?} after {}: {}", w.cmd.args, r.exit, b.run.exit, faults_text(&r), r.err());
                return Ok(Some(bad("exit-differs", msg, sc, &[&r])));
            }
            for o in &w.outs {
                let (want, got) = (masked(&w, &b.t0, o, data(&b.t1, o)), masked(&w, &b.t0, o, data(&t, o)));
                if want != got {
                    let msg = format!("{:?}: {o} differs when I/O is cut into pieces ({}): {}", w.cmd.args, faults_text(&r), diff(&want.unwrap_or_default(), &got.unwrap_or_default()));
                    return Ok(Some(bad("output-differs", msg, sc, &[&r])));
                }
            }
            if masked_stdout(&w, &r.stdout) != so {
                let msg = format!("{:?}: standard output differs when I/O is cut into pieces ({}): {}", w.cmd.args, faults_text(&r), diff(&so, &masked_stdout(&w, &r.stdout)));
                return Ok(Some(bad("output-differs", msg, sc, &[&r])));
            }
        }
        if v.get("variants") == Some(&json!(true)) && b.run.ok() {
            return self.variants(&w, &b, m, st);
        }
        Ok(None)
    }
}
impl C04 {
    /// The same bytes through standard input or output instead of a file.
    fn variants(&self, w: &Work, b: &Base, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let sc = json!({"work": w, "plans": [], "pipes": [], "variants": true});
        let a = &w.cmd.args;
        let mut tries: Vec<(String, Cmd, Option<String>)> = vec![];
        // Input by standard input.
        if w.cmd.stdin.is_none() {
            let input = match w.kind.as_str() {
                "fmt" | "fpgen" if a.len() == 2 => Some(1),
                "nwcsv" => a.iter().position(|x| x == "statement.csv"),
                "paypal" => a.iter().position(|x| x == "download.csv"),
                "rules" => a.iter().position(|x| x == "table").map(|i| i - 1),
                _ => None,
            };
            if let Some(i) = input {
                if let Some(d) = m_read(&b.t0, &a[i]) {
                    let mut c = w.cmd.clone();
                    c.args[i] = "-".into();
                    c.stdin = Some(Bytes(d));
                    c.pipe = true;
                    let out = if w.kind == "fmt" || w.kind == "fpgen" { Some(w.outs[0].clone()) } else { None };
                    tries.push(("standard input".into(), c, out));
                }
            }
        }
        // Output to standard output.
        if let (Some(i), true) = (a.iter().position(|x| x == "-o"), w.outs.len() <= 2) {
            if !a.iter().any(|x| x == "--sub-output-path" || x == "--make-parent-dirs" || x == "/dev/stdout") {
                let out = a[i + 1].clone();
                let mut c = w.cmd.clone();
                c.args[i + 1] = "-".into();
                c.pipe = true;
                tries.push(("standard output".into(), c, Some(out)));
            }
        }
        for (what, c, out) in tries {
            m.restore(&b.t0);
            let r = m.run(&c.with_plan(Plan::None), 0)?;
            let t = m.tree();
            st.next();
            let mut h = Hash::new();
            h.u64(key(w));
            h.add(what.as_bytes());
            st.mark(h.0);
            st.note(&format!("through {what}"));
            if !r.ok() {
                return Ok(Some(bad("pipe-differs", format!("{:?} succeeds, {:?} ({what}) fails: {}", a, c.args, r.err()), sc, &[&b.run, &r])));
            }
            let pairs: Vec<(Vec<u8>, Vec<u8>, String)> = match &out {
                Some(o) => vec![(masked(w, &b.t0, o, m_read(&b.t1, o).as_deref()).unwrap_or_default(), masked(w, &b.t0, o, Some(&r.stdout)).unwrap_or_default(), o.clone())],
                None => {
                    let mut v: Vec<_> = w.outs.iter().map(|o| (data(&b.t1, o).unwrap_or(b"").to_vec(), data(&t, o).unwrap_or(b"").to_vec(), o.clone())).collect();
                    v.push((b.run.stdout.clone(), r.stdout.clone(), "standard output".into()));
                    v
                }
            };
            for (want, got, name) in pairs {
                if want != got {
                    return Ok(Some(bad("pipe-differs", format!("{:?} and {:?} ({what}) give different output for {name}: {}", a, c.args, diff(&want, &got)), sc, &[&b.run, &r])));
                }
            }
        }
        Ok(None)
    }
}
fn m_read(t: &Tree, p: &str) -> Option<Vec<u8>> {
    data(t, p).map(|d| d.to_vec())
}

// ------------------------------------------------------------------------ C05
pub struct C05;
/// Files that the command names nowhere, under names a program might look for.
fn bystanders(rng: &mut Rng, w: &Work) -> Vec<FileSpec> {
    let mut names: Vec<String> = [
        ".accountmergerc", ".accountmerge.ron", "accountmerge.toml", "accountmerge.ron", "config.ron", ".env", "rules.ron", "tmp/page-000001.png",
        "tmp/page-000099.png", "tmp/ocr.tsv", "tmp/png-files.txt", "tmp/.lock", "tmp/accountmerge",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let paths: Vec<String> = w.outs.iter().cloned().chain(w.files.iter().filter(|f| matches!(f.node, Node::File { .. })).map(|f| f.path.clone())).collect();
    for p in paths {
        for x in [".bak", "~", ".tmp", ".lock", ".old", ".orig", ".new", ".1", ".sum", ".json"] {
            names.push(format!("{p}{x}"));
        }
        let (d, f) = p.rsplit_once('/').map_or(("", p.as_str()), |(d, f)| (d, f));
        let slash = if d.is_empty() { "" } else { "/" };
        for x in [".", "#", ".#", "~"] {
            names.push(format!("{d}{slash}{x}{f}"));
        }
        if let Some((stem, _)) = f.rsplit_once('.') {
            for x in ["ron", "ledger", "csv", "bak", "tsv", "txt", "json"] {
                names.push(format!("{d}{slash}{stem}.{x}"));
            }
        }
    }
    let text = |rng: &mut Rng| match rng.below(5) {
        0 => "2020/01/01 Decoy\n    ; :unknown-account:fp-decoy:\n    assets:decoy  GBP 1.00\n    income:unknown  GBP -1.00\n".to_string(),
        1 => "(rules: [])\nTMPDIR=/nonexistent\n".to_string(),
        2 => "level\tpage_num\n1\t1\n".to_string(),
        3 => "\u{0}\u{1}garbage \u{fffd}".to_string(),
        _ => String::new(),
    };
    // All of them at once now and then: a program looks for one.
    let all = rng.chance(1, 2);
    let mut out: Vec<FileSpec> = vec![];
    for n in names {
        if (all || rng.chance(1, 8)) && n.len() < 200 && !w.files.iter().any(|f| f.path == n) && !w.cmd.args.iter().any(|a| a.ends_with(&n)) && !w.outs.contains(&n) && !out.iter().any(|f| f.path == n) {
            let t = text(rng);
            out.push(FileSpec::file(&n, t));
        }
    }
    out
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "A case is one command repeated with another value of every source of nondeterminism (entropy, hash seeds, clock, process id, address layout, directory order, temporary directory, environment, files lying about that it does not name); non-trivial because these values differ; distinct by files, arguments and those values."
    }
    fn quick_runs(&self) -> u64 {
        7500
    }
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        let k = if rng.chance(1, 4) { "merge" } else { kind_of(rng, idx) };
        let mut w = { let o = WOpts { stdio: rng.chance(1, 3), symlinks: false, big: rng.chance(1, 8) }; gen::work(rng, k, &o) };
        if k == "merge" && rng.chance(1, 2) {
            // Many equal postings: candidates in plenty, and conflicts.
            ambiguous_merge(rng, &mut w);
        }
        for d in ["tmp2", "tmp [1]", "tmp*?", "tmpé"] {
            w.files.push(FileSpec { path: d.into(), node: Node::Dir });
        }
        let n = if thorough { 12 } else { 5 };
        let vs: Vec<Value> = (0..n)
            .map(|_| {
                let mut env: Vec<(String, String)> = vec![];
                if rng.chance(1, 2) {
                    env.push(("TZ".into(), rng.pick(&["Asia/Tokyo", "America/New_York", "UTC", ":/nonexistent"]).to_string()));
                }
                if rng.chance(1, 2) {
                    env.push(("LC_ALL".into(), rng.pick(&["de_DE.UTF-8", "C", "tr_TR.UTF-8", "zz"]).to_string()));
                }
                if rng.chance(1, 3) {
                    env.push(("HOME".into(), "/nonexistent".into()));
                    env.push(("COLUMNS".into(), "20".into()));
                    env.push(("USER".into(), "mallory".into()));
                    env.push(("TERM".into(), "dumb".into()));
                }
                json!({
                    "entropy": rng.next() >> 16, "layout": rng.below(4096), "dirseed": rng.below(100000), "pid": 2 + rng.below(4_000_000),
                    "clock": rng.range(0, 4_000_000_000) * 1_000_000_000, "env": env,
                    "tmpdir": rng.pick(&["tmp", "tmp2", "tmp [1]", "tmp*?", "tmpé"]),
                    "extra": if rng.chance(1, 3) { bystanders(rng, &w) } else { vec![] },
                })
            })
            .collect();
        json!({"work": w, "variants": vs})
    }
    fn eval(&self, v: &Value, m: &mut Machine, st: &mut Stats) -> R<Option<Bad>> {
        let (Some(w), Some(vs)) = (parse::<Work>(v, "work"), parse::<Vec<Value>>(v, "variants")) else { return Ok(None) };
        let b = baseline_any(m, &w)?;
        st.note(&format!("work {}{}", w.kind, if b.run.ok() { "" } else { " (fails)" }));
        let so = masked_stdout(&w, &b.run.stdout);
        for x in vs {
            let mut c = w.cmd.clone();
            c.entropy = x["entropy"].as_u64().unwrap_or(1);
            c.layout = x["layout"].as_u64().unwrap_or(0);
            c.dirseed = x["dirseed"].as_u64().unwrap_or(1);
            c.pid = x["pid"].as_i64().unwrap_or(2) as i32;
            c.clock = x["clock"].as_i64();
            c.env = parse(&x, "env").unwrap_or_default();
            let td = x["tmpdir"].as_str().unwrap_or("tmp").to_string();
            if b.t0.contains_key(&td) || td == "tmp" {
                c.tmpdir = Some(td);
            }
            m.restore(&b.t0);
            for f in parse::<Vec<FileSpec>>(&x, "extra").unwrap_or_default() {
                let dir = f.path.rsplit_once('/').map(|(d, _)| d);
                let there = dir.is_none_or(|d| matches!(b.t0.get(d), Some(Node::Dir)));
                if let (true, false, Node::File { data, .. }) = (there, b.t0.contains_key(&f.path), &f.node) {
                    m.write(&f.path, &data.0);
                    st.note("file lying about");
                }
            }
            let r = m.run(&c, 0)?;
            let t = m.tree();
            record(st, &r, &t, key(&w));
            let mut h = Hash::new();
            h.u64(key(&w));
            h.add(x.to_string().as_bytes());
            st.mark(h.0);
            let sc = json!({"work": w, "variants": [x]});
            if r.exit != b.run.exit {
                let msg = format!("{:?} exits with {:?} ({}) and, run elsewhere ({x}), with {:?} ({})", w.cmd.args, b.run.exit, b.run.err(), r.exit, r.err());
                return Ok(Some(bad("exit-differs", msg, sc, &[&b.run, &r])));
            }
            for o in &w.outs {
                let (want, got) = (masked(&w, &b.t0, o, data(&b.t1, o)), masked(&w, &b.t0, o, data(&t, o)));
                if want != got {
                    let msg = format!("{:?}: {o} differs between two runs on the same input ({x}): {}", w.cmd.args, diff(&want.unwrap_or_default(), &got.unwrap_or_default()));
                    return Ok(Some(bad("output-differs", msg, sc, &[&b.run, &r])));
                }
            }
            if masked_stdout(&w, &r.stdout) != so {
                let msg = format!("{:?}: standard output differs between two runs on the same input ({x}): {}", w.cmd.args, diff(&so, &masked_stdout(&w, &r.stdout)));
                return Ok(Some(bad("output-differs", msg, sc, &[&b.run, &r])));
            }
        }
        Ok(None)
    }
}

/// Files as other programs leave them: with a byte order mark, DOS line
/// ends, or bytes that are no text; the command may well reject them.
fn odd_bytes(rng: &mut Rng, w: &mut Work) {
    let how = rng.below(6);
    let mut change = |d: &mut Vec<u8>| match how {
        0 | 1 => drop(d.splice(0..0, *b"\xef\xbb\xbf")),
        2 => *d = String::from_utf8_lossy(d).replace('\n', "\r\n").into_bytes(),
        3 => d.insert(rng.usize(d.len() + 1), *rng.pick(&[0u8, 0xff, 0xe9, b'\r', 0x1a])),
        4 => drop(d.pop()),
        _ => {
            let at = rng.usize(d.len() + 1);
            d.splice(at..at, rng.pick(&["\u{2028}", "é", "\u{feff}", "😀", "\u{0}"]).bytes());
        }
    };
    if let Some(d) = w.cmd.stdin.as_mut() {
        change(&mut d.0);
    }
    for f in w.files.iter_mut() {
        if let (Node::File { data, .. }, true) = (&mut f.node, w.cmd.args.contains(&f.path)) {
            change(&mut data.0);
        }
    }
}

/// Journals with many equal postings, each with several fingerprints.
pub fn ambiguous_merge(rng: &mut Rng, w: &mut Work) {
    let inputs: Vec<String> = merge_inputs(w).into_iter().filter(|i| i != "-").collect();
    for (k, i) in inputs.iter().enumerate() {
        let mut v = vec![];
        for j in 0..2 + rng.usize(6) {
            let mut t = crate::ledger::Trn { date: gen::date(rng, 2), desc: format!("T{j}"), ..Default::default() };
            for s in 0..2 {
                let mut p = crate::ledger::Post {
                    account: rng.pick(&["assets:cash", "expenses:food"]).to_string(),
                    amount: Some(gen::money(if s == 0 { 100 } else { -100 })),
                    comment: gen::comment(rng, true),
                    ..Default::default()
                };
                for f in 0..1 + rng.usize(3) {
                    p.comment.tags.insert(format!("fp-{}-{k}{j}{s}{f}", rng.pick(&["a", "zz", "m"])));
                }
                if rng.chance(1, 3) {
                    p.comment.tags.insert(crate::ledger::UNKNOWN.into());
                }
                t.posts.push(p);
            }
            if rng.chance(1, 2) {
                t.comment.kv.insert("source-file".into(), rng.pick(&["q", "b", "x", "0"]).to_string());
            }
            v.push(t);
        }
        let text = crate::ledger::render(&v);
        // Under whatever name the file itself has.
        let path = match w.files.iter().find(|f| &f.path == i).map(|f| &f.node) {
            Some(Node::Symlink(to)) => to.trim_start_matches("../").to_string(),
            Some(Node::Hard(to, _)) => to.clone(),
            _ => i.clone(),
        };
        for f in w.files.iter_mut() {
            match &mut f.node {
                Node::File { data, .. } if f.path == path => *data = text.clone().into(),
                Node::Hard(to, data) if *to == path => *data = text.clone().into(),
                _ => {}
            }
        }
    }
}
