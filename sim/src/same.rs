//! Judges of C16 to C19: the cache is used, few files are open at a time,
//! diagnostics change nothing, one version of the configuration.
use crate::fs::Fs;
use crate::gen::Cfg;
use crate::model::*;
use crate::oracle::*;
use crate::props::under;
use crate::runner::*;
use crate::world::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

fn json(b: &[u8]) -> Option<Value> {
    serde_json::from_slice::<Value>(b).ok().map(|mut v| {
        canon_json(&mut v);
        v
    })
}
const HEAD: &[u8] = b"====== TIMEKEEPER REPORT ======\n";
const FOOT: &[u8] = b"\n===============================\n";
/// Standard output without the report of timings at its end.
fn unreported(d: &[u8]) -> (&[u8], bool) {
    if d.ends_with(FOOT) {
        if let Some(k) = d.windows(HEAD.len()).rposition(|x| x == HEAD) {
            return (&d[..k], true);
        }
    }
    (d, false)
}

impl Runner<'_> {
    // ---------------------------------------------------------------- C16
    /// Valid entries of loaded pages are taken as they are, and left so.
    pub fn judge_reuse(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        if out.power_lost {
            return;
        }
        let cached: Vec<usize> =
            (0..g.invs.len()).filter(|&k| g.invs[k].cmd.sub != "format" && !g.invs[k].cmd.no_cache).collect();
        let dir = |c: &Ctx| canon(before, &c.cwd, &c.cmd.cache_dir());
        let mut have: Vec<BTreeSet<String>> = vec![];
        for k in 0..g.invs.len() {
            let cmd = &g.invs[k].cmd;
            let mut v: BTreeSet<String> = loaded(before, &ctxs[k].eff, cmd).into_iter().map(|x| x.1).collect();
            if cmd.sub == "convert" && cmd.no_prune {
                // notes that are only loaded when it is their turn
                v.extend(converted(before, &ctxs[k].eff, cmd, &ctxs[k].cwd));
            }
            have.push(v);
        }
        // what each entry holds, if it is the entry of some note that exists
        let mut texts: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut names: BTreeMap<String, String> = BTreeMap::new();
        let all: BTreeSet<String> = have.iter().flatten().cloned().collect();
        for p in &all {
            let t = before.get(p).unwrap().to_vec();
            if std::str::from_utf8(&t).is_err() {
                continue;
            }
            if let Some((n, e)) = self.oracle.entries(self.sim, &ctxs[0], p, &t).into_iter().next() {
                names.insert(p.clone(), n);
                if let Some(v) = json(&e) {
                    texts.insert(v.to_string(), t);
                }
            }
        }
        for &k in &cached {
            let d = dir(&ctxs[k]);
            for p in &have[k] {
                let Some(n) = names.get(p) else { continue };
                // another run may remove what it does not load itself
                let foreign = cached.iter().any(|&j| {
                    !g.invs[j].cmd.no_prune && !have[j].iter().any(|q| names.get(q) == Some(n))
                });
                let e = format!("{}/{}", d, n);
                // a directory that cannot be listed is skipped
                let above = |q: &str| !q.is_empty() && (p == q || under(p, q));
                if out.trace.iter().any(|x| x.injected && above(&x.path)) {
                    continue;
                }
                if foreign || out.trace.iter().any(|x| x.injected && (x.path.contains(n.as_str()) || x.path2.contains(n.as_str()))) {
                    continue;
                }
                let (Some(i), Some(old)) = (before.ino(&e), before.get(&e)) else { continue };
                if before.mode(&e).unwrap_or(0) & 0o400 == 0 {
                    continue;
                }
                let Some(text) = json(&old).and_then(|v| texts.get(&v.to_string()).cloned()) else { continue };
                self.reused += 1;
                let same = self.w.fs.ino(&e) == Some(i)
                    && self.w.fs.get(&e).map_or(false, |x| *x == *old)
                    && self.w.fs.node(i).mtime == before.node(i).mtime;
                if !same {
                    let what = match self.w.fs.ino(&e) {
                        None => "removed",
                        Some(j) if j != i => "replaced",
                        _ => "rewritten",
                    };
                    return self.fail("entry-not-reused", format!("{:?}: the valid entry {} of {} was {}", g.invs[k].cmd.args(), n, p, what));
                }
                if g.tag == "swapped" && g.invs[k].cmd.sub == "convert" && !g.invs[k].cmd.stdout && out.outs[k].status.ok() {
                    let c = &ctxs[k];
                    if !converted(before, &c.eff, &c.cmd, &c.cwd).contains(p) {
                        continue;
                    }
                    let (Ok(h), Some(op)) = (self.oracle.html(self.sim, c, p, &text), out_path(&c.eff, p)) else { continue };
                    match self.w.fs.get(&op) {
                        Some(d) if *d == h => {}
                        d => {
                            let d = d.map(|d| d.to_vec()).unwrap_or_default();
                            return self.fail("cache-not-used", format!("{:?}: {} is not rendered from its entry {}: {}", c.cmd.args(), p, n, diff(&h, &d)));
                        }
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ C17, C18
    /// The run does what it does without limits, extra diagnostics and
    /// trouble with standard error.
    pub fn judge_same(&mut self, g: &Group, w0: &World, out: &GroupOut) {
        let mut base = g.clone();
        base.switches = None;
        for i in &mut base.invs {
            i.nofile = Some(1_000_000);
            i.tk = false;
            i.cmd.times = false;
            i.cmd.verbose = 0;
            i.cmd.stamp = None;
            i.cmd.quiet = false;
        }
        base.faults.retain(|f| f.path != "<stderr>" && !(g.invs[0].cmd.times && f.path == "<stdout>"));
        let mut w = w0.clone();
        let verbose = std::mem::replace(&mut self.sim.verbose, false);
        let b = self.sim.run(&mut w, &base);
        self.sim.verbose = verbose;
        let (o, r, cmd) = (&out.outs[0], &b.outs[0], &g.invs[0].cmd);
        self.peak = self.peak.max(o.peak);
        if self.is("C18") && !r.status.ok() && r.stderr.is_empty() && matches!(r.status, Status::Exit(_)) {
            return self.fail("silent-failure", format!("{:?} ended with {:?} and says nothing on standard error", base.invs[0].cmd.args(), r.status));
        }
        // a fault can make a long note be parsed after all, reading the clock for every parser
        if g.invs[0].tk && o.status == Status::TooManyCalls && r.status != Status::TooManyCalls {
            return;
        }
        // the report itself may meet a failing standard output
        let lost = cmd.times && g.faults.iter().zip(&out.fired).any(|(f, n)| f.path == "<stdout>" && *n > 0);
        if o.status != r.status && !(lost && cmd.writes_stdout()) {
            return self.fail("other-status", format!("{}; otherwise {:?}", self.why(g, 0, out), r.status));
        }
        if !lost {
            let (so, reported) = if cmd.times { unreported(&o.stdout) } else { (&o.stdout[..], false) };
            if so != &r.stdout[..] && !(cmd.sub == "inspect" && (same(so, &r.stdout) || json(so).is_none() && json(&r.stdout).is_none())) {
                return self.fail("other-stdout", format!("{:?}: standard output: {}", cmd.args(), diff(&r.stdout, so)));
            }
            if cmd.times && o.status.ok() && !reported {
                return self.fail("no-report", format!("{:?}: no report of timings", cmd.args()));
            }
        } else if cmd.writes_stdout() {
            return;
        }
        let (want, got) = (w.fs.files("/"), self.w.fs.files("/"));
        let cwd = if g.invs[0].cwd.is_empty() { "/sim/home" } else { &g.invs[0].cwd };
        let cache = w0.fs.place(&canon(&w0.fs, cwd, &cmd.cache_dir()));
        let output = cmd.output.as_ref().map(|o| canon(&w0.fs, cwd, o));
        for (p, d) in &want {
            match got.get(p) {
                None => return self.fail("other-files", format!("{:?}: {} is missing", cmd.args(), p)),
                Some(x) if x == d || same(x, d) => {}
                // JSON that a failure cut short: its tables come in any order
                Some(x) if p.starts_with(&cache) || Some(p) == output.as_ref() => {
                    if json(x).is_some() != json(d).is_some() || json(x).is_some() {
                        return self.fail("other-files", format!("{:?}: {}: {}", cmd.args(), p, diff(d, x)));
                    }
                }
                Some(x) => return self.fail("other-files", format!("{:?}: {}: {}", cmd.args(), p, diff(d, x))),
            }
        }
        if let Some(p) = got.keys().find(|p| !want.contains_key(*p)) {
            self.fail("other-files", format!("{:?}: {} exists", cmd.args(), p));
        }
    }

    // ---------------------------------------------------------------- C19
    /// The result is that of one version of the configuration.
    pub fn judge_version(&mut self, g: &Group, before: &Fs, clock: i64, out: &GroupOut) {
        let inv = &g.invs[0];
        let o = &out.outs[0];
        let mut cfgs: Vec<Cfg> = vec![self.cfg.clone()];
        cfgs.extend(g.cfgs.iter().map(|x| x.1.clone()));
        // templates as they were at some time
        let mut snaps = vec![before.clone()];
        for (_, e) in &g.edits {
            let mut w = World { fs: snaps.last().unwrap().clone(), clock: 0, mono: 0 };
            Sim::apply_file_op(&mut w, e);
            snaps.push(w.fs);
        }
        let mut why = String::new();
        if inv.cmd.sub == "format" {
            for s in &snaps {
                let c = Ctx::new(s, &self.cfg, inv, clock);
                if !o.status.ok() {
                    if !self.valid(before, inv, &c) {
                        return;
                    }
                    continue;
                }
                match self.as_formatted(before, inv, out, &c) {
                    Ok(()) => return,
                    Err(e) => why = e,
                }
            }
            if !o.status.ok() {
                return self.fail("run-failed", self.why(g, 0, out));
            }
            return self.fail("mixed-configuration", format!("{:?}: the result is that of none of the {} versions: {}", inv.cmd.args(), snaps.len(), why));
        }
        for cfg in &cfgs {
            let ctxs: Vec<Ctx> = snaps.iter().map(|s| Ctx::new(s, cfg, inv, clock)).collect();
            if !o.status.ok() {
                if !ctxs.iter().all(|c| self.valid(before, inv, c)) {
                    return; // some version cannot be converted
                }
                continue;
            }
            match self.as_version(before, inv, out, &ctxs) {
                Ok(()) => return,
                Err(e) => why = e,
            }
        }
        if !o.status.ok() {
            return self.fail("run-failed", self.why(g, 0, out));
        }
        self.fail("mixed-configuration", format!("{:?}: the result is that of none of the {} versions: {}", inv.cmd.args(), cfgs.len(), why));
    }
    fn as_formatted(&mut self, before: &Fs, inv: &Inv, out: &GroupOut, c: &Ctx) -> Result<(), String> {
        let cmd = &inv.cmd;
        let notes = formatted(before, cmd, &c.cwd);
        let mut chunks = vec![];
        for p in &notes {
            let mut f = before.get(p).unwrap().to_vec();
            // a note given twice is formatted twice
            for _ in 0..if cmd.inline { notes.iter().filter(|q| *q == p).count() } else { 1 } {
                f = self.oracle.fmt(self.sim, c, &f).ok_or_else(|| format!("{} cannot be formatted", p))?;
            }
            if !cmd.inline {
                f.push(b'\n');
                chunks.push(f);
            } else if self.w.fs.get(p).map_or(true, |d| *d != f) {
                return Err(format!("note {} is not formatted like that", p));
            }
        }
        if cmd.inline {
            Ok(())
        } else {
            permuted(&out.outs[0].stdout, &chunks)
        }
    }
    fn as_version(&mut self, before: &Fs, inv: &Inv, out: &GroupOut, ctxs: &[Ctx]) -> Result<(), String> {
        let (cmd, c, o) = (&inv.cmd, &ctxs[0], &out.outs[0]);
        if cmd.sub == "inspect" {
            let got: Value = serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())?;
            let want = self.want_inspect(before, cmd, c)?;
            return same_json(&cmd.json, want, got);
        }
        if cmd.sub == "serve" {
            return if o.stdout.is_empty() { Ok(()) } else { Err("something is printed".into()) };
        }
        let pages = converted(before, &c.eff, cmd, &c.cwd);
        let mut groups = vec![];
        let mut dest: BTreeSet<String> = css_paths(&c.eff, cmd).into_iter().collect();
        for p in &pages {
            let t = before.get(p).unwrap();
            let mut alts: Vec<Vec<u8>> = vec![];
            for c in ctxs {
                if let Ok(h) = self.oracle.html(self.sim, c, p, &t) {
                    alts.push(h);
                }
            }
            if cmd.stdout {
                alts.iter_mut().for_each(|h| h.push(b'\n'));
                groups.push((false, alts));
                continue;
            }
            let op = out_path(&c.eff, p).ok_or("no wiki")?;
            match self.w.fs.get(&op) {
                Some(d) if alts.contains(&*d) => {}
                Some(d) => return Err(format!("{} of {}: {}", op, p, diff(&alts.last().cloned().unwrap_or_default(), &d))),
                None => return Err(format!("{} of {} is missing", op, p)),
            }
            dest.insert(op);
        }
        if cmd.stdout {
            return permuted_alt(&o.stdout, &groups);
        }
        for p in css_paths(&c.eff, cmd) {
            let s = self.oracle.style(self.sim);
            if self.w.fs.get(&p).map_or(true, |d| *d != s) {
                return Err(format!("stylesheet {} missing or wrong", p));
            }
        }
        // nothing where only another version would put it
        for (p, d) in self.w.fs.files("/") {
            if p.ends_with(".html") && p.contains("/html") && !dest.contains(&p) && before.get(&p).map_or(true, |b| *b != *d) {
                return Err(format!("{} belongs to no page", p));
            }
        }
        Ok(())
    }
}
/// Equal but for the order in which hash maps are stored.
fn same(a: &[u8], b: &[u8]) -> bool {
    a == b || matches!((json(a), json(b)), (Some(x), Some(y)) if x == y)
}
