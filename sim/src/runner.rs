//! Scenarios (fully explicit, replayable) and the judge that checks every
//! step of one against the oracle and the invariants of a property.
use crate::fs::Fs;
use crate::gen::{Cfg, CFG};
use crate::model::*;
use crate::oracle::*;
use crate::rng::hash_bytes;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Config(Cfg),
    Files(Vec<FileOp>),
    Clock(i64),
    Run(Group),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub clock: i64,
    pub cfg: Cfg,
    pub setup: Vec<FileOp>,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
/// What C01/C09 allow a note to hold.
type Versions = BTreeMap<String, Vec<Option<Vec<u8>>>>;

pub struct Runner<'a> {
    pub sim: &'a mut Sim,
    pub oracle: &'a mut Oracle,
    pub scn: Scenario,
    pub w: World,
    pub cfg: Cfg,
    pub viol: Option<Violation>,
    pub hash: u64,
    pub last: Option<GroupOut>,
    pub ngroups: u64,
    pub nontrivial: bool,
    pub ilv: u64,
    pub states: Vec<u64>,
    /// schedule of every group, as executed
    pub sw: Vec<Vec<(u32, usize)>>,
    /// files the program itself made earlier in this run
    pub made: BTreeSet<String>,
    /// what notes held since the disk was last known to be in sync
    pub unsynced: BTreeMap<String, BTreeSet<Vec<u8>>>,
    /// valid cache entries met by runs (C16), most files open at a time (C17)
    pub reused: u64,
    pub peak: usize,
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let t: String = s.chars().take(160).collect();
    format!("{} bytes {:?}{}", b.len(), t, if t.len() < s.len() { "…" } else { "" })
}
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let s = k.saturating_sub(30);
    format!(
        "{} bytes expected, {} found, first difference at {}: expected …{} found …{}",
        want.len(),
        got.len(),
        k,
        show(&want[s.min(want.len())..]),
        show(&got[s.min(got.len())..])
    )
}

impl<'a> Runner<'a> {
    pub fn new(sim: &'a mut Sim, oracle: &'a mut Oracle, prop: &str, seed: u64, clock: i64, cfg: Cfg, setup: Vec<FileOp>) -> Self {
        let mut w = World { fs: Fs::new(), clock, mono: 1_000_000_000 };
        w.fs.now = clock;
        for d in ["/sim/home", "/sim/tmp", "/dev"] {
            w.fs.mkdirs(d);
        }
        w.fs.put("/dev/null", b"");
        w.fs.put(CFG, cfg.toml().as_bytes());
        for o in &setup {
            Sim::apply_file_op(&mut w, o);
        }
        w.fs.checkpoint();
        let scn = Scenario { prop: prop.into(), seed, clock, cfg: cfg.clone(), setup, steps: vec![] };
        Runner {
            sim,
            oracle,
            scn,
            w,
            cfg,
            viol: None,
            hash: 0,
            last: None,
            ngroups: 0,
            nontrivial: false,
            ilv: 0,
            states: vec![],
            sw: vec![],
            made: BTreeSet::new(),
            unsynced: BTreeMap::new(),
            reused: 0,
            peak: 0,
        }
    }
    /// Executes a whole scenario again.
    pub fn replay(sim: &'a mut Sim, oracle: &'a mut Oracle, s: &Scenario) -> Self {
        let mut r = Runner::new(sim, oracle, &s.prop, s.seed, s.clock, s.cfg.clone(), s.setup.clone());
        for st in &s.steps {
            r.step(st.clone());
            if r.viol.is_some() {
                break;
            }
        }
        r
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some(Violation { class: class.into(), detail });
        }
    }
    pub fn is(&self, p: &str) -> bool {
        self.scn.prop == p
    }
    /// Runs a group on a copy of the world, without judging it.
    pub fn dry(&mut self, g: &Group) -> GroupOut {
        let mut w = self.w.clone();
        self.sim.run(&mut w, g)
    }
    pub fn style(&mut self) -> Vec<u8> {
        self.oracle.style(self.sim)
    }
    pub fn files(&mut self, ops: Vec<FileOp>) {
        if !ops.is_empty() {
            self.step(Step::Files(ops));
        }
    }
    pub fn run(&mut self, g: Group) {
        self.step(Step::Run(g));
    }
    pub fn step(&mut self, st: Step) {
        if self.viol.is_some() {
            return;
        }
        self.scn.steps.push(st.clone());
        match st {
            Step::Config(c) => {
                self.w.fs.put(CFG, c.toml().as_bytes());
                self.cfg = c;
                self.w.fs.checkpoint();
                self.unsynced.clear();
            }
            Step::Files(ops) => {
                for o in &ops {
                    Sim::apply_file_op(&mut self.w, o);
                }
                self.w.fs.checkpoint();
                self.unsynced.clear();
            }
            Step::Clock(c) => self.w.clock = c,
            Step::Run(g) => {
                let before = self.w.fs.clone();
                let clock = self.w.clock;
                let w0 = if self.is("C17") || self.is("C18") { Some(self.w.clone()) } else { None };
                let out = self.sim.run(&mut self.w, &g);
                self.hash = hash_bytes(self.hash, &out.hash.to_le_bytes());
                self.ngroups += 1;
                self.sw.push(out.switches.clone());
                for s in &out.switches {
                    self.ilv = hash_bytes(self.ilv, format!("{:?}", s).as_bytes());
                }
                if g.invs.len() > 1 || !g.edits.is_empty() || out.fired.iter().any(|f| *f > 0) || self.ngroups > 1 {
                    self.nontrivial = true;
                }
                let mut st = 0u64;
                for (p, d) in self.w.fs.files("/") {
                    st = hash_bytes(hash_bytes(st, p.as_bytes()), &d);
                }
                self.states.push(st);
                if let Some(w0) = w0 {
                    self.judge_same(&g, &w0, &out);
                } else {
                    self.judge(&g, &before, clock, &out);
                }
                if let Some((_, c)) = g.cfgs.last() {
                    self.cfg = c.clone();
                }
                if self.sim.verbose {
                    for (k, o) in out.outs.iter().enumerate() {
                        eprintln!("  p{} {:?} -> {:?} ({} calls)", k, g.invs[k].cmd.args(), o.status, o.calls);
                        if !o.stderr.is_empty() {
                            eprintln!("     stderr: {}", show(&o.stderr));
                        }
                    }
                }
                self.last = Some(out);
            }
        }
    }

    // ------------------------------------------------------------------
    fn judge(&mut self, g: &Group, before: &Fs, clock: i64, out: &GroupOut) {
        let p = self.scn.prop.clone();
        let p = p.as_str();
        let ctxs: Vec<Ctx> = g.invs.iter().map(|i| Ctx::new(before, &self.cfg, i, clock)).collect();
        if p == "C12" {
            self.judge_end(g, out);
        }
        if p == "C06" {
            self.judge_confined(g, before, out, &ctxs);
        }
        if p == "C01" {
            self.judge_inline(g, before, out, &ctxs);
        }
        if p == "C05" {
            for k in 0..g.invs.len() {
                let o = &out.outs[k];
                if o.status.ok() {
                    self.complete(g, k, before, out, &ctxs[k], "success-but-incomplete", true);
                } else if out.fired.iter().all(|f| *f == 0) && self.valid(before, &g.invs[k], &ctxs[k]) {
                    self.fail("failed-without-fault", self.why(g, k, out));
                }
            }
        }
        if p == "C07" {
            self.judge_prune(g, before, out, &ctxs);
        }
        if p == "C11" {
            self.judge_date(g, before, out, &ctxs);
        }
        if p == "C09" {
            if g.tag == "edited" {
                self.judge_edited(g, before, out, &ctxs);
            } else {
                self.strict(g, before, out, &ctxs);
            }
        }
        if matches!(p, "C02" | "C03" | "C08" | "C10" | "C15") {
            self.strict(g, before, out, &ctxs);
        }
        if p == "C16" {
            self.judge_reuse(g, before, out, &ctxs);
        }
        if p == "C19" {
            if g.cfgs.is_empty() && g.edits.is_empty() {
                self.strict(g, before, out, &ctxs);
            } else {
                self.judge_version(g, before, clock, out);
            }
        }
        if p == "C15" && self.viol.is_some() && g.invs.iter().any(|i| i.vim_maybe) {
            let first = self.viol.take();
            let mut h = g.clone();
            h.invs.iter_mut().filter(|i| i.vim_maybe).for_each(|i| i.vim = None);
            let ctxs: Vec<Ctx> = h.invs.iter().map(|i| Ctx::new(before, &self.cfg, i, clock)).collect();
            self.strict(&h, before, out, &ctxs);
            if self.viol.is_some() {
                self.viol = first;
            }
        }
        if p == "C08" && self.viol.is_none() && g.edits.is_empty() {
            self.judge_entries(before, out, &ctxs, g);
        }
        if p == "C03" && g.tag == "healthy" {
            self.judge_repaired(g, before, out, &ctxs);
        }
        if p == "C04" && g.tag == "final" {
            self.strict(g, before, out, &ctxs);
            self.judge_no_leftover(g, before, out, &ctxs);
        }
    }
    pub fn why(&self, g: &Group, k: usize, out: &GroupOut) -> String {
        let o = &out.outs[k];
        format!("{:?} ended with {:?}; stderr {}", g.invs[k].cmd.args(), o.status, show(&o.stderr))
    }
    /// Does every page of the run convert when run alone?
    pub fn valid(&mut self, fs: &Fs, inv: &Inv, c: &Ctx) -> bool {
        match inv.cmd.sub.as_str() {
            "convert" | "inspect" | "serve" => {
                let mut pages = loaded(fs, &c.eff, &inv.cmd).into_iter().map(|x| x.1).collect::<BTreeSet<_>>();
                if inv.cmd.sub == "convert" {
                    pages.extend(converted(fs, &c.eff, &inv.cmd, &c.cwd));
                }
                for p in pages {
                    let t = fs.get(&p).unwrap();
                    if std::str::from_utf8(&t).is_err() {
                        return false;
                    }
                    if inv.cmd.sub == "convert" && !plain(&t) && self.oracle.html(self.sim, c, &p, &t).is_err() {
                        // a page loaded but not converted by this command cannot fail it
                        if converted(fs, &c.eff, &inv.cmd, &c.cwd).contains(&p) {
                            return false;
                        }
                    }
                }
                true
            }
            _ => formatted(fs, &inv.cmd, &c.cwd).iter().all(|p| {
                let m = fs.mode(p).unwrap_or(0);
                m & 0o400 != 0
                    && (!inv.cmd.inline || m & 0o200 != 0)
                    && std::str::from_utf8(&fs.get(p).unwrap()).is_ok()
            }),
        }
    }
    /// Every process that was not killed succeeds with exactly its result.
    fn strict(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        if out.power_lost {
            return;
        }
        let killed = out.outs.iter().any(|o| o.status == Status::Killed);
        for k in 0..g.invs.len() {
            if out.outs[k].status == Status::Killed || self.viol.is_some() {
                continue;
            }
            if !out.outs[k].status.ok() {
                if self.valid(before, &g.invs[k], &ctxs[k]) {
                    self.fail("run-failed", self.why(g, k, out));
                }
                continue;
            }
            self.complete(g, k, before, out, &ctxs[k], "wrong-result", !killed);
        }
    }
    /// A plain paragraph at the end of a note, if it has one; every output of the note shows it.
    fn last_word(&self, c: &Ctx, text: &[u8]) -> Option<String> {
        if !(self.is("C05") || self.is("C01")) || (c.cmd.sub == "convert" && c.extra.contains("template")) {
            return None;
        }
        let t = std::str::from_utf8(text).ok()?.trim_end();
        if t.contains('%') || t.contains("{{") {
            return None;
        }
        let (head, last) = t.rsplit_once('\n')?;
        let ok = last.len() == 11 && last.starts_with("fin") && last.bytes().all(|b| b.is_ascii_alphanumeric());
        (ok && head.ends_with('\n') || ok && head.ends_with("\r")).then(|| last.to_string())
    }
    /// Compares everything process k was to produce with the oracle.
    #[allow(clippy::too_many_arguments)]
    fn complete(&mut self, g: &Group, k: usize, before: &Fs, out: &GroupOut, c: &Ctx, class: &str, files: bool) {
        let inv = &g.invs[k];
        let cmd = &inv.cmd;
        let o = &out.outs[k];
        match cmd.sub.as_str() {
            "convert" => {
                let pages = converted(before, &c.eff, cmd, &c.cwd);
                let mut chunks = vec![];
                for p in &pages {
                    let text = before.get(p).unwrap();
                    match self.oracle.html(self.sim, c, p, &text) {
                        Err(e) => {
                            let tag = if e.starts_with("PLACE") { "wrong-place" } else { class };
                            return self.fail(tag, format!("{:?} succeeded but {}: {}", cmd.args(), p, e));
                        }
                        Ok(h) => {
                            if (self.is("C05") || self.is("C10")) && !self.oracle.prints(self.sim, c, p, &text, &h) {
                                return self.fail(class, format!("{:?}: {} is not written as it is printed with --stdout", cmd.args(), p));
                            }
                            if let Some(w) = self.last_word(c, &text) {
                                if !contains(&h, w.as_bytes()) {
                                    return self.fail(class, format!("{:?}: {} is converted without its end, {}", cmd.args(), p, w));
                                }
                            }
                            if cmd.stdout {
                                let mut h = h;
                                h.push(b'\n');
                                chunks.push(h);
                            } else if files {
                                let op = out_path(&c.eff, p).unwrap();
                                match self.w.fs.get(&op) {
                                    None => return self.fail(class, format!("{:?}: {} of {} is missing", cmd.args(), op, p)),
                                    Some(d) if *d != h => {
                                        return self.fail(class, format!("{:?}: {} of {}: {}", cmd.args(), op, p, diff(&h, &d)))
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                if cmd.stdout {
                    if let Err(e) = permuted(&o.stdout, &chunks) {
                        return self.fail(class, format!("{:?}: stdout {}", cmd.args(), e));
                    }
                } else if files {
                    for p in css_paths(&c.eff, cmd) {
                        let s = self.oracle.style(self.sim);
                        match self.w.fs.get(&p) {
                            Some(d) if *d == s && !s.is_empty() => {}
                            _ => return self.fail(class, format!("{:?}: stylesheet {} missing or wrong", cmd.args(), p)),
                        }
                    }
                }
            }
            // only loads the pages so far
            "serve" => {
                if !o.stdout.is_empty() {
                    return self.fail(class, format!("{:?}: printed {}", cmd.args(), show(&o.stdout)));
                }
            }
            "format" => {
                let notes = formatted(before, cmd, &c.cwd);
                let mut chunks = vec![];
                for p in &notes {
                    let text = before.get(p).unwrap();
                    let Some(f) = self.oracle.fmt(self.sim, c, &text) else {
                        return self.fail(class, format!("{:?} succeeded but {} cannot be formatted", cmd.args(), p));
                    };
                    if let Some(w) = self.last_word(c, &text) {
                        if !contains(&f, w.as_bytes()) {
                            return self.fail(class, format!("{:?}: {} is formatted without its end, {}", cmd.args(), p, w));
                        }
                    }
                    if cmd.inline {
                        if files {
                            // a note given twice is formatted twice
                            let n = notes.iter().filter(|q| *q == p).count();
                            let mut f = f;
                            for _ in 1..n {
                                f = self.oracle.fmt(self.sim, c, &f).unwrap_or_default();
                            }
                            match self.w.fs.get(p) {
                                Some(d) if *d == f => {}
                                Some(d) => return self.fail(class, format!("{:?}: note {}: {}", cmd.args(), p, diff(&f, &d))),
                                None => return self.fail(class, format!("{:?}: note {} is gone", cmd.args(), p)),
                            }
                        }
                    } else {
                        let mut f = f;
                        f.push(b'\n');
                        chunks.push(f);
                    }
                }
                if !cmd.inline {
                    if let Err(e) = permuted(&o.stdout, &chunks) {
                        return self.fail(class, format!("{:?}: stdout {}", cmd.args(), e));
                    }
                }
            }
            _ => {
                let data = match &cmd.output {
                    Some(p) if files => match self.w.fs.get(&canon(&self.w.fs, &c.cwd, p)) {
                        Some(d) => d.to_vec(),
                        None => return self.fail(class, format!("{:?}: output file is missing", cmd.args())),
                    },
                    Some(_) => return,
                    None => o.stdout.clone(),
                };
                let got: Value = match serde_json::from_slice(&data) {
                    Ok(v) => v,
                    Err(e) => {
                        return self.fail(class, format!("{:?}: output is not JSON ({}): {}", cmd.args(), e, show(&data)))
                    }
                };
                match self.want_inspect(before, cmd, c) {
                    Err(e) => self.fail(class, format!("{:?}: {}", cmd.args(), e)),
                    Ok(want) => {
                        if let Err(e) = same_json(&cmd.json, want, got) {
                            self.fail(class, format!("{:?}: {}", cmd.args(), e));
                        }
                    }
                }
            }
        }
    }
    fn page_entry(&mut self, c: &Ctx, wiki: usize, page: &str, text: &[u8]) -> Result<Value, String> {
        let sel = selected(&c.eff, &c.cmd);
        let pos = sel.iter().position(|x| *x == wiki).unwrap();
        let doc = self
            .oracle
            .inspect(self.sim, c, Some((page, text)))
            .ok_or_else(|| format!("inspecting {} alone fails", page))?;
        let files = doc["wikis"][pos]["files"].as_array().cloned().unwrap_or_default();
        files
            .into_iter()
            .find(|f| f["path"] == page)
            .ok_or_else(|| format!("PLACE inspecting {} alone does not list it under its wiki", page))
    }
    pub fn want_inspect(&mut self, fs: &Fs, cmd: &Cmd, c: &Ctx) -> Result<Value, String> {
        let mut wikis = vec![];
        let all = loaded(fs, &c.eff, cmd);
        for i in selected(&c.eff, cmd) {
            let mut files = vec![];
            for (_, p) in all.iter().filter(|x| x.0 == i) {
                files.push(self.page_entry(c, i, p, &fs.get(p).unwrap())?);
            }
            wikis.push(serde_json::json!({
                "index": i, "name": c.eff[i].name, "path": c.eff[i].path, "files": files
            }));
        }
        Ok(serde_json::json!({ "wikis": wikis }))
    }

    // ---------------------------------------------------------------- C12
    fn judge_end(&mut self, g: &Group, out: &GroupOut) {
        for (k, o) in out.outs.iter().enumerate() {
            match o.status {
                Status::Exit(0..=3) | Status::Killed => {}
                Status::Exit(n) => self.fail(
                    &format!("undocumented-exit-{}", n),
                    self.why(g, k, out),
                ),
                _ => self.fail(&format!("ended-by-{:?}", o.status), self.why(g, k, out)),
            }
        }
    }
    // ---------------------------------------------------------------- C06
    fn judge_confined(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        let killed: Vec<bool> = (0..g.invs.len())
            .map(|k| {
                !matches!(out.outs[k].status, Status::Exit(_))
                    || out.power_lost
                    || g.faults.iter().zip(&out.fired).any(|(f, n)| f.inv == k && *n > 0)
            })
            .collect();
        let mut dests: Vec<BTreeSet<String>> = vec![];
        for k in 0..g.invs.len() {
            let (cmd, c) = (&g.invs[k].cmd, &ctxs[k]);
            let mut d = BTreeSet::new();
            // every file system content during the group counts
            let mut fs = before.clone();
            let mut all: Vec<Fs> = vec![before.clone()];
            for (_, e) in &g.edits {
                let mut w = World { fs, clock: 0, mono: 0 };
                Sim::apply_file_op(&mut w, e);
                fs = w.fs;
                all.push(fs.clone());
            }
            for fs in &all {
                match cmd.sub.as_str() {
                    "convert" if !cmd.stdout => {
                        for p in converted(fs, &c.eff, cmd, &c.cwd) {
                            d.extend(out_path(&c.eff, &p));
                        }
                        d.extend(css_paths(&c.eff, cmd));
                    }
                    "format" if cmd.inline => d.extend(formatted(fs, cmd, &c.cwd)),
                    "inspect" => {
                        if let Some(o) = &cmd.output {
                            d.insert(canon(fs, &c.cwd, o));
                        }
                    }
                    _ => {}
                }
            }
            let real: Vec<String> = all.iter().flat_map(|fs| d.iter().map(|p| fs.place(p)).collect::<Vec<_>>()).collect();
            d.extend(real);
            dests.push(d);
        }
        let made = self.made.clone();
        for call in out.trace.iter().filter(|c| c.mutating) {
            let k = call.inv;
            let cmd = &g.invs[k].cmd;
            let c = &ctxs[k];
            let cache = before.place(&canon(before, &c.cwd, &cmd.cache_dir()));
            let uses_cache = cmd.sub != "format" && !cmd.no_cache;
            let mut paths = vec![call.real[0].clone()];
            if call.op == "rename" || call.op == "link" {
                paths.push(call.real[1].clone());
            }
            for p in paths {
                if p.starts_with("/dev/") || p.starts_with('<') {
                    continue;
                }
                if uses_cache && (p == cache || p.starts_with(&format!("{}/", cache))) {
                    continue;
                }
                if dests[k].contains(&p) {
                    continue;
                }
                let below = format!("{}/", if p == "/" { "" } else { &p });
                if call.op == "mkdir" && (dests[k].iter().any(|d| d.starts_with(&below)) || (uses_cache && cache.starts_with(&below))) {
                    continue;
                }
                let new = before.resolve("/", &p, false).map_or(true, |r| r.ino.is_none());
                if new {
                    self.made.insert(p.clone());
                }
                if new || made.contains(&p) {
                    // something new: only a temporary file next to a destination
                    let near = dests[k].iter().any(|d| parent(d) == parent(&p));
                    let left = self.w.fs.resolve("/", &p, false).map_or(false, |r| r.ino.is_some());
                    let note = ctxs[k].eff.iter().any(|w| ext_of(&p) == Some(&w.ext)) || ext_of(&p) == Some("wiki");
                    if near && (!left || (killed[k] && !note)) {
                        continue;
                    }
                }
                return self.fail(
                    "touched-foreign-path",
                    format!("{:?} did {} on {} {}", cmd.args(), call.op, call.path, call.path2),
                );
            }
        }
    }
    // ---------------------------------------------------------------- C01
    fn versions(&self, g: &Group, before: &Fs, paths: &BTreeSet<String>) -> Versions {
        let mut v: Versions = BTreeMap::new();
        let mut w = World { fs: before.clone(), clock: 0, mono: 0 };
        let add = |fs: &Fs, v: &mut Versions| {
            for p in paths {
                let x = fs.get(p).map(|d| d.to_vec());
                let e = v.entry(p.clone()).or_default();
                if !e.contains(&x) {
                    e.push(x);
                }
            }
        };
        add(&w.fs, &mut v);
        let mut ops: Vec<FileOp> = g.edits.iter().map(|e| e.1.clone()).collect();
        for f in &g.faults {
            if let Act::File(o) = &f.act {
                ops.push(o.clone());
            }
        }
        for o in &ops {
            Sim::apply_file_op(&mut w, o);
            add(&w.fs, &mut v);
        }
        v
    }
    fn judge_inline(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        let mut given: BTreeMap<String, usize> = BTreeMap::new();
        let mut fctx: Option<&Ctx> = None;
        for k in 0..g.invs.len() {
            let cmd = &g.invs[k].cmd;
            if cmd.sub == "format" && cmd.inline {
                for p in formatted(before, cmd, &ctxs[k].cwd) {
                    *given.entry(p).or_default() += 1;
                }
                fctx = Some(&ctxs[k]);
            }
        }
        let Some(c) = fctx else { return };
        for (p, n) in &given {
            let old = before.get(p).unwrap().to_vec();
            let mut chain = vec![old.clone()];
            for _ in 0..*n {
                match self.oracle.fmt(self.sim, c, chain.last().unwrap()) {
                    Some(f) => {
                        if let Some(w) = self.last_word(c, &old).filter(|w| !contains(&f, w.as_bytes())) {
                            return self.fail("note-damaged", format!("{} is formatted without its end, {}", p, w));
                        }
                        chain.push(f)
                    }
                    None => break,
                }
            }
            match self.w.fs.get(p) {
                None => return self.fail("note-lost", format!("{} does not exist any more", p)),
                Some(d) => {
                    let u = self.unsynced.entry(p.clone()).or_default();
                    u.extend(chain.iter().cloned());
                    // a power failure may also undo what an earlier run did
                    if !chain.contains(&*d) && !(out.power_lost && u.contains(&*d)) {
                        let f = chain.last().unwrap();
                        return self.fail(
                            "note-damaged",
                            format!("{} holds neither its old nor its formatted text: old {}, {}", p, show(&old), diff(f, &d)),
                        );
                    }
                }
            }
            if self.w.fs.mode(p) != before.mode(p) {
                return self.fail(
                    "permissions-changed",
                    format!("{}: mode {:o} became {:o}", p, before.mode(p).unwrap(), self.w.fs.mode(p).unwrap()),
                );
            }
        }
        if out.power_lost {
            self.unsynced.clear();
        }
        if g.invs.len() == 1 && out.outs[0].status.ok() {
            self.complete(g, 0, before, out, c, "success-but-unformatted", true);
        }
        if out.fired.iter().all(|f| *f == 0) && !out.power_lost {
            for k in 0..g.invs.len() {
                if !out.outs[k].status.ok() && self.valid(before, &g.invs[k], &ctxs[k]) {
                    // another formatter may legitimately be in the way only if it deletes notes; none does
                    self.fail("failed-without-fault", self.why(g, k, out));
                }
            }
        }
    }
    // ---------------------------------------------------------------- C09
    fn judge_edited(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        let mut touched: BTreeSet<String> = BTreeSet::new();
        let mut removes = false;
        for (_, e) in &g.edits {
            match e {
                FileOp::Put(p, _) | FileOp::PutBytes(p, _) => {
                    touched.insert(p.clone());
                }
                FileOp::Remove(p) => {
                    touched.insert(p.clone());
                    removes = true;
                }
                FileOp::Rename(a, b) => {
                    touched.insert(a.clone());
                    touched.insert(b.clone());
                    removes = true;
                }
                _ => {}
            }
        }
        // everything the file system held at some time
        let mut snaps = vec![before.clone()];
        for (_, e) in &g.edits {
            let mut w = World { fs: snaps.last().unwrap().clone(), clock: 0, mono: 0 };
            Sim::apply_file_op(&mut w, e);
            snaps.push(w.fs);
        }
        let vers = self.versions(g, before, &touched);
        for k in 0..g.invs.len() {
            let (inv, c, o) = (&g.invs[k], &ctxs[k], &out.outs[k]);
            let cmd = &inv.cmd;
            if !o.status.ok() {
                let mut convertible = || {
                    cmd.sub != "convert"
                        || covered(&snaps, c).iter().all(|(p, _)| {
                            let vs = vers.get(p).cloned().unwrap_or_else(|| vec![before.get(p).map(|d| d.to_vec())]);
                            vs.iter().flatten().all(|t| self.oracle.html(self.sim, c, p, t).is_ok())
                        })
                };
                if !removes && matches!(o.status, Status::Exit(_)) && convertible() {
                    // nothing was ever missing and every version is convertible: the run must succeed
                    return self.fail("edit-made-run-fail", self.why(g, k, out));
                }
                if !matches!(o.status, Status::Exit(2) | Status::Exit(3)) {
                    return self.fail("edit-crashed-run", self.why(g, k, out));
                }
            }
            match cmd.sub.as_str() {
                "convert" if !cmd.stdout => {
                    for (p, opt) in covered(&snaps, c) {
                        let Some(op) = out_path(&c.eff, &p) else { continue };
                        let mut ok: Vec<Vec<u8>> = vec![];
                        let mut absent = !o.status.ok() || opt;
                        if let Some(d) = before.get(&op) {
                            // an earlier output may stay if the page was not rendered
                            if !o.status.ok() || opt {
                                ok.push(d.to_vec());
                            }
                        }
                        let vs = vers.get(&p).cloned().unwrap_or_else(|| vec![before.get(&p).map(|d| d.to_vec())]);
                        for v in &vs {
                            match v {
                                None => absent = true,
                                Some(t) => match self.oracle.html(self.sim, c, &p, t) {
                                    Ok(h) => ok.push(h),
                                    Err(_) => absent = true,
                                },
                            }
                        }
                        match self.w.fs.get(&op) {
                            None if absent => {}
                            None => return self.fail("page-missing", format!("{:?}: {} of {} missing", cmd.args(), op, p)),
                            Some(d) if ok.contains(&*d) => {}
                            Some(d) => {
                                let w = ok.last().cloned().unwrap_or_default();
                                return self.fail(
                                    "mixed-output",
                                    format!("{:?}: {} is no rendering of any version of {} that existed: {}", cmd.args(), op, p, diff(&w, &d)),
                                );
                            }
                        }
                    }
                }
                "convert" | "format" if !cmd.inline => {
                    if !o.status.ok() {
                        continue;
                    }
                    let mut groups: Vec<(bool, Vec<Vec<u8>>)> = vec![];
                    for (p, mut opt) in covered(&snaps, c) {
                        let vs = vers.get(&p).cloned().unwrap_or_else(|| vec![before.get(&p).map(|d| d.to_vec())]);
                        let mut alts = vec![];
                        for v in &vs {
                            match v {
                                None => opt = true,
                                Some(t) => {
                                    let h = if cmd.sub == "convert" {
                                        self.oracle.html(self.sim, c, &p, t).ok()
                                    } else {
                                        self.oracle.fmt(self.sim, c, t)
                                    };
                                    match h {
                                        Some(mut h) => {
                                            h.push(b'\n');
                                            alts.push(h)
                                        }
                                        None => opt = true,
                                    }
                                }
                            }
                        }
                        // a page of nested wikis is printed once for each
                        for i in 0..times(&snaps, c, &p).1 {
                            groups.push((opt || i >= times(&snaps, c, &p).0, alts.clone()));
                        }
                    }
                    if let Err(e) = permuted_alt(&o.stdout, &groups) {
                        return self.fail("mixed-output", format!("{:?}: stdout {}", cmd.args(), e));
                    }
                }
                "serve" => {}
                "inspect" => {
                    if !o.status.ok() {
                        continue;
                    }
                    let Ok(doc) = serde_json::from_slice::<Value>(&o.stdout) else {
                        return self.fail("mixed-output", format!("{:?}: not JSON: {}", cmd.args(), show(&o.stdout)));
                    };
                    let mut want: BTreeSet<(usize, String)> = loaded(before, &c.eff, cmd)
                        .into_iter()
                        .filter(|x| !touched.contains(&x.1))
                        .collect();
                    let sel = selected(&c.eff, cmd);
                    for (pos, wi) in sel.iter().enumerate() {
                        let files = doc[0]["wikis"][pos]["files"].as_array().cloned().unwrap_or_default();
                        for f in files {
                            let p = f["path"].as_str().unwrap_or("").to_string();
                            want.remove(&(*wi, p.clone()));
                            let vs = vers.get(&p).cloned().unwrap_or_else(|| vec![before.get(&p).map(|d| d.to_vec())]);
                            let mut f = f.clone();
                            canon_json(&mut f);
                            let mut hit = false;
                            for v in vs.iter().flatten() {
                                if let Ok(mut e) = self.page_entry(c, *wi, &p, v) {
                                    canon_json(&mut e);
                                    hit |= e == f;
                                }
                            }
                            if !hit {
                                return self.fail(
                                    "mixed-output",
                                    format!("{:?}: entry of {} matches no version of it that existed", cmd.args(), p),
                                );
                            }
                        }
                    }
                    if let Some(p) = want.into_iter().next() {
                        return self.fail("page-missing", format!("{:?}: {:?} not listed", cmd.args(), p));
                    }
                }
                _ => {
                    // inline format: each note holds a version or a formatted version
                    let moved: Vec<Option<Vec<u8>>> = if g.edits.iter().any(|e| matches!(e.1, FileOp::Rename(..))) {
                        // a note may have been formatted before it was moved
                        vers.values().flatten().filter(|v| v.is_some()).cloned().collect()
                    } else {
                        vec![]
                    };
                    for (p, _) in covered(&snaps, c) {
                        let mut vs = vers.get(&p).cloned().unwrap_or_else(|| vec![before.get(&p).map(|d| d.to_vec())]);
                        vs.extend(moved.iter().cloned());
                        let mut ok: Vec<Vec<u8>> = vec![];
                        let mut absent = false;
                        for v in &vs {
                            match v {
                                None => absent = true,
                                Some(t) => {
                                    ok.push(t.clone());
                                    ok.extend(self.oracle.fmt(self.sim, c, t));
                                }
                            }
                        }
                        match self.w.fs.get(&p) {
                            None if absent => {}
                            Some(d) if ok.contains(&*d) => {}
                            None => return self.fail("note-lost", format!("{} is gone", p)),
                            Some(d) => {
                                return self.fail(
                                    "note-damaged",
                                    format!("{} holds no version of it, formatted or not: {}", p, show(&d)),
                                )
                            }
                        }
                    }
                }
            }
        }
    }
    // ---------------------------------------------------------------- C03
    fn judge_repaired(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        for k in 0..g.invs.len() {
            let (cmd, c) = (&g.invs[k].cmd, &ctxs[k]);
            if !out.outs[k].status.ok() || cmd.no_cache || self.viol.is_some() {
                continue;
            }
            // every entry of a current page is what a first run would put there
            let cache = canon(before, &c.cwd, &cmd.cache_dir());
            let mut pages: BTreeSet<String> = loaded(before, &c.eff, cmd).into_iter().map(|x| x.1).collect();
            if cmd.sub == "convert" {
                pages.extend(converted(before, &c.eff, cmd, &c.cwd));
            }
            for p in &pages {
                for (name, want) in self.oracle.entries(self.sim, c, p, &before.get(p).unwrap()) {
                    let e = format!("{}/{}", cache, name);
                    let blocked = before.ino(&e).map_or(false, |i| !matches!(before.node(i).body, crate::fs::Body::File(_)));
                    // neither can it be stored where a leftover stands in its way
                    // that may not be written (an interrupted run's temporary file)
                    let stuck = before
                        .walk(&cache)
                        .iter()
                        .any(|(p, i)| {
                            let file = matches!(before.node(*i).body, crate::fs::Body::File(_));
                            p.starts_with(&format!("{}.", e)) && (!file || before.mode(p).map_or(true, |m| m & 0o200 == 0))
                        });
                    if blocked || stuck {
                        continue;
                    }
                    let Some(got) = self.w.fs.get(&e) else {
                        return self.fail("entry-missing", format!("{:?}: the entry {} of {} is not there", cmd.args(), name, p));
                    };
                    let readable = self.w.fs.mode(&e).map_or(true, |m| m & 0o400 != 0);
                    let json = |b: &[u8]| {
                        serde_json::from_slice::<Value>(b).ok().map(|mut v| {
                            canon_json(&mut v);
                            v
                        })
                    };
                    let same = match (json(&got), json(&want)) {
                        (a, Some(b)) => a == Some(b),
                        // not a document this check understands
                        (_, None) => !got.is_empty(),
                    };
                    if !readable || !same {
                        return self.fail(
                            "entry-not-repaired",
                            format!("{:?}: after a healthy run the entry {} of {} is still damaged: {}", cmd.args(), name, p, show(&got)),
                        );
                    }
                }
            }
        }
    }
    /// Entries written by concurrent runs hold one page's document, not pieces
    /// of several writers'.
    fn judge_entries(&mut self, before: &Fs, out: &GroupOut, ctxs: &[Ctx], g: &Group) {
        let calm = !out.power_lost && out.fired.iter().all(|n| *n == 0) && out.outs.iter().all(|o| o.status.ok());
        for k in 0..g.invs.len() {
            let (cmd, c) = (&g.invs[k].cmd, &ctxs[k]);
            if cmd.no_cache || cmd.sub == "format" || self.viol.is_some() {
                continue;
            }
            let cache = canon(before, &c.cwd, &cmd.cache_dir());
            let mut pages: BTreeSet<String> = loaded(before, &c.eff, cmd).into_iter().map(|x| x.1).collect();
            if cmd.sub == "convert" {
                pages.extend(converted(before, &c.eff, cmd, &c.cwd));
            }
            for p in &pages {
                for (name, want) in self.oracle.entries(self.sim, c, p, &before.get(p).unwrap()) {
                    let e = format!("{}/{}", cache, name);
                    let Some(got) = self.w.fs.get(&e).map(|d| d.to_vec()) else { continue };
                    if before.get(&e).map_or(false, |d| *d == got) {
                        continue;
                    }
                    let json = |b: &[u8]| {
                        serde_json::from_slice::<Value>(b).ok().map(|mut v| {
                            canon_json(&mut v);
                            v
                        })
                    };
                    let same = match (json(&got), json(&want)) {
                        (Some(a), Some(b)) => a == b,
                        // cut short: recognised and replaced by the next run
                        (None, Some(_)) => !calm,
                        (_, None) => true,
                    };
                    if !same {
                        return self.fail(
                            "mixed-entry",
                            format!("{:?}: the entry {} of {} was left as {}", cmd.args(), name, p, show(&got)),
                        );
                    }
                }
            }
        }
    }
    // ---------------------------------------------------------------- C04
    fn judge_no_leftover(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        // the notes that exist are exactly the ones the user made
        let mut user: BTreeSet<String> = BTreeSet::new();
        for st in std::iter::once(&Step::Files(self.scn.setup.clone())).chain(self.scn.steps.iter()) {
            let ops: Vec<FileOp> = match st {
                Step::Files(o) => o.clone(),
                Step::Run(g) => g.edits.iter().map(|e| e.1.clone()).collect(),
                _ => vec![],
            };
            for o in ops {
                match o {
                    FileOp::Put(p, _) | FileOp::PutBytes(p, _) => {
                        user.insert(p);
                    }
                    FileOp::Rename(_, b) => {
                        user.insert(b);
                    }
                    _ => {}
                }
            }
        }
        for k in 0..g.invs.len() {
            for (_, p) in loaded(before, &ctxs[k].eff, &g.invs[k].cmd) {
                if !user.contains(&p) {
                    return self.fail("leftover-became-a-note", format!("{} was never created by the user", p));
                }
            }
            if out.outs[k].status.ok() && g.invs[k].cmd.sub == "convert" {
                let want: BTreeSet<String> = converted(before, &ctxs[k].eff, &g.invs[k].cmd, &ctxs[k].cwd)
                    .iter()
                    .filter_map(|p| out_path(&ctxs[k].eff, p))
                    .collect();
                for w in &ctxs[k].eff {
                    for (p, _) in self.w.fs.files(&w.html) {
                        if p.ends_with(".html") && !want.contains(&p) && !user.contains(&p) {
                            // only the output of a note that once existed may stay behind
                            if !user.iter().any(|u| out_path(&ctxs[k].eff, u).as_deref() == Some(&p)) {
                                return self.fail("foreign-output", format!("{} belongs to no note", p));
                            }
                        }
                    }
                }
            }
        }
    }
    // ---------------------------------------------------------------- C07
    fn judge_prune(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        if g.invs.len() != 1 || out.power_lost {
            return;
        }
        let (cmd, c, o) = (&g.invs[0].cmd, &ctxs[0], &out.outs[0]);
        if cmd.sub == "format" {
            return;
        }
        let faulty = out.fired.iter().any(|f| *f > 0);
        if !o.status.ok() {
            if !faulty && self.valid(before, &g.invs[0], c) {
                self.fail("run-failed", self.why(g, 0, out));
            }
            return;
        }
        let dir = canon(before, &c.cwd, &cmd.cache_dir());
        let names = |fs: &Fs| -> BTreeSet<String> {
            fs.files(&dir).keys().map(|p| p[dir.len() + 1..].to_string()).collect()
        };
        let (pre, post) = (names(before), names(&self.w.fs));
        let mut needed: BTreeSet<String> = BTreeSet::new();
        let mut pages: BTreeSet<String> = loaded(before, &c.eff, cmd).into_iter().map(|x| x.1).collect();
        let upfront = pages.clone();
        if cmd.sub == "convert" {
            pages.extend(converted(before, &c.eff, cmd, &c.cwd));
        }
        for p in &pages {
            let e = self.oracle.entries(self.sim, c, p, &before.get(p).unwrap());
            if e.is_empty() {
                return self.fail("nothing-cached", format!("a run over {} alone leaves no cache entry", p));
            }
            needed.extend(e.into_iter().map(|x| x.0));
        }
        if cmd.no_cache {
            if pre != post {
                self.fail("cache-touched", format!("{:?}: cache listing changed: {:?} -> {:?}", cmd.args(), pre, post));
            }
            return;
        }
        // a fault on an entry excuses that entry only
        let hit: BTreeSet<String> = out
            .trace
            .iter()
            .filter(|x| x.injected)
            .filter_map(|x| x.path.strip_prefix(&format!("{}/", dir)).map(|s| s.to_string()))
            .collect();
        for n in &needed {
            if !post.contains(n) && !hit.contains(n) && !(faulty && !pre.contains(n)) {
                return self.fail("entry-missing", format!("{:?}: {} of a loaded page is not in the cache", cmd.args(), n));
            }
        }
        if cmd.no_prune {
            if let Some(n) = pre.iter().find(|n| !post.contains(*n)) {
                self.fail("removed-despite-no-prune", format!("{:?}: {} was removed", cmd.args(), n));
            }
        } else {
            let _ = upfront;
            for n in &post {
                if !needed.contains(n) && !hit.contains(n) && !(faulty && !pre.contains(n)) {
                    return self.fail("stale-entry-kept", format!("{:?}: {} belongs to no loaded page", cmd.args(), n));
                }
            }
        }
    }
    // ---------------------------------------------------------------- C11
    fn judge_date(&mut self, g: &Group, before: &Fs, out: &GroupOut, ctxs: &[Ctx]) {
        for k in 0..g.invs.len() {
            let (cmd, c) = (&g.invs[k].cmd, &ctxs[k]);
            if !out.outs[k].status.ok() {
                self.fail("run-failed", self.why(g, k, out));
                return;
            }
            let mut days: BTreeSet<String> = BTreeSet::new();
            for (a, b) in &out.segs {
                for t in [*a, *b] {
                    days.insert(local_date(&c.tz, t.div_euclid(1_000_000_000)));
                }
            }
            for p in converted(before, &c.eff, cmd, &c.cwd) {
                let op = out_path(&c.eff, &p).unwrap();
                let Some(d) = self.w.fs.get(&op) else {
                    return self.fail("page-missing", format!("{} missing", op));
                };
                let text = before.get(&p).unwrap();
                let text = String::from_utf8_lossy(&text).to_string();
                let html = String::from_utf8_lossy(&d).to_string();
                let shown = html.split("<d>").nth(1).and_then(|s| s.split("</d>").next()).unwrap_or("none").to_string();
                match text.lines().find_map(|l| l.strip_prefix("%date ")) {
                    Some(want) => {
                        if shown != want.trim() {
                            return self.fail("wrong-explicit-date", format!("{}: note says {} page says {}", p, want, shown));
                        }
                    }
                    None => {
                        if !days.contains(&shown) {
                            return self.fail(
                                "wrong-date",
                                format!("{}: page says {}, but during the run the local date ({}) was {:?}", p, shown, c.tz, days),
                            );
                        }
                    }
                }
            }
        }
    }
}

/// Nothing in this page can be a mistake of its author: no template, no link.
fn plain(t: &[u8]) -> bool {
    std::str::from_utf8(t).map_or(false, |t| !["%template", "[[", "{{", "://", "www.", "mailto:"].iter().any(|x| t.contains(x)))
}
/// The notes a command covers in any of these states, and whether some state
/// lacks them.
fn covered(snaps: &[Fs], c: &Ctx) -> BTreeMap<String, bool> {
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    for fs in snaps {
        let s: BTreeSet<String> = match c.cmd.sub.as_str() {
            "format" => formatted(fs, &c.cmd, &c.cwd).into_iter().collect(),
            _ => converted(fs, &c.eff, &c.cmd, &c.cwd).into_iter().collect(),
        };
        for p in s {
            *n.entry(p).or_default() += 1;
        }
    }
    n.into_iter().map(|(p, k)| (p, k < snaps.len())).collect()
}
/// How often at least and at most a run covers this note.
fn times(snaps: &[Fs], c: &Ctx, p: &str) -> (usize, usize) {
    let n = |fs: &Fs| match c.cmd.sub.as_str() {
        "format" => formatted(fs, &c.cmd, &c.cwd).iter().filter(|q| *q == p).count(),
        _ => converted(fs, &c.eff, &c.cmd, &c.cwd).iter().filter(|q| *q == p).count(),
    };
    (snaps.iter().map(n).min().unwrap_or(0), snaps.iter().map(n).max().unwrap_or(0))
}
/// The local calendar date by the C library's rules.
pub fn local_date(tz: &str, t: i64) -> String {
    unsafe {
        let k = std::ffi::CString::new("TZ").unwrap();
        let v = std::ffi::CString::new(tz).unwrap();
        libc::setenv(k.as_ptr(), v.as_ptr(), 1);
        extern "C" {
            fn tzset();
        }
        tzset();
        let mut tm: libc::tm = std::mem::zeroed();
        libc::localtime_r(&t, &mut tm);
        format!("{:04}-{:02}-{:02}", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday)
    }
}
/// Is `data` the concatenation of all chunks in some order?
pub fn permuted(data: &[u8], chunks: &[Vec<u8>]) -> Result<(), String> {
    let g: Vec<(bool, Vec<Vec<u8>>)> = chunks.iter().map(|c| (false, vec![c.clone()])).collect();
    permuted_alt(data, &g)
}
pub fn permuted_alt(data: &[u8], groups: &[(bool, Vec<Vec<u8>>)]) -> Result<(), String> {
    fn go(data: &[u8], groups: &[(bool, Vec<Vec<u8>>)], used: &mut Vec<bool>, best: &mut usize, left: &mut u32) -> bool {
        *best = (*best).min(data.len());
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if data.is_empty() {
            return used.iter().zip(groups).all(|(u, g)| *u || g.0);
        }
        for i in 0..groups.len() {
            if used[i] {
                continue;
            }
            for alt in &groups[i].1 {
                if !alt.is_empty() && data.starts_with(alt) {
                    used[i] = true;
                    if go(&data[alt.len()..], groups, used, best, left) {
                        return true;
                    }
                    used[i] = false;
                }
            }
        }
        false
    }
    let mut best = data.len();
    let mut left = 20_000;
    let mut used = vec![false; groups.len()];
    if go(data, groups, &mut used, &mut best, &mut left) {
        Ok(())
    } else {
        Err(format!(
            "is not the expected {} pages in any order; unmatched from byte {}: {}",
            groups.len(),
            data.len() - best,
            show(&data[data.len() - best..])
        ))
    }
}
/// Compares the selection of an inspect run with the expected document.
pub fn same_json(path: &str, want: Value, got: Value) -> Result<(), String> {
    let mut want = match path {
        "$" => Value::Array(vec![want]),
        "$..checksum" => {
            let mut v: Vec<Value> = vec![];
            for w in want["wikis"].as_array().unwrap() {
                for f in w["files"].as_array().unwrap() {
                    v.push(f["checksum"].clone());
                }
            }
            Value::Array(v)
        }
        "$.wikis[*].files[*].path" => {
            let mut v: Vec<Value> = vec![];
            for w in want["wikis"].as_array().unwrap() {
                for f in w["files"].as_array().unwrap() {
                    v.push(f["path"].clone());
                }
            }
            Value::Array(v)
        }
        _ => {
            let mut v: Vec<Value> = vec![];
            for w in want["wikis"].as_array().unwrap() {
                for f in w["files"].as_array().unwrap() {
                    v.push(f.clone());
                }
            }
            Value::Array(v)
        }
    };
    let mut got = got;
    canon_json(&mut want);
    canon_json(&mut got);
    if path != "$" {
        for v in [&mut want, &mut got] {
            if let Value::Array(a) = v {
                a.sort_by_key(|x| x.to_string());
            }
        }
    }
    if want == got {
        Ok(())
    } else {
        let (a, b) = (want.to_string(), got.to_string());
        Err(format!("differs: {}", diff(a.as_bytes(), b.as_bytes())))
    }
}

fn contains(a: &[u8], b: &[u8]) -> bool {
    a.windows(b.len()).any(|w| w == b)
}
