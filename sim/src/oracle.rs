//! What a correct run produces, obtained page by page: each page is run alone
//! through the same program on a pristine file system, without cache, faults
//! or concurrency, and the whole is assembled by the models in model.rs.
use crate::fs::{Body, Fs};
use crate::gen::{Cfg, WikiCfg, CFG};
use crate::model::*;
use crate::rng::hash_bytes;
use crate::world::*;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Ref {
    pub ok: bool,
    pub outs: BTreeMap<String, Vec<u8>>,
    pub stdout: Vec<u8>,
    pub cache: Vec<(String, Vec<u8>)>,
}
pub struct Oracle {
    memo: HashMap<u64, Rc<Ref>>,
    pub runs: u64,
    pub css: Option<Vec<u8>>,
}
/// Everything besides the notes that the output may depend on.
#[derive(Clone)]
pub struct Ctx {
    pub eff: Vec<WikiCfg>,
    pub extra: String,
    pub aux: BTreeMap<String, Vec<u8>>,
    pub cmd: Cmd,
    pub cwd: String,
    pub tz: String,
    pub clock: i64,
    /// (canonical extra path, is a directory)
    pub paths: Vec<(String, bool)>,
    pub hash: u64,
}
pub fn aux_files(fs: &Fs) -> BTreeMap<String, Vec<u8>> {
    let mut aux = BTreeMap::new();
    for dir in [crate::gen::TEMPLATES, crate::gen::SYNTAX, crate::gen::THEMES] {
        for (p, d) in fs.files(dir) {
            aux.insert(p, d.to_vec());
        }
    }
    if let Some(d) = fs.get(crate::gen::FCFG) {
        aux.insert(crate::gen::FCFG.to_string(), d.to_vec());
    }
    aux
}
impl Ctx {
    pub fn new(fs: &Fs, cfg: &Cfg, inv: &Inv, clock: i64) -> Ctx {
        let cwd = if inv.cwd.is_empty() { "/sim/home".to_string() } else { inv.cwd.clone() };
        let eff = effective(cfg, inv.vim.as_ref(), &inv.cmd, &cwd, fs);
        let aux = aux_files(fs);
        let paths: Vec<(String, bool)> = inv
            .cmd
            .paths
            .iter()
            .map(|p| {
                let c = canon(fs, &cwd, p);
                let d = fs.ino(&c).map_or(false, |i| matches!(fs.node(i).body, Body::Dir(_)));
                (c, d)
            })
            .collect();
        let extra = if inv.cmd.config.is_some() && inv.cmd.sub != "format" { cfg.extra.clone() } else { String::new() };
        let tz = inv.env.get("TZ").cloned().unwrap_or_else(|| "UTC0".into());
        let day = clock.div_euclid(86_400_000_000_000);
        let hash = hash_bytes(
            day as u64,
            format!("{:?}|{}|{:?}|{:?}|{}|{:?}|{}|{:?}", eff, extra, aux, inv.cmd.reference(), cwd, paths, tz, inv.vim)
                .as_bytes(),
        );
        Ctx { eff, extra, aux, cmd: inv.cmd.clone(), cwd, tz, clock, paths, hash }
    }
}

impl Oracle {
    pub fn new() -> Oracle {
        Oracle { memo: HashMap::new(), runs: 0, css: None }
    }
    fn run(&mut self, sim: &mut Sim, c: &Ctx, cmd: Cmd, page: Option<(&str, &[u8])>, key: u64) -> Rc<Ref> {
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        if self.memo.len() > 20_000 {
            self.memo.clear();
        }
        let mut w = World { fs: Fs::new(), clock: c.clock, mono: 1_000_000_000 };
        w.fs.mkdirs("/sim/home");
        w.fs.mkdirs("/sim/tmp");
        w.fs.mkdirs(&c.cwd);
        w.fs.put("/dev/null", b"");
        for (p, d) in &c.aux {
            w.fs.put(p, d);
        }
        let n_extra = if cmd.sub == "format" { 0 } else { c.paths.len() };
        let cfg = Cfg { wikis: c.eff[..c.eff.len() - n_extra].to_vec(), extra: c.extra.clone() };
        let mut cmd = cmd;
        if cmd.sub != "format" {
            w.fs.put(CFG, cfg.toml().as_bytes());
            cmd.config = Some(CFG.into());
        }
        for x in &c.eff {
            w.fs.mkdirs(&x.path);
        }
        cmd.paths = c.paths.iter().map(|p| p.0.clone()).collect();
        for (p, d) in &c.paths {
            if *d {
                w.fs.mkdirs(p);
            } else if cmd.sub != "format" {
                w.fs.put(p, b"x\n");
            }
        }
        if let Some((p, d)) = page {
            w.fs.put(p, d);
            if cmd.sub == "format" {
                cmd.paths = vec![p.to_string()];
            }
        }
        let before = w.fs.files("/");
        let mut env = BTreeMap::new();
        env.insert("TZ".to_string(), c.tz.clone());
        let inv = Inv { cmd, cwd: c.cwd.clone(), env, rand: 7, list: 7, ..Default::default() };
        let saved = std::mem::replace(&mut sim.verbose, false);
        let (np, nc, ns) = (sim.stats.procs, sim.stats.calls, sim.stats.sim_ns);
        let o = sim.run(&mut w, &Group { invs: vec![inv], ..Default::default() });
        sim.verbose = saved;
        sim.stats.procs = np;
        sim.stats.calls = nc;
        sim.stats.sim_ns = ns;
        self.runs += 1;
        let mut outs = BTreeMap::new();
        let mut cache = vec![];
        for (p, d) in w.fs.files("/") {
            if let Some(name) = p.strip_prefix(&format!("{}/", crate::gen::CACHE)) {
                cache.push((name.to_string(), d.to_vec()));
                continue;
            }
            if before.get(&p).map_or(true, |b| **b != *d) {
                outs.insert(p, d.to_vec());
            }
        }
        let r = Rc::new(Ref { ok: o.outs[0].status.ok(), outs, stdout: o.outs[0].stdout.clone(), cache });
        self.memo.insert(key, r.clone());
        r
    }
    fn key(c: &Ctx, what: &str, page: Option<(&str, &[u8])>) -> u64 {
        let mut k = hash_bytes(c.hash, what.as_bytes());
        if let Some((p, d)) = page {
            k = hash_bytes(hash_bytes(k, p.as_bytes()), d);
        }
        k
    }
    /// HTML of one page: None if converting it is an error.
    pub fn html(&mut self, sim: &mut Sim, c: &Ctx, page: &str, text: &[u8]) -> Result<Vec<u8>, String> {
        let k = Self::key(c, "html", Some((page, text)));
        let r = self.run(sim, c, c.cmd.reference(), Some((page, text)), k);
        if !r.ok {
            return Err("page cannot be converted".into());
        }
        let Some(out) = out_path(&c.eff, page) else { return Err("no wiki".into()) };
        match r.outs.get(&out) {
            Some(d) => Ok(d.clone()),
            None => Err(format!("PLACE converting {} alone did not write {} but {:?}", page, out, r.outs.keys())),
        }
    }
    /// Does --stdout show this page as it was written (once per wiki it is in)?
    pub fn prints(&mut self, sim: &mut Sim, c: &Ctx, page: &str, text: &[u8], html: &[u8]) -> bool {
        // an extra path that is a file is printed too
        if c.paths.iter().any(|p| !p.1) {
            return true;
        }
        let k = Self::key(c, "printed", Some((page, text)));
        let mut cmd = c.cmd.reference();
        cmd.stdout = true;
        let r = self.run(sim, c, cmd, Some((page, text)), k);
        let n = html.len() + 1;
        r.ok && r.stdout.len() >= n
            && r.stdout.len() % n == 0
            && r.stdout.chunks(n).all(|x| x[..n - 1] == *html && x[n - 1] == b'\n')
    }
    /// Formatted text of one note: None if formatting it is an error.
    pub fn fmt(&mut self, sim: &mut Sim, c: &Ctx, text: &[u8]) -> Option<Vec<u8>> {
        // only text can be formatted
        if std::str::from_utf8(text).is_err() {
            return None;
        }
        let page = "/sim/home/w0/a.wiki";
        let k = Self::key(c, "fmt", Some((page, text)));
        let mut cmd = c.cmd.reference();
        cmd.exts = vec![];
        let r = self.run(sim, c, cmd, Some((page, text)), k);
        if !r.ok || r.stdout.last() != Some(&b'\n') {
            return None;
        }
        Some(r.stdout[..r.stdout.len() - 1].to_vec())
    }
    /// The file entry inspect reports for a page (whole document of a run
    /// with this page alone; None page: the skeleton).
    pub fn inspect(&mut self, sim: &mut Sim, c: &Ctx, page: Option<(&str, &[u8])>) -> Option<Value> {
        let k = Self::key(c, "inspect", page);
        let r = self.run(sim, c, c.cmd.reference(), page, k);
        if !r.ok {
            return None;
        }
        let v: Value = serde_json::from_slice(&r.stdout).ok()?;
        v.get(0).cloned()
    }
    /// The cache entries (name, content) a run over this page alone leaves.
    pub fn entries(&mut self, sim: &mut Sim, c: &Ctx, page: &str, text: &[u8]) -> Vec<(String, Vec<u8>)> {
        let mut c = c.clone();
        c.paths.clear();
        c.eff = vec![WikiCfg {
            path: "/sim/home/w0".into(),
            html: "/sim/home/html0".into(),
            name: None,
            ext: "wiki".into(),
            css: None,
            diary: None,
        }];
        c.extra = String::new();
        c.hash = 1;
        let _ = page;
        let page = "/sim/home/w0/a.wiki";
        let k = Self::key(&c, "entries", Some((page, text)));
        let cmd = Cmd { sub: "inspect".into(), json: "$..name".into(), ..Default::default() };
        self.run(sim, &c, cmd, Some((page, text)), k).cache.clone()
    }
    pub fn style(&mut self, sim: &mut Sim) -> Vec<u8> {
        if self.css.is_none() {
            let c = Ctx {
                eff: vec![WikiCfg {
                    path: "/sim/home/w0".into(),
                    html: "/sim/home/html0".into(),
                    name: None,
                    ext: "wiki".into(),
                    css: None,
                    diary: None,
                }],
                extra: String::new(),
                aux: BTreeMap::new(),
                cmd: Cmd::default(),
                cwd: "/sim/home".into(),
                tz: "UTC0".into(),
                clock: 1_700_000_000_000_000_000,
                paths: vec![],
                hash: 2,
            };
            let cmd = Cmd { sub: "convert".into(), css: true, no_cache: true, ..Default::default() };
            let r = self.run(sim, &c, cmd, Some(("/sim/home/w0/a.wiki", b"x\n")), 99);
            self.css = Some(r.outs.get("/sim/home/html0/style.css").cloned().unwrap_or_default());
        }
        self.css.clone().unwrap()
    }
}

/// Sorts what is stored in hash maps, so that equal documents compare equal.
pub fn canon_json(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(canon_json),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                canon_json(x);
                if k == "cells" {
                    if let Value::Array(a) = x {
                        a.sort_by_key(|x| x.to_string());
                    }
                }
                if k == "files" {
                    if let Value::Array(a) = x {
                        a.sort_by_key(|f| f.get("path").map(|p| p.to_string()));
                    }
                }
            }
        }
        _ => {}
    }
}
