//! Small independent models: command lines, which wikis a command selects,
//! which notes it covers and where its output belongs.
use crate::fs::{Body, Fs};
use crate::gen::{Cfg, WikiCfg, CACHE};
use crate::world::normalize;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Cmd {
    pub sub: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub config: Option<String>,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub merge: bool,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub include: Vec<String>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub paths: Vec<String>,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub stdout: bool,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub css: bool,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub inline: bool,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub no_cache: bool,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub no_prune: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub cache: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub output: Option<String>,
    pub json: String,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub exts: Vec<String>,
    pub verbose: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stamp: Option<String>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub quiet: bool,
    /// --timekeeper (only known to the build with that feature)
    #[serde(default, skip_serializing_if = "is_false")]
    pub times: bool,
}
fn is_false(b: &bool) -> bool {
    !b
}
impl Cmd {
    pub fn args(&self) -> Vec<String> {
        let mut a = vec![self.sub.clone()];
        if self.sub == "inspect" {
            a.push(self.json.clone());
        }
        a.extend(self.paths.iter().cloned());
        if let Some(c) = &self.config {
            a.push(format!("--config={}", c));
        }
        if let Some(c) = &self.cache {
            a.push(format!("--cache={}", c));
        }
        if let Some(c) = &self.output {
            a.push(format!("--output={}", c));
        }
        for (f, n) in [
            (self.merge, "--merge"),
            (self.stdout, "--stdout"),
            (self.css, "--include-vimwiki-css"),
            (self.inline, "--inline"),
            (self.no_cache, "--no-cache"),
            (self.no_prune, "--no-prune-cache"),
            (self.quiet, "--quiet"),
            (self.times, "--timekeeper"),
        ] {
            if f {
                a.push(n.to_string());
            }
        }
        for i in &self.include {
            a.push(format!("--include={}", i));
        }
        for i in &self.exts {
            a.push(format!("--ext={}", i));
        }
        if let Some(s) = &self.stamp {
            a.push(format!("--timestamp={}", s));
        }
        for _ in 0..self.verbose {
            a.push("-v".into());
        }
        a
    }
    pub fn writes_stdout(&self) -> bool {
        match self.sub.as_str() {
            "convert" => self.stdout,
            "format" => !self.inline,
            "serve" => false,
            _ => self.output.is_none(),
        }
    }
    pub fn cache_dir(&self) -> String {
        self.cache.clone().unwrap_or_else(|| CACHE.to_string())
    }
    pub fn exts(&self) -> Vec<String> {
        if self.exts.is_empty() {
            vec!["wiki".into()]
        } else {
            self.exts.clone()
        }
    }
    /// The options that decide what the output of one page looks like.
    pub fn reference(&self) -> Cmd {
        let mut c = self.clone();
        c.no_cache = true;
        c.no_prune = false;
        c.cache = None;
        c.verbose = 0;
        c.stamp = None;
        c.quiet = false;
        c.times = false;
        c.merge = false;
        c.css = false;
        c.output = None;
        c.inline = false;
        if c.sub == "convert" {
            c.stdout = false;
        }
        if c.sub == "inspect" {
            c.json = "$".into();
        }
        c
    }
}

pub const TMP_HTML: &str = "/sim/home/vimwiki_html";

/// All wikis a command works with: those vim lists, the configured ones, and
/// one for every extra path.
pub fn effective(cfg: &Cfg, vim: Option<&Vec<WikiCfg>>, cmd: &Cmd, cwd: &str, fs: &Fs) -> Vec<WikiCfg> {
    let mut w = vec![];
    if cmd.sub == "format" {
        return w;
    }
    let configured = if cmd.config.is_some() { cfg.wikis.clone() } else { vec![] };
    if cmd.merge || configured.is_empty() {
        if let Some(v) = vim {
            w.extend(v.iter().cloned());
        }
    }
    w.extend(configured);
    for p in &cmd.paths {
        let p = canon(fs, cwd, p);
        let isdir = fs.ino(&p).map_or(false, |i| matches!(fs.node(i).body, Body::Dir(_)));
        let path = if isdir { p } else { parent(&p) };
        w.push(WikiCfg { path, html: TMP_HTML.into(), name: None, ext: "wiki".into(), css: None, diary: None });
    }
    w
}
pub fn canon(fs: &Fs, cwd: &str, p: &str) -> String {
    match fs.resolve(cwd, p, true) {
        Ok(r) if r.ino.is_some() => r.abs,
        _ => normalize(&if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) }),
    }
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(k) => p[..k].to_string(),
    }
}
pub fn selected(w: &[WikiCfg], cmd: &Cmd) -> Vec<usize> {
    (0..w.len())
        .filter(|&i| {
            cmd.include.is_empty()
                || cmd.include.iter().any(|x| match x.parse::<usize>() {
                    Ok(n) => n == i,
                    Err(_) => w[i].name.as_deref() == Some(x),
                })
        })
        .collect()
}
pub fn ext_of(p: &str) -> Option<&str> {
    let name = p.rsplit('/').next().unwrap();
    match name.rfind('.') {
        Some(0) | None => None,
        Some(k) => Some(&name[k + 1..]),
    }
}
/// Regular files at or below `root` with this extension, links not followed.
pub fn notes(fs: &Fs, root: &str, exts: &[String]) -> Vec<String> {
    let good = |p: &str| ext_of(p).map_or(false, |e| exts.iter().any(|x| x == e));
    match fs.ino(root).map(|i| &fs.node(i).body) {
        Some(Body::File(_)) => {
            if good(root) {
                vec![root.to_string()]
            } else {
                vec![]
            }
        }
        Some(Body::Dir(_)) => fs.files(root).into_keys().filter(|p| good(p)).collect(),
        _ => vec![],
    }
}
/// Notes whose parse the command loads up front: (wiki index, path).
pub fn loaded(fs: &Fs, w: &[WikiCfg], cmd: &Cmd) -> Vec<(usize, String)> {
    let mut v = vec![];
    for i in selected(w, cmd) {
        for p in notes(fs, &w[i].path, &[w[i].ext.clone()]) {
            v.push((i, p));
        }
    }
    v
}
/// Notes convert renders, in no particular order (a note may occur twice).
pub fn converted(fs: &Fs, w: &[WikiCfg], cmd: &Cmd, cwd: &str) -> Vec<String> {
    if cmd.paths.is_empty() {
        loaded(fs, w, cmd).into_iter().map(|x| x.1).collect()
    } else {
        cmd.paths.iter().flat_map(|p| notes(fs, &canon(fs, cwd, p), &["wiki".to_string()])).collect()
    }
}
/// Notes `format` covers.
pub fn formatted(fs: &Fs, cmd: &Cmd, cwd: &str) -> Vec<String> {
    let mut v = vec![];
    for p in &cmd.paths {
        let p = canon(fs, cwd, p);
        match fs.ino(&p).map(|i| &fs.node(i).body) {
            Some(Body::File(_)) => v.push(p),
            Some(Body::Dir(_)) => v.extend(notes(fs, &p, &cmd.exts())),
            _ => {}
        }
    }
    v
}
pub fn out_path(w: &[WikiCfg], page: &str) -> Option<String> {
    let mut best: Option<(usize, &WikiCfg)> = None;
    for x in w {
        if page.starts_with(&format!("{}/", x.path)) {
            let d = x.path.split('/').filter(|c| !c.is_empty()).count();
            if best.map_or(true, |b| d >= b.0) {
                best = Some((d, x));
            }
        }
    }
    let x = best?.1;
    let rel = &page[x.path.len() + 1..];
    let (dir, name) = match rel.rfind('/') {
        Some(k) => (&rel[..k + 1], &rel[k + 1..]),
        None => ("", rel),
    };
    let stem = match name.rfind('.') {
        Some(0) | None => name,
        Some(k) => &name[..k],
    };
    Some(normalize(&format!("{}/{}{}.html", x.html, dir, stem)))
}
pub fn css_paths(w: &[WikiCfg], cmd: &Cmd) -> Vec<String> {
    if cmd.sub != "convert" || !cmd.css || cmd.stdout {
        return vec![];
    }
    if cmd.paths.is_empty() {
        selected(w, cmd).into_iter().map(|i| format!("{}/style.css", w[i].html)).collect()
    } else {
        vec![format!("{}/style.css", TMP_HTML)]
    }
}
