//! One scenario generator per property.  Everything is drawn from the run's
//! seed; what is executed is an explicit list of steps.
use crate::fs::Fs;
use crate::gen::*;
use crate::model::*;
use crate::oracle::Oracle;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::world::*;
use std::collections::BTreeMap;

pub const PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C19",
];

pub struct G {
    pub r: Rng,
    pub cfg: Cfg,
    pub templates: Vec<String>,
    /// texts used so far (for reverts and duplicates)
    pub texts: Vec<String>,
    pub marker: u64,
    pub plain: f64,
    pub wild: f64,
    /// How often a note is long.
    pub long: f64,
    pub blocks: (usize, usize),
    pub dates: bool,
    pub setup: Vec<FileOp>,
    pub extra_dir: bool,
    pub seed: u64,
}
const NAMES: [&str; 14] = [
    "index", "todo", "notes.v2", "with space", "ünï", "diary/2021-03-04", "sub/page", "sub/deep/er/page", "a", "A",
    "diary/diary", "x(1)", "sub.d/q", "b",
];
pub const EXTRA: &str = "/sim/home/extra";

impl G {
    pub fn new(seed: u64, max_wikis: usize) -> G {
        let mut r = Rng::new(mix(seed));
        let cfg = config(&mut r, max_wikis);
        let templates = if cfg.extra.contains("[template]") { vec!["t1.html".to_string(), "sub/t2.html".to_string(), "sub/t1.html".to_string()] } else { vec![] };
        let mut g = G {
            r,
            cfg,
            templates,
            texts: vec![],
            marker: mix(seed ^ 0xabcdef),
            plain: 0.15,
            wild: 0.04,
            long: 0.012,
            blocks: (1, 4),
            dates: true,
            setup: vec![],
            extra_dir: false,
            seed,
        };
        if !g.templates.is_empty() {
            g.setup.push(FileOp::Put(format!("{}/t1.html", TEMPLATES), "<1>%title% %date%</1>%content%".into()));
            g.setup.push(FileOp::Put(format!("{}/sub/t1.html", TEMPLATES), "<s1>%title%</s1>\n%content%".into()));
            g.setup.push(FileOp::Put(
                format!("{}/sub/t2.html", TEMPLATES),
                format!("<2>%root_path%%css%</2>\n{}%content%\n", "pad ".repeat(g.r.below(3) * 1500)),
            ));
        }
        if g.cfg.extra.contains("syntax_dir") {
            g.setup.push(FileOp::Put(format!("{}/toy.sublime-syntax", SYNTAX), TOY_SYNTAX.into()));
        }
        if g.cfg.extra.contains("theme_dir") {
            g.setup.push(FileOp::Put(format!("{}/toy.tmTheme", THEMES), TOY_THEME.into()));
        }
        for w in &g.cfg.wikis {
            g.setup.push(FileOp::Mkdir(w.path.clone()));
        }
        g
    }
    pub fn text(&mut self) -> String {
        self.marker = mix(self.marker);
        let m = format!("mk{:08x}", self.marker & 0xffff_ffff);
        let plain = self.r.chance(self.plain);
        let mut r = self.r.fork(1);
        let (lo, hi) = self.blocks;
        let n_wikis = self.cfg.wikis.len();
        let named = self.cfg.wikis.iter().filter_map(|w| w.name.clone()).collect();
        let templates = self.templates.clone();
        let dates = self.dates;
        let mut t = PageGen { r: &mut r, n_wikis, named, templates, dates, plain, wild: self.wild }.page(&m, lo, hi);
        if r.chance(self.long) {
            // a long note: beyond the sizes of buffers
            if r.chance(0.5) {
                t = format!("{}\n", m);
            }
            let n = 1 << r.range(if self.long > 0.9 { 12 } else { 9 }, 14);
            let (w, d) = [("more words ", 2), ("more words ", 2), ("a line\n", 8), ("- item\n", 32)][r.below(if self.long > 0.9 { 2 } else { 4 })];
            t += &format!("\n{}\n\nfin{}\n", w.repeat((n + r.below(n)) / d), &m[2..]);
        } else if r.chance(0.1) {
            t += &format!("\n\nfin{}\n", &m[2..]);
        }
        self.texts.push(t.clone());
        t
    }
    /// A text, possibly one that was used before.
    pub fn text_or_old(&mut self, p: f64) -> String {
        if !self.texts.is_empty() && self.r.chance(p) {
            let k = self.r.below(self.texts.len());
            self.texts[k].clone()
        } else {
            self.text()
        }
    }
    pub fn page_path(&mut self) -> String {
        if self.extra_dir && self.r.chance(0.25) {
            return format!("{}/{}.wiki", EXTRA, self.r.pick(&NAMES));
        }
        let k = self.r.below(self.cfg.wikis.len());
        let w = &self.cfg.wikis[k];
        format!("{}/{}.{}", w.path, NAMES[self.r.below(NAMES.len())], w.ext)
    }
    /// Initial notes, and things that are not notes.
    pub fn populate(&mut self, lo: usize, hi: usize) {
        let n = self.r.range(lo, hi);
        for _ in 0..n {
            let p = self.page_path();
            let t = self.text_or_old(0.1);
            self.setup.push(FileOp::Put(p, t));
        }
        let w0 = self.cfg.wikis[0].path.clone();
        let foreign = [
            ("pic.png", "PNG"),
            ("readme.md", "# no note"),
            ("noext", "plain"),
            ("a.wiki~", "backup"),
            (".hidden", "x"),
            ("wiki", "a file called wiki"),
            ("sub/.wiki", "dot"),
        ];
        for (f, c) in foreign {
            if self.r.chance(0.15) {
                self.setup.push(FileOp::Put(format!("{}/{}", w0, f), c.into()));
            }
        }
        if self.r.chance(0.1) {
            self.setup.push(FileOp::Symlink("/sim/home/elsewhere.wiki".into(), format!("{}/link.wiki", w0)));
            self.setup.push(FileOp::Put("/sim/home/elsewhere.wiki".into(), "linked\n".into()));
        }
        if self.r.chance(0.06) {
            // a link to a directory, which may lead back here
            let to = ["/sim/home/linked", ".", "..", "/sim/home", "nowhere"][self.r.below(5)];
            self.setup.push(FileOp::Put("/sim/home/linked/n.wiki".into(), "in a linked directory\n".into()));
            self.setup.push(FileOp::Symlink(to.into(), format!("{}/ldir", w0)));
        }
        if self.r.chance(0.015) {
            // many small notes
            let n = self.r.range(12, 40);
            for i in 0..n {
                let c = self.r.below(1000);
                self.setup.push(FileOp::Put(format!("{}/many/n{}.{}", w0, i, self.cfg.wikis[0].ext), format!("small {}\n", c)));
            }
        }
        if self.r.chance(0.3) {
            let h = self.cfg.wikis[0].html.clone();
            self.setup.push(FileOp::Put(format!("{}/index.html", h), "an older and much longer page ".repeat(300)));
            self.setup.push(FileOp::Put(format!("{}/mine.css", h), "body {}".into()));
        }
    }
    pub fn cmd(&mut self, sub: &str) -> Cmd {
        let mut c = Cmd { sub: sub.into(), config: Some(CFG.into()), json: "$".into(), ..Default::default() };
        if self.r.chance(0.05) {
            c.verbose = self.r.range(1, 4) as u8;
        }
        if self.r.chance(0.02) {
            c.stamp = Some(["sec", "ms", "ns", "none"][self.r.below(4)].into());
        }
        c.quiet = self.r.chance(0.02);
        c
    }
    pub fn convert_or_inspect(&mut self, p_inspect: f64) -> Cmd {
        if self.r.chance(p_inspect) {
            if self.r.chance(0.08) {
                return self.cmd("serve");
            }
            let mut c = self.cmd("inspect");
            c.json = ["$", "$", "$..checksum", "$.wikis[*].files[*].path", "$.wikis[*].files[*]"][self.r.below(5)].into();
            if self.r.chance(0.25) {
                c.output = Some(["/sim/home/out.json", "/sim/home/html0.json", "rel.json"][self.r.below(3)].into());
            }
            c
        } else {
            let mut c = self.cmd("convert");
            c.stdout = self.r.chance(0.15);
            c.css = self.r.chance(0.15);
            c
        }
    }
    pub fn selection(&mut self, c: &mut Cmd, p: f64) {
        let n = self.cfg.wikis.len();
        if self.r.chance(p) {
            let k = self.r.range(1, 2);
            for _ in 0..k {
                let i = self.r.below(n);
                let x = match (&self.cfg.wikis[i].name, self.r.chance(0.5)) {
                    (Some(n), true) => n.clone(),
                    _ => i.to_string(),
                };
                if !c.include.contains(&x) {
                    c.include.push(x);
                }
            }
            if self.r.chance(0.08) {
                c.include.push(["no such wiki", "17", "My Wiki"][self.r.below(3)].into());
            }
            if self.r.chance(0.04) {
                c.include.remove(0);
                if c.include.is_empty() {
                    c.include.push("nothing".into());
                }
            }
        }
    }
    pub fn inv(&mut self, cmd: Cmd) -> Inv {
        Inv {
            cmd,
            rand: self.r.next() >> 16,
            list: self.r.next() >> 16,
            untyped: self.r.chance(0.15),
            ..Default::default()
        }
    }
    /// Another working directory, and paths spelled relative to it.
    fn respell(&mut self, i: &mut Inv) {
        if !i.cwd.is_empty() || i.cmd.sub == "format" || !self.r.chance(0.08) {
            return;
        }
        let there = |d: &str| self.setup.iter().any(|o| matches!(o, FileOp::Put(p, _) if under(p, d)));
        let mut dirs = vec!["/sim/home".to_string(), "/sim".into()];
        for d in [self.cfg.wikis.first().map_or(EXTRA.to_string(), |w| w.path.clone()), EXTRA.to_string()] {
            if there(&d) {
                dirs.push(d);
            }
        }
        let cwd = self.r.pick(&dirs).clone();
        let ups = cwd.matches('/').count();
        let how = self.r.below(3);
        let rel = |p: &str| {
            if !p.starts_with("/sim/") {
                p.to_string()
            } else if p == cwd {
                ".".into()
            } else if let (true, Some(q)) = (how < 2, p.strip_prefix(&format!("{}/", cwd))) {
                if how == 0 {
                    q.to_string()
                } else {
                    format!("./{}", q)
                }
            } else {
                format!("{}{}", "../".repeat(ups), &p[1..])
            }
        };
        let (a, b, c) = (self.r.chance(0.8), self.r.chance(0.4), self.r.chance(0.4));
        if a {
            i.cmd.paths = i.cmd.paths.iter().map(|p| rel(p)).collect();
        }
        if b {
            i.cmd.config = i.cmd.config.as_deref().map(rel);
        }
        if c {
            i.cmd.cache = Some(rel(&i.cmd.cache_dir()));
        }
        if let Some(o) = &i.cmd.output {
            i.cmd.output = Some(rel(o));
        }
        i.cwd = cwd;
    }
    pub fn group(&mut self, mut invs: Vec<Inv>) -> Group {
        for i in &mut invs {
            self.respell(i);
        }
        let near = invs.len() > 1 && self.r.chance(0.35);
        Group { invs, sched: self.r.next() >> 16, psw: *self.r.pick(&[0.02, 0.08, 0.25, 0.5]), near, ..Default::default() }
    }
    pub fn one(&mut self, cmd: Cmd) -> Group {
        let i = self.inv(cmd);
        self.group(vec![i])
    }
    /// A change somebody makes to the notes between (or during) runs.
    pub fn edit(&mut self, fs: &Fs, atomic_only: bool) -> Option<FileOp> {
        let mut all: Vec<String> = vec![];
        for w in self.cfg.wikis.clone() {
            all.extend(notes(fs, &w.path, &[w.ext.clone()]));
        }
        if self.extra_dir {
            all.extend(notes(fs, EXTRA, &["wiki".to_string()]));
        }
        all.sort();
        all.dedup();
        let _ = atomic_only;
        let k = self.r.below(10);
        if all.is_empty() || k <= 1 {
            let p = self.page_path();
            let t = self.text_or_old(0.25);
            return Some(FileOp::Put(p, t));
        }
        let p = all[self.r.below(all.len())].clone();
        Some(match k {
            2 if self.r.chance(0.15) => {
                // emptied, for good or before it is written again
                FileOp::Put(p, ["", "\n", " "][self.r.below(3)].into())
            }
            2..=5 => {
                let t = self.text_or_old(0.3);
                FileOp::Put(p, t)
            }
            6 => FileOp::Remove(p),
            7 => {
                // rename within the same wiki
                let w = self.cfg.wikis.iter().filter(|w| p.starts_with(&format!("{}/", w.path))).max_by_key(|w| w.path.len())?;
                let to = format!("{}/moved{}.{}", w.path, self.r.below(3), w.ext);
                if fs.ino(&to).is_some() {
                    return None;
                }
                FileOp::Rename(p, to)
            }
            9 if self.r.chance(0.7) => {
                let t = String::from_utf8_lossy(&fs.get(&p)?).to_string();
                let t = self.nudge(t)?;
                self.texts.push(t.clone());
                FileOp::Put(p, t)
            }
            8 => {
                // copy another note over this one
                let q = all[self.r.below(all.len())].clone();
                FileOp::Put(p, String::from_utf8_lossy(&fs.get(&q)?).to_string())
            }
            _ => {
                // same length, one byte different, and optionally the same mtime
                let mut t = String::from_utf8_lossy(&fs.get(&p)?).to_string();
                let pos = t.find("mk")?;
                let d = t.as_bytes()[pos + 3];
                let n = if d == b'0' { "1" } else { "0" };
                t.replace_range(pos + 3..pos + 4, n);
                self.texts.push(t.clone());
                FileOp::Put(p, t)
            }
        })
    }
    /// A change that hardly shows: white space, line ends, case, order, look-alikes.
    fn nudge(&mut self, t: String) -> Option<String> {
        let mut l: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
        let k = self.r.below(l.len());
        let j = self.r.below(l.len());
        match self.r.below(12) {
            0 => l[k].push_str(["  ", " ", "\t", "\u{a0}"][self.r.below(4)]),
            1 => l[k] = l[k].trim_end().to_string(),
            2 => l[k].insert(0, [' ', '\t'][self.r.below(2)]),
            3 => l.iter_mut().for_each(|x| x.push_str("  ")),
            4 => return Some(if t.contains("\r\n") { t.replace("\r\n", "\n") } else { t.replace('\n', "\r\n") }),
            5 => return Some(if t.ends_with('\n') { t.trim_end().to_string() } else { format!("{}\n", t) }),
            6 => l.insert(k, String::new()),
            7 => l.swap(k, j),
            8 => {
                let c = l[k].chars().next()?;
                let u: String = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
                if l[k].starts_with("%") || l[k].contains("[[wn.") {
                    return None;
                }
                l[k] = format!("{}{}", u, &l[k][c.len_utf8()..]);
            }
            9 => return Some(format!("{}{}", if t.starts_with('\n') { "" } else { "\n" }, t)),
            10 => return Some(t.replace("ünï", "u\u{308}ni\u{308}").replace("naïve", "nai\u{308}ve")),
            _ => {
                // towards the end of a long note
                let pad = self.r.range(1, 900);
                return Some(format!("{}\n\n{}\nend {}\n", t.trim_end(), "filler words ".repeat(pad), self.r.below(3)));
            }
        }
        Some(l.join("\n"))
    }
    pub fn edits(&mut self, run: &Runner, lo: usize, hi: usize) -> Vec<FileOp> {
        let n = self.r.range(lo, hi);
        let mut w = run.w.clone();
        let mut v = vec![];
        for _ in 0..n {
            if let Some(o) = self.edit(&w.fs, false) {
                let t = match &o {
                    FileOp::Put(p, _) => w.fs.ino(p).map(|i| (p.clone(), w.fs.node(i).mtime)),
                    _ => None,
                };
                Sim::apply_file_op(&mut w, &o);
                v.push(o);
                if let Some((p, t)) = t {
                    if self.r.chance(0.3) {
                        v.push(FileOp::Mtime(p, t));
                    }
                }
            }
        }
        v
    }
}

/// Picks one (operation, path) of the trace, then one of its occurrences.
pub fn site<'t>(r: &mut Rng, trace: &'t [Call], f: impl Fn(&Call) -> bool) -> Option<(&'t Call, u32)> {
    let mut m: BTreeMap<(usize, &str, &str), Vec<(u32, usize)>> = BTreeMap::new();
    let mut count: BTreeMap<(usize, &str, &str), u32> = BTreeMap::new();
    for (i, c) in trace.iter().enumerate() {
        let k = (c.inv, c.op, c.path.as_str());
        let n = count.entry(k).or_default();
        if f(c) {
            m.entry(k).or_default().push((*n, i));
        }
        *n += 1;
    }
    if m.is_empty() {
        return None;
    }
    let keys: Vec<_> = m.keys().cloned().collect();
    let v = &m[r.pick(&keys)];
    let (n, i) = *r.pick(v);
    Some((&trace[i], n))
}
pub fn errs(op: &str) -> &'static [i32] {
    match op {
        "open" => &[5, 13, 24, 28, 2, 4, 12, 116],
        "read" => &[5, 4, 116],
        "write" => &[5, 28, 4],
        "fsync" => &[5, 28],
        "rename" => &[5, 28, 13, 2],
        "unlink" => &[5, 13, 2, 30],
        "mkdir" => &[5, 28, 13],
        "stat" | "fstat" | "access" => &[5, 13],
        "chmod" | "fchmod" => &[1, 30],
        "close" => &[5, 4],
        "getdents" => &[5],
        "lseek" | "ftruncate" => &[5],
        "realpath" | "readlink" => &[5, 13],
        _ => &[5],
    }
}
/// A failing, short or interrupted call, or a full disk, at this site.
pub fn io_fault(r: &mut Rng, c: &Call, nth: u32) -> Fault {
    let count = if r.chance(0.7) { 1 } else { r.range(2, 6) as u32 };
    let act = match (c.op, r.below(10)) {
        ("write", 0..=2) => Act::Short(r.below(c.n.max(1))),
        ("write", 3 | 4) if !c.path.starts_with('<') => Act::Free(r.below(c.n + 2) as u64),
        ("read", 0..=3) => Act::Short(1 + r.below(c.n.max(1))),
        ("write", _) if c.path.starts_with('<') => Act::Err(*r.pick(&[32, 5, 4, 28, 11])),
        (op, _) => Act::Err(*r.pick(errs(op))),
    };
    // a zero-length write never makes progress; the kernel does not do that
    let act = match act {
        Act::Short(0) if c.op == "write" => Act::Short(1),
        a => a,
    };
    let count = if matches!(act, Act::Free(_)) { 1 } else { count };
    Fault { inv: c.inv, op: c.op.into(), path: c.path.clone(), prefix: false, nth, count, act }
}
pub fn kill_fault(r: &mut Rng, c: &Call, nth: u32) -> Fault {
    let act = match r.below(4) {
        0 => Act::KillAfter,
        1 if c.op == "write" && c.n > 0 => Act::KillTorn(r.below(c.n)),
        _ => Act::KillBefore,
    };
    Fault { inv: c.inv, op: c.op.into(), path: c.path.clone(), prefix: false, nth, count: 1, act }
}
pub fn power_fault(r: &mut Rng, c: &Call, nth: u32) -> Fault {
    let s = r.next() >> 16;
    let act = if r.chance(0.5) { Act::PowerBefore(s) } else { Act::PowerAfter(s) };
    Fault { inv: c.inv, op: c.op.into(), path: c.path.clone(), prefix: false, nth, count: 1, act }
}
fn interesting(c: &Call) -> bool {
    c.mutating || matches!(c.op, "fsync" | "close" | "read" | "open" | "rename")
}
pub fn under(p: &str, d: &str) -> bool {
    p.starts_with(&format!("{}/", d))
}

pub fn scenario<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, prop: &str, seed: u64) -> Runner<'a> {
    match prop {
        "C01" => c01(sim, oracle, seed),
        "C02" => c02(sim, oracle, seed),
        "C03" => c03(sim, oracle, seed),
        "C04" => c04(sim, oracle, seed),
        "C05" => c05(sim, oracle, seed),
        "C06" => c06(sim, oracle, seed),
        "C07" => c07(sim, oracle, seed),
        "C08" => c08(sim, oracle, seed),
        "C09" => c09(sim, oracle, seed),
        "C10" => c10(sim, oracle, seed),
        "C11" => c11(sim, oracle, seed),
        "C12" => c12(sim, oracle, seed),
        "C15" => c15(sim, oracle, seed),
        "C16" => c16(sim, oracle, seed),
        "C17" => c17(sim, oracle, seed),
        "C18" => c18(sim, oracle, seed),
        "C19" => c19(sim, oracle, seed),
        _ => panic!("unknown property {}", prop),
    }
}
const NOON: i64 = 1_700_049_600_000_000_000; // 2023-11-15 12:00 UTC

fn fmt_cfg(g: &mut G) -> Option<String> {
    if g.r.chance(0.5) {
        return None;
    }
    let s = fmt_text(g);
    g.setup.push(FileOp::Put(FCFG.into(), s));
    Some(FCFG.into())
}
fn fmt_text(g: &mut G) -> String {
    let mut s = String::new();
    s += &format!("[page]\nindent_str = \"{}\"\nseparate_block_elements = {}\n", ["  ", "    ", "\\t"][g.r.below(3)], g.r.chance(0.5));
    if g.r.chance(0.4) {
        s += "[header]\nno_padding = true\n";
    }
    if g.r.chance(0.4) {
        s += "[list]\ntrim_lines = false\n";
    }
    s
}
/// Arguments of a format run over some of the notes.
fn format_cmd(g: &mut G, fs: &Fs, inline: bool, cfg: &Option<String>) -> (Cmd, String) {
    let mut c = Cmd { sub: "format".into(), config: cfg.clone(), inline, ..Default::default() };
    let mut all: Vec<String> = vec![];
    for w in &g.cfg.wikis {
        all.extend(notes(fs, &w.path, &[w.ext.clone()]));
    }
    let mut cwd = "/sim/home".to_string();
    match g.r.below(5) {
        0 | 1 => c.paths = g.cfg.wikis.iter().map(|w| w.path.clone()).collect(),
        2 => c.paths = vec![g.cfg.wikis[0].path.clone()],
        3 if !all.is_empty() => {
            let n = g.r.range(1, all.len().min(4));
            g.r.shuffle(&mut all);
            c.paths = all[..n].to_vec();
        }
        _ => {
            cwd = g.cfg.wikis[0].path.clone();
            c.paths = vec![".".into()];
        }
    }
    // nested wikis: do not name the same directory twice
    let mut keep: Vec<String> = vec![];
    for p in c.paths.clone() {
        if !keep.iter().any(|k| p == *k || under(&p, k)) {
            keep.push(p);
        }
    }
    c.paths = keep;
    if g.cfg.wikis.iter().any(|w| w.ext != "wiki") {
        c.exts = vec!["wiki".into(), "txt".into()];
    }
    if g.r.chance(0.05) {
        c.verbose = 3;
    }
    (c, cwd)
}

/// Notes no editor would leave behind: not UTF-8, or strange but valid.
fn odd_note(g: &mut G) -> Vec<u8> {
    let t = g.text().into_bytes();
    let at = g.r.below(t.len() + 1);
    let mut v = t[..at].to_vec();
    let odd: &[u8] = match g.r.below(8) {
        0 => b"\xff\xfe",
        1 => b"\xe9 ",
        2 => b"\xf0\x9f",
        3 => b"\xed\xa0\x80",
        4 => b"\0",
        5 => b"\xc3",
        6 => b"\xef\xbb\xbf",
        _ => b"\x0c\x1b\x7f",
    };
    v.extend_from_slice(odd);
    v.extend_from_slice(&t[at..]);
    v
}
fn c01<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.long = 0.03;
    g.populate(1, 4);
    if g.r.chance(0.1) {
        // a long note
        g.blocks = (25, 40);
        g.plain = 1.0;
        let p = g.page_path();
        let t = g.text();
        g.setup.push(FileOp::Put(p, t));
        g.blocks = (1, 4);
    }
    let fc = fmt_cfg(&mut g);
    if g.r.chance(0.5) {
        for o in g.setup.clone() {
            if let FileOp::Put(p, _) = o {
                if g.r.chance(0.4) && !p.starts_with("/sim/home/templates") && p != FCFG {
                    let m = *g.r.pick(&[0o600, 0o640, 0o664, 0o444, 0o400, 0o755, 0o000, 0o1644, 0o2664]);
                    g.setup.push(FileOp::Chmod(p, m));
                }
            }
        }
    }
    if g.r.chance(0.2) {
        let p = g.page_path();
        let d = odd_note(&mut g);
        g.setup.push(FileOp::PutBytes(p, d));
    }
    odd_name(&mut g, 0.08);
    let mut run = Runner::new(sim, oracle, "C01", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let (c, cwd) = format_cmd(&mut g, &run.w.fs, true, &fc);
        let procs = if g.r.chance(0.35) { g.r.range(2, 3) } else { 1 };
        let invs: Vec<Inv> = (0..procs)
            .map(|_| {
                let mut i = g.inv(c.clone());
                i.cwd = cwd.clone();
                i
            })
            .collect();
        let mut grp = g.group(invs);
        let nf = if procs > 1 { g.r.below(2) } else if g.r.chance(0.9) { g.r.range(1, 2) } else { 0 };
        if nf > 0 {
            let d = run.dry(&grp);
            grp.switches = if g.r.chance(0.5) { Some(d.switches.clone()) } else { None };
            // directories that cannot be listed are skipped by design
            let dirs: Vec<String> = d.trace.iter().filter(|c| c.op == "getdents").map(|c| c.path.clone()).collect();
            for _ in 0..nf {
                let kind = g.r.below(10);
                let wikis: Vec<String> = g.cfg.wikis.iter().map(|w| w.path.clone()).collect();
                let s = if kind < 9 {
                    site(&mut g.r, &d.trace, |c| interesting(c) && wikis.iter().any(|w| under(&c.path, w)))
                } else {
                    site(&mut g.r, &d.trace, |_| true)
                };
                if let Some((c, nth)) = s {
                    let f = match kind {
                        0..=2 => kill_fault(&mut g.r, c, nth),
                        3 | 4 => power_fault(&mut g.r, c, nth),
                        _ if dirs.contains(&c.path) || c.op == "stat" => continue,
                        _ => io_fault(&mut g.r, c, nth),
                    };
                    grp.faults.push(f);
                }
            }
        }
        run.run(grp);
        if g.r.chance(0.3) {
            let e = g.edits(&run, 1, 2);
            run.files(e);
        }
        if run.viol.is_some() {
            break;
        }
    }
    run
}

fn cache_flags(g: &mut G, c: &mut Cmd) {
    c.no_cache = g.r.chance(0.15);
    c.no_prune = g.r.chance(0.3);
}

fn c02<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.extra_dir = g.r.chance(0.3);
    g.populate(1, 5);
    // one long note whose versions differ in a single letter anywhere
    let mut huge = None;
    if g.r.chance(0.025) {
        g.long = 1.0;
        g.plain = 1.0;
        g.blocks = (1, 1);
        let (p, t) = (g.page_path(), g.text());
        g.setup.retain(|o| !matches!(o, FileOp::Put(q, _) if q.ends_with(".wiki")));
        g.setup.push(FileOp::Put(p.clone(), t));
        g.long = 0.0;
        huge = Some(p);
    }
    let mut run = Runner::new(sim, oracle, "C02", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(2, 5);
    for k in 0..n {
        let mut c = g.convert_or_inspect(0.35);
        cache_flags(&mut g, &mut c);
        g.selection(&mut c, 0.25);
        if g.extra_dir && g.r.chance(0.4) && run.w.fs.ino(EXTRA).is_some() {
            if g.r.chance(0.7) {
                c.include.clear();
            }
            c.paths = vec![EXTRA.into()];
        }
        let grp = g.one(c);
        run.run(grp);
        if let Some(p) = &huge {
            let t = run.w.fs.get(p).map(|t| t.to_vec()).unwrap_or_default();
            let at: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_lowercase()).collect();
            if !at.is_empty() {
                let mut t = t;
                let i = *g.r.pick(&at);
                t[i] = if t[i] == b'q' { b'z' } else { b'q' };
                run.files(vec![FileOp::Put(p.clone(), String::from_utf8(t).unwrap())]);
            }
        } else if k + 1 < n {
            let e = g.edits(&run, 0, 3);
            run.files(e);
            if g.r.chance(0.1) {
                let mut c2 = g.cfg.clone();
                c2.extra = if c2.extra.contains("[comment]") {
                    c2.extra.replace("[comment]\ninclude = true\n", "")
                } else {
                    format!("[comment]\ninclude = true\n{}", c2.extra)
                };
                g.cfg = c2.clone();
                run.step(Step::Config(c2));
            }
        }
        if run.viol.is_some() {
            break;
        }
    }
    run
}

fn damage(g: &mut G, fs: &Fs) -> Option<FileOp> {
    let all = fs.files(CACHE);
    if all.is_empty() {
        return None;
    }
    let k = g.r.below(all.len());
    let (p, d) = all.into_iter().nth(k).unwrap();
    let mut b = d.to_vec();
    Some(match g.r.below(9) {
        0 => FileOp::PutBytes(p, vec![]),
        1 | 2 => {
            // cut within the document
            let end = b.iter().rposition(|c| *c == b'}').unwrap_or(0);
            b.truncate(g.r.below(end + 1));
            FileOp::PutBytes(p, b)
        }
        3 => {
            for x in b.iter_mut().skip(g.r.below(d.len().max(1))) {
                *x = 0;
            }
            if b == *d {
                b.push(b'{');
            }
            FileOp::PutBytes(p, b)
        }
        4 => {
            let n = g.r.range(1, 60);
            let v: Vec<u8> = (0..n).map(|_| (g.r.next() >> 13) as u8 | 0x80).collect();
            FileOp::PutBytes(p, v)
        }
        5 => {
            if g.r.chance(0.5) {
                b.extend_from_slice(b"]}trailing");
            } else {
                // the size reached the disk and the data did not
                let n = g.r.range(1, 600);
                b.extend(vec![0; n]);
            }
            FileOp::PutBytes(p, b)
        }
        6 => FileOp::Chmod(p, 0),
        7 => FileOp::Remove(p),
        _ => FileOp::Put(p, ["null", "{}", "[]", "[[[[", "\"x\"", "{\"elements\":3}"][g.r.below(6)].into()),
    })
}

/// A note whose name is not UTF-8 (see fs::dec).
fn odd_name(g: &mut G, p: f64) {
    if g.r.chance(p) {
        let k = g.r.below(g.cfg.wikis.len());
        let (dir, ext) = (g.cfg.wikis[k].path.clone(), g.cfg.wikis[k].ext.clone());
        let n = ["caf\u{f7e9}", "\u{f7ff}", "sub\u{f7c3}/page", "a\u{f780}/b\u{f7fe}"][g.r.below(4)];
        let t = g.text_or_old(0.1);
        g.setup.push(FileOp::Put(format!("{}/{}.{}", dir, n, ext), t));
    }
}
/// Things in the cache directory that no run put there.
fn cache_oddities(g: &mut G, p: f64) {
    if g.r.chance(p) {
        g.setup.push(FileOp::Put("/sim/home/other/dir/precious.wiki".into(), "not yours\n".into()));
        let to = ["/sim/home/other", "/sim/home/other/dir/precious.wiki", "/sim/home/w0", "/sim/home/html0", "..", "gone"][g.r.below(6)];
        let at = ["link", "0123456789abcdef0123456789abcdef01234568", "sub/link"][g.r.below(3)];
        g.setup.push(FileOp::Mkdir(format!("{}/sub", CACHE)));
        g.setup.push(FileOp::Symlink(to.into(), format!("{}/{}", CACHE, at)));
    }
    if g.r.chance(p) {
        // a name that is not UTF-8 (see fs::dec)
        let n = ["\u{f7ff}\u{f7fe}", "caf\u{f7e9}", "sub/\u{f7c3}"][g.r.below(3)];
        g.setup.push(FileOp::Put(format!("{}/{}", CACHE, n), "x".into()));
    }
}
fn c03<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.extra_dir = g.r.chance(0.2);
    g.populate(1, 4);
    g.setup.push(FileOp::Mkdir(CACHE.into()));
    cache_oddities(&mut g, 0.06);
    let mut run = Runner::new(sim, oracle, "C03", seed, NOON, g.cfg.clone(), g.setup.clone());
    let mut c = g.convert_or_inspect(0.2);
    c.no_prune = g.r.chance(0.3);
    let grp = g.one(c);
    run.run(grp);
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let mut ops = vec![];
        if g.r.chance(0.7) {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                ops.extend(damage(&mut g, &run.w.fs));
            }
            if g.r.chance(0.1) {
                // an entry's place is taken by a directory
                if let Some(p) = run.w.fs.files(CACHE).keys().next() {
                    ops.push(FileOp::Remove(p.clone()));
                    ops.push(FileOp::Mkdir(p.clone()));
                }
            }
        }
        if g.r.chance(0.5) {
            let e = g.edits(&run, 0, 2);
            ops.extend(e);
        }
        run.files(ops);
        let mut c = g.convert_or_inspect(0.3);
        c.no_prune = g.r.chance(0.3);
        if g.extra_dir && g.r.chance(0.4) && run.w.fs.ino(EXTRA).is_some() {
            c.paths = vec![EXTRA.into()];
        }
        let mut grp = g.one(c);
        let faulty = g.r.chance(0.65);
        if faulty {
            let d = run.dry(&grp);
            let nf = g.r.range(1, 3);
            for _ in 0..nf {
                let persistent = g.r.chance(0.2);
                // the directory itself may fail to be listed, but it exists
                let s = site(&mut g.r, &d.trace, |c| {
                    (under(&c.path, CACHE) || (c.path == CACHE && (c.op == "open" || c.op == "getdents"))) && c.op != "clock"
                });
                let Some((c, nth)) = s else { break };
                let (cop, cpath) = (c.op.to_string(), c.path.clone());
                let mut f = if g.r.chance(0.15) && under(&cpath, CACHE) {
                    // it vanishes or is damaged right now
                    let o = match g.r.below(3) {
                        0 => FileOp::Remove(cpath.clone()),
                        1 => FileOp::PutBytes(cpath.clone(), b"{\"elem".to_vec()),
                        _ => FileOp::Put(cpath.clone(), String::new()),
                    };
                    Fault { inv: 0, op: cop, path: cpath, prefix: false, nth, count: 1, act: Act::File(o) }
                } else {
                    io_fault(&mut g.r, c, nth)
                };
                if persistent && !matches!(f.act, Act::File(_) | Act::Free(_) | Act::Err(4)) {
                    f.path = format!("{}/", CACHE);
                    f.prefix = true;
                    f.nth = 0;
                    f.count = 1_000_000;
                }
                // a full disk would also hit the outputs
                if matches!(f.act, Act::Free(_)) {
                    f.act = Act::Err(28);
                }
                grp.faults.push(f);
            }
        } else {
            grp.tag = "healthy".into();
        }
        run.run(grp);
        if run.viol.is_some() {
            return run;
        }
    }
    let mut c = g.cmd("convert");
    c.no_prune = g.r.chance(0.3);
    let mut grp = g.one(c);
    grp.tag = "healthy".into();
    run.run(grp);
    run
}

fn c04<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.populate(1, 4);
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C04", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let procs = if g.r.chance(0.25) { 2 } else { 1 };
        let mut invs = vec![];
        for _ in 0..procs {
            let i = match g.r.below(10) {
                0..=2 => {
                    let (c, cwd) = format_cmd(&mut g, &run.w.fs, true, &fc);
                    let mut i = g.inv(c);
                    i.cwd = cwd;
                    i
                }
                _ => {
                    let mut c = g.convert_or_inspect(0.2);
                    cache_flags(&mut g, &mut c);
                    g.inv(c)
                }
            };
            invs.push(i);
        }
        let mut grp = g.group(invs);
        let d = run.dry(&grp);
        grp.switches = if procs > 1 { Some(d.switches.clone()) } else { None };
        let nf = g.r.range(1, 2);
        for _ in 0..nf {
            if let Some((c, nth)) = site(&mut g.r, &d.trace, interesting) {
                let f = match g.r.below(10) {
                    0..=3 => kill_fault(&mut g.r, c, nth),
                    4..=7 => power_fault(&mut g.r, c, nth),
                    _ => io_fault(&mut g.r, c, nth),
                };
                grp.faults.push(f);
            }
        }
        run.run(grp);
        if g.r.chance(0.5) {
            let e = g.edits(&run, 1, 2);
            run.files(e);
        }
    }
    let mut c = g.cmd("convert");
    c.no_prune = g.r.chance(0.3);
    let mut grp = g.one(c);
    grp.tag = "final".into();
    run.run(grp);
    if g.r.chance(0.3) {
        let c = g.cmd("inspect");
        let mut grp = g.one(c);
        grp.tag = "final".into();
        run.run(grp);
    }
    run
}

/// Any single command with any mix of options.
fn any_cmd(g: &mut G, run: &Runner, fc: &Option<String>) -> Inv {
    match g.r.below(10) {
        0..=2 => {
            let inline = g.r.chance(0.6);
            let (c, cwd) = format_cmd(g, &run.w.fs, inline, fc);
            let mut i = g.inv(c);
            i.cwd = cwd;
            i
        }
        k => {
            let mut c = g.convert_or_inspect(0.3);
            cache_flags(g, &mut c);
            if k < 8 {
                g.selection(&mut c, 0.3);
            } else if run.w.fs.ino(EXTRA).is_some() {
                c.paths = vec![EXTRA.into()];
                let f = notes(&run.w.fs, EXTRA, &["wiki".to_string()]);
                if g.r.chance(0.3) && !f.is_empty() {
                    c.paths = vec![f[g.r.below(f.len())].clone()];
                }
                c.css = false;
                if g.r.chance(0.25) {
                    // what is not selected is loaded late
                    g.selection(&mut c, 1.0);
                }
            }
            if g.r.chance(0.1) {
                c.cache = Some(["/sim/home/.othercache", "relcache"][g.r.below(2)].into());
            }
            g.inv(c)
        }
    }
}

fn c05<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.extra_dir = g.r.chance(0.4);
    if g.r.chance(0.85) {
        g.populate(1, 4);
    } else {
        g.populate(0, 0);
    }
    if g.r.chance(0.1) {
        let p = g.page_path();
        g.setup.push(match g.r.below(4) {
            0 => FileOp::PutBytes(p, vec![b'a', 0xff, 0xfe, b'\n']),
            1 => FileOp::Put(p, "[[wiki99:nowhere]]\n".into()),
            2 => FileOp::Put(p, "%template missing.html\n\ntext\n".into()),
            _ => FileOp::Put(p, String::new()),
        });
    }
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C05", seed, NOON, g.cfg.clone(), g.setup.clone());
    if g.r.chance(0.1) {
        // a stylesheet of the very size of the right one
        let mut s = run.style().to_vec();
        if !s.is_empty() {
            let k = g.r.below(s.len());
            s[k] ^= 1;
            run.files(vec![FileOp::PutBytes(format!("{}/style.css", g.cfg.wikis[0].html), s)]);
        }
    }
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let i = any_cmd(&mut g, &run, &fc);
        let mut grp = g.group(vec![i]);
        if g.r.chance(0.85) {
            let d = run.dry(&grp);
            let nf = g.r.range(1, 2);
            // directories that cannot be listed or examined are skipped by
            // design, so those faults are not part of this property
            let skip: Vec<&Call> = d.trace.iter().filter(|c| c.op == "getdents").collect();
            let dirs: Vec<String> = skip.iter().map(|c| c.path.clone()).collect();
            let outs = g.r.chance(0.6);
            for _ in 0..nf {
                // the first look at a path given on the command line
                let given: Vec<String> = d.trace.iter().filter(|c| c.op == "realpath").map(|c| c.path.clone()).chain(grp.invs[0].cmd.paths.iter().cloned()).collect();
                if g.r.chance(0.12) {
                    if let Some((c, 0)) = site(&mut g.r, &d.trace, |c| c.op == "stat" && given.contains(&c.path)) {
                        let f = Fault { inv: c.inv, op: c.op.into(), path: c.path.clone(), prefix: false, nth: 0, count: 1, act: Act::Err(*g.r.pick(&[5, 13])) };
                        grp.faults.push(f);
                        continue;
                    }
                }
                let s = site(&mut g.r, &d.trace, |c| {
                    !matches!(c.op, "getdents" | "stat" | "clock" | "fdok" | "getfl" | "access")
                        && !(c.op == "open" && dirs.contains(&c.path))
                        && (!outs || c.mutating || matches!(c.op, "write" | "fsync" | "rename" | "read"))
                });
                if let Some((c, nth)) = s {
                    let f = io_fault(&mut g.r, c, nth);
                    // inline formatting may find a note already gone: not this property
                    grp.faults.push(f);
                }
            }
        }
        run.run(grp);
        if g.r.chance(0.4) {
            let e = g.edits(&run, 1, 2);
            run.files(e);
        }
    }
    run
}

fn c06<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.extra_dir = g.r.chance(0.4);
    g.populate(1, 5);
    if g.r.chance(0.1) {
        let p = g.page_path();
        g.setup.push(FileOp::PutBytes(p, vec![b'a', 0xff, 0xfe, b'\n']));
    }
    g.setup.push(FileOp::Put("/sim/home/other/keep.txt".into(), "keep".into()));
    if g.r.chance(0.3) {
        g.setup.push(FileOp::Put(format!("{}/oldentry", CACHE), "{".into()));
    }
    let fc = fmt_cfg(&mut g);
    cache_oddities(&mut g, 0.15);
    odd_name(&mut g, 0.08);
    let mut run = Runner::new(sim, oracle, "C06", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 4);
    for _ in 0..n {
        let procs = if g.r.chance(0.15) { 2 } else { 1 };
        let invs: Vec<Inv> = (0..procs).map(|_| any_cmd(&mut g, &run, &fc)).collect();
        let mut grp = g.group(invs);
        if g.r.chance(0.6) {
            let d = run.dry(&grp);
            grp.switches = if procs > 1 { Some(d.switches.clone()) } else { None };
            let nf = g.r.range(1, 2);
            for _ in 0..nf {
                if let Some((c, nth)) = site(&mut g.r, &d.trace, |c| c.op != "clock") {
                    let f = match g.r.below(10) {
                        0 | 1 => kill_fault(&mut g.r, c, nth),
                        2 => power_fault(&mut g.r, c, nth),
                        _ => io_fault(&mut g.r, c, nth),
                    };
                    grp.faults.push(f);
                }
            }
        }
        run.run(grp);
        if g.r.chance(0.5) {
            let mut e = g.edits(&run, 1, 2);
            if g.r.chance(0.3) {
                e.extend(damage(&mut g, &run.w.fs));
            }
            run.files(e);
        }
    }
    run
}

fn c07<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.plain = 0.5;
    g.blocks = (1, 3);
    g.populate(1, 5);
    if g.r.chance(0.2) {
        g.setup.push(FileOp::Put(format!("{}/0123456789abcdef0123456789abcdef01234567", CACHE), "{}".into()));
        g.setup.push(FileOp::Put(format!("{}/junk.tmp", CACHE), "x".into()));
    }
    cache_oddities(&mut g, 0.12);
    let mut run = Runner::new(sim, oracle, "C07", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(2, 6);
    for _ in 0..n {
        let mut c = g.convert_or_inspect(0.4);
        cache_flags(&mut g, &mut c);
        g.selection(&mut c, 0.35);
        let mut grp = g.one(c);
        if g.r.chance(0.35) {
            let d = run.dry(&grp);
            let s = site(&mut g.r, &d.trace, |c| c.op == "unlink" && under(&c.path, CACHE));
            if let Some((c, nth)) = s {
                let mut f = io_fault(&mut g.r, c, nth);
                f.act = Act::Err(*g.r.pick(&[5, 13, 2]));
                f.count = 1;
                grp.faults.push(f);
            }
        }
        run.run(grp);
        let mut e = g.edits(&run, 0, 3);
        if g.r.chance(0.15) {
            // what a killed run leaves behind, perhaps of the process id the next one has
            let names: Vec<String> = run.w.fs.files(CACHE).into_keys().filter(|n| n.rsplit('/').next().unwrap().len() == 40).collect();
            if !names.is_empty() {
                let n = g.r.pick(&names).clone();
                let pid = *g.r.pick(&[4242, 4242, 4243, 77, 31000]);
                let mut d = run.w.fs.get(&n).map(|d| d.to_vec()).unwrap_or_default();
                d.truncate(g.r.below(d.len() + 1));
                e.push(FileOp::PutBytes(format!("{}.{}.tmp", n, pid), d));
            }
        }
        run.files(e);
        if run.viol.is_some() {
            break;
        }
    }
    run
}

fn c08<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    // few large pages: their entries and outputs take several writes
    let large = g.r.chance(0.3);
    if large {
        g.blocks = (4, 9);
        g.populate(1, 2);
    } else {
        g.blocks = (1, 3);
        g.populate(1, 4);
    }
    if large {
        // tables of like cells: their entries only differ in the order of cells
        let n = g.r.range(4, 8);
        let grid: String = (0..n).map(|y| format!("|{}\n", (0..n).map(|x| format!(" c{}{} |", y, x)).collect::<String>())).collect();
        for o in g.setup.iter_mut() {
            if let FileOp::Put(p, t) = o {
                if p.ends_with(".wiki") {
                    *t = format!("{}\n\n{}", t.trim_end(), grid);
                }
            }
        }
    }
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C08", seed, NOON, g.cfg.clone(), g.setup.clone());
    if g.r.chance(0.6) {
        // older entries that pruning will remove, or that are hit
        let mut c = g.convert_or_inspect(0.5);
        c.no_prune = g.r.chance(0.5);
        let grp = g.one(c);
        run.run(grp);
        let mut e = g.edits(&run, 0, 2);
        if g.r.chance(if large { 0.8 } else { 0.4 }) {
            e.extend(damage(&mut g, &run.w.fs));
        }
        run.files(e);
    }
    let procs = g.r.range(2, 4);
    let mut invs = vec![];
    for _ in 0..procs {
        let i = if g.r.chance(0.1) {
            let (c, cwd) = format_cmd(&mut g, &run.w.fs, false, &fc);
            let mut i = g.inv(c);
            i.cwd = cwd;
            i
        } else {
            let mut c = g.convert_or_inspect(0.3);
            c.output = None;
            c.no_cache = g.r.chance(0.05);
            c.no_prune = g.r.chance(0.3);
            g.selection(&mut c, 0.25);
            g.inv(c)
        };
        invs.push(i);
    }
    let mut grp = g.group(invs);
    if g.r.chance(0.35) {
        let d = run.dry(&grp);
        grp.switches = Some(d.switches.clone());
        let s = site(&mut g.r, &d.trace, interesting);
        if let Some((c, nth)) = s {
            let f = kill_fault(&mut g.r, c, nth);
            grp.faults.push(f);
        }
    }
    run.run(grp);
    let mut c = g.convert_or_inspect(0.3);
    c.output = None;
    let grp = g.one(c);
    run.run(grp);
    run
}

fn c09<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.blocks = (1, 3);
    g.populate(1, 4);
    // nested wikis and other extensions are covered elsewhere
    let mut cfg = g.cfg.clone();
    cfg.wikis.iter_mut().for_each(|w| w.ext = "wiki".into());
    if cfg != g.cfg {
        for o in g.setup.iter_mut() {
            if let FileOp::Put(p, _) = o {
                if p.ends_with(".txt") {
                    *p = p.replace(".txt", ".wiki");
                }
            }
        }
        g.cfg = cfg;
    }
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C09", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 2);
    for _ in 0..n {
        let inv = if g.r.chance(0.2) {
            let inline = g.r.chance(0.7);
            let (mut c, cwd) = format_cmd(&mut g, &run.w.fs, inline, &fc);
            // only whole directories: a named note may be renamed away
            c.paths = vec![g.cfg.wikis[0].path.clone()];
            let mut i = g.inv(c);
            i.cwd = cwd;
            i
        } else {
            let mut c = g.convert_or_inspect(0.25);
            c.output = None;
            c.css = false;
            c.json = "$".into();
            cache_flags(&mut g, &mut c);
            g.inv(c)
        };
        let mut grp = g.group(vec![inv]);
        grp.tag = "edited".into();
        let d = run.dry(&grp);
        let total = d.trace.len() as u32;
        let mut w = run.w.clone();
        let ne = g.r.range(1, 4);
        let mut at: Vec<u32> = (0..ne)
            .map(|_| {
                // mostly right around an access to a note
                let hot: Vec<u32> = d
                    .trace
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| {
                        g.cfg.wikis.iter().any(|x| under(&c.path, &x.path) || under(&c.path, &x.html)) || under(&c.path, CACHE)
                    })
                    .map(|(i, _)| i as u32)
                    .collect();
                if !hot.is_empty() && g.r.chance(0.8) {
                    *g.r.pick(&hot) + g.r.below(2) as u32
                } else {
                    g.r.below(total.max(1) as usize) as u32
                }
            })
            .collect();
        at.sort();
        for t in at {
            if let Some(o) = g.edit(&w.fs, true) {
                Sim::apply_file_op(&mut w, &o);
                grp.edits.push((t, o));
            }
        }
        run.run(grp);
        if run.viol.is_some() {
            return run;
        }
    }
    let mut c = g.convert_or_inspect(0.25);
    c.output = None;
    let grp = g.one(c);
    run.run(grp);
    run
}

fn c10<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.plain = 0.0;
    g.blocks = (2, 6);
    g.populate(1, 5);
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C10", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let inv = if g.r.chance(0.25) {
            let (c, cwd) = format_cmd(&mut g, &run.w.fs, false, &fc);
            let mut i = g.inv(c);
            i.cwd = cwd;
            i
        } else {
            let mut c = g.cmd("convert");
            c.stdout = g.r.chance(0.1);
            cache_flags(&mut g, &mut c);
            g.selection(&mut c, 0.2);
            g.inv(c)
        };
        let grp = g.group(vec![inv]);
        run.run(grp);
        if g.r.chance(0.3) {
            // the same notes with other metadata, other siblings
            let mut ops = vec![];
            let all: Vec<String> = run.w.fs.files(&g.cfg.wikis[0].path).into_keys().collect();
            for p in all {
                if g.r.chance(0.5) {
                    ops.push(FileOp::Mtime(p, (g.r.next() >> 3) as i64));
                } else if g.r.chance(0.2) {
                    ops.push(FileOp::Remove(p));
                }
            }
            run.files(ops);
        }
    }
    run
}

const ZONES: [&str; 16] = [
    "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "JST-9", "<+14>-14", "<-12>12", "IST-5:30",
    "NZST-12NZDT,M9.5.0,M4.1.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "PST8PDT,M3.2.0,M11.1.0", "<+0545>-5:45",
    "NST3:30NDT,M3.2.0,M11.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "BRT3", "HST10", "<-03>3",
];

fn c11<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 1);
    g.plain = 0.7;
    g.dates = false;
    g.wild = 0.0;
    g.blocks = (1, 2);
    g.cfg.wikis[0].ext = "wiki".into();
    g.cfg.extra = "[template]\ntext = \"<d>%date%</d>\\n%content%\"\n".into();
    g.templates.clear();
    let n = g.r.range(1, 4);
    for i in 0..n {
        let mut t = g.text();
        t = t.replace("\r\n", "\n");
        // %title lines and the like stay; template lines would replace the template
        t = t.lines().filter(|l| !l.starts_with("%template") && !l.starts_with("%date")).collect::<Vec<_>>().join("\n");
        if g.r.chance(0.25) {
            t = format!("%date {:04}-{:02}-{:02}\n\n{}", g.r.range(1900, 2200), g.r.range(1, 12), g.r.range(1, 28), t);
        }
        t.push('\n');
        g.setup.push(FileOp::Put(format!("/sim/home/w0/p{}.wiki", i), t));
    }
    let mut run = Runner::new(sim, oracle, "C11", seed, NOON, g.cfg.clone(), g.setup.clone());
    let steps = g.r.range(2, 4);
    for _ in 0..steps {
        let tz = g.r.pick(&ZONES).to_string();
        // a local midnight, year/month boundary or DST change, give or take
        let day = 86_400i64;
        let mut t = (g.r.range(0, 40_000) as i64) * day;
        match g.r.below(4) {
            0 => {
                // around New Year
                let y = g.r.range(1, 130) as i64;
                t = y * 31_556_952 - (y * 31_556_952) % day;
            }
            1 => t = 951_782_400 + (g.r.range(0, 24) as i64) * 365 * day + g.r.below(3) as i64 * day,
            _ => {}
        }
        // local midnight in that zone
        let off = offset(&tz, t);
        t -= off;
        t += match g.r.below(6) {
            0 => -1,
            1 => 0,
            2 => g.r.range(0, 7200) as i64 - 3600,
            3 => g.r.range(0, 86_400) as i64,
            4 => 3 * 3600 - g.r.below(3) as i64,
            _ => -(g.r.below(50) as i64),
        };
        t = t.max(200_000);
        let ns = match g.r.below(3) {
            0 => 999_999_000,
            1 => 0,
            _ => g.r.below(1_000_000_000) as i64,
        };
        run.step(Step::Clock(t * 1_000_000_000 + ns));
        let mut c = g.cmd("convert");
        cache_flags(&mut g, &mut c);
        let mut i = g.inv(c);
        i.env.insert("TZ".into(), tz);
        let mut grp = g.group(vec![i]);
        if g.r.chance(0.4) {
            let d = run.dry(&grp);
            if let Some((c, nth)) = site(&mut g.r, &d.trace, |_| true) {
                let s = *g.r.pick(&[1i64, -1, 3600, -3600, 86_400, -86_400, 40 * 86_400, 7]);
                grp.faults.push(Fault {
                    inv: 0,
                    op: c.op.into(),
                    path: c.path.clone(),
                    prefix: false,
                    nth,
                    count: 1,
                    act: Act::Clock(s),
                });
            }
        }
        run.run(grp);
        if run.viol.is_some() {
            break;
        }
    }
    run
}
pub fn offset(tz: &str, t: i64) -> i64 {
    local_date(tz, t);
    unsafe {
        let mut tm: libc::tm = std::mem::zeroed();
        libc::localtime_r(&t, &mut tm);
        tm.tm_gmtoff
    }
}

fn c12<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.wild = 0.3;
    g.extra_dir = g.r.chance(0.3);
    g.populate(1, 4);
    if g.r.chance(0.2) {
        g.setup.push(FileOp::Put(format!("{}/x/y/z", CACHE), "nested".into()));
    }
    if g.r.chance(0.05) {
        g.setup.push(FileOp::Put("/sim/home/.cache/vimwiki-cli".into(), "a file where the cache should be".into()));
    }
    let fc = fmt_cfg(&mut g);
    cache_oddities(&mut g, 0.12);
    odd_name(&mut g, 0.08);
    let mut run = Runner::new(sim, oracle, "C12", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for _ in 0..n {
        let i = any_cmd(&mut g, &run, &fc);
        let mut grp = g.group(vec![i]);
        let d = run.dry(&grp);
        let nf = g.r.range(1, 2);
        for _ in 0..nf {
            let Some((c, _)) = site(&mut g.r, &d.trace, |c| c.op != "clock") else { break };
            // this kind of call fails on this kind of file for the whole run
            let (path, prefix) = if c.path.starts_with('<') || g.r.chance(0.3) {
                (c.path.clone(), false)
            } else {
                let dir = parent(&c.path);
                let all: Vec<String> = g
                    .cfg
                    .wikis
                    .iter()
                    .flat_map(|w| [w.path.clone(), w.html.clone()])
                    .chain([CACHE.to_string(), TEMPLATES.to_string()])
                    .filter(|d| under(&c.path, d))
                    .collect();
                (all.first().cloned().unwrap_or(dir), true)
            };
            let mut f = io_fault(&mut g.r, c, 0);
            f.path = path;
            f.prefix = prefix;
            f.nth = if g.r.chance(0.8) { 0 } else { g.r.below(5) as u32 };
            f.count = match f.act {
                // interruptions are transient by nature
                Act::Err(4) => g.r.range(1, 200) as u32,
                _ => u32::MAX,
            };
            grp.faults.push(f);
        }
        run.run(grp);
        if g.r.chance(0.3) {
            let mut e = g.edits(&run, 1, 2);
            e.extend(damage(&mut g, &run.w.fs));
            run.files(e);
        }
    }
    run
}

/// Runs over notes whose entries are in the cache.
fn c16<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.extra_dir = g.r.chance(0.3);
    // notes that are loaded late keep their entries as nothing is pruned
    let late = g.extra_dir && g.r.chance(0.4);
    g.populate(1, 5);
    g.setup.push(FileOp::Mkdir(CACHE.into()));
    cache_oddities(&mut g, 0.04);
    let mut run = Runner::new(sim, oracle, "C16", seed, NOON, g.cfg.clone(), g.setup.clone());
    let mut c = g.convert_or_inspect(0.2);
    c.no_prune = late || g.r.chance(0.2);
    if late && run.w.fs.ino(EXTRA).is_some() {
        // a selection leaves the given paths out of what is loaded first
        c.sub = "convert".into();
        g.selection(&mut c, 0.8);
        c.paths = vec![EXTRA.into()];
    }
    let mut grp = g.one(c);
    if g.r.chance(0.25) {
        // the first run is cut short
        let d = run.dry(&grp);
        if let Some((c, nth)) = site(&mut g.r, &d.trace, interesting) {
            let f = if g.r.chance(0.7) { kill_fault(&mut g.r, c, nth) } else { io_fault(&mut g.r, c, nth) };
            grp.faults.push(f);
        }
    }
    run.run(grp);
    let n = g.r.range(1, 4);
    for _ in 0..n {
        let mut ops = vec![];
        if g.r.chance(0.3) {
            ops = g.edits(&run, 1, 2);
        }
        if g.r.chance(0.5) {
            // files of any age
            let notes: Vec<String> = g.cfg.wikis.iter().flat_map(|w| run.w.fs.files(&w.path).into_keys()).collect();
            let entries: Vec<String> = run.w.fs.files(CACHE).into_keys().collect();
            for p in notes.into_iter().chain(entries) {
                if g.r.chance(0.4) {
                    let t = match g.r.below(4) {
                        0 => run.w.clock - (g.r.range(1, 5000) as i64) * 86_400_000_000_000,
                        1 => run.w.clock + (g.r.range(1, 5000) as i64) * 86_400_000_000_000,
                        2 => run.w.clock,
                        _ => 0,
                    };
                    ops.push(FileOp::Mtime(p, t));
                }
            }
        }
        if g.r.chance(0.1) {
            if let Some(p) = run.w.fs.files(CACHE).into_keys().next() {
                ops.push(FileOp::Chmod(p, 0o444));
            }
        }
        if g.r.chance(0.2) {
            ops.extend(damage(&mut g, &run.w.fs));
        }
        let swap = g.r.chance(0.35);
        if swap {
            // entries hold the pages of other notes
            let e: Vec<(String, Vec<u8>)> = run.w.fs.files(CACHE).into_iter().map(|(p, d)| (p, d.to_vec())).collect();
            for i in 0..e.len() {
                if g.r.chance(0.6) {
                    let j = g.r.below(e.len());
                    ops.push(FileOp::PutBytes(e[i].0.clone(), e[j].1.clone()));
                }
            }
        }
        run.files(ops);
        if g.r.chance(0.3) {
            let t = run.w.clock + *g.r.pick(&[1i64, 3600, 86_400, 40 * 86_400, 4000 * 86_400, -86_400, -4000 * 86_400]) * 1_000_000_000;
            run.step(Step::Clock(t));
        }
        let mut invs = vec![];
        let k = if g.r.chance(0.15) { 2 } else { 1 };
        for _ in 0..k {
            let mut c = g.convert_or_inspect(0.25);
            c.no_cache = g.r.chance(0.05);
            c.no_prune = late || g.r.chance(0.4);
            g.selection(&mut c, if late { 0.8 } else { 0.15 });
            if g.extra_dir && g.r.chance(if late { 0.7 } else { 0.3 }) && run.w.fs.ino(EXTRA).is_some() {
                if !late && g.r.chance(0.6) {
                    c.include.clear();
                }
                c.paths = vec![EXTRA.into()];
            } else if c.sub == "convert" && g.r.chance(0.15) {
                // notes that are named; with a selection they are loaded late
                let f: Vec<String> = g.cfg.wikis.iter().filter(|w| w.ext == "wiki").flat_map(|w| notes(&run.w.fs, &w.path, &["wiki".to_string()])).collect();
                if !f.is_empty() {
                    c.paths = vec![f[g.r.below(f.len())].clone()];
                }
            }
            if g.r.chance(0.15) {
                c.verbose = g.r.range(1, 5) as u8;
            }
            invs.push(g.inv(c));
        }
        let mut grp = g.group(invs);
        if swap && k == 1 {
            grp.tag = "swapped".into();
        }
        if g.r.chance(0.3) {
            let d = run.dry(&grp);
            if let Some((c, nth)) = site(&mut g.r, &d.trace, interesting) {
                let f = if g.r.chance(0.3) { kill_fault(&mut g.r, c, nth) } else { io_fault(&mut g.r, c, nth) };
                grp.faults.push(f);
            }
        }
        run.run(grp);
        if run.viol.is_some() {
            break;
        }
    }
    run
}

/// Many of everything under a low limit on open files.
fn c17<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.plain = 0.8;
    g.blocks = (1, 2);
    let lim = *g.r.pick(&[24u32, 24, 28, 32, 48]);
    let n = lim as usize + g.r.range(4, 40);
    g.extra_dir = g.r.chance(0.3);
    g.populate(1, 3);
    let templ = !g.templates.is_empty() && g.r.chance(0.6);
    let code = g.cfg.extra.contains("server_side") && g.r.chance(0.6);
    let deep = g.r.chance(0.3);
    let one_wiki = g.r.chance(0.5);
    for i in 0..n {
        let k = if one_wiki { 0 } else { g.r.below(g.cfg.wikis.len()) };
        let (w, ext) = (g.cfg.wikis[k].path.clone(), g.cfg.wikis[k].ext.clone());
        let dir = if deep { "d/".repeat(i % 26) } else { ["", "x/", "x/y/", "diary/"][g.r.below(4)].to_string() };
        let mut t = if g.r.chance(0.3) { g.text() } else { format!("note {} of many\n", i) };
        if templ {
            let n = g.templates[g.r.below(g.templates.len())].clone();
            t = format!("%template {}\n\n{}", n, t);
        }
        if code {
            t += "\n{{{rust\nfn x() {}\n}}}\n";
        }
        g.setup.push(FileOp::Put(format!("{}/{}n{}.{}", w, dir, i, ext), t));
        if g.extra_dir && g.r.chance(0.5) {
            g.setup.push(FileOp::Put(format!("{}/{}n{}.wiki", EXTRA, dir, i), format!("extra {}\n", i)));
        }
    }
    let old = g.r.chance(0.4);
    if old {
        // many stale or unusable files in the cache
        for i in 0..n {
            g.setup.push(FileOp::Put(format!("{}/{:040x}", CACHE, i), "[[".into()));
        }
    }
    let fc = fmt_cfg(&mut g);
    odd_name(&mut g, 0.08);
    let mut run = Runner::new(sim, oracle, "C17", seed, NOON, g.cfg.clone(), g.setup.clone());
    let rounds = g.r.range(1, 3);
    for k in 0..rounds {
        if k > 0 && g.r.chance(0.6) {
            // every entry of the cache is damaged
            let how = g.r.below(4);
            let mut ops = vec![];
            for (p, d) in run.w.fs.files(CACHE) {
                match how {
                    0 => ops.push(FileOp::PutBytes(p, d[..d.len() / 2].to_vec())),
                    1 => ops.push(FileOp::Put(p, "{}".into())),
                    2 => ops.push(FileOp::Chmod(p, 0)),
                    _ => {
                        ops.push(FileOp::Remove(p.clone()));
                        ops.push(FileOp::Mkdir(p));
                    }
                }
            }
            run.files(ops);
        }
        let mut i = any_cmd(&mut g, &run, &fc);
        if i.cmd.sub != "format" && g.r.chance(0.3) {
            // many paths
            let all: Vec<String> = run.w.fs.files(&g.cfg.wikis[0].path).into_keys().filter(|p| ext_of(p) == Some("wiki")).collect();
            if !all.is_empty() && g.r.chance(0.4) {
                i.cmd.include.clear();
                i.cmd.paths = all.into_iter().take(30).collect();
            }
        }
        i.cmd.verbose = 0;
        i.nofile = Some(lim);
        if i.cmd.sub != "format" && g.r.chance(0.1) {
            i.cmd.merge = true;
        }
        let mut grp = g.group(vec![i]);
        if g.r.chance(0.35) {
            let d = run.dry(&grp);
            if let Some((c, _)) = site(&mut g.r, &d.trace, |c| under(&c.path, CACHE) || under(&c.path, TEMPLATES) || c.op == "stat" || c.op == "close") {
                let mut f = io_fault(&mut g.r, c, 0);
                if !matches!(f.act, Act::Free(_) | Act::Short(_)) {
                    f.path = if under(&c.path, CACHE) { format!("{}/", CACHE) } else { parent(&c.path) + "/" };
                    f.prefix = true;
                    f.count = if f.act == Act::Err(4) { 40 } else { 1_000_000 };
                    grp.faults.push(f);
                }
            }
        }
        run.run(grp);
        if run.viol.is_some() {
            break;
        }
    }
    run
}

/// Diagnostics of all kinds, and trouble with standard error.
fn c18<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    let times = g.r.chance(0.3);
    if times {
        g.plain = 0.8;
        g.blocks = (1, 2);
    }
    g.extra_dir = g.r.chance(0.2);
    g.wild = 0.1;
    g.populate(1, if times { 2 } else { 4 });
    if g.r.chance(0.15) {
        let p = g.page_path();
        g.setup.push(match g.r.below(4) {
            0 => FileOp::PutBytes(p, vec![b'a', 0xff, 0xfe, b'\n']),
            1 => FileOp::Put(p, "[[wiki99:nowhere]]\n".into()),
            2 => FileOp::Put(p, "%template missing.html\n\ntext\n".into()),
            _ => FileOp::Put(p, String::new()),
        });
    }
    if g.r.chance(0.05) {
        g.setup.push(FileOp::Put(CFG.into(), "wikis = 3\n".into()));
    }
    g.setup.push(FileOp::Mkdir(CACHE.into()));
    cache_oddities(&mut g, 0.1);
    let fc = fmt_cfg(&mut g);
    odd_name(&mut g, 0.08);
    let mut run = Runner::new(sim, oracle, "C18", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for k in 0..n {
        if k > 0 {
            let mut ops = vec![];
            if g.r.chance(0.6) {
                for _ in 0..g.r.range(1, 4) {
                    ops.extend(damage(&mut g, &run.w.fs));
                }
            }
            if g.r.chance(0.4) {
                ops.extend(g.edits(&run, 1, 2));
            }
            run.files(ops);
        }
        let mut i = any_cmd(&mut g, &run, &fc);
        if n > 1 && i.cmd.sub != "format" && g.r.chance(0.6) {
            // something that is kept from one run to the next
            i.cmd.no_cache = false;
            i.cmd.include.clear();
        }
        if g.r.chance(0.1) {
            i.cmd.paths.push(["/sim/home/nowhere", "/sim/home/w0/gone.wiki"][g.r.below(2)].into());
        }
        if i.cmd.sub != "format" && g.r.chance(0.1) {
            i.cmd.merge = true;
        }
        i.cmd.verbose = *g.r.pick(&[0u8, 0, 1, 2, 3, 4, 4, 5, 9]);
        i.cmd.quiet = g.r.chance(0.25);
        i.cmd.stamp = if g.r.chance(0.3) { Some(["sec", "ms", "us", "ns", "none", "off"][g.r.below(6)].into()) } else { None };
        i.tk = times && g.r.chance(0.8) && run.sim.has_tk();
        i.cmd.times = i.tk && g.r.chance(0.8);
        let mut grp = g.group(vec![i]);
        if grp.invs[0].tk && run.dry(&grp).outs[0].status == Status::TooManyCalls {
            // a long note: reading the clock for every parser takes too long
            grp.invs[0].tk = false;
            grp.invs[0].cmd.times = false;
        }
        let t = grp.invs[0].cmd.times;
        if g.r.chance(0.4) {
            // something else fails, which is worth a message
            let d = run.dry(&grp);
            let s = site(&mut g.r, &d.trace, |c| interesting(c) && !c.path.starts_with('<') && c.op != "clock");
            if let Some((c, nth)) = s {
                let mut f = io_fault(&mut g.r, c, nth);
                if !matches!(f.act, Act::Free(_)) {
                    if g.r.chance(0.3) && !matches!(f.act, Act::Err(4) | Act::Short(_)) {
                        f.nth = 0;
                        f.count = 1_000_000;
                    }
                    grp.faults.push(f);
                }
            }
        }
        if g.r.chance(0.25) {
            // one kind of call keeps failing in one place, for whatever reason
            let op = ["rename", "open", "unlink", "write", "read", "stat", "close"][g.r.below(7)];
            let at = if g.r.chance(0.7) { CACHE.to_string() } else { g.cfg.wikis[0].html.clone() };
            let e = *g.r.pick(&[28, 5, 13, 30, 12]);
            grp.faults.push(Fault { inv: 0, op: op.into(), path: at, prefix: true, nth: g.r.below(3) as u32, count: 1_000_000, act: Act::Err(e) });
        }
        if g.r.chance(0.6) {
            let e = *g.r.pick(&[32, 5, 28, 9, 11, 4]);
            let (act, count) = match g.r.below(3) {
                0 => (Act::Short(g.r.range(1, 30)), 300),
                _ if e == 4 => (Act::Err(4), g.r.range(1, 30) as u32),
                _ => (Act::Err(e), *g.r.pick(&[1u32, 3, 1_000_000])),
            };
            let nth = if g.r.chance(0.6) { 0 } else { g.r.below(12) as u32 };
            grp.faults.push(Fault { inv: 0, op: "write".into(), path: "<stderr>".into(), prefix: false, nth, count, act });
        }
        if t && g.r.chance(0.3) {
            let e = *g.r.pick(&[32, 5, 28]);
            let nth = g.r.below(3) as u32;
            grp.faults.push(Fault { inv: 0, op: "write".into(), path: "<stdout>".into(), prefix: false, nth, count: 1_000_000, act: Act::Err(e) });
        }
        run.run(grp);
        if run.viol.is_some() {
            break;
        }
    }
    run
}

/// Another configuration that is easy to tell from this one.
fn other_cfg(g: &mut G, cfg: &Cfg, k: usize) -> Cfg {
    let mut c = cfg.clone();
    if g.r.chance(0.7) {
        c.extra = if c.extra.contains("[comment]") {
            c.extra.replace("[comment]\ninclude = true\n", "")
        } else {
            format!("[comment]\ninclude = true\n{}", c.extra)
        };
    }
    if g.r.chance(0.3) {
        c.extra = if c.extra.contains("use_ugly_urls = true") {
            c.extra.replace("use_ugly_urls = true", "use_ugly_urls = false")
        } else {
            c.extra.replace("use_ugly_urls = false", "use_ugly_urls = true")
        };
    }
    for w in &mut c.wikis {
        if g.r.chance(0.7) {
            w.html = format!("{}v{}", w.html, k);
        }
        if g.r.chance(0.4) {
            w.css = Some(format!("other{}.css", k));
        }
        if g.r.chance(0.3) {
            w.name = Some(format!("Other {}", k));
        }
    }
    if c.wikis.len() > 1 && g.r.chance(0.4) {
        if g.r.chance(0.5) {
            c.wikis.reverse();
        } else {
            c.wikis.pop();
        }
    }
    c
}
/// The configuration and templates are replaced while a command runs.
fn c19<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 3);
    g.populate(1, 5);
    let fc = fmt_cfg(&mut g);
    let mut run = Runner::new(sim, oracle, "C19", seed, NOON, g.cfg.clone(), g.setup.clone());
    let n = g.r.range(1, 3);
    for _ in 0..n {
        if fc.is_some() && g.r.chance(0.4) {
            // format has a configuration of its own
            let inline = g.r.chance(0.4);
            let (c, cwd) = format_cmd(&mut g, &run.w.fs, inline, &fc);
            let mut i = g.inv(c);
            i.cwd = cwd;
            let mut grp = g.group(vec![i]);
            let d = run.dry(&grp);
            let total = d.trace.len().max(1);
            let hot: Vec<u32> = d.trace.iter().enumerate().filter(|(_, c)| c.path == FCFG).map(|(i, _)| i as u32).collect();
            for _ in 0..g.r.range(1, 2) {
                let at = if !hot.is_empty() && g.r.chance(0.3) { *g.r.pick(&hot) + g.r.below(2) as u32 } else { g.r.below(total) as u32 };
                let s = fmt_text(&mut g);
                grp.edits.push((at, FileOp::Put(FCFG.into(), s)));
            }
            grp.edits.sort_by_key(|x| x.0);
            run.run(grp);
            if run.viol.is_some() {
                return run;
            }
            continue;
        }
        let mut c = g.convert_or_inspect(0.2);
        c.output = None;
        c.css = c.sub == "convert" && g.r.chance(0.4);
        cache_flags(&mut g, &mut c);
        g.selection(&mut c, 0.15);
        let mut grp = g.one(c);
        let d = run.dry(&grp);
        let total = d.trace.len().max(1);
        let hot: Vec<u32> = d.trace.iter().enumerate().filter(|(_, c)| c.path == CFG || under(&c.path, TEMPLATES)).map(|(i, _)| i as u32).collect();
        let mut place = |g: &mut G| {
            if !hot.is_empty() && g.r.chance(0.5) {
                *g.r.pick(&hot) + g.r.below(2) as u32
            } else {
                g.r.below(total) as u32
            }
        };
        let mut cfg = run.cfg.clone();
        let nc = g.r.range(0, 2);
        for k in 0..nc {
            cfg = other_cfg(&mut g, &cfg, k);
            let at = place(&mut g);
            grp.cfgs.push((at, cfg.clone()));
        }
        grp.cfgs.sort_by_key(|x| x.0);
        let nt = if g.templates.is_empty() { 0 } else { g.r.range(0, 2) };
        for k in 0..nt {
            let t = g.templates[g.r.below(g.templates.len())].clone();
            let at = place(&mut g);
            let body = format!("<n{}>%title%|%date%</n{}>%content%{}", k, k, "\nmore of the template".repeat(g.r.below(400)));
            grp.edits.push((at, FileOp::Put(format!("{}/{}", TEMPLATES, t), body)));
        }
        grp.edits.sort_by_key(|x| x.0);
        run.run(grp);
        if run.viol.is_some() {
            return run;
        }
    }
    let c = g.convert_or_inspect(0.2);
    let grp = g.one(c);
    run.run(grp);
    run
}

fn c15<'a>(sim: &'a mut Sim, oracle: &'a mut Oracle, seed: u64) -> Runner<'a> {
    let mut g = G::new(seed, 2);
    g.plain = 0.6;
    g.blocks = (1, 3);
    g.populate(1, 3);
    g.setup.push(FileOp::Put("/sim/home/.vimrc".into(), "set nocompatible\n".into()));
    // the wikis vim knows about
    let mut vim = vec![];
    let nv = if g.r.chance(0.1) { g.r.range(5, 9) } else { g.r.range(0, 2) };
    for i in 0..nv {
        vim.push(WikiCfg {
            path: format!("/sim/home/v{}", i),
            html: format!("/sim/home/vhtml{}", i),
            name: if g.r.chance(0.5) { Some(format!("Vim {}", i)) } else { None },
            ext: "wiki".into(),
            css: None,
            diary: None,
        });
        g.setup.push(FileOp::Mkdir(format!("/sim/home/v{}", i)));
        let n = g.r.range(0, 2);
        for k in 0..n {
            let t = g.text();
            g.setup.push(FileOp::Put(format!("/sim/home/v{}/n{}.wiki", i, k), t));
        }
    }
    let vimrc = match g.r.below(5) {
        0 => Some("/sim/home/.config/nvim/init.vim"),
        1 => Some("/sim/home/.config/nvim/init.lua"),
        2 => Some("/sim/home/.vim/vimrc"),
        _ => None,
    };
    if let Some(v) = vimrc {
        g.setup.push(FileOp::Put(v.into(), "x\n".into()));
    }
    let no_rc = g.r.chance(0.06);
    if no_rc {
        g.setup.push(FileOp::Remove("/sim/home/.vimrc".into()));
        if let Some(v) = vimrc {
            g.setup.push(FileOp::Remove(v.into()));
        }
    }
    let mut run = Runner::new(sim, oracle, "C15", seed, NOON, g.cfg.clone(), g.setup.clone());
    let steps = g.r.range(1, 3);
    for _ in 0..steps {
        let mut c = g.convert_or_inspect(0.4);
        c.output = None;
        c.css = false;
        cache_flags(&mut g, &mut c);
        let with_cfg = g.r.chance(0.85);
        if !with_cfg {
            c.config = None;
        }
        c.merge = with_cfg && g.r.chance(0.9);
        let list: Vec<serde_json::Value> = vim
            .iter()
            .map(|w| {
                let mut o = serde_json::json!({"path": w.path, "path_html": w.html, "ext": w.ext});
                if let Some(n) = &w.name {
                    o["name"] = serde_json::json!(n);
                }
                o
            })
            .collect();
        let answer = serde_json::to_string(&list).unwrap();
        let mut helpers = BTreeMap::new();
        let help = Helper { spawn_err: 0, out: "usage".into(), status: 0 };
        // is nvim there, or only vim, or neither
        match g.r.below(6) {
            0 => {}
            1 | 2 => {
                helpers.insert("vim".to_string(), help.clone());
            }
            _ => {
                helpers.insert("nvim".to_string(), help.clone());
            }
        }
        let found = !helpers.is_empty();
        // how the helper behaves (status is a wait status: code << 8 or signal)
        let case = g.r.below(14);
        let (sh, healthy) = match case {
            0..=3 => (Helper { spawn_err: 0, out: answer.clone(), status: 0 }, true),
            4 => (Helper { spawn_err: 0, out: format!("\n\n{}\n", answer), status: 1 << 8 }, true),
            5 => (Helper { spawn_err: *g.r.pick(&[2, 11, 12, 13, 24]), out: String::new(), status: 0 }, false),
            6 => (Helper { spawn_err: 0, out: String::new(), status: *g.r.pick(&[0, 127 << 8, 1 << 8, 9, 11 | 0x80]) }, false),
            7 => {
                let k = g.r.below(answer.len().max(1));
                let cut: String = answer.chars().take(k).collect();
                (Helper { spawn_err: 0, out: cut, status: *g.r.pick(&[0, 1 << 8, 9]) }, false)
            }
            8 => (Helper { spawn_err: 0, out: "E484: Can't open file\n".into(), status: 1 << 8 }, false),
            9 => (Helper { spawn_err: 0, out: ["{}", "\"x\"", "[1,2]", "[{\"path\":3}]", "[{}", "true", "[null]"][g.r.below(7)].into(), status: 0 }, false),
            10 => {
                // most of the list is fine
                let mut l = list.clone();
                let bad = match g.r.below(5) {
                    0 => serde_json::json!({"path": 3, "path_html": "/sim/home/vhtml0"}),
                    1 => serde_json::json!({"path": "relative/path", "path_html": "/sim/home/vhtml0"}),
                    2 => serde_json::json!(null),
                    3 => serde_json::json!("/sim/home/v0"),
                    _ => serde_json::json!({"path": "/sim/home/v0", "name": ["no", "name"]}),
                };
                l.insert(g.r.below(l.len() + 1), bad);
                (Helper { spawn_err: 0, out: if g.r.chance(0.2) { "0".into() } else { serde_json::to_string(&l).unwrap() }, status: 0 }, false)
            }
            11 => (Helper { spawn_err: 0, out: "[{\"path\":[\"not\", \"text\"]}]".into(), status: 0 }, false),
            12 => (Helper { spawn_err: 0, out: answer.clone(), status: *g.r.pick(&[9, 15, 2 << 8, 139]) }, false),
            _ => (Helper { spawn_err: 0, out: "x".repeat(100_000), status: 0 }, false),
        };
        helpers.insert("sh".to_string(), sh);
        let mut inv = g.inv(c.clone());
        inv.helpers = helpers;
        if (healthy || case == 12) && found && !no_rc {
            inv.vim = Some(vim.clone());
            inv.vim_maybe = !healthy;
        }
        let mut grp = g.group(vec![inv]);
        if g.r.chance(0.35) {
            let d = run.dry(&grp);
            let s = site(&mut g.r, &d.trace, |c| {
                matches!(c.op, "spawn" | "wait" | "pipe" | "poll") || (c.op == "read" && c.path == "<pipe>")
            });
            if let Some((c, nth)) = s {
                let (op, path) = (c.op.to_string(), c.path.clone());
                let act = match op.as_str() {
                    "read" => match g.r.below(2) {
                        0 => Act::Short(1 + g.r.below(3)),
                        _ => Act::Err(4),
                    },
                    "spawn" => Act::Err(*g.r.pick(&[11, 12, 13, 24])),
                    "wait" => Act::Err(10),
                    "pipe" => Act::Err(24),
                    // std panics when poll or reading fails for another reason
                    _ => Act::Err(4),
                };
                // does the run still get the answer?
                let harmless = matches!(act, Act::Short(_)) || (act == Act::Err(4));
                grp.faults.push(Fault { inv: 0, op, path, prefix: false, nth, count: 1, act });
                if !harmless {
                    // with a failing probe of nvim or vim it may
                    if (healthy || case == 12) && !no_rc {
                        grp.invs[0].vim = Some(vim.clone());
                    }
                    grp.invs[0].vim_maybe = true;
                }
            }
        }
        run.run(grp);
        if g.r.chance(0.3) {
            let e = g.edits(&run, 1, 2);
            run.files(e);
        }
        if run.viol.is_some() {
            break;
        }
    }
    run
}

/// How runs are made and which count as non-trivial, for the evidence file.
pub fn rule(p: &str) -> String {
    let how = match p {
        "C01" => "notes and 1–3 `format --inline` invocations (files, directories, overlapping) interleaved call by call; I/O errors, short writes, full disks, kills, power failures at randomly chosen calls of a dry run; every note must end up old or formatted",
        "C02" => "a history of note edits (incl. reverts, duplicates, moves, unchanged mtimes) and cached runs with random options; each run is compared with the pages' uncached reference output",
        "C03" => "as C02, with damaged cache entries, unreadable or blocked cache, I/O errors on cache files; healthy runs afterwards must need no more repair",
        "C04" => "runs killed or cut by power loss at random calls, then further runs; the last healthy run must equal a first run",
        "C05" => "runs with I/O faults on notes, outputs, stdout, templates and cache; a run that says success must have produced everything",
        "C06" => "every mutating call of every run is checked against the run's destinations, with faults, symlinks, foreign files and edits",
        "C07" => "histories of runs over changing wikis and caches; the cache listing after a run is compared with the loaded pages' entries",
        "C08" => "2–4 processes interleaved call by call, some killed; each survivor is judged as if alone",
        "C09" => "notes edited, removed, renamed or added while a run is in progress; every output must equal the rendering of one version that existed",
        "C10" => "the same notes rendered under varying hash seeds, listing orders, sibling sets and metadata",
        "C11" => "runs at and around local midnights, year ends, DST changes in 16 time zones, with wall-clock jumps during the run",
        "C12" => "any command with persistent or transient faults on any call; the process must end by itself with a documented exit code",
        "C16" => "histories of runs over notes with valid, swapped, aged and damaged cache entries, cut short or failing elsewhere; valid entries must be left as they are and decide the output",
        "C17" => "many notes, wikis, templates, cache entries and failing files under a limit of 24 to 48 open files; the run is compared with one without limit",
        "C18" => "runs with any verbosity, time stamps, --quiet, timings and a failing standard error; each is compared with a plain run of the same program on the same file system under the same other faults",
        "C19" => "the configuration and templates replaced during a run; the result must be that of one version",
        "C15" => "--merge runs with absent, failing, hanging up, garbage or healthy vim helpers; pages are compared with the reference",
        _ => "",
    };
    format!("{}; a run counts as non-trivial when it has more than one command group, several processes, a concurrent edit or a fault that fired, and as distinct by the hash of its complete call trace (calls, results, data)", how)
}
