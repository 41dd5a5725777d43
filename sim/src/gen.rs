//! Generators: vimwiki pages made of every element kind, wikis, configurations.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

const WORDS: [&str; 40] = [
    "alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima",
    "mike", "november", "oscar", "papa", "quebec", "romeo", "sierra", "tango", "uniform", "victor", "whiskey",
    "x-ray", "yankee", "zulu", "naïve", "日本語", "ünïcödé", "a<b", "R&D", "\"quoted\"", "it's", "100%", "C++",
    "semi;colon", "слово", "🙂", "under", "over",
];

pub struct PageGen<'a> {
    pub r: &'a mut Rng,
    pub n_wikis: usize,
    pub named: Vec<String>,
    pub templates: Vec<String>,
    /// code fences with languages etc. cost more; fine in general
    pub dates: bool,
    /// restrict to cheap, plain elements
    pub plain: bool,
    /// probability of a broken block
    pub wild: f64,
}

impl<'a> PageGen<'a> {
    fn word(&mut self) -> String {
        self.r.pick(&WORDS).to_string()
    }
    fn words(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }
    fn simple(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| WORDS[self.r.below(23)].to_string()).collect::<Vec<_>>().join(" ")
    }
    fn uid(&mut self) -> String {
        format!("u{:06x}", self.r.next() & 0xffffff)
    }
    fn props(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n)
            .map(|i| format!("{}{}=\"{}\"", ["class", "style", "data-a", "data-b", "title", "width", "lang", "role"][(i + self.r.below(8)) % 8], i, self.simple(1, 2)))
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn link(&mut self) -> String {
        let page = self.simple(1, 1);
        match self.r.below(17) {
            0 => format!("[[{}]]", page),
            1 => format!("[[{}|{}]]", page, self.simple(1, 3)),
            2 => format!("[[sub/{}#{}|{}]]", page, self.simple(1, 2), self.simple(1, 2)),
            3 => format!("[[#{}]]", self.simple(1, 2)),
            4 => format!("[[{}#one#two]]", page),
            5 => format!("[[/{}]]", page),
            6 => format!("[[../{}]]", page),
            7 => format!("[[{}/]]", page),
            8 => format!("[[diary:20{:02}-{:02}-{:02}]]", self.r.range(10, 29), self.r.range(1, 12), self.r.range(1, 28)),
            9 => format!("[[wiki{}:{}]]", self.r.below(self.n_wikis.max(1)), page),
            10 if !self.named.is_empty() => {
                let n = self.named[self.r.below(self.named.len())].clone();
                format!("[[wn.{}:{}|{}]]", n, page, self.simple(1, 2))
            }
            11 => format!("[[https://example.com/{}?a=1&b=2#frag|{}]]", page, self.simple(1, 2)),
            12 => format!("https://example.com/{}", page),
            13 => format!("{{{{file:images/{}.png}}}}", page),
            14 => format!("{{{{https://example.com/{}.png|{}}}}}", page, self.simple(1, 2)),
            15 => {
                let k = self.props(1, 5);
                format!("{{{{https://example.com/{}.png|{}|{}}}}}", page, self.simple(1, 2), k)
            }
            _ => format!("[[file:docs/{}.pdf|{{{{https://example.com/t.png}}}}]]", page),
        }
    }
    fn inline(&mut self) -> String {
        if self.plain {
            return self.words(1, 4);
        }
        match self.r.below(15) {
            0 | 1 => self.words(1, 5),
            2 => format!("*{}*", self.simple(1, 3)),
            3 => format!("_{}_", self.simple(1, 3)),
            4 => format!("~~{}~~", self.simple(1, 2)),
            5 => format!("`{} <{}>`", self.simple(1, 2), self.uid()),
            6 => format!("x^{}^", self.simple(1, 1)),
            7 => format!("h,,{},,o", self.simple(1, 1)),
            8 => format!("$ {}^2 $", self.simple(1, 1)),
            9 => format!(":{}:{}:", self.simple(1, 1), self.simple(1, 1)),
            10 => ["TODO", "DONE", "FIXME", "FIXED", "XXX", "STARTED"][self.r.below(6)].to_string(),
            11 => format!("*{} _{}_*", self.simple(1, 1), self.simple(1, 1)),
            12 => format!("*{}*", self.link()),
            _ => self.link(),
        }
    }
    fn line(&mut self) -> String {
        let n = self.r.range(1, 4);
        (0..n).map(|_| self.inline()).collect::<Vec<_>>().join(" ")
    }
    fn list(&mut self, depth: usize, indent: usize) -> String {
        let n = self.r.range(1, 4);
        let kind = self.r.below(8);
        let mut s = String::new();
        for i in 0..n {
            let b = match kind {
                0 => "-".to_string(),
                1 => "*".to_string(),
                2 => "#".to_string(),
                3 => format!("{}.", i + 1),
                4 => format!("{})", i + 1),
                5 => format!("{})", (b'a' + i as u8) as char),
                6 => format!("{})", (b'A' + i as u8) as char),
                _ => format!("{})", ["i", "ii", "iii", "iv"][i]),
            };
            let todo = match self.r.below(9) {
                0 => "[ ] ",
                1 => "[.] ",
                2 => "[o] ",
                3 => "[O] ",
                4 => "[X] ",
                5 => "[-] ",
                _ => "",
            };
            s += &format!("{}{} {}{}\n", " ".repeat(indent), b, todo, self.line());
            if self.r.chance(0.25) {
                s += &format!("{}{}\n", " ".repeat(indent + b.len() + 1), self.words(1, 3));
            }
            if depth > 0 && self.r.chance(0.4) {
                s += &self.list(depth - 1, indent + b.len() + 1);
                s.push('\n');
            }
        }
        s.trim_end_matches('\n').to_string()
    }
    fn table(&mut self) -> String {
        let cols = self.r.range(1, 5);
        let rows = self.r.range(1, 5);
        let mut s = String::new();
        let head = self.r.chance(0.6);
        let ragged = self.r.chance(0.2);
        for y in 0..rows {
            s.push('|');
            let cols = if ragged { self.r.range(1, 6) } else { cols };
            for x in 0..cols {
                let c = if y > 0 && self.r.chance(0.12) {
                    "\\/".to_string()
                } else if x > 0 && self.r.chance(0.12) {
                    ">".to_string()
                } else {
                    self.inline().replace('|', "/")
                };
                s += &format!(" {} |", c);
            }
            s.push('\n');
            if y == 0 && head {
                s.push('|');
                let cols = if ragged { self.r.range(1, 6) } else { cols };
                for _ in 0..cols {
                    s += ["---|", ":--|", "--:|", ":-:|"][self.r.below(4)];
                }
                s.push('\n');
            }
        }
        s.trim_end_matches('\n').to_string()
    }
    /// a block broken as people break them while typing
    fn broken(&mut self) -> String {
        let s = self.whole();
        // a mangled template name or wiki reference makes the run fail by design
        if s.contains("%template") || s.contains("[[wn.") || s.contains("[[wiki") || s.contains("%date") {
            return s;
        }
        let cs: Vec<char> = s.chars().collect();
        let at = self.r.below(cs.len() + 1);
        match self.r.below(5) {
            0 => cs[..at].iter().collect(),
            1 => cs[at..].iter().collect(),
            2 => {
                let ins = ["\n", " ", "|", "[[", "]]", "*", "_", "`", "$", "{{{", "}}}", "%%", "::", ">", "=", "\u{a0}", "\t", "\\", "\u{301}"];
                let mut v = cs.clone();
                for c in ins[self.r.below(ins.len())].chars().rev() {
                    v.insert(at, c);
                }
                v.into_iter().collect()
            }
            3 => {
                let mut l: Vec<&str> = s.lines().collect();
                if !l.is_empty() {
                    let k = self.r.below(l.len());
                    let j = self.r.below(l.len());
                    l.swap(k, j);
                }
                l.join("\n")
            }
            _ => format!("{}\n{}", s, self.whole()),
        }
    }
    pub fn block(&mut self) -> String {
        if !self.plain && self.wild > 0.0 && self.r.chance(self.wild) {
            return self.broken();
        }
        self.whole()
    }
    fn whole(&mut self) -> String {
        if self.plain {
            return match self.r.below(3) {
                0 => format!("= {} =", self.simple(1, 2)),
                1 => self.words(2, 9),
                _ => format!("- {}\n- {}", self.words(1, 3), self.words(1, 3)),
            };
        }
        match self.r.below(22) {
            0 => {
                let l = self.r.range(1, 6);
                let e = "=".repeat(l);
                let ind = if self.r.chance(0.2) { "  " } else { "" };
                format!("{}{} {} {}", ind, e, self.line(), e)
            }
            1 => {
                // repeated headers exercise the id bookkeeping
                let l = self.r.range(1, 3);
                let e = "=".repeat(l);
                let h = ["Intro", "Contents", "Notes"][self.r.below(3)];
                format!("{} {} {}\n{} {} {}", e, h, e, e, h, e)
            }
            2 | 3 => {
                let n = self.r.range(1, 4);
                (0..n).map(|_| self.line()).collect::<Vec<_>>().join("\n")
            }
            4 | 5 => self.list(2, 0),
            6 | 7 => self.table(),
            8 | 9 => {
                let lang = ["", "rust", "python", "c++", "vimwiki", "toy"][self.r.below(6)];
                let p = if self.r.chance(0.6) { self.props(1, 6) } else { String::new() };
                let sp = if !lang.is_empty() && !p.is_empty() { " " } else { "" };
                let sp = if lang.is_empty() && !p.is_empty() { "" } else { sp };
                let more = if self.r.chance(0.3) { format!("\n{}", CODE[self.r.below(CODE.len())]) } else { String::new() };
                format!("{{{{{{{}{}{}\nfn {}() {{\n    let x = \"{}\" & 1 < 2;\n}}{}\n}}}}}}", lang, sp, p, self.uid(), self.word(), more)
            }
            10 => format!("{{{{$\n\\sum_{{i=1}}^{{n}} {} < x\n}}}}$", self.uid()),
            11 => format!("{{{{$%align%\n{} &= 1\n}}}}$", self.uid()),
            12 => format!("{}:: {}\n{}:: {}\n:: {}", self.simple(1, 2), self.line(), self.simple(1, 1), self.words(1, 3), self.words(1, 3)),
            13 => format!("{}::\n:: {}\n:: {}", self.simple(1, 2), self.line(), self.line()),
            14 => format!("> {}\n> {}\n\n> {}", self.words(1, 4), self.words(1, 4), self.words(1, 3)),
            15 => format!("    {}\n    {}", self.words(1, 4), self.words(1, 4)),
            16 => "----".to_string(),
            17 => format!("%% {}", self.words(1, 4)),
            18 => format!("%%+ {}\n{} +%%", self.words(1, 3), self.words(1, 3)),
            19 => format!("%title {}", self.words(1, 3)),
            20 => match self.r.below(3) {
                0 if self.dates => format!("%date 20{:02}-{:02}-{:02}", self.r.range(0, 40), self.r.range(1, 12), self.r.range(1, 28)),
                1 if !self.templates.is_empty() => format!("%template {}", self.templates[self.r.below(self.templates.len())].clone()),
                _ => format!("%{} {}", self.simple(1, 1), self.words(1, 3)),
            },
            _ => {
                let l = self.link();
                format!("{} {} {}", self.words(1, 2), l, self.words(1, 2))
            }
        }
    }
    /// A page as a list of blocks; the marker makes every version unique.
    pub fn page(&mut self, marker: &str, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        let mut b: Vec<String> = (0..n).map(|_| self.block()).collect();
        let at = self.r.below(b.len() + 1);
        b.insert(at, format!("{} {}", marker, self.words(1, 3)));
        let sep = if self.r.chance(0.15) { "\n\n\n" } else { "\n\n" };
        let mut s = b.join(sep);
        match self.r.below(8) {
            0 => {}
            1 => s.push_str("\n\n"),
            _ => s.push('\n'),
        }
        if self.r.chance(0.05) {
            s = s.replace('\n', "\r\n");
        }
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WikiCfg {
    pub path: String,
    pub html: String,
    pub name: Option<String>,
    pub ext: String,
    pub css: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diary: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Cfg {
    pub wikis: Vec<WikiCfg>,
    pub extra: String,
}
impl Cfg {
    pub fn toml(&self) -> String {
        let mut s = String::new();
        for w in &self.wikis {
            s += "[[wikis]]\n";
            s += &format!("path = \"{}\"\npath_html = \"{}\"\next = \"{}\"\n", w.path, w.html, w.ext);
            if let Some(n) = &w.name {
                s += &format!("name = \"{}\"\n", n);
            }
            if let Some(n) = &w.css {
                s += &format!("css_name = \"{}\"\n", n);
            }
            if let Some(n) = &w.diary {
                s += &format!("diary_rel_path = \"{}\"\n", n);
            }
        }
        s += &self.extra;
        s
    }
}
/// lines of code, some of which leave a comment or string open
pub const CODE: [&str; 9] = [
    "let z = 3; // done", "/* open", "let s = \"open", "*/ closed", "'''doc", "\"\"\" more", "#[cfg(x)]", "  indented(); /* a */ b", "x = 'c'",
];
pub const CFG: &str = "/sim/home/cfg.toml";
pub const CACHE: &str = "/sim/home/.cache/vimwiki-cli";
pub const TEMPLATES: &str = "/sim/home/templates";
pub const SYNTAX: &str = "/sim/home/syntax";
pub const THEMES: &str = "/sim/home/themes";
/// a syntax and a theme of the user's own
pub const TOY_SYNTAX: &str = r#"%YAML 1.2
---
name: Toy
file_extensions: [toy, rust]
scope: source.toy
contexts:
  main:
    - match: '/\*'
      push: comment
    - match: '"'
      push: string
    - match: '\b(let|fn|if)\b'
      scope: keyword.control
  comment:
    - meta_scope: comment.block
    - match: '\*/'
      pop: true
  string:
    - meta_scope: string.quoted
    - match: '"'
      pop: true
"#;
pub const TOY_THEME: &str = r##"<?xml version="1.0" encoding="UTF-8"?>
<plist version="1.0"><dict><key>name</key><string>Toy</string><key>settings</key><array>
<dict><key>settings</key><dict><key>background</key><string>#101010</string><key>foreground</key><string>#f0f0f0</string></dict></dict>
<dict><key>scope</key><string>keyword</string><key>settings</key><dict><key>foreground</key><string>#ff0000</string></dict></dict>
<dict><key>scope</key><string>comment</string><key>settings</key><dict><key>foreground</key><string>#00ff00</string></dict></dict>
<dict><key>scope</key><string>string</string><key>settings</key><dict><key>foreground</key><string>#0000ff</string></dict></dict>
</array></dict></plist>
"##;

pub fn config(r: &mut Rng, max_wikis: usize) -> Cfg {
    let n = r.range(1, max_wikis);
    let mut wikis: Vec<WikiCfg> = vec![];
    let nest = n > 1 && r.chance(0.2);
    for i in 0..n {
        let nested = i > 0 && nest && r.chance(0.6);
        let path = if nested { format!("/sim/home/w0/nested{}", i) } else { format!("/sim/home/w{}", i) };
        wikis.push(WikiCfg {
            path,
            html: if i > 0 && r.chance(0.1) { format!("/sim/home/html0/zz-more{}", i) } else { format!("/sim/home/html{}", i) },
            name: if r.chance(0.7) { Some(format!("My Wiki {}", i)) } else { None },
            ext: if nested || (i == 0 && nest) || r.chance(0.85) { "wiki".into() } else { "txt".into() },
            css: if r.chance(0.2) { Some("my.css".into()) } else { None },
            diary: if r.chance(0.1) { Some("journal/days".into()) } else { None },
        });
    }
    if n > 1 && r.chance(0.05) {
        // a wiki listed twice
        let (p, e) = (wikis[0].path.clone(), wikis[0].ext.clone());
        wikis[n - 1].path = p;
        wikis[n - 1].ext = e;
    }
    let mut extra = String::new();
    if r.chance(0.8) {
        extra += &format!("[template]\ndir = \"{}\"\n", TEMPLATES);
        if r.chance(0.4) {
            extra += "text = \"<t>%title%|%date%|%root_path%|%wiki_path%|%css%</t>\\n%content%\\n<end/>\"\n";
        }
    }
    if r.chance(0.2) {
        extra += "[comment]\ninclude = true\n";
    }
    if r.chance(0.2) {
        extra += "[paragraph]\nignore_newline = false\n[list]\nignore_newline = false\n";
    }
    if r.chance(0.2) {
        extra += "[link]\nbase_url = \"https://example.org\"\ncanonicalize = true\n";
    } else if r.chance(0.2) {
        extra += "[link]\nuse_ugly_urls = true\n";
    }
    if r.chance(0.05) {
        extra += "[code]\nserver_side = true\n";
        if r.chance(0.5) {
            extra += &format!("syntax_dir = \"{}\"\n", SYNTAX);
        }
        match r.below(3) {
            0 => extra += &format!("theme_dir = \"{}\"\ntheme = \"toy\"\n", THEMES),
            1 => extra += "theme = \"base16-ocean.dark\"\n",
            _ => {}
        }
    }
    if r.chance(0.1) {
        extra += "[header]\ntable_of_contents = \"Notes\"\n";
    }
    Cfg { wikis, extra }
}
pub const FCFG: &str = "/sim/home/fmt.toml";
