//! Operations of the simulated threads and their execution against the real library.
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use vimwiki_core::*;

pub const CTX: [&str; 6] = ["user zero", "User-1", "u2", "länder", "u: 4", "u(5 calls)"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Outc {
    Ok,
    Err,
    Fail,
    Inc,
    Panic,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Node {
    pub ctx: usize,
    pub work: u64,
    pub out: Outc,
    pub kids: Vec<Node>,
    pub ctl: Option<Ctl>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ctl {
    Enable,
    Disable,
    Toggle,
    IsEnabled,
    Report(bool),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// parse text as a page
    Parse(usize),
    /// parse and render a page as html (variant of the configuration)
    Html(usize, u16),
    /// parse and render as vimwiki text
    Vim(usize, u16),
    /// parse as one kind of element
    Elem(usize, u8),
    /// render a page that was parsed before and is shared by all threads
    SharedHtml(usize, u16),
    SharedVim(usize, u16),
    SharedOwn(usize),
    /// serialise a page, read it back and render it
    Json(usize, u16),
    /// the html of the parts of a page without template
    Frag(usize, u16),
    Timed(Node),
    Ctl(Ctl),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub mode: u8,
    pub seed: u64,
    pub prob: f64,
    pub points: Vec<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub texts: Vec<String>,
    /// done before the threads start
    pub init: Vec<Ctl>,
    pub threads: Vec<Vec<Op>>,
    pub wall: u64,
    /// entropy of each thread
    pub rand: u64,
    /// fault rates: spurious futex wake-ups, short writes, interrupted writes
    pub faults: [f64; 3],
    pub sched: Sched,
    pub limit: u64,
    /// recorded switches: replay exactly these
    pub switches: Option<Vec<rt::Sw>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Contrib {
    pub ctx: String,
    pub ns: u64,
    pub cnt: u64,
    pub s: u64,
    pub e: u64,
    pub done: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CtlEv {
    pub ctl: Ctl,
    pub s: u64,
    pub e: u64,
    pub ret: Option<bool>,
    pub text: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpEv {
    pub thread: usize,
    pub idx: usize,
    pub s: u64,
    pub e: u64,
    pub out: String,
    pub contribs: Vec<Contrib>,
    pub ctls: Vec<CtlEv>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub verdict: i32,
    pub ops: Vec<OpEv>,
    pub last: String,
    pub last_enabled: Option<bool>,
    pub log: Vec<rt::Sw>,
    pub ev: u64,
    pub sync: u64,
    pub counts: [u64; 6],
    /// signal or other sudden end of the process
    pub died: Option<String>,
}

thread_local! {
    static CONTRIB: RefCell<Vec<Contrib>> = const { RefCell::new(Vec::new()) };
    static CTLS: RefCell<Vec<CtlEv>> = const { RefCell::new(Vec::new()) };
}

fn canon(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(canon),
        Value::Object(o) => {
            for (k, v) in o.iter_mut() {
                canon(v);
                if k == "cells" {
                    if let Value::Array(a) = v {
                        a.sort_by_key(|x| x.to_string());
                    }
                }
            }
        }
        _ => {}
    }
}
fn show<T: Serialize>(t: &T) -> String {
    match serde_json::to_value(t) {
        Ok(mut v) => {
            canon(&mut v);
            v.to_string()
        }
        Err(e) => format!("unserialisable: {}", e),
    }
}
const DATA: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/data");
fn html_config(v: u16) -> HtmlConfig {
    let bit = |k: u16| v >> k & 1 == 1;
    let ab = |x: &str| format!("{}/{}{}", DATA, x, if bit(8) { "B" } else { "A" });
    let mut code = serde_json::json!({"server_side": bit(0)});
    match v >> 5 & 3 {
        1 => code["theme"] = "base16-ocean.dark".into(),
        2 => code["theme"] = "Solarized (light)".into(),
        3 => {
            code["theme"] = "toy".into();
            code["theme_dir"] = format!("{}/themes", DATA).into();
        }
        _ => {}
    }
    if bit(9) {
        code["syntax_dir"] = ab("syntax").into();
    }
    let mut template = serde_json::json!({"dir": ab("tpl")});
    if bit(10) {
        template["text"] = "<t>%title%|%root_path%|%wiki_path%|%css%</t>\n%content%".into();
    }
    let mut c: HtmlConfig = serde_json::from_value(serde_json::json!({
        "wikis": [
            {"path": "/sim/home/w0", "path_html": "/sim/home/html0", "name": "My Wiki 0", "css_name": if bit(7) { "my.css" } else { "style.css" }},
            {"path": "/sim/home/w1", "path_html": "/sim/home/html1", "name": "My Wiki 1", "diary_rel_path": if bit(7) { "days" } else { "diary" }}
        ],
        "code": code,
        "template": template,
        "comment": {"include": bit(1)},
        "paragraph": {"ignore_newline": bit(2)},
        "list": {"ignore_newline": bit(3)},
        "header": {"table_of_contents": if bit(7) { "Notes" } else { "Contents" }},
        "link": {"use_ugly_urls": bit(11), "canonicalize": bit(12), "base_url": if bit(12) { "https://example.org" } else { "https://localhost" }},
    }))
    .unwrap();
    c.runtime.wiki_index = Some((v >> 4 & 1) as usize);
    c.runtime.page = format!("/sim/home/w{}/{}", v >> 4 & 1, if bit(13) { "page.wiki" } else { "dir/page.wiki" }).into();
    c
}
fn vim_config(v: u16) -> VimwikiConfig {
    let bit = |k: u16| v >> k & 1 == 1;
    if v == 0 {
        return VimwikiConfig::default();
    }
    serde_json::from_value(serde_json::json!({
        "page": {"indent_str": if bit(0) { "  " } else { "    " }, "separate_block_elements": bit(1)},
        "blockquote": {"prefer_indented_blockquote": bit(2)},
        "header": {"no_padding": bit(3)},
        "definition_list": {"term_on_line_by_itself": bit(4)},
        "paragraph": {"line_wrap_column": if bit(5) { 20 } else { 80 }, "no_line_wrap": bit(6)},
        "table": {"no_padding": bit(7)},
    }))
    .unwrap()
}
fn html_of(p: &Page, v: u16) -> String {
    match p.to_html_page(html_config(v)) {
        Ok(s) => s,
        Err(e) => format!("html error: {}", e),
    }
}
fn vim_of(p: &Page, v: u16) -> String {
    match p.to_vimwiki_string(vim_config(v)) {
        Ok(s) => s,
        Err(e) => format!("vimwiki error: {}", e),
    }
}
macro_rules! elem {
    ($l:expr, $t:ty) => {
        match $l.parse::<$t>() {
            Ok(x) => show(&x),
            Err(e) => format!("error: {}", e),
        }
    };
}
fn parse_elem(text: &str, kind: u8) -> String {
    let l = Language::from_vimwiki_str(text);
    match kind % 13 {
        0 => elem!(l, Located<BlockElement>),
        1 => elem!(l, Located<InlineElementContainer>),
        2 => elem!(l, Located<Table>),
        3 => elem!(l, Located<List>),
        4 => elem!(l, Located<DefinitionList>),
        5 => elem!(l, Located<CodeBlock>),
        6 => elem!(l, Located<Header>),
        7 => elem!(l, Located<Blockquote>),
        8 => elem!(l, Located<MathBlock>),
        9 => elem!(l, Located<Paragraph>),
        10 => elem!(l, Located<Placeholder>),
        11 => elem!(l, Located<Link>),
        _ => elem!(l, Located<Text>),
    }
}
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    format!("PANIC {}", m)
}

pub fn ctl(c: &Ctl) -> String {
    use vimwiki_core::timekeeper as tk;
    rt::take_output();
    let s = rt::stamp();
    let mut ret = None;
    let r = catch_unwind(AssertUnwindSafe(|| match c {
        Ctl::Enable => tk::enable(),
        Ctl::Disable => tk::disable(),
        Ctl::Toggle => tk::toggle_enabled(),
        Ctl::IsEnabled => ret = Some(tk::is_enabled()),
        Ctl::Report(x) => tk::print_report(*x),
        Ctl::Clear => tk::clear(),
    }));
    let e = rt::stamp();
    let text = rt::take_output();
    CTLS.with(|v| v.borrow_mut().push(CtlEv { ctl: c.clone(), s, e, ret, text }));
    match r {
        Ok(()) => "done".into(),
        Err(x) => msg(x),
    }
}
fn timed(n: &Node) -> (String, u64) {
    let s = rt::stamp();
    let mut ns = 0;
    let mut p = vimwiki_core::timekeeper::parsers::context(CTX[n.ctx % CTX.len()], |i| {
        unsafe { rt::rt_work(n.work / 2) };
        ns += n.work / 2;
        for (k, kid) in n.kids.iter().enumerate() {
            if k == 1 {
                if let Some(c) = &n.ctl {
                    let _ = ctl(c);
                }
            }
            ns += timed(kid).1;
        }
        if n.kids.len() < 2 {
            if let Some(c) = &n.ctl {
                let _ = ctl(c);
            }
        }
        unsafe { rt::rt_work(n.work - n.work / 2) };
        ns += n.work - n.work / 2;
        match n.out {
            Outc::Ok => Ok((i, n.work)),
            Outc::Err => Err(nom::Err::Error(ParseError::unsupported())),
            Outc::Fail => Err(nom::Err::Failure(ParseError::unsupported())),
            Outc::Inc => Err(nom::Err::Incomplete(nom::Needed::new(3))),
            Outc::Panic => panic!("injected"),
        }
    });
    let r = p("some input".into());
    let out = match r {
        Ok((rest, x)) => format!("ok {} {:?}", x, rest.as_unsafe_remaining_str()),
        Err(nom::Err::Error(e)) => format!("err {}", e),
        Err(nom::Err::Failure(e)) => format!("fail {}", e),
        Err(nom::Err::Incomplete(e)) => format!("inc {:?}", e),
    };
    drop(p);
    let e = rt::stamp();
    CONTRIB.with(|v| v.borrow_mut().push(Contrib { ctx: CTX[n.ctx % CTX.len()].into(), ns, cnt: 1, s, e, done: true }));
    (out, ns)
}
pub struct Env {
    pub texts: Vec<String>,
    pub shared: Vec<Option<Page<'static>>>,
}
impl Env {
    pub fn new(scn: &Scn) -> Env {
        let mut shared: Vec<Option<Page<'static>>> = scn.texts.iter().map(|_| None).collect();
        for t in &scn.threads {
            for o in t {
                if let Op::SharedHtml(i, _) | Op::SharedVim(i, _) | Op::SharedOwn(i) = o {
                    let i = *i % scn.texts.len();
                    if shared[i].is_none() {
                        let p: Result<Page, _> = Language::from_vimwiki_str(&scn.texts[i]).parse();
                        shared[i] = p.ok().map(|p| p.into_owned());
                    }
                }
            }
        }
        Env { texts: scn.texts.clone(), shared }
    }
}
fn body(env: &Env, op: &Op) -> String {
    let text = |i: &usize| env.texts[*i % env.texts.len()].as_str();
    let page = |i: &usize| -> Result<Page, String> { Language::from_vimwiki_str(text(i)).parse().map_err(|e: ParseError| format!("error: {}", e)) };
    let sh = |i: &usize| env.shared[*i % env.texts.len()].as_ref();
    match op {
        Op::Parse(i) => page(i).map_or_else(|e| e, |p| show(&p)),
        Op::Html(i, v) => page(i).map_or_else(|e| e, |p| html_of(&p, *v)),
        Op::Vim(i, v) => page(i).map_or_else(|e| e, |p| vim_of(&p, *v)),
        Op::Elem(i, k) => parse_elem(text(i), *k),
        Op::SharedHtml(i, v) => sh(i).map_or("none".into(), |p| html_of(p, *v)),
        Op::SharedVim(i, v) => sh(i).map_or("none".into(), |p| vim_of(p, *v)),
        Op::SharedOwn(i) => sh(i).map_or("none".into(), |p| show(&p.to_borrowed().into_owned())),
        Op::Json(i, v) => page(i).map_or_else(
            |e| e,
            |p| match serde_json::to_string(&p).and_then(|s| serde_json::from_str::<Page>(&s).map(|q| html_of(&q, *v))) {
                Ok(s) => s,
                Err(e) => format!("json error: {}", e),
            },
        ),
        Op::Frag(i, v) => page(i).map_or_else(
            |e| e,
            |p| p.elements.iter().map(|e| e.to_html_string(html_config(*v)).unwrap_or_else(|e| format!("html error: {}", e))).collect::<Vec<_>>().join("|"),
        ),
        Op::Timed(n) => timed(n).0,
        Op::Ctl(c) => ctl(c),
    }
}
pub fn exec(env: &Env, op: &Op, thread: usize, idx: usize) -> OpEv {
    CONTRIB.with(|v| v.borrow_mut().clear());
    CTLS.with(|v| v.borrow_mut().clear());
    let s = rt::stamp();
    let out = match catch_unwind(AssertUnwindSafe(|| body(env, op))) {
        Ok(s) => s,
        Err(x) => msg(x),
    };
    let e = rt::stamp();
    OpEv { thread, idx, s, e, out, contribs: CONTRIB.with(|v| std::mem::take(&mut *v.borrow_mut())), ctls: CTLS.with(|v| std::mem::take(&mut *v.borrow_mut())) }
}

fn in_child(f: impl FnOnce() -> RunOut + Send) -> RunOut {
    unsafe {
        let mut fd = [0i32; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            std::panic::set_hook(Box::new(|_| {}));
            // a thread of its own: nothing thread-local of the parent is inherited
            let o = std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap());
            let b = serde_json::to_vec(&o).unwrap();
            let mut k = 0;
            while k < b.len() {
                let r = libc::write(fd[1], b[k..].as_ptr() as _, b.len() - k);
                if r <= 0 {
                    break;
                }
                k += r as usize;
            }
            libc::_exit(0);
        }
        if pid < 0 {
            panic!("fork");
        }
        libc::close(fd[1]);
        let mut b = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let mut timed_out = false;
        loop {
            let mut p = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 120_000);
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(fd[0], buf.as_mut_ptr() as _, buf.len());
            if n <= 0 {
                break;
            }
            b.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if timed_out {
            return RunOut { died: Some("TIMEOUT".into()), ..Default::default() };
        }
        match serde_json::from_slice(&b) {
            Ok(o) => o,
            Err(_) => RunOut {
                died: Some(if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) }),
                ..Default::default()
            },
        }
    }
}

/// One simulated execution in a process of its own.
pub fn run(scn: &Scn) -> RunOut {
    in_child(|| {
        let env = Arc::new(Env::new(scn));
        for c in &scn.init {
            let _ = ctl(c);
        }
        let n = scn.threads.len();
        let (mode, sw) = match &scn.switches {
            Some(s) => (0, s.clone()),
            None => (scn.sched.mode as i32, vec![]),
        };
        unsafe {
            rt::rt_setup(
                n as i32, mode, scn.sched.seed, scn.sched.prob, scn.sched.points.as_ptr(), scn.sched.points.len() as i32,
                sw.as_ptr(), sw.len() as i32, scn.limit, scn.wall, scn.faults[0], scn.faults[1], scn.faults[2],
            );
        }
        let res: Vec<Arc<std::sync::Mutex<Vec<OpEv>>>> = (0..n).map(|_| Default::default()).collect();
        let mut hs = vec![];
        for t in 0..n {
            let (env, ops, res) = (env.clone(), scn.threads[t].clone(), res[t].clone());
            let rand = crate::rng::mix(scn.rand ^ t as u64);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        unsafe { rt::rt_enter(t as i32, rand) };
                        for (k, op) in ops.iter().enumerate() {
                            let e = exec(&env, op, t, k);
                            res.lock().unwrap().push(e);
                        }
                        unsafe { rt::rt_leave() };
                    })
                    .unwrap(),
            );
        }
        let verdict = unsafe {
            rt::rt_go();
            rt::rt_wait()
        };
        let mut o = RunOut { verdict, ..Default::default() };
        if verdict == 0 {
            for h in hs {
                let _ = h.join();
            }
        }
        for r in &res {
            o.ops.extend(r.lock().unwrap().iter().cloned());
        }
        o.log = rt::log();
        (o.ev, o.sync) = rt::events();
        o.counts = rt::counts();
        if verdict == 0 && scn.prop == "C14" {
            unsafe { rt::rt_final() };
            let r = catch_unwind(|| {
                let e = vimwiki_core::timekeeper::is_enabled();
                rt::take_output();
                vimwiki_core::timekeeper::print_report(true);
                (e, rt::take_output())
            });
            match r {
                Ok((e, t)) => {
                    o.last_enabled = Some(e);
                    o.last = t;
                }
                Err(x) => o.last = msg(x),
            }
        }
        o
    })
}
/// The operation alone in a fresh process; with `timekeeper` collection is on.
pub fn alone(texts: &[String], op: &Op, wall: u64, timekeeper: bool) -> RunOut {
    let scn = Scn {
        prop: "C14".into(), texts: texts.to_vec(), init: vec![], threads: vec![vec![op.clone()]], wall, rand: 0x5eed, faults: [0.0; 3],
        sched: Sched { mode: 1, seed: 1, prob: 0.0, points: vec![] }, limit: 20_000_000_000, switches: None,
    };
    in_child(move || {
        let env = Env::new(&scn);
        if timekeeper {
            vimwiki_core::timekeeper::enable();
        }
        unsafe { rt::rt_solo(0x5eed, wall, u64::MAX) };
        let e = exec(&env, op, 0, 0);
        let (ev, sync) = rt::events();
        unsafe { rt::rt_final() };
        let mut o = RunOut { ops: vec![e], ev, sync, ..Default::default() };
        if timekeeper {
            rt::take_output();
            vimwiki_core::timekeeper::print_report(true);
            o.last = rt::take_output();
        }
        o
    })
}
