//! tsim — deterministic simulation of threads using the vimwiki library.
//!
//!   tsim check  --prop C13 --seed 1 --tier quick --secs 45 --verif DIR
//!   tsim replay FILE [-v]
//!   tsim one    --prop C13 --seed RUNSEED
#[path = "../../sim/src/gen.rs"]
#[allow(dead_code)]
mod gen;
mod ops;
mod oracle;
#[path = "../../sim/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod rt;
use ops::*;
use oracle::{Refs, Violation};
use rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::BufRead;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    seed: u64,
    class: String,
    detail: String,
    hash: String,
    #[serde(default)]
    minimised: bool,
    scenario: Scn,
}
#[derive(Serialize, Deserialize)]
struct Line {
    i: u64,
    seed: u64,
    hash: u64,
    ilv: u64,
    nontrivial: bool,
    ev: u64,
    sync: u64,
    counts: [u64; 6],
    refs: u64,
    ops: u64,
    mode: u8,
    viol: Option<Violation>,
    scenario: Option<Scn>,
}
struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let (mut m, mut pos) = (BTreeMap::new(), vec![]);
        let mut it = std::env::args().skip(2);
        while let Some(a) = it.next() {
            if a == "-v" {
                m.insert("v".into(), "1".into());
            } else if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn text(r: &mut Rng, i: usize, small: bool) -> String {
    let plain = r.chance(if small { 0.7 } else { 0.15 });
    let hi = if small { 1 } else { 4 };
    let m = format!("mk{:x}{}", r.below(1 << 24), i);
    let r_tpl = r.chance(0.4);
    let mut g = gen::PageGen { r, n_wikis: 2, named: vec!["My Wiki 0".into(), "My Wiki 1".into()], templates: if r_tpl { vec!["t0.tpl".into(), "t1.tpl".into(), "t1.tpl".into(), "missing.tpl".into()] } else { vec![] }, dates: true, plain, wild: 0.05 };
    g.page(&m, 0, hi)
}
fn node(r: &mut Rng, depth: usize) -> Node {
    let kids = if depth == 0 { 0 } else { r.below(4) };
    let work = match r.below(6) {
        0 => 0,
        1 => 1 + r.below(5) as u64,
        2 => 100 + r.below(3000) as u64,
        3 => 1_000_000 + r.below(9_000_000) as u64,
        4 => 1_000_000_000 + r.below(2_000_000_000) as u64,
        _ => 7,
    };
    let out = match r.below(12) {
        0 | 1 => Outc::Err,
        2 => Outc::Fail,
        3 => Outc::Inc,
        4 if depth < 2 => Outc::Panic,
        _ => Outc::Ok,
    };
    let ctl = if r.chance(0.08) { Some(if r.chance(0.5) { Ctl::IsEnabled } else { Ctl::Report(r.chance(0.5)) }) } else { None };
    Node { ctx: r.below(4), work, out, kids: (0..kids).map(|_| node(r, depth - 1)).collect(), ctl }
}
fn walls(r: &mut Rng) -> u64 {
    1_615_000_000_000_000_000 + r.below(3600 * 24 * 365) as u64 * 1_000_000_000
}
fn scenario(prop: &str, seed: u64, refs: &mut Refs) -> Scn {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let n = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut texts = vec![];
    let mut init = vec![];
    if prop == "C13" {
        let nt = r.range(1, 3);
        let small = r.chance(0.7);
        for i in 0..nt {
            texts.push(text(r, i, small));
        }
        let hl = r.chance(0.08);
        if hl {
            // several blocks of the same language, some leaving comments or strings open
            let k = r.below(nt);
            let lang = ["rust", "python", "c++", "", "nosuchlang"][r.below(5)];
            for _ in 0..r.range(1, 4) {
                let body = gen::CODE[r.below(gen::CODE.len())];
                texts[k] += &format!("\n\n{{{{{{{}\nfn x() {{ let y = \"{}\"; }}\n{}\n}}}}}}\n", lang, r.below(99), body);
            }
        }
        if r.chance(0.3) {
            // the same blocks again and again
            let k = r.below(nt);
            let t = texts[k].clone();
            for _ in 0..r.range(1, 3) {
                texts[k] += &format!("\n\n{}", t);
            }
        }
        if r.chance(0.4) {
            // headers, some long, some repeated
            let l = "=".repeat(r.range(1, 3));
            let few = r.range(2, 4);
            for t in texts.iter_mut() {
                for _ in 0..r.range(1, 5) {
                    let n = r.below(few);
                    let h = ["Notes", "a somewhat longer header of some words", "R&D <b> and other things that need escaping"][(n + few) % 3];
                    for _ in 0..r.range(1, 2) {
                        *t += &format!("\n\n{} {} {} {}", l, h, n, l);
                    }
                }
            }
        }
        let deep = r.chance(0.03);
        if deep {
            // nothing but lists nested deeply
            for t in texts.iter_mut() {
                let d = r.range(4, 9);
                *t = String::new();
                for k in 0..d {
                    *t += &format!("{}{} item {}\n", "  ".repeat(k), ["-", "*", "1.", "#"][r.below(4)], r.below(9));
                }
            }
        }
        let same = r.chance(0.25);
        let shared = r.chance(0.3);
        let rich = r.chance(0.4);
        if rich && r.chance(0.5) {
            for t in texts.iter_mut() {
                *t = format!("%template t{}.tpl\n\n{}", r.below(2), t);
            }
        }
        for t in 0..n {
            let k = if t == 0 && r.chance(0.3) { r.range(2, 5) } else { r.range(1, 3) };
            let mut v = vec![];
            for _ in 0..k {
                let i = r.below(nt);
                let var = (r.below(32) as u16 & !1) | if hl && r.chance(0.7) { 1 | (r.below(8) as u16) << 5 } else { 0 } | if rich { (r.below(256) as u16) << 6 & !(1 << 6) } else { 0 };
                let var = if hl && r.chance(0.3) { var | 1 << 9 } else { var & !(1 << 9) };
                let vim = if rich { r.below(256) as u16 } else { r.below(2) as u16 * 9 };
                v.push(match r.below(12) {
                    _ if deep => Op::Parse(i),
                    0 | 1 => Op::Parse(i),
                    2..=4 => Op::Html(i, var),
                    5 | 6 => Op::Vim(i, vim),
                    7 | 8 => Op::Elem(i, r.below(13) as u8),
                    9 if shared => Op::SharedVim(i, vim),
                    10 if shared => Op::SharedHtml(i, var),
                    11 if shared => Op::SharedOwn(i),
                    9 => Op::Vim(i, 0),
                    10 => Op::Json(i, var),
                    11 => Op::Frag(i, var),
                    _ => Op::Html(i, var),
                });
            }
            if same && t > 0 {
                v = threads[0].clone();
            }
            threads.push(v);
        }
        if r.chance(0.3) {
            init.push(Ctl::Enable);
        }
    } else {
        texts.push(text(r, 0, true));
        let toggles = r.chance(0.4);
        let clears = r.chance(0.25);
        let parses = r.chance(0.35);
        if r.chance(if toggles { 0.5 } else { 0.9 }) {
            init.push(Ctl::Enable);
        }
        if r.chance(0.1) {
            init.push(Ctl::Toggle);
        }
        let depth = r.below(3);
        for _ in 0..n {
            let k = r.range(1, 4);
            let mut v = vec![];
            for _ in 0..k {
                v.push(match r.below(10) {
                    0 | 1 => Op::Ctl(Ctl::Report(r.chance(0.7))),
                    2 if clears => Op::Ctl(Ctl::Clear),
                    3 | 4 if toggles => Op::Ctl(match r.below(5) {
                        0 => Ctl::Enable,
                        1 => Ctl::Disable,
                        2 => Ctl::IsEnabled,
                        _ => Ctl::Toggle,
                    }),
                    5 if parses => Op::Parse(0),
                    6 if parses => Op::Elem(0, r.below(13) as u8),
                    _ => Op::Timed(node(r, depth)),
                });
            }
            threads.push(v);
        }
    }
    let mut scn = Scn {
        prop: prop.into(), texts, init, threads, wall: walls(r), rand: r.next(), faults: [0.0; 3],
        sched: Sched { mode: 1, seed: r.next(), prob: 0.5, points: vec![] }, limit: 0, switches: None,
    };
    if r.chance(0.4) {
        scn.faults = [*r.pick(&[0.0, 0.05, 0.3]), *r.pick(&[0.0, 0.1, 0.5]), *r.pick(&[0.0, 0.1, 0.3])];
    }
    let (ev, sync) = size(&scn, refs);
    sched(&mut scn, r, ev, sync);
    scn
}
/// callbacks the operations take alone, one after the other
fn size(scn: &Scn, refs: &mut Refs) -> (u64, u64) {
    let (mut ev, mut sync) = (0, 0);
    for t in &scn.threads {
        for o in t {
            let (a, b) = refs.get(scn, o);
            ev += a.ev.max(b.ev);
            sync += a.sync.max(b.sync);
        }
    }
    (ev, sync)
}
fn sched(scn: &mut Scn, r: &mut Rng, ev: u64, sync: u64) {
    scn.limit = ev * 6 + 5_000_000;
    let mode = *r.pick(&[1u8, 1, 2, 2, 3, 3, 4, 5, 5, 5]);
    let d = r.range(1, 6);
    let mut points: Vec<u64> = vec![];
    let mut prob = 0.0;
    match mode {
        1 => {
            // at most some thousands of switches
            prob = [0.5, 0.2, 0.05, 0.01][r.below(4)];
            prob = f64::min(prob, 8000.0 / (sync as f64 + 1.0));
        }
        2 => points = (0..d).map(|_| 1 + r.below(sync as usize + 20) as u64).collect(),
        5 => prob = [0.6, 0.3, 0.1, 0.03][r.below(4)],
        3 => points = (0..d).map(|_| 1 + r.below(ev as usize + 20) as u64).collect(),
        _ => {
            prob = [0.3, 0.05, 0.01, 0.001, 0.0001][r.below(5)];
            prob = f64::min(prob, 8000.0 / (ev as f64 + 1.0));
        }
    }
    points.sort();
    scn.sched = Sched { mode, seed: r.next(), prob, points };
}
fn hash(o: &RunOut) -> u64 {
    let mut x = o.clone();
    x.counts = [0; 6];
    rng::hash_bytes(3, &serde_json::to_vec(&x).unwrap())
}
fn ilv(o: &RunOut) -> u64 {
    rng::hash_bytes(5, &serde_json::to_vec(&o.log).unwrap())
}
fn run_seed(prop: &str, base: u64, i: u64) -> u64 {
    mix(mix(base) ^ rng::hash_bytes(7, prop.as_bytes()) ^ mix(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}
fn recorded(scn: &Scn, o: &RunOut) -> Scn {
    let mut s = scn.clone();
    s.switches = Some(o.log.clone());
    s
}

fn worker(a: &Args) -> i32 {
    let prop = a.s("prop", "C13");
    let (base, start, stride) = (a.n("seed", 1), a.n("start", 0), a.n("stride", 1));
    let until = Instant::now() + Duration::from_millis(a.n("ms", 10_000));
    let mut refs = Refs::new();
    let mut i = start;
    let max = a.n("runs", u64::MAX);
    while Instant::now() < until && i < max {
        let seed = run_seed(&prop, base, i);
        let r0 = refs.made;
        let scn = scenario(&prop, seed, &mut refs);
        let o = run(&scn);
        let viol = oracle::judge(&scn, &o, &mut refs);
        let keep = viol.is_some() || i < 2;
        let l = Line {
            i, seed, hash: hash(&o), ilv: ilv(&o), nontrivial: o.log.iter().any(|s| s.forced == 0), ev: o.ev, sync: o.sync, counts: o.counts,
            refs: refs.made - r0, ops: o.ops.len() as u64, mode: scn.sched.mode,
            scenario: if keep { Some(recorded(&scn, &o)) } else { None },
            viol,
        };
        println!("{}", serde_json::to_string(&l).unwrap());
        i += stride;
    }
    println!("END");
    0
}
fn replay_scn(s: &Scn, refs: &mut Refs) -> (RunOut, Option<Violation>) {
    let o = run(s);
    let v = oracle::judge(s, &o, refs);
    (o, v)
}
fn replay(a: &Args) -> i32 {
    let Some(f) = a.1.first() else { return 2 };
    let r: Replay = match std::fs::read(f).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let (o, v) = replay_scn(&r.scenario, &mut Refs::new());
    if a.0.contains_key("v") {
        for t in &r.scenario.texts {
            println!("text {:?}", t);
        }
        for s in &o.log {
            println!("switch after {} callbacks of thread {} to thread {}{}", s.ev, s.from, s.to, if s.forced == 1 { " (it could not go on)" } else { "" });
        }
        let mut ops = o.ops.clone();
        ops.sort_by_key(|e| e.s);
        for e in ops {
            println!("{}..{} thread {} {:?} -> {}", e.s, e.e, e.thread, r.scenario.threads[e.thread][e.idx], e.out.chars().take(200).collect::<String>());
            for c in e.ctls {
                println!("    {}..{} {:?} {:?} {}", c.s, c.e, c.ctl, c.ret, c.text);
            }
        }
        println!("final report:\n{}", o.last);
    }
    println!("trace {:016x} (recorded {})", hash(&o), r.hash);
    match v {
        Some(v) => {
            println!("{} {}: {}", r.property, v.class, v.detail);
            println!("VIOLATION property={} replay={}", r.property, f);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Shrinks threads, operations, texts and switches while the class of violation stays.
fn minimise(mut best: Replay, secs: u64) -> Replay {
    let until = Instant::now() + Duration::from_secs(secs);
    let mut refs = Refs::new();
    let class = best.class.clone();
    // a changed workload is tried under its recorded switches and some fresh schedules
    let mut attempt = |s: &Scn, tries: usize| -> Option<Replay> {
        let (ev, sync) = size(s, &mut refs);
        let mut base = s.clone();
        base.limit = ev * 6 + 5_000_000;
        for k in 0..=tries {
            if Instant::now() > until {
                return None;
            }
            let mut c = base.clone();
            if k > 0 {
                let mut r = Rng::new(mix(s.sched.seed ^ k as u64));
                c.switches = None;
                let keep = c.limit;
                sched(&mut c, &mut r, ev, sync);
                c.limit = keep;
            } else if c.switches.is_none() {
                continue;
            }
            let (o, v) = replay_scn(&c, &mut refs);
            if let Some(v) = v {
                if v.class == class {
                    let rec = recorded(&c, &o);
                    let (o2, v2) = replay_scn(&rec, &mut refs);
                    if v2.as_ref().map(|x| &x.class) == Some(&class) {
                        return Some(Replay { detail: v2.unwrap().detail, hash: format!("{:016x}", hash(&o2)), scenario: rec, ..best_stub(&v) });
                    }
                }
            }
        }
        None
    };
    fn best_stub(v: &Violation) -> Replay {
        Replay {
            property: String::new(), seed: 0, class: v.class.clone(), detail: String::new(), hash: String::new(), minimised: true,
            scenario: Scn { prop: String::new(), texts: vec![], init: vec![], threads: vec![], wall: 0, rand: 0, faults: [0.0; 3], sched: Sched { mode: 0, seed: 0, prob: 0.0, points: vec![] }, limit: 0, switches: None },
        }
    }
    let mut progress = true;
    while progress && Instant::now() < until {
        progress = false;
        let mut cands: Vec<Scn> = vec![];
        let s = &best.scenario;
        if s.threads.len() > 1 {
            for t in 0..s.threads.len() {
                let mut c = s.clone();
                c.threads.remove(t);
                c.switches = None;
                cands.push(c);
            }
        }
        for t in 0..s.threads.len() {
            if s.threads[t].len() > 1 {
                for k in 0..s.threads[t].len() {
                    let mut c = s.clone();
                    c.threads[t].remove(k);
                    cands.push(c);
                }
            }
            for (k, o) in s.threads[t].iter().enumerate() {
                if let Op::Timed(n) = o {
                    let mut smaller = vec![];
                    smaller.extend(n.kids.iter().cloned());
                    for j in 0..n.kids.len() {
                        let mut m = n.clone();
                        m.kids.remove(j);
                        smaller.push(m);
                    }
                    if n.ctl.is_some() {
                        smaller.push(Node { ctl: None, ..n.clone() });
                    }
                    if n.out != Outc::Ok {
                        smaller.push(Node { out: Outc::Ok, ..n.clone() });
                    }
                    for m in smaller {
                        let mut c = s.clone();
                        c.threads[t][k] = Op::Timed(m);
                        cands.push(c);
                    }
                }
            }
        }
        for i in 0..s.texts.len() {
            let blocks: Vec<&str> = s.texts[i].split("\n\n").collect();
            if blocks.len() > 1 {
                for k in 0..blocks.len() {
                    let mut b = blocks.clone();
                    b.remove(k);
                    let mut c = s.clone();
                    c.texts[i] = b.join("\n\n");
                    cands.push(c);
                }
            }
        }
        if s.faults != [0.0; 3] {
            let mut c = s.clone();
            c.faults = [0.0; 3];
            cands.push(c);
        }
        for c in cands {
            if let Some(b) = attempt(&c, 12) {
                best = Replay { property: best.property.clone(), seed: best.seed, ..b };
                progress = true;
                break;
            }
        }
    }
    // fewer preemptions
    let mut chunk = best.scenario.switches.as_ref().map_or(0, |s| s.len()) / 2;
    while chunk > 0 && Instant::now() < until {
        let mut k = 0;
        loop {
            let cur = best.scenario.switches.clone().unwrap_or_default();
            let idx: Vec<usize> = (0..cur.len()).filter(|&i| cur[i].forced == 0).collect();
            if k >= idx.len() || Instant::now() > until {
                break;
            }
            let drop: BTreeSet<usize> = idx[k..(k + chunk).min(idx.len())].iter().copied().collect();
            let mut c = best.scenario.clone();
            c.switches = Some(cur.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|(_, s)| *s).collect());
            match attempt(&c, 0) {
                Some(b) if b.scenario.switches.as_ref().map_or(0, |s| s.len()) < cur.len() => best = Replay { property: best.property.clone(), seed: best.seed, ..b },
                _ => k += chunk,
            }
        }
        chunk /= 2;
    }
    best.minimised = true;
    best
}

fn rule(p: &str) -> &'static str {
    match p {
        "C13" => "one run = 2-4 threads, each 1-5 calls (parse page or element, render html or vimwiki text, render a shared page) over 1-3 generated texts in a fresh process, under a seeded schedule; non-trivial when at least one thread was preempted inside an operation",
        _ => "one run = 2-4 threads of timed parsers (nested, failing, panicking), library parses and control calls in a fresh process, under a seeded schedule; non-trivial when at least one thread was preempted inside an operation",
    }
}
struct Known {
    prop: String,
    class: String,
    text: String,
    what: String,
}
fn known(verif: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((prop, r)) = r.split_once(" class=") else { continue };
        let Some((class, r)) = r.split_once(" match=") else { continue };
        let Some((text, what)) = r.split_once(" -- ") else { continue };
        v.push(Known { prop: prop.into(), class: class.into(), text: text.into(), what: what.into() });
    }
    v
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let verif = a.s("verif", "/verif");
    let prop = a.s("prop", "C13");
    let base = a.n("seed", 1);
    let tier = a.s("tier", "quick");
    let secs = a.n("secs", 40);
    let jobs = a.n("jobs", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8));
    let me = std::env::current_exe().unwrap();
    let kn = known(&verif);
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let mut found: Option<Replay> = None;
    let mut refs = Refs::new();
    let mut regress = 0u64;
    let mut files: Vec<_> = std::fs::read_dir(format!("{}/regress/{}", verif, prop)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let Ok(r) = serde_json::from_slice::<Replay>(&std::fs::read(&f).unwrap_or_default()) else { continue };
        regress += 1;
        let (o, v) = replay_scn(&r.scenario, &mut refs);
        if let Some(v) = v {
            if v.class != "HARNESS" {
                found = Some(Replay { class: v.class, detail: v.detail, hash: format!("{:016x}", hash(&o)), ..r });
                break;
            }
        }
    }
    let mut children = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    if found.is_none() {
        for k in 0..jobs {
            let mut c = std::process::Command::new(&me)
                .args(["worker", "--prop", &prop, "--seed", &base.to_string(), "--start", &k.to_string(), "--stride", &jobs.to_string()])
                .args(["--ms", &(secs * 1000).to_string(), "--runs", &a.s("runs", &u64::MAX.to_string())])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .unwrap();
            let so = c.stdout.take().unwrap();
            let tx = tx.clone();
            std::thread::spawn(move || {
                for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            children.push(c);
        }
    }
    drop(tx);
    let (mut runs, mut ended, mut ev, mut sync, mut ops, mut nref) = (regress, 0usize, 0u64, 0u64, 0u64, 0u64);
    let mut counts = [0u64; 6];
    let (mut nontrivial, mut ilvs) = (BTreeSet::new(), BTreeSet::new());
    let mut modes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut cands: Vec<Line> = vec![];
    let mut known_hit = BTreeSet::new();
    for l in rx.iter() {
        if l == "END" {
            ended += 1;
            continue;
        }
        let Ok(mut r) = serde_json::from_str::<Line>(&l) else { continue };
        runs += 1;
        ev += r.ev;
        sync += r.sync;
        ops += r.ops;
        nref += r.refs;
        for k in 0..6 {
            counts[k] += r.counts[k];
        }
        *modes.entry(["replay", "coin at synchronisation points", "few preemptions at synchronisation points", "few preemptions anywhere", "coin anywhere", "coin at synchronisation points, rarely used words first"][r.mode as usize].into()).or_default() += 1;
        if r.nontrivial {
            nontrivial.insert(r.hash);
        }
        ilvs.insert(r.ilv);
        if let Some(v) = &r.viol {
            if let Some(h) = kn.iter().position(|k| k.prop == prop && k.class == v.class && v.detail.contains(&k.text)) {
                known_hit.insert(h);
                continue;
            }
            cands.push(r);
            if cands.len() == 1 {
                for c in &mut children {
                    let _ = c.kill();
                }
            }
        } else if samples.len() < 2 {
            if let Some(mut s) = r.scenario.take() {
                let n = s.switches.as_ref().map_or(0, |x| x.len());
                if let Some(x) = &mut s.switches {
                    x.truncate(20);
                }
                samples.push(json!({"run": r.i, "seed": r.seed, "trace_hash": format!("{:016x}", r.hash), "switches": n, "scenario": s}));
            }
        }
    }
    for c in &mut children {
        let _ = c.wait();
    }
    if cands.is_empty() && found.is_none() && ended < children.len() {
        eprintln!("tsim: {} of {} workers ended early", children.len() - ended, children.len());
        return 3;
    }
    let mut noisy = 0;
    cands.sort_by_key(|r| r.i);
    for r in cands {
        if found.is_some() {
            break;
        }
        let v = r.viol.unwrap();
        if v.class == "HARNESS" || v.detail.contains("TIMEOUT") && v.class == "died" {
            noisy += 1;
            continue;
        }
        let mut s = r.scenario.unwrap();
        if s.switches.as_ref().is_some_and(|x| x.is_empty()) {
            s.switches = None; // the process died before it could report its schedule
        }
        // a fresh process replays the recorded schedule
        let (o, v2) = replay_scn(&s, &mut Refs::new());
        match v2 {
            Some(x) if x.class == v.class => {
                let rep = Replay { property: prop.clone(), seed: r.seed, class: x.class, detail: x.detail, hash: format!("{:016x}", hash(&o)), minimised: false, scenario: s };
                found = Some(minimise(rep, a.n("min-secs", 30)));
            }
            _ => {
                noisy += 1;
                eprintln!("tsim: run seed {} did not reproduce ({})", r.seed, v.class);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |n: u64| (n as f64 / wall * 3600.0) as u64;
    let evd = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": rule(&prop),
            "samples": samples,
            "runs_per_hour": per_h(runs), "seeds_per_hour": per_h(runs),
            "operations": ops, "reference_processes": nref,
            "scheduling_points_passed": ev, "synchronisation_points_passed": sync,
            "simulated_time": "virtual per-thread clocks advanced by the timed parsers; no real time enters a run",
            "preemptions": counts[0], "forced_switches": counts[1],
            "fault_kinds": {"preemption": counts[0], "spurious futex wake-up": counts[2], "short write of a report": counts[3], "interrupted write of a report": counts[4]},
            "futex_waits": counts[5],
            "strategies": modes,
            "distinct_interleavings": ilvs.len(),
            "measure": "an interleaving is the sequence of (thread, callbacks it had made, next thread) switches",
            "regression_scenarios_replayed": regress,
            "irreproducible_alarms_discarded": noisy,
            "real_components": ["vimwiki-core (html and timekeeper features), all its dependencies, Rust std"],
            "stub_components": ["thread scheduling, futexes, sleeps, clocks, hash-seed entropy, standard output"]
        },
        "assumptions": [
            "sequentially consistent memory: no reordering of relaxed atomics is simulated",
            "preemption happens at block edges, loads, stores and atomics of vimwiki-core code and at system interface calls; not inside std or other dependencies",
            "the expected result of a call is what it returns alone in a fresh process"
        ],
        "wall_s": wall, "violations": if found.is_some() { 1 } else { 0 }
    });
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif, prop), serde_json::to_string_pretty(&evd).unwrap());
    for (i, k) in kn.iter().enumerate() {
        if k.prop == prop {
            println!("KNOWN-FINDING: property={} {}{}", prop, k.what, if known_hit.contains(&i) { "" } else { " (not met this time)" });
        }
    }
    println!("{}: {} runs, {} distinct non-trivial, {} operations, {} scheduling points, {} preemptions, {} interleavings, {:.1} s", prop, runs, nontrivial.len(), ops, ev, counts[0], ilvs.len(), wall);
    if let Some(f) = found {
        let path = format!("{}/{}-{}.json", dir, prop, f.seed);
        std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
        println!("{} ({} threads, {} switches, minimised: {}): {}", f.class, f.scenario.threads.len(), f.scenario.switches.as_ref().map_or(0, |s| s.len()), f.minimised, f.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    0
}

fn main() {
    std::env::set_var("TZ", "UTC");
    let a = Args::parse();
    let code = match std::env::args().nth(1).unwrap_or_default().as_str() {
        "check" => check(&a),
        "worker" => worker(&a),
        "replay" => replay(&a),
        "one" => {
            let mut refs = Refs::new();
            let seed = a.n("seed", 1);
            let prop = a.s("prop", "C13");
            let scn = scenario(&prop, seed, &mut refs);
            let o = run(&scn);
            let v = oracle::judge(&scn, &o, &mut refs);
            println!("hash {:016x} events {} sync {} switches {} ops {} {:?}", hash(&o), o.ev, o.sync, o.log.len(), o.ops.len(), v);
            if let Some(f) = a.0.get("save") {
                let r = Replay { property: prop, seed, class: v.as_ref().map_or(String::new(), |v| v.class.clone()), detail: String::new(), hash: format!("{:016x}", hash(&o)), minimised: false, scenario: recorded(&scn, &o) };
                std::fs::write(f, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            }
            v.is_some() as i32
        }
        _ => {
            eprintln!("tsim check|worker|replay|one");
            2
        }
    };
    std::process::exit(code);
}
