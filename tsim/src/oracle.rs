//! What a finished run must look like.
use crate::ops::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
fn v(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}
pub type Rep = BTreeMap<String, (u64, u64)>;

fn ns(s: &str) -> Option<u64> {
    let (n, f) = if let Some(x) = s.strip_suffix("ns") {
        (x, 1.0)
    } else if let Some(x) = s.strip_suffix("μs") {
        (x, 1e3)
    } else if let Some(x) = s.strip_suffix("ms") {
        (x, 1e6)
    } else {
        (s.strip_suffix('s')?, 1e9)
    };
    Some((n.parse::<f64>().ok()? * f).round() as u64)
}
/// "- ctx: (N calls, total T, average A)" lines of a printed report
pub fn report(text: &str) -> Result<Rep, String> {
    let mut m = Rep::new();
    for l in text.lines() {
        let Some(r) = l.strip_prefix("- ") else { continue };
        let bad = || format!("unreadable report line {:?}", l);
        let p = r.rfind(": (").ok_or_else(bad)?;
        let (ctx, rest) = (&r[..p], r[p + 3..].strip_suffix(')').ok_or_else(bad)?);
        let f: Vec<&str> = rest.split(", ").collect();
        if f.len() != 3 {
            return Err(bad());
        }
        let c: u64 = f[0].strip_suffix(" calls").and_then(|x| x.parse().ok()).ok_or_else(bad)?;
        let t = f[1].strip_prefix("total ").and_then(ns).ok_or_else(bad)?;
        let a = f[2].strip_prefix("average ").and_then(ns).ok_or_else(bad)?;
        if c == 0 {
            return Err(format!("report line without calls {:?}", l));
        }
        let want = t as f64 / c as f64;
        if (a as f64 - want).abs() > 1.0 + want * 1e-9 {
            return Err(format!("average is not total / calls in {:?}", l));
        }
        if m.insert(ctx.to_string(), (c, t)).is_some() {
            return Err(format!("{:?} is reported twice in one report", ctx));
        }
    }
    Ok(m)
}

pub struct Refs {
    cache: HashMap<String, (RunOut, RunOut)>,
    pub made: u64,
}
impl Refs {
    pub fn new() -> Refs {
        Refs { cache: HashMap::new(), made: 0 }
    }
    /// (collection off, collection on) results of the operation alone
    pub fn get(&mut self, scn: &Scn, op: &Op) -> (RunOut, RunOut) {
        let key = match op {
            Op::Parse(i) | Op::Html(i, _) | Op::Vim(i, _) | Op::Elem(i, _) | Op::SharedHtml(i, _) | Op::SharedVim(i, _) | Op::SharedOwn(i) | Op::Json(i, _) | Op::Frag(i, _) => {
                format!("{}\0{:?}\0{}", scn.texts[*i % scn.texts.len()], std::mem::discriminant(op), serde_json::to_string(op).unwrap())
            }
            _ => serde_json::to_string(op).unwrap(),
        } + &scn.wall.to_string();
        if let Some(x) = self.cache.get(&key) {
            return x.clone();
        }
        self.made += 2;
        let x = (alone(&scn.texts, op, scn.wall, false), alone(&scn.texts, op, scn.wall, true));
        if self.cache.len() > 3000 {
            self.cache.clear();
        }
        self.cache.insert(key, x.clone());
        x
    }
}

#[derive(Clone, Copy, PartialEq)]
struct FlagOp {
    s: u64,
    e: u64,
    kind: u8, // 0 enable 1 disable 2 toggle 3 read true 4 read false
}
/// Final states of the flag over all linearizations of the operations.
fn final_states(ops: &[FlagOp], init: bool) -> BTreeSet<bool> {
    let n = ops.len();
    let mut seen = BTreeSet::new();
    let mut out = BTreeSet::new();
    let mut st = vec![(0u32, init)];
    while let Some((done, x)) = st.pop() {
        if !seen.insert((done, x)) {
            continue;
        }
        if done.count_ones() as usize == n {
            out.insert(x);
            continue;
        }
        let min_e = (0..n).filter(|i| done >> i & 1 == 0).map(|i| ops[i].e).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || ops[i].s > min_e {
                continue;
            }
            let y = match ops[i].kind {
                0 => true,
                1 => false,
                2 => !x,
                3 if x => x,
                4 if !x => x,
                _ => continue,
            };
            st.push((done | 1 << i, y));
        }
    }
    out
}

fn each<'a>(n: &'a Node, f: &mut impl FnMut(&'a Node)) {
    f(n);
    n.kids.iter().for_each(|k| each(k, f));
}
fn has_panic(n: &Node) -> bool {
    let mut p = false;
    each(n, &mut |x| p |= x.out == Outc::Panic);
    p
}
fn cut(s: &str) -> String {
    if s.len() > 160 {
        format!("{}… ({} bytes)", s.chars().take(140).collect::<String>(), s.len())
    } else {
        s.into()
    }
}
fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let mut f = k.saturating_sub(40);
    while !a.is_char_boundary(f) || !b.is_char_boundary(f) {
        f -= 1;
    }
    format!("{} bytes expected, {} found, first difference at {}: expected …{:?} found …{:?}", a.len(), b.len(), k, cut(&a[f..]), cut(&b[f..]))
}

pub fn judge(scn: &Scn, o: &RunOut, refs: &mut Refs) -> Option<Violation> {
    if let Some(d) = &o.died {
        return v("died", format!("the process ended with {}", d));
    }
    match o.verdict {
        1 => return v("deadlock", format!("every thread waits for another one after {} callbacks; {} operations had finished", o.ev, o.ops.len())),
        2 => return v("no-progress", format!("not done after {} callbacks, {} times what the operations take alone", o.ev, 6)),
        3 => return v("HARNESS", "too many threads or switches".into()),
        _ => {}
    }
    // results
    for e in &o.ops {
        let op = &scn.threads[e.thread][e.idx];
        let who = || format!("thread {} operation {} ({})", e.thread, e.idx, cut(&serde_json::to_string(op).unwrap()));
        match op {
            Op::Ctl(_) => {
                if e.out != "done" {
                    return v("panic", format!("{}: {}", who(), cut(&e.out)));
                }
            }
            Op::Timed(n) => {
                let p = has_panic(n);
                if p && e.out != "PANIC injected" || !p && e.out.starts_with("PANIC") {
                    return v("panic", format!("{}: {}", who(), cut(&e.out)));
                }
                let want = match n.out {
                    _ if p => "PANIC",
                    Outc::Ok => "ok ",
                    Outc::Err => "err ",
                    Outc::Fail => "fail ",
                    _ => "inc ",
                };
                if !e.out.starts_with(want) {
                    return v("wrong-result", format!("{}: the timed parser ended {:?}, its caller got {:?}", who(), n.out, cut(&e.out)));
                }
                // what a control call inside prints or returns is judged below
                let (off, on) = refs.get(scn, op);
                if let Some(x) = off.ops.first() {
                    if x.out != e.out {
                        return v("wrong-result", format!("{}: {}", who(), diff(&x.out, &e.out)));
                    }
                }
                if let (Some(x), Some(y)) = (off.ops.first(), on.ops.first()) {
                    if x.out != y.out {
                        return v("wrong-result", format!("{}: collecting changes the result: {}", who(), diff(&x.out, &y.out)));
                    }
                }
            }
            _ => {
                let (off, on) = refs.get(scn, op);
                let (Some(x), Some(y)) = (off.ops.first(), on.ops.first()) else {
                    // it does not even end properly alone: not a matter of schedules
                    continue;
                };
                if x.out != e.out {
                    return v(if e.out.starts_with("PANIC") { "panic" } else { "wrong-result" }, format!("{}: {}", who(), diff(&x.out, &e.out)));
                }
                if scn.prop == "C14" && x.out != y.out {
                    return v("wrong-result", format!("{}: collecting changes the result: {}", who(), diff(&x.out, &y.out)));
                }
            }
        }
    }
    if scn.prop != "C14" {
        return None;
    }
    // control calls of the whole run
    let mut ctls: Vec<CtlEv> = o.ops.iter().flat_map(|e| e.ctls.iter().cloned()).collect();
    ctls.sort_by_key(|c| c.s);
    let mut init = false;
    for c in &scn.init {
        match c {
            Ctl::Enable => init = true,
            Ctl::Disable => init = false,
            Ctl::Toggle => init = !init,
            _ => {}
        }
    }
    let mut flags: Vec<FlagOp> = vec![];
    for c in &ctls {
        let kind = match (&c.ctl, c.ret) {
            (Ctl::Enable, _) => 0,
            (Ctl::Disable, _) => 1,
            (Ctl::Toggle, _) => 2,
            (Ctl::IsEnabled, Some(true)) => 3,
            (Ctl::IsEnabled, _) => 4,
            _ => continue,
        };
        flags.push(FlagOp { s: c.s, e: c.e, kind });
    }
    let finals = final_states(&flags, init);
    if flags.len() <= 20 {
        if finals.is_empty() {
            return v("flag", format!("no order of the control calls explains what is_enabled answered (initially {}): {:?}", init, short(&ctls)));
        }
        if let Some(l) = o.last_enabled {
            if !finals.contains(&l) {
                return v("flag", format!("collection ends {} after {:?} (initially {})", if l { "enabled" } else { "disabled" }, short(&ctls), init));
            }
        }
    }
    // timed calls: certainly counted, certainly not, or either
    let sure = |s: u64, e: u64| -> Option<bool> {
        if flags.iter().any(|f| f.kind < 3 && f.s <= e && f.e >= s) {
            return None;
        }
        let before: Vec<FlagOp> = flags.iter().copied().filter(|f| f.e < s).collect();
        let f = final_states(&before, init);
        if f.len() == 1 {
            f.first().copied()
        } else {
            None
        }
    };
    struct C {
        ctx: String,
        cnt: u64,
        ns: Option<u64>,
        s: u64,
        e: u64,
        must: bool,
    }
    let mut cs: Vec<C> = vec![];
    for e in &o.ops {
        let op = &scn.threads[e.thread][e.idx];
        match op {
            Op::Timed(n) => {
                for c in &e.contribs {
                    match sure(c.s, c.e) {
                        Some(false) => {}
                        k => cs.push(C { ctx: c.ctx.clone(), cnt: 1, ns: Some(c.ns), s: c.s, e: c.e, must: k.is_some() }),
                    }
                }
                if has_panic(n) {
                    // calls a panic passed through may or may not be counted
                    let mut names: BTreeMap<String, u64> = BTreeMap::new();
                    each(n, &mut |x| *names.entry(CTX[x.ctx % CTX.len()].to_string()).or_default() += 1);
                    for c in &e.contribs {
                        *names.get_mut(&c.ctx).unwrap() -= 1;
                    }
                    for (ctx, cnt) in names {
                        if cnt > 0 {
                            cs.push(C { ctx, cnt, ns: None, s: e.s, e: e.e, must: false });
                        }
                    }
                }
            }
            Op::Ctl(_) => {}
            _ => {
                let (_, on) = refs.get(scn, op);
                let Ok(m) = report(&on.last) else {
                    return v("report", format!("report of one parse alone: {:?}", report(&on.last)));
                };
                let shared = matches!(op, Op::SharedHtml(..) | Op::SharedVim(..) | Op::SharedOwn(..));
                if !shared && m.is_empty() && on.ops.first().is_some() && matches!(op, Op::Parse(_)) {
                    return v("count", "parsing a page alone with collection enabled counts nothing".into());
                }
                match sure(e.s, e.e) {
                    Some(false) => {}
                    k => {
                        for (ctx, (cnt, _)) in m {
                            cs.push(C { ctx, cnt, ns: None, s: e.s, e: e.e, must: k.is_some() });
                        }
                    }
                }
            }
        }
    }
    // reports and clears
    struct R {
        s: u64,
        e: u64,
        m: Option<Rep>,
        clears: bool,
    }
    let mut rs: Vec<R> = vec![];
    for c in &ctls {
        let (m, clears) = match &c.ctl {
            Ctl::Report(x) => match report(&c.text) {
                Ok(m) => (Some(m), *x),
                Err(e) => return v("report", e),
            },
            Ctl::Clear => (None, true),
            _ => continue,
        };
        rs.push(R { s: c.s, e: c.e, m, clears });
    }
    let inf = u64::MAX - 1;
    match report(&o.last) {
        Ok(m) => rs.push(R { s: inf, e: inf + 1, m: Some(m), clears: true }),
        Err(e) => return v("report", e),
    }
    let user = |c: &str| CTX.contains(&c);
    let names: BTreeSet<String> = cs.iter().map(|c| c.ctx.clone()).chain(rs.iter().filter_map(|r| r.m.as_ref()).flat_map(|m| m.keys().cloned())).collect();
    for ctx in &names {
        let mine: Vec<&C> = cs.iter().filter(|c| &c.ctx == ctx).collect();
        let timed = user(ctx) && mine.iter().all(|c| c.ns.is_some());
        // every single report
        for (k, r) in rs.iter().enumerate() {
            let Some(m) = &r.m else { continue };
            let got = m.get(ctx).copied().unwrap_or((0, 0));
            let (mut lo, mut hi) = ((0u64, 0u64), (0u64, 0u64));
            for c in &mine {
                let gone = rs.iter().enumerate().any(|(j, x)| j != k && x.clears && c.e < x.s && x.e < r.s);
                if c.s < r.e && !gone {
                    hi.0 += c.cnt;
                    hi.1 += c.ns.unwrap_or(0);
                }
                let safe = !rs.iter().enumerate().any(|(j, x)| j != k && x.clears && x.e > c.s && x.s < r.e);
                if c.must && c.e < r.s && safe {
                    lo.0 += c.cnt;
                    lo.1 += c.ns.unwrap_or(0);
                }
            }
            let what = if r.s == inf { "the final report".to_string() } else { format!("the report at {}..{}", r.s, r.e) };
            if got.0 < lo.0 || got.0 > hi.0 {
                return v("count", format!("{} shows {} calls of {:?}; {} were made for certain and at most {} can be in it", what, got.0, ctx, lo.0, hi.0));
            }
            if timed && (got.1 < lo.1 || got.1 > hi.1) {
                return v("time", format!("{} shows {} ns for {:?}; between {} and {} were spent", what, got.1, ctx, lo.1, hi.1));
            }
        }
        // all reports that clear together
        let got = rs.iter().filter(|r| r.clears).filter_map(|r| r.m.as_ref()).filter_map(|m| m.get(ctx)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        let (mut lo, mut hi) = ((0u64, 0u64), (0u64, 0u64));
        for c in &mine {
            hi.0 += c.cnt;
            hi.1 += c.ns.unwrap_or(0);
            if c.must && !rs.iter().any(|x| x.m.is_none() && x.e > c.s) {
                lo.0 += c.cnt;
                lo.1 += c.ns.unwrap_or(0);
            }
        }
        if got.0 < lo.0 || got.0 > hi.0 {
            return v("count", format!("all reports together show {} calls of {:?}; {} were made for certain, {} at most", got.0, ctx, lo.0, hi.0));
        }
        if timed && (got.1 < lo.1 || got.1 > hi.1) {
            return v("time", format!("all reports together show {} ns for {:?}; between {} and {} were spent", got.1, ctx, lo.1, hi.1));
        }
    }
    None
}
fn short(c: &[CtlEv]) -> Vec<String> {
    c.iter().filter(|c| !matches!(c.ctl, Ctl::Report(_) | Ctl::Clear)).map(|c| format!("{:?}{}@{}..{}", c.ctl, c.ret.map(|r| format!("={}", r)).unwrap_or_default(), c.s, c.e)).collect()
}
