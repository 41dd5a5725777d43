//! Greedy reduction of a failing scenario: a smaller scenario is kept when it
//! still fails in the same way.
use crate::oracle::Oracle;
use crate::runner::*;
use crate::world::*;
use crate::Replay;
use std::time::{Duration, Instant};

struct M<'a> {
    bin: &'a str,
    shim: &'a str,
    or: Oracle,
    best: Scenario,
    class: String,
    detail: String,
    hash: u64,
    end: Instant,
    tried: u32,
    any: bool,
}
impl M<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn test(&mut self, s: &Scenario) -> bool {
        if self.over() || *s == self.best {
            return false;
        }
        self.tried += 1;
        let mut sim = Sim::new(self.bin, self.shim);
        let x = Runner::replay(&mut sim, &mut self.or, s);
        match x.viol {
            Some(v) if v.class == self.class => {
                self.detail = v.detail;
                self.hash = x.hash;
                self.best = x.scn; // without the steps after the failure
                self.any = true;
                true
            }
            _ => false,
        }
    }
    fn groups(&self) -> Vec<usize> {
        (0..self.best.steps.len()).filter(|&i| matches!(self.best.steps[i], Step::Run(_))).collect()
    }
    fn group(&self, i: usize) -> Group {
        match self.best.steps.get(i).unwrap_or(&Step::Files(vec![])) {
            Step::Run(g) => g.clone(),
            _ => Group::default(),
        }
    }
    fn with(&self, i: usize, g: Group) -> Scenario {
        let mut s = self.best.clone();
        if let Some(x) = s.steps.get_mut(i) {
            *x = Step::Run(g);
        }
        s
    }
}

pub fn minimise(bin: &str, shim: &str, r: Replay, limit: Duration) -> Replay {
    let mut m = M {
        bin,
        shim,
        or: Oracle::new(),
        best: r.scenario.clone(),
        class: r.class.clone(),
        detail: r.detail.clone(),
        hash: u64::from_str_radix(&r.hash, 16).unwrap_or(0),
        end: Instant::now() + limit,
        tried: 0,
        any: false,
    };
    // explicit schedules instead of seeds
    {
        let mut sim = Sim::new(bin, shim);
        let x = Runner::replay(&mut sim, &mut m.or, &m.best);
        let sw = x.sw.clone();
        let mut s = m.best.clone();
        let mut k = 0;
        for st in &mut s.steps {
            if let Step::Run(g) = st {
                if let Some(w) = sw.get(k) {
                    if g.invs.len() > 1 {
                        g.switches = Some(w.clone());
                    }
                }
                k += 1;
            }
        }
        m.test(&s);
    }
    for _ in 0..3 {
        let before = m.best.clone();
        // whole steps
        let mut i = m.best.steps.len();
        while i > 0 && !m.over() {
            i -= 1;
            if i >= m.best.steps.len() {
                continue;
            }
            let mut s = m.best.clone();
            s.steps.remove(i);
            m.test(&s);
        }
        // initial files: halves, then one by one
        let mut size = m.best.setup.len().div_ceil(2);
        while size > 0 && !m.over() {
            let mut i = 0;
            while i < m.best.setup.len() {
                let mut s = m.best.clone();
                let e = (i + size).min(s.setup.len());
                s.setup.drain(i..e);
                if !m.test(&s) {
                    i += size;
                }
            }
            size = if size == 1 { 0 } else { size / 2 };
        }
        for i in m.groups() {
            // processes
            let mut k = m.group(i).invs.len();
            while k > 0 && !m.over() {
                k -= 1;
                let mut g = m.group(i);
                if g.invs.len() < 2 || k >= g.invs.len() {
                    continue;
                }
                g.invs.remove(k);
                g.faults.retain(|f| f.inv != k);
                for f in &mut g.faults {
                    if f.inv > k {
                        f.inv -= 1;
                    }
                }
                if let Some(s) = &mut g.switches {
                    s.retain(|x| x.1 != k);
                    for x in s.iter_mut() {
                        if x.1 > k {
                            x.1 -= 1;
                        }
                    }
                }
                let s = m.with(i, g);
                m.test(&s);
            }
            let mut k = m.group(i).faults.len();
            while k > 0 && !m.over() {
                k -= 1;
                let mut g = m.group(i);
                g.faults.remove(k);
                let s = m.with(i, g);
                m.test(&s);
            }
            let mut k = m.group(i).edits.len();
            while k > 0 && !m.over() {
                k -= 1;
                let mut g = m.group(i);
                g.edits.remove(k);
                let s = m.with(i, g);
                m.test(&s);
            }
            let mut k = m.group(i).cfgs.len();
            while k > 0 && !m.over() {
                k -= 1;
                let mut g = m.group(i);
                g.cfgs.remove(k);
                let s = m.with(i, g);
                m.test(&s);
            }
            // schedule: halves, then single switches
            let mut size = m.group(i).switches.as_ref().map_or(0, |s| s.len());
            while size > 0 && !m.over() {
                let mut k = 0;
                while k < m.group(i).switches.as_ref().map_or(0, |s| s.len()) && !m.over() {
                    let mut g = m.group(i);
                    let s = g.switches.as_mut().unwrap();
                    let e = (k + size).min(s.len());
                    s.drain(k..e);
                    let s = m.with(i, g);
                    if !m.test(&s) {
                        k += size;
                    }
                }
                size /= 2;
            }
        }
        // edits and texts inside steps
        for i in 0..m.best.steps.len() {
            let mut k = match m.best.steps.get(i) {
                Some(Step::Files(o)) => o.len(),
                _ => 0,
            };
            while k > 0 && !m.over() {
                k -= 1;
                let mut s = m.best.clone();
                if let Some(Step::Files(o)) = s.steps.get_mut(i) {
                    if k < o.len() {
                        o.remove(k);
                    }
                }
                m.test(&s);
            }
        }
        for i in 0..m.best.setup.len() {
            let mut b = 0;
            while !m.over() {
                let Some(FileOp::Put(p, t)) = m.best.setup.get(i).cloned() else { break };
                let parts: Vec<&str> = t.split("\n\n").collect();
                if b >= parts.len() || parts.len() < 2 {
                    break;
                }
                let mut q = parts.clone();
                q.remove(b);
                let mut s = m.best.clone();
                s.setup[i] = FileOp::Put(p, q.join("\n\n"));
                if !m.test(&s) {
                    b += 1;
                }
            }
        }
        if m.best == before || m.over() {
            break;
        }
    }
    Replay {
        property: r.property,
        seed: r.seed,
        class: m.class,
        detail: m.detail,
        hash: format!("{:016x}", m.hash),
        minimised: m.any,
        scenario: m.best,
    }
}
