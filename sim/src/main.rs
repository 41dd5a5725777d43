//! vsim — deterministic simulation of the vimwiki command line program.
//!
//!   vsim check   --prop C01 --seed 1 --tier quick --secs 45 --bin B --shim S --verif DIR --wall0 T
//!   vsim worker  (internal: explores runs start, start+stride, …)
//!   vsim replay  FILE [-v]
//!   vsim one     --prop C01 --seed RUNSEED [-v]     generate and execute one run
mod fs;
mod gen;
mod minimise;
mod model;
mod oracle;
mod props;
mod rng;
mod runner;
mod same;
mod world;
use oracle::Oracle;
use rng::mix;
use runner::{Runner, Scenario, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};
use world::Sim;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub class: String,
    pub detail: String,
    pub hash: String,
    #[serde(default)]
    pub minimised: bool,
    pub scenario: Scenario,
}
#[derive(Serialize, Deserialize)]
struct RunLine {
    i: u64,
    seed: u64,
    hash: u64,
    ilv: u64,
    states: Vec<u64>,
    nontrivial: bool,
    groups: u64,
    #[serde(default)]
    reused: u64,
    #[serde(default)]
    peak: usize,
    viol: Option<Violation>,
    scenario: Option<Scenario>,
}
#[derive(Serialize, Deserialize, Default)]
struct WorkerEnd {
    procs: u64,
    calls: u64,
    switches: u64,
    sim_ns: i64,
    unknown: u64,
    refs: u64,
    faults: BTreeMap<String, u64>,
}

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut pos = vec![];
        let mut it = std::env::args().skip(2).peekable();
        while let Some(a) = it.next() {
            if a == "-v" {
                m.insert("v".into(), "1".into());
            } else if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let a = Args::parse();
    let bin = a.s("bin", &std::env::var("VSIM_BIN").unwrap_or_else(|_| "/verif/build/tgt/release/vimwiki".into()));
    let shim = a.s("shim", &std::env::var("VSIM_SHIM").unwrap_or_else(|_| "/verif/build/shim.so".into()));
    let code = match mode.as_str() {
        "check" => check(&a, &bin, &shim),
        "worker" => worker(&a, &bin, &shim),
        "replay" => replay(&a, &bin, &shim),
        "minimise" => {
            let f = a.1.first().cloned().unwrap_or_default();
            let r: Replay = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            let r = minimise::minimise(&bin, &shim, r, Duration::from_secs(a.n("secs", 25)));
            std::fs::write(&f, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            0
        }
        "one" => one(&a, &bin, &shim),
        _ => {
            eprintln!("vsim check|worker|replay|minimise|one");
            2
        }
    };
    std::process::exit(code);
}

fn one(a: &Args, bin: &str, shim: &str) -> i32 {
    let mut sim = Sim::new(bin, shim);
    sim.verbose = a.0.contains_key("v");
    let mut or = Oracle::new();
    let r = props::scenario(&mut sim, &mut or, &a.s("prop", "C02"), a.n("seed", 1));
    println!("groups {} hash {:016x} nontrivial {}", r.ngroups, r.hash, r.nontrivial);
    if let Some(o) = a.0.get("save") {
        std::fs::write(o, serde_json::to_string_pretty(&r.scn).unwrap()).unwrap();
    }
    match r.viol {
        Some(v) => {
            println!("{} {}: {}", r.scn.prop, v.class, v.detail);
            1
        }
        None => 0,
    }
}

fn replay(a: &Args, bin: &str, shim: &str) -> i32 {
    let Some(f) = a.1.first() else { return 2 };
    let r: Replay = match std::fs::read(f).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let mut sim = Sim::new(bin, shim);
    sim.verbose = a.0.contains_key("v");
    let mut or = Oracle::new();
    let x = Runner::replay(&mut sim, &mut or, &r.scenario);
    let h = format!("{:016x}", x.hash);
    match x.viol {
        Some(v) => {
            println!("reproduced property={} class={} hash={} same-trace={}", r.property, v.class, h, h == r.hash);
            println!("{}", v.detail);
            if v.class == r.class && (h == r.hash || r.hash.is_empty()) {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation; property={} hash={} recorded={}", r.property, h, r.hash);
            0
        }
    }
}

fn worker(a: &Args, bin: &str, shim: &str) -> i32 {
    let prop = a.s("prop", "");
    let base = a.n("seed", 1);
    let stride = a.n("stride", 1);
    let mut i = a.n("start", 0);
    let end = Instant::now() + Duration::from_millis(a.n("ms", 10_000));
    let max = a.n("runs", u64::MAX);
    let mut sim = Sim::new(bin, shim);
    let mut or = Oracle::new();
    let out = std::io::stdout();
    while Instant::now() < end && i < max {
        let seed = run_seed(&prop, base, i);
        let r = props::scenario(&mut sim, &mut or, &prop, seed);
        let bad = r.viol.is_some();
        let l = RunLine {
            i,
            seed,
            hash: r.hash,
            ilv: r.ilv,
            states: r.states.clone(),
            nontrivial: r.nontrivial,
            groups: r.ngroups,
            reused: r.reused,
            peak: r.peak,
            scenario: if bad || i < 2 { Some(r.scn.clone()) } else { None },
            viol: r.viol,
        };
        let mut o = out.lock();
        if writeln!(o, "{}", serde_json::to_string(&l).unwrap()).and_then(|_| o.flush()).is_err() {
            return 0;
        }
        i += stride;
    }
    let e = WorkerEnd {
        procs: sim.stats.procs,
        calls: sim.stats.calls,
        switches: sim.stats.switches,
        sim_ns: sim.stats.sim_ns,
        unknown: sim.stats.unknown,
        refs: or.runs,
        faults: sim.stats.faults.clone(),
    };
    println!("END {}", serde_json::to_string(&e).unwrap());
    0
}
fn run_seed(prop: &str, base: u64, i: u64) -> u64 {
    mix(mix(base) ^ rng::hash_bytes(7, prop.as_bytes()) ^ mix(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

/// Lines of known-findings.txt:  `known: property=C05 class=<class> match=<text> -- what fails`
struct Known {
    prop: String,
    class: String,
    text: String,
    what: String,
}
fn known(verif: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((prop, r)) = r.split_once(" class=") else { continue };
        let Some((class, r)) = r.split_once(" match=") else { continue };
        let Some((text, what)) = r.split_once(" -- ") else { continue };
        v.push(Known { prop: prop.into(), class: class.into(), text: text.into(), what: what.into() });
    }
    v
}

fn check(a: &Args, bin: &str, shim: &str) -> i32 {
    let t0 = Instant::now();
    let verif = a.s("verif", "/verif");
    let prop = a.s("prop", "");
    let base = a.n("seed", 1);
    let tier = a.s("tier", "quick");
    let secs = a.n("secs", 45);
    let jobs = a.n("jobs", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8));
    let max_runs = a.n("runs", u64::MAX);
    let me = std::env::current_exe().unwrap();
    let kn = known(&verif);
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));

    let mut found: Option<Replay> = None;
    let mut known_hit: BTreeSet<usize> = BTreeSet::new();
    let mut noisy = 0u64;
    // committed regression scenarios come first
    let mut regress = 0u64;
    let rd = format!("{}/regress/{}", verif, prop);
    let mut files: Vec<_> = std::fs::read_dir(&rd).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let mut or = Oracle::new();
    for f in files {
        let Ok(r) = serde_json::from_slice::<Replay>(&std::fs::read(&f).unwrap_or_default()) else { continue };
        let mut sim = Sim::new(bin, shim);
        let x = Runner::replay(&mut sim, &mut or, &r.scenario);
        regress += 1;
        if let Some(v) = x.viol {
            let h = format!("{:016x}", x.hash);
            found = Some(Replay { class: v.class, detail: v.detail, hash: h, minimised: true, ..r });
            break;
        }
    }

    let mut children = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    if found.is_none() {
        for k in 0..jobs {
            let mut c = std::process::Command::new(&me)
                .args(["worker", "--prop", &prop, "--seed", &base.to_string()])
                .args(["--start", &k.to_string(), "--stride", &jobs.to_string()])
                .args(["--ms", &(secs * 1000).to_string(), "--runs", &max_runs.to_string()])
                .args(["--bin", bin, "--shim", shim])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .unwrap();
            let so = c.stdout.take().unwrap();
            let tx = tx.clone();
            std::thread::spawn(move || {
                for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            children.push(c);
        }
    }
    drop(tx);
    let (mut runs, mut groups, mut nontrivial) = (regress, 0u64, BTreeSet::new());
    let (mut reused, mut peak) = (0u64, 0usize);
    let mut ilvs = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut tot = WorkerEnd::default();
    let mut ended = 0;
    let mut samples: Vec<Value> = vec![];
    let mut cands: Vec<RunLine> = vec![];
    for l in rx.iter() {
        if let Some(e) = l.strip_prefix("END ") {
            if let Ok(e) = serde_json::from_str::<WorkerEnd>(e) {
                ended += 1;
                tot.procs += e.procs;
                tot.calls += e.calls;
                tot.switches += e.switches;
                tot.sim_ns += e.sim_ns;
                tot.unknown += e.unknown;
                tot.refs += e.refs;
                for (k, v) in e.faults {
                    *tot.faults.entry(k).or_default() += v;
                }
            }
            continue;
        }
        let Ok(mut r) = serde_json::from_str::<RunLine>(&l) else { continue };
        runs += 1;
        groups += r.groups;
        reused += r.reused;
        peak = peak.max(r.peak);
        if r.nontrivial {
            nontrivial.insert(r.hash);
        }
        ilvs.insert(r.ilv);
        states.extend(r.states.iter().copied());
        if let Some(v) = &r.viol {
            let hit = kn.iter().position(|k| k.prop == prop && k.class == v.class && v.detail.contains(&k.text));
            if let Some(h) = hit {
                known_hit.insert(h);
                continue;
            }
            cands.push(r);
            if cands.len() == 1 {
                for c in &mut children {
                    let _ = c.kill();
                }
            }
        } else if samples.len() < 2 {
            if let Some(s) = r.scenario.take() {
                samples.push(json!({"run": r.i, "seed": r.seed, "trace_hash": format!("{:016x}", r.hash), "scenario": shorten(&s)}));
            }
        }
    }
    for c in &mut children {
        let _ = c.wait();
    }
    if cands.is_empty() && found.is_none() && ended < children.len() as u64 as usize {
        eprintln!("vsim: {} of {} workers ended early", children.len() - ended, children.len());
        return 3;
    }
    cands.sort_by_key(|r| r.i);
    for r in cands {
        if found.is_some() {
            break;
        }
        let v = r.viol.unwrap();
        let rep = Replay {
            property: prop.clone(),
            seed: r.seed,
            class: v.class,
            detail: v.detail,
            hash: format!("{:016x}", r.hash),
            minimised: false,
            scenario: r.scenario.unwrap(),
        };
        // only what an independent process reproduces exactly is reported
        let mut sim = Sim::new(bin, shim);
        let mut or = Oracle::new();
        let mut x = Runner::replay(&mut sim, &mut or, &rep.scenario);
        let mut rep = rep;
        if x.viol.is_some() && format!("{:016x}", x.hash) != rep.hash {
            // something outside the simulation (memory addresses in a message,
            // say) shows in the trace; the violation may be exact all the same
            rep.hash = format!("{:016x}", x.hash);
            x = Runner::replay(&mut sim, &mut or, &rep.scenario);
        }
        match x.viol {
            Some(v) if v.class == rep.class => {
                if format!("{:016x}", x.hash) != rep.hash {
                    rep.hash = String::new();
                }
                let mut m = minimise::minimise(bin, shim, rep, Duration::from_secs(a.n("min-secs", 25)));
                let (mut sim, mut or) = (Sim::new(bin, shim), Oracle::new());
                let x = Runner::replay(&mut sim, &mut or, &m.scenario);
                if m.hash != format!("{:016x}", x.hash) {
                    // then replaying compares the kind of violation only
                    m.hash = String::new();
                }
                found = Some(m);
            }
            _ => {
                noisy += 1;
                eprintln!("vsim: run seed {} did not reproduce ({})", rep.seed, rep.class);
                let _ = std::fs::write(format!("{}/{}-noise.json", dir, prop), serde_json::to_string(&rep).unwrap());
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |n: u64| (n as f64 / wall * 3600.0) as u64;
    let inj: u64 = tot.faults.values().sum();
    let mut ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": props::rule(&prop),
            "samples": samples,
            "runs_per_hour": per_h(runs),
            "seeds_per_hour": per_h(runs),
            "command_groups_judged": groups,
            "program_processes_started": tot.procs,
            "system_calls_simulated": tot.calls,
            "reference_runs": tot.refs,
            "simulated_seconds": tot.sim_ns as f64 / 1e9,
            "faults_injected": inj,
            "fault_kinds": tot.faults,
            "context_switches": tot.switches,
            "distinct_interleavings": ilvs.len(),
            "distinct_file_system_states": states.len(),
            "measure": "an interleaving is the hash of every (call number, process) switch of a run; a state is the hash of all file contents after a command group",
            "unmodelled_calls": tot.unknown,
            "regression_scenarios_replayed": regress,
            "irreproducible_alarms_discarded": noisy,
            "real_components": ["vimwiki CLI binary (all of vimwiki-cli, vimwiki, vimwiki-core, their dependencies, Rust std)"],
            "stub_components": ["file system, clock, directory order, hash seeds, process scheduling, pipes, stdout/stderr, child processes (nvim/vim/sh)"]
        },
        "assumptions": [
            "calls reach the simulator through libc symbols (LD_PRELOAD); direct system calls would bypass it",
            "the simulated file system follows POSIX semantics as modelled in sim/src/fs.rs",
            "the expected output of a page is what the same binary produces for that page alone, without cache, faults or concurrency"
        ],
        "wall_s": wall,
        "violations": if found.is_some() { 1 } else { 0 }
    });
    if prop == "C16" {
        ev["coverage"]["valid_entries_met"] = json!(reused);
    }
    if prop == "C17" {
        ev["coverage"]["most_files_open_at_a_time"] = json!(peak);
    }
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif, prop), serde_json::to_string_pretty(&ev).unwrap());
    for (i, k) in kn.iter().enumerate() {
        if k.prop == prop {
            println!("KNOWN-FINDING: property={} {}{}", prop, k.what, if known_hit.contains(&i) { "" } else { " (not met this time)" });
        }
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} processes, {} calls, {} faults, {} interleavings, {:.1} s",
        prop,
        runs,
        nontrivial.len(),
        tot.procs,
        tot.calls,
        inj,
        ilvs.len(),
        wall
    );
    if let Some(f) = found {
        let path = format!("{}/{}-{}.json", dir, prop, f.seed);
        std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
        println!("{} ({} steps, minimised: {}): {}", f.class, f.scenario.steps.len(), f.minimised, f.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    0
}
fn shorten(s: &Scenario) -> Value {
    fn cut(v: &mut Value) {
        match v {
            Value::String(s) => {
                if s.chars().count() > 120 {
                    *s = format!("{}… ({} bytes)", s.chars().take(100).collect::<String>(), s.len());
                }
            }
            Value::Array(a) => {
                if a.len() > 60 && a.iter().all(|x| x.is_number()) {
                    a.truncate(60);
                }
                a.iter_mut().for_each(cut)
            }
            Value::Object(o) => o.values_mut().for_each(cut),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(s).unwrap();
    cut(&mut v);
    v
}
