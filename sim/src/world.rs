//! The simulator proper: real `vimwiki` processes whose every call arrives as
//! a request, one scheduler, one clock, one file system, and the fault engine.
use crate::fs::{dec, e::*, enc, Body, Fs, Ino, Resolved};
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileOp {
    /// atomic save: a new file takes the name
    Put(String, String),
    PutBytes(String, Vec<u8>),
    Remove(String),
    Rename(String, String),
    Chmod(String, u32),
    Mkdir(String),
    Symlink(String, String),
    Mtime(String, i64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// the call fails with this errno
    Err(i32),
    /// only this many bytes are transferred
    Short(usize),
    /// SIGKILL before the call takes effect
    KillBefore,
    /// SIGKILL after the call took effect
    KillAfter,
    /// write this many bytes, then SIGKILL
    KillTorn(usize),
    /// power failure before / after the call; seed picks the surviving state
    PowerBefore(u64),
    PowerAfter(u64),
    /// from now on only this much free space is left on the disk
    Free(u64),
    /// somebody else changes the file system right before the call
    File(FileOp),
    /// the wall clock jumps by so many seconds
    Clock(i64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub inv: usize,
    pub op: String,
    pub path: String,
    /// `path` is a prefix
    pub prefix: bool,
    /// first matching call that is hit (0-based), and how many in a row
    pub nth: u32,
    pub count: u32,
    pub act: Act,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Helper {
    pub spawn_err: i32,
    pub out: String,
    pub status: i32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Inv {
    pub cmd: crate::model::Cmd,
    #[serde(default)]
    pub cwd: String,
    #[serde(default)]
    pub env: BTreeMap<String, String>,
    /// hash-seed source of this process
    pub rand: u64,
    /// directory listing order
    pub list: u64,
    /// directory entries report no file type
    #[serde(default)]
    pub untyped: bool,
    #[serde(default)]
    pub helpers: BTreeMap<String, Helper>,
    /// the wikis a healthy helper lists (None: there is no usable answer)
    #[serde(default)]
    pub vim: Option<Vec<crate::gen::WikiCfg>>,
    /// whether the answer counts is left to the program
    #[serde(default)]
    pub vim_maybe: bool,
    /// most files it may have open at a time (None: 1024)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nofile: Option<u32>,
    /// the program built with timing statistics
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub tk: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Group {
    /// what the judge expects of this group (see runner.rs)
    #[serde(default)]
    pub tag: String,
    pub invs: Vec<Inv>,
    /// (before the n-th call of the whole group, change)
    #[serde(default)]
    pub edits: Vec<(u32, FileOp)>,
    /// (before the n-th call of the whole group, new configuration)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cfgs: Vec<(u32, crate::gen::Cfg)>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    pub sched: u64,
    /// probability of switching to another process at each call
    pub psw: f64,
    /// switch mostly before calls on files another process has used
    #[serde(default)]
    pub near: bool,
    /// explicit schedule (call number, process); replaces `sched` when present
    #[serde(default)]
    pub switches: Option<Vec<(u32, usize)>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    /// killed by the simulator
    Killed,
    Hang,
    TooManyCalls,
}
impl Status {
    pub fn ok(&self) -> bool {
        *self == Status::Exit(0)
    }
}
#[derive(Clone, Debug)]
pub struct Out {
    pub status: Status,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub calls: u32,
    /// real time when the process started and ended
    pub t0: i64,
    pub t1: i64,
    pub spawned: Vec<Vec<String>>,
    /// most files open at a time
    pub peak: usize,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub inv: usize,
    pub op: &'static str,
    pub path: String,
    pub path2: String,
    /// the places path and path2 name, with symbolic links above them resolved
    pub real: [String; 2],
    pub ret: i64,
    pub err: i32,
    /// bytes moved, for read/write
    pub n: usize,
    pub mutating: bool,
    pub injected: bool,
}
pub struct GroupOut {
    pub outs: Vec<Out>,
    pub trace: Vec<Call>,
    pub switches: Vec<(u32, usize)>,
    pub power_lost: bool,
    /// how often each fault of the group fired
    pub fired: Vec<u32>,
    pub hash: u64,
    /// uninterrupted stretches of wall-clock time the group covered
    pub segs: Vec<(i64, i64)>,
}

#[derive(Clone)]
pub struct World {
    pub fs: Fs,
    /// wall clock, nanoseconds since the epoch
    pub clock: i64,
    pub mono: i64,
}

pub struct Stats {
    pub procs: u64,
    pub calls: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub sim_ns: i64,
    pub unknown: u64,
}
pub struct Sim {
    pub bin: String,
    pub shim: String,
    pub max_calls: u32,
    pub stats: Stats,
    pub verbose: bool,
    /// seconds without a request after which a process counts as hung
    pub hang_s: i64,
}

const OPS: [&str; 39] = [
    "?", "open", "close", "read", "write", "lseek", "ftruncate", "truncate", "fsync", "sync", "flock", "dup", "fdok",
    "getfl", "stat", "fstat", "access", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "chmod", "fchmod",
    "utimens", "futimens", "readlink", "realpath", "getcwd", "chdir", "getdents", "clock", "sleep", "pipe", "spawn",
    "wait", "poll", "note",
];

enum Kind {
    File,
    Dir(bool),
    Stdin,
    Stdout,
    Stderr,
    PipeR(usize),
    PipeW(usize),
}
struct Ofd {
    kind: Kind,
    ino: Ino,
    off: u64,
    append: bool,
    rd: bool,
    wr: bool,
    path: String,
}
struct Req {
    op: usize,
    a: [i64; 4],
    payload: Vec<u8>,
}
struct Proc {
    pid: i32,
    vpid: i32,
    sock: i32,
    cwd: String,
    fds: BTreeMap<i32, Rc<RefCell<Ofd>>>,
    req: Option<Req>,
    blocked: bool,
    done: Option<Status>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    calls: u32,
    t0: i64,
    t1: i64,
    spawned: Vec<Vec<String>>,
    children: BTreeMap<i64, i32>,
    pipes: Vec<Pipe>,
    nofile: usize,
    peak: usize,
}
#[derive(Default)]
struct Pipe {
    buf: Vec<u8>,
    writers: i32,
}

struct Reply {
    ret: i64,
    err: i32,
    data: Vec<u8>,
}
fn ok(ret: i64) -> Reply {
    Reply { ret, err: 0, data: vec![] }
}
fn err(e: i32) -> Reply {
    Reply { ret: -1, err: e, data: vec![] }
}
fn okd(ret: i64, data: Vec<u8>) -> Reply {
    Reply { ret, err: 0, data }
}
enum Res {
    Done(Reply),
    Block,
}
use Res::Done;

fn full_read(fd: i32, buf: &mut [u8]) -> isize {
    let mut n = 0;
    while n < buf.len() {
        let r = unsafe { libc::read(fd, buf[n..].as_mut_ptr() as *mut _, buf.len() - n) };
        if r < 0 {
            let e = std::io::Error::last_os_error().raw_os_error().unwrap();
            if e == libc::EINTR {
                continue;
            }
            if e == libc::EAGAIN || e == libc::EWOULDBLOCK {
                return -2;
            }
            return -1;
        }
        if r == 0 {
            return if n == 0 { 0 } else { -1 };
        }
        n += r as usize;
    }
    n as isize
}

impl Proc {
    /// Lets the process run until its next request or its end.
    fn advance(&mut self, hang_s: i64, now: i64) {
        let _ = hang_s;
        let mut h = [0u8; 40];
        let r = full_read(self.sock, &mut h);
        if r == 40 {
            let len = u32::from_le_bytes(h[0..4].try_into().unwrap()) as usize;
            let op = u32::from_le_bytes(h[4..8].try_into().unwrap()) as usize;
            let mut a = [0i64; 4];
            for (i, x) in a.iter_mut().enumerate() {
                *x = i64::from_le_bytes(h[8 + i * 8..16 + i * 8].try_into().unwrap());
            }
            let mut payload = vec![0u8; len];
            if len == 0 || full_read(self.sock, &mut payload) == len as isize {
                self.calls += 1;
                self.req = Some(Req { op, a, payload });
                return;
            }
        }
        if r == -2 {
            unsafe { libc::kill(self.pid, libc::SIGKILL) };
            self.reap(now);
            self.done = Some(Status::Hang);
            return;
        }
        self.reap(now);
    }
    fn reap(&mut self, now: i64) {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, 0) };
            if r == self.pid {
                break;
            }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        unsafe { libc::close(self.sock) };
        self.sock = -1;
        self.t1 = now;
        self.done = Some(if libc::WIFEXITED(st) {
            Status::Exit(libc::WEXITSTATUS(st))
        } else if libc::WTERMSIG(st) == libc::SIGXCPU {
            Status::Hang
        } else {
            Status::Signal(libc::WTERMSIG(st))
        });
    }
    fn kill(&mut self, now: i64) {
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        self.reap(now);
        self.done = Some(Status::Killed);
    }
    fn reply(&mut self, r: Reply) {
        let mut b = Vec::with_capacity(16 + r.data.len());
        b.extend((r.data.len() as u32).to_le_bytes());
        b.extend(r.err.to_le_bytes());
        b.extend(r.ret.to_le_bytes());
        b.extend(&r.data);
        let mut n = 0;
        while n < b.len() {
            let w = unsafe { libc::send(self.sock, b[n..].as_ptr() as *const _, b.len() - n, libc::MSG_NOSIGNAL) };
            if w < 0 {
                if std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                    continue;
                }
                break;
            }
            n += w as usize;
        }
    }
    fn newfd(&mut self, o: Rc<RefCell<Ofd>>) -> i64 {
        let mut n = 1000;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.fds.insert(n, o);
        self.peak = self.peak.max(self.fds.len());
        n as i64
    }
}

pub fn base_env(tz: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in [
        ("HOME", "/sim/home"),
        ("PATH", "/usr/bin:/bin"),
        ("TMPDIR", "/sim/tmp"),
        ("LANG", "C.UTF-8"),
        ("TZ", tz),
    ] {
        m.insert(k.to_string(), v.to_string());
    }
    m
}

impl Sim {
    /// was the program also built with the feature `timekeeper`
    pub fn has_tk(&self) -> bool {
        std::path::Path::new(&format!("{}.tk", self.bin)).exists()
    }
    pub fn new(bin: &str, shim: &str) -> Sim {
        Sim {
            bin: bin.into(),
            shim: shim.into(),
            max_calls: 60_000,
            verbose: false,
            hang_s: 60,
            stats: Stats { procs: 0, calls: 0, switches: 0, faults: BTreeMap::new(), sim_ns: 0, unknown: 0 },
        }
    }
    fn spawn(&mut self, inv: &Inv, vpid: i32, now: i64) -> Proc {
        let mut sv = [0i32; 2];
        unsafe {
            assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()), 0);
            let tv = libc::timeval { tv_sec: self.hang_s, tv_usec: 0 };
            libc::setsockopt(
                sv[0],
                libc::SOL_SOCKET,
                libc::SO_RCVTIMEO,
                &tv as *const _ as *const _,
                std::mem::size_of_val(&tv) as u32,
            );
        }
        let mut env = base_env("UTC0");
        for (k, v) in &inv.env {
            env.insert(k.clone(), v.clone());
        }
        env.insert("LD_PRELOAD".into(), self.shim.clone());
        env.insert("SIM_SOCK".into(), "3".into());
        env.insert("SIM_RAND".into(), inv.rand.to_string());
        env.insert("SIM_PID".into(), vpid.to_string());
        let bin = CString::new(if inv.tk { self.bin.clone() + ".tk" } else { self.bin.clone() }).unwrap();
        let mut argv: Vec<CString> = vec![CString::new("vimwiki").unwrap()];
        argv.extend(inv.cmd.args().iter().map(|a| CString::new(enc(a)).unwrap()));
        let envv: Vec<CString> = env.iter().map(|(k, v)| CString::new(format!("{}={}", k, v)).unwrap()).collect();
        let mut ap: Vec<*mut libc::c_char> = argv.iter().map(|c| c.as_ptr() as *mut _).collect();
        ap.push(std::ptr::null_mut());
        let mut ep: Vec<*mut libc::c_char> = envv.iter().map(|c| c.as_ptr() as *mut _).collect();
        ep.push(std::ptr::null_mut());
        let mut pid = 0;
        unsafe {
            let mut fa: libc::posix_spawn_file_actions_t = std::mem::zeroed();
            libc::posix_spawn_file_actions_init(&mut fa);
            let null = c"/dev/null";
            for fd in 0..3 {
                libc::posix_spawn_file_actions_addopen(&mut fa, fd, null.as_ptr(), libc::O_RDWR, 0);
            }
            libc::posix_spawn_file_actions_adddup2(&mut fa, sv[1], 3);
            let r = libc::posix_spawn(&mut pid, bin.as_ptr(), &fa, std::ptr::null(), ap.as_ptr(), ep.as_ptr());
            libc::posix_spawn_file_actions_destroy(&mut fa);
            libc::close(sv[1]);
            if r != 0 {
                eprintln!("vsim: cannot start {}: errno {}", self.bin, r);
                std::process::exit(3);
            }
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::prlimit(pid, libc::RLIMIT_CPU, &lim, std::ptr::null_mut());
            let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::prlimit(pid, libc::RLIMIT_AS, &lim, std::ptr::null_mut());
        }
        self.stats.procs += 1;
        let mut p = Proc {
            pid,
            vpid,
            sock: sv[0],
            cwd: if inv.cwd.is_empty() { "/sim/home".into() } else { inv.cwd.clone() },
            fds: BTreeMap::new(),
            req: None,
            blocked: false,
            done: None,
            stdout: vec![],
            stderr: vec![],
            calls: 0,
            t0: now,
            t1: now,
            spawned: vec![],
            children: BTreeMap::new(),
            pipes: vec![],
            nofile: inv.nofile.unwrap_or(1024) as usize,
            peak: 3,
        };
        for (n, k) in [(0, Kind::Stdin), (1, Kind::Stdout), (2, Kind::Stderr)] {
            let path = ["<stdin>", "<stdout>", "<stderr>"][n as usize].to_string();
            p.fds.insert(n, Rc::new(RefCell::new(Ofd { kind: k, ino: 0, off: 0, append: true, rd: n == 0, wr: n > 0, path })));
        }
        p.advance(self.hang_s, now);
        p
    }

    pub fn apply_file_op(w: &mut World, op: &FileOp) {
        w.fs.now = w.clock;
        match op {
            FileOp::Put(p, c) => w.fs.put(p, c.as_bytes()),
            FileOp::PutBytes(p, c) => w.fs.put(p, c),
            FileOp::Remove(p) => w.fs.remove_any(p),
            FileOp::Rename(a, b) => {
                if let Some(k) = b.rfind('/') {
                    w.fs.mkdirs(&b[..k]);
                }
                let _ = w.fs.rename("/", a, b, false);
            }
            FileOp::Chmod(p, m) => {
                if let Some(i) = w.fs.ino(p) {
                    w.fs.chmod(i, *m);
                }
            }
            FileOp::Mkdir(p) => w.fs.mkdirs(p),
            FileOp::Symlink(t, p) => {
                let _ = w.fs.symlink("/", t, p);
            }
            FileOp::Mtime(p, t) => {
                if let Some(i) = w.fs.ino(p) {
                    w.fs.set_mtime(i, *t);
                }
            }
        }
    }

    /// Runs the processes of a group to their ends (or the power failure).
    pub fn run(&mut self, w: &mut World, g: &Group) -> GroupOut {
        let mut rng = Rng::new(g.sched);
        let mut touched: BTreeMap<String, u64> = BTreeMap::new();
        let mut procs: Vec<Proc> = vec![];
        let t_start = w.clock;
        let mut segs: Vec<(i64, i64)> = vec![];
        let mut seg0 = w.clock;
        for (k, inv) in g.invs.iter().enumerate() {
            // process ids may or may not be those of earlier runs
            let base = if g.sched % 2 == 0 { 4242 } else { 1 + (g.sched >> 8) % 30_000 } as i32;
            procs.push(self.spawn(inv, base + k as i32 * 17, w.clock));
        }
        let mut trace: Vec<Call> = vec![];
        let mut switches: Vec<(u32, usize)> = vec![];
        let mut fired = vec![0u32; g.faults.len()];
        let mut seen = vec![0u32; g.faults.len()];
        let cfgs: Vec<(u32, FileOp)> = g.cfgs.iter().map(|(a, c)| (*a, FileOp::Put(crate::gen::CFG.into(), c.toml()))).collect();
        let mut edits: Vec<(u32, &FileOp)> = g.edits.iter().chain(&cfgs).map(|(a, o)| (*a, o)).collect();
        edits.sort_by_key(|x| x.0);
        let mut edits: std::collections::VecDeque<_> = edits.into();
        let mut cur: usize = 0;
        let mut step: u32 = 0;
        let mut power = None;
        let mut hash = 0u64;
        let mut locks: BTreeMap<Ino, (usize, bool)> = BTreeMap::new();
        loop {
            while edits.front().map_or(false, |x| x.0 <= step) {
                let (_, op) = edits.pop_front().unwrap();
                Sim::apply_file_op(w, op);
            }
            let ready: Vec<usize> =
                (0..procs.len()).filter(|&i| procs[i].done.is_none() && !procs[i].blocked).collect();
            if ready.is_empty() {
                let mut any = false;
                for p in procs.iter_mut().filter(|p| p.done.is_none()) {
                    any = true;
                    p.kill(w.clock);
                    p.done = Some(Status::Hang);
                }
                let _ = any;
                break;
            }
            // who runs next
            let next = match &g.switches {
                Some(s) => match s.iter().find(|x| x.0 == step) {
                    Some(x) if ready.contains(&x.1) => x.1,
                    _ if ready.contains(&cur) => cur,
                    _ => ready[0],
                },
                None => {
                    let mut p = g.psw;
                    if g.near && ready.len() > 1 && ready.contains(&cur) {
                        if let Some(q) = &procs[cur].req {
                            let (_, path, path2) = describe(&procs[cur], q);
                            let others = [&path, &path2].iter().any(|p| touched.get(*p).map_or(false, |m| m & !(1 << cur) != 0));
                            p = if others { 0.5 } else { 0.06 };
                        }
                    }
                    if !ready.contains(&cur) || (ready.len() > 1 && rng.chance(p)) {
                        ready[rng.below(ready.len())]
                    } else {
                        cur
                    }
                }
            };
            if next != cur {
                switches.push((step, next));
                self.stats.switches += 1;
                cur = next;
            }
            step += 1;
            w.clock += 1000 + (mix(step as u64) % 50_000) as i64;
            w.mono += 1000 + (mix(step as u64) % 50_000) as i64;
            w.fs.now = w.clock;
            let p = &mut procs[cur];
            if p.calls > self.max_calls {
                p.kill(w.clock);
                p.done = Some(Status::TooManyCalls);
                continue;
            }
            let req = p.req.take().unwrap();
            let (op, path, path2) = describe(p, &req);
            if g.near {
                for p in [&path, &path2] {
                    if p.starts_with('/') {
                        *touched.entry(p.clone()).or_default() |= 1 << cur;
                    }
                }
            }
            // faults
            let mut act: Option<(usize, Act)> = None;
            for (k, f) in g.faults.iter().enumerate() {
                if f.inv != cur || (f.op != op && f.op != "*") {
                    continue;
                }
                let m = if f.prefix { path.starts_with(&f.path) } else { path == f.path };
                if !m {
                    continue;
                }
                seen[k] += 1;
                let n = seen[k] - 1;
                // short transfers and interruptions are transient by nature
                let count = match f.act {
                    Act::Short(_) | Act::Err(EINTR) => f.count.min(300),
                    _ => f.count,
                };
                if n >= f.nth && n - f.nth < count {
                    match &f.act {
                        Act::File(o) => {
                            fired[k] += 1;
                            Sim::apply_file_op(w, o);
                            self.count("file-change-by-others");
                        }
                        Act::Clock(s) => {
                            fired[k] += 1;
                            segs.push((seg0, w.clock));
                            w.clock += s * 1_000_000_000;
                            seg0 = w.clock;
                            w.fs.now = w.clock;
                            self.count("clock-jump");
                        }
                        Act::Free(n) => {
                            fired[k] += 1;
                            w.fs.free = Some(*n);
                            self.count("disk-fills-up");
                        }
                        a if act.is_none() => act = Some((k, a.clone())),
                        _ => {}
                    }
                }
            }
            if let Some((k, a)) = &act {
                fired[*k] += 1;
                self.count(&match a {
                    Act::Err(n) => format!("{}:{}", op, errname(*n)),
                    Act::Short(_) => format!("{}:short", op),
                    Act::KillBefore | Act::KillAfter => format!("kill@{}", op),
                    Act::KillTorn(_) => "kill-mid-write".into(),
                    Act::PowerBefore(_) | Act::PowerAfter(_) => format!("power-loss@{}", op),
                    _ => "other".into(),
                });
            }
            let mut act = act.map(|x| x.1);
            // the kernel never fails the close of a directory or a pipe
            if op == "close" && matches!(act, Some(Act::Err(_))) {
                let file = p.fds.get(&(req.a[0] as i32)).map_or(false, |o| matches!(o.borrow().kind, Kind::File));
                if !file {
                    act = None;
                }
            }
            match &act {
                Some(Act::KillBefore) => {
                    procs[cur].kill(w.clock);
                    Self::drop_fds(w, &mut procs[cur], cur, &mut locks);
                    continue;
                }
                Some(Act::PowerBefore(s)) => {
                    power = Some(*s);
                    break;
                }
                _ => {}
            }
            let mut limit = None;
            let mut forced = None;
            match &act {
                Some(Act::Err(e)) => forced = Some(*e),
                Some(Act::Short(n)) => limit = Some(*n),
                Some(Act::KillTorn(n)) => limit = Some(*n),
                _ => {}
            }
            let real = match op {
                "open" | "write" | "ftruncate" | "truncate" | "mkdir" | "rmdir" | "unlink" | "rename" | "link" | "symlink" | "chmod"
                | "fchmod" => [w.fs.place(&path), w.fs.place(&path2)],
                _ => Default::default(),
            };
            let res = match forced {
                Some(e) => {
                    // a failed close still releases the descriptor
                    if op == "close" {
                        let _ = self.handle(w, &mut procs[cur], &g.invs[cur], &req, None, cur, &mut locks);
                    }
                    Done(err(e))
                }
                None => self.handle(w, &mut procs[cur], &g.invs[cur], &req, limit, cur, &mut locks),
            };
            let p = &mut procs[cur];
            match res {
                Res::Block => {
                    p.blocked = true;
                    p.req = Some(req);
                    if procs.iter().all(|p| p.done.is_some() || p.blocked) {
                        for p in procs.iter_mut().filter(|p| p.done.is_none()) {
                            p.kill(w.clock);
                            p.done = Some(Status::Hang);
                        }
                    }
                    continue;
                }
                Done(r) => {
                    self.stats.calls += 1;
                    let mutating = r.err == 0
                        && match op {
                            "open" => {
                                let fl = req.a[1] as i32;
                                fl & (libc::O_CREAT | libc::O_TRUNC) != 0
                            }
                            "write" => !path.starts_with('<'),
                            "ftruncate" | "truncate" | "mkdir" | "rmdir" | "unlink" | "rename" | "link" | "symlink"
                            | "chmod" | "fchmod" => true,
                            _ => false,
                        };
                    let c = Call {
                        inv: cur,
                        op,
                        path,
                        path2,
                        real,
                        ret: r.ret,
                        err: r.err,
                        n: if op == "read" || op == "write" { r.ret.max(0) as usize } else { 0 },
                        mutating,
                        injected: act.is_some(),
                    };
                    hash = hash_bytes(hash, format!("{} {} {} {} {}", cur, c.op, c.path, c.ret, c.err).as_bytes());
                    if op == "write" || op == "read" {
                        hash = hash_bytes(hash, if op == "write" { &req.payload } else { &r.data });
                    }
                    if self.verbose {
                        eprintln!(
                            "  {:5} p{} {} {} {} -> {} {}{}",
                            step,
                            cur,
                            c.op,
                            c.path,
                            c.path2,
                            c.ret,
                            if c.err != 0 { errname(c.err) } else { String::new() },
                            if c.injected { "  [injected]" } else { "" }
                        );
                    }
                    trace.push(c);
                    match &act {
                        Some(Act::KillAfter) | Some(Act::KillTorn(_)) => {
                            p.kill(w.clock);
                            Self::drop_fds(w, &mut procs[cur], cur, &mut locks);
                            continue;
                        }
                        Some(Act::PowerAfter(s)) => {
                            power = Some(*s);
                            break;
                        }
                        _ => {}
                    }
                    p.reply(r);
                    p.advance(self.hang_s, w.clock);
                    if p.done.is_some() {
                        Self::drop_fds(w, &mut procs[cur], cur, &mut locks);
                    }
                    for p in procs.iter_mut() {
                        p.blocked = false;
                    }
                }
            }
        }
        if let Some(s) = power {
            for p in procs.iter_mut().filter(|p| p.done.is_none()) {
                p.kill(w.clock);
            }
            w.fs.power_loss(&mut Rng::new(s));
        } else {
            for (k, p) in procs.iter_mut().enumerate() {
                Self::drop_fds(w, p, k, &mut locks);
            }
        }
        while let Some((_, op)) = edits.pop_front() {
            Sim::apply_file_op(w, op);
        }
        w.fs.free = None;
        segs.push((seg0, w.clock));
        self.stats.sim_ns += segs.iter().map(|s| s.1 - s.0).sum::<i64>();
        let _ = t_start;
        let outs: Vec<Out> = procs
            .into_iter()
            .map(|p| Out {
                status: p.done.unwrap(),
                stdout: p.stdout,
                stderr: p.stderr,
                calls: p.calls,
                t0: p.t0,
                t1: p.t1,
                spawned: p.spawned,
                peak: p.peak,
            })
            .collect();
        for o in &outs {
            hash = hash_bytes(hash, format!("{:?}", o.status).as_bytes());
        }
        GroupOut { outs, trace, switches, power_lost: power.is_some(), fired, hash, segs }
    }
    fn count(&mut self, k: &str) {
        *self.stats.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    fn drop_fds(w: &mut World, p: &mut Proc, k: usize, locks: &mut BTreeMap<Ino, (usize, bool)>) {
        for (_, o) in std::mem::take(&mut p.fds) {
            if Rc::strong_count(&o) == 1 {
                let o = o.borrow();
                if o.ino != 0 {
                    w.fs.close_ref(o.ino);
                }
            }
        }
        locks.retain(|_, v| v.0 != k);
    }

    #[allow(clippy::too_many_arguments)]
    fn handle(
        &mut self,
        w: &mut World,
        p: &mut Proc,
        inv: &Inv,
        q: &Req,
        limit: Option<usize>,
        me: usize,
        locks: &mut BTreeMap<Ino, (usize, bool)>,
    ) -> Res {
        let s = || dec(&q.payload);
        let base = |p: &Proc, d: i64| -> Result<String, i32> {
            if d as i32 == libc::AT_FDCWD {
                Ok(p.cwd.clone())
            } else {
                p.fds.get(&(d as i32)).map(|o| o.borrow().path.clone()).ok_or(EBADF)
            }
        };
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => return Done(err(e)),
                }
            };
        }
        let two = || {
            let k = q.payload.iter().position(|b| *b == 0).unwrap_or(q.payload.len());
            (
                dec(&q.payload[..k]),
                dec(&q.payload[(k + 1).min(q.payload.len())..]),
            )
        };
        let wdir = |w: &World, r: &Resolved| -> Result<(), i32> {
            if w.fs.node(r.parent).mode & 0o200 == 0 {
                Err(EACCES)
            } else {
                Ok(())
            }
        };
        let op = OPS.get(q.op).copied().unwrap_or("?");
        let more = match op {
            "open" => 1,
            "pipe" => 2,
            "dup" if q.a[1] < 0 => 1,
            _ => 0,
        };
        if more > 0 && p.fds.len() + more > p.nofile {
            self.count("file-limit");
            return Done(err(EMFILE));
        }
        match op {
            "open" => {
                let fl = q.a[1] as i32;
                let b = tri!(base(p, q.a[0]));
                let path = s();
                let acc = fl & libc::O_ACCMODE;
                let (rd, wr) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
                let excl = fl & libc::O_EXCL != 0 && fl & libc::O_CREAT != 0;
                let r = tri!(w.fs.resolve(&b, &path, !excl && fl & libc::O_NOFOLLOW == 0));
                let ino = match r.ino {
                    Some(i) => {
                        if excl {
                            return Done(err(EEXIST));
                        }
                        let n = w.fs.node(i);
                        match n.body {
                            Body::Dir(_) => {
                                if wr || fl & libc::O_CREAT != 0 {
                                    return Done(err(EISDIR));
                                }
                            }
                            Body::Link(_) => return Done(err(ELOOP)),
                            Body::File(_) => {
                                if fl & libc::O_DIRECTORY != 0 {
                                    return Done(err(ENOTDIR));
                                }
                            }
                        }
                        if (rd && n.mode & 0o400 == 0) || (wr && n.mode & 0o200 == 0) {
                            return Done(err(EACCES));
                        }
                        if fl & libc::O_TRUNC != 0 && wr {
                            tri!(w.fs.set_len(i, 0));
                        }
                        i
                    }
                    None => {
                        if fl & libc::O_CREAT == 0 {
                            return Done(err(ENOENT));
                        }
                        if path.ends_with('/') {
                            return Done(err(EISDIR));
                        }
                        tri!(wdir(w, &r));
                        tri!(w.fs.create(&r, (q.a[2] as u32) & 0o7777 & !0o022))
                    }
                };
                w.fs.open_ref(ino);
                let dir = matches!(w.fs.node(ino).body, Body::Dir(_));
                let o = Ofd {
                    kind: if dir { Kind::Dir(false) } else { Kind::File },
                    ino,
                    off: 0,
                    append: fl & libc::O_APPEND != 0,
                    rd,
                    wr,
                    path: r.abs,
                };
                Done(ok(p.newfd(Rc::new(RefCell::new(o)))))
            }
            "close" => match p.fds.remove(&(q.a[0] as i32)) {
                None => Done(err(EBADF)),
                Some(o) => {
                    if Rc::strong_count(&o) == 1 {
                        let o = o.borrow();
                        if o.ino != 0 {
                            if locks.get(&o.ino).map_or(false, |l| l.0 == me) {
                                locks.remove(&o.ino);
                            }
                            w.fs.close_ref(o.ino);
                        }
                        if let Kind::PipeW(k) = o.kind {
                            p.pipes[k].writers -= 1;
                        }
                    }
                    Done(ok(0))
                }
            },
            "read" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let mut o = o.borrow_mut();
                let mut n = q.a[1] as usize;
                if let Some(l) = limit {
                    n = n.min(l.max(1));
                }
                match o.kind {
                    Kind::Stdin => Done(ok(0)),
                    Kind::File => {
                        if !o.rd {
                            return Done(err(EBADF));
                        }
                        let off = if q.a[2] >= 0 { q.a[2] as u64 } else { o.off };
                        let d = tri!(w.fs.read(o.ino, off, n)).to_vec();
                        if q.a[2] < 0 {
                            o.off += d.len() as u64;
                        }
                        Done(okd(d.len() as i64, d))
                    }
                    Kind::Dir(_) => Done(err(EISDIR)),
                    Kind::PipeR(k) => {
                        let pp = &mut p.pipes[k];
                        if pp.buf.is_empty() {
                            if pp.writers <= 0 {
                                return Done(ok(0));
                            }
                            return Done(err(EAGAIN));
                        }
                        let n = n.min(pp.buf.len());
                        let d: Vec<u8> = pp.buf.drain(..n).collect();
                        Done(okd(n as i64, d))
                    }
                    _ => Done(err(EBADF)),
                }
            }
            "write" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let mut o = o.borrow_mut();
                let mut d = &q.payload[..];
                if let Some(l) = limit {
                    d = &d[..l.min(d.len())];
                }
                match o.kind {
                    Kind::Stdout => {
                        p.stdout.extend_from_slice(d);
                        Done(ok(d.len() as i64))
                    }
                    Kind::Stderr => {
                        p.stderr.extend_from_slice(d);
                        Done(ok(d.len() as i64))
                    }
                    Kind::File => {
                        if !o.wr {
                            return Done(err(EBADF));
                        }
                        let off = if q.a[2] >= 0 {
                            q.a[2] as u64
                        } else if o.append {
                            w.fs.len(o.ino)
                        } else {
                            o.off
                        };
                        let n = tri!(w.fs.write(o.ino, off, d));
                        if q.a[2] < 0 {
                            o.off = off + n as u64;
                        }
                        Done(ok(n as i64))
                    }
                    Kind::PipeW(_) => Done(ok(d.len() as i64)),
                    _ => Done(err(EBADF)),
                }
            }
            "lseek" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let mut o = o.borrow_mut();
                match o.kind {
                    Kind::File => {
                        let b = match q.a[2] as i32 {
                            libc::SEEK_SET => 0,
                            libc::SEEK_CUR => o.off as i64,
                            libc::SEEK_END => w.fs.len(o.ino) as i64,
                            _ => return Done(err(EINVAL)),
                        };
                        if b + q.a[1] < 0 {
                            return Done(err(EINVAL));
                        }
                        o.off = (b + q.a[1]) as u64;
                        Done(ok(o.off as i64))
                    }
                    Kind::Dir(ref mut d) => {
                        *d = false;
                        Done(ok(0))
                    }
                    _ => Done(err(ESPIPE)),
                }
            }
            "ftruncate" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let o = o.borrow();
                if !matches!(o.kind, Kind::File) || !o.wr {
                    return Done(err(EINVAL));
                }
                tri!(w.fs.set_len(o.ino, q.a[1].max(0) as u64));
                Done(ok(0))
            }
            "truncate" => {
                let r = tri!(w.fs.resolve(&p.cwd, &s(), true));
                let Some(i) = r.ino else { return Done(err(ENOENT)) };
                if !matches!(w.fs.node(i).body, Body::File(_)) {
                    return Done(err(EISDIR));
                }
                tri!(w.fs.set_len(i, q.a[1].max(0) as u64));
                Done(ok(0))
            }
            "fsync" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let i = o.borrow().ino;
                if i == 0 {
                    return Done(err(EINVAL));
                }
                w.fs.fsync(i);
                Done(ok(0))
            }
            "sync" => {
                w.fs.sync();
                Done(ok(0))
            }
            "flock" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let i = o.borrow().ino;
                let op = q.a[1] as i32;
                if op & libc::LOCK_UN != 0 {
                    if locks.get(&i).map_or(false, |l| l.0 == me) {
                        locks.remove(&i);
                    }
                    return Done(ok(0));
                }
                let ex = op & libc::LOCK_EX != 0;
                match locks.get(&i) {
                    Some(&(who, wex)) if who != me && (ex || wex) => {
                        if op & libc::LOCK_NB != 0 {
                            return Done(err(EAGAIN));
                        }
                        return Res::Block;
                    }
                    _ => {}
                }
                locks.insert(i, (me, ex));
                Done(ok(0))
            }
            "dup" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                if q.a[1] >= 0 {
                    p.fds.insert(q.a[1] as i32, o);
                    return Done(ok(q.a[1]));
                }
                Done(ok(p.newfd(o)))
            }
            "fdok" => Done(if p.fds.contains_key(&(q.a[0] as i32)) { ok(0) } else { err(EBADF) }),
            "getfl" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let o = o.borrow();
                Done(ok(match (o.rd, o.wr) {
                    (true, true) => libc::O_RDWR,
                    (false, true) => libc::O_WRONLY,
                    _ => libc::O_RDONLY,
                } as i64))
            }
            "stat" | "access" => {
                let b = tri!(base(p, q.a[0]));
                let nofollow = OPS[q.op] == "stat" && q.a[1] as i32 & libc::AT_SYMLINK_NOFOLLOW != 0;
                let r = tri!(w.fs.resolve(&b, &s(), !nofollow));
                let Some(i) = r.ino else { return Done(err(ENOENT)) };
                if OPS[q.op] == "access" {
                    let m = w.fs.node(i).mode;
                    let want = q.a[1] as u32;
                    if (want & 4 != 0 && m & 0o400 == 0) || (want & 2 != 0 && m & 0o200 == 0) {
                        return Done(err(EACCES));
                    }
                    return Done(ok(0));
                }
                Done(okd(0, self.stat(w, i)))
            }
            "fstat" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let o = o.borrow();
                if o.ino == 0 {
                    let mut v = vec![];
                    for x in [1u64, 0o010600, 1, 0, 0, 0, 9, 0] {
                        v.extend(x.to_le_bytes());
                    }
                    return Done(okd(0, v));
                }
                Done(okd(0, self.stat(w, o.ino)))
            }
            "mkdir" => {
                let b = tri!(base(p, q.a[0]));
                let r = tri!(w.fs.resolve(&b, &s(), false));
                if r.ino.is_some() {
                    return Done(err(EEXIST));
                }
                tri!(wdir(w, &r));
                tri!(w.fs.mkdir(&b, &s(), (q.a[1] as u32) & 0o7777 & !0o022));
                Done(ok(0))
            }
            "rmdir" => {
                let b = tri!(base(p, q.a[0]));
                let r = tri!(w.fs.resolve(&b, &s(), false));
                tri!(wdir(w, &r));
                tri!(w.fs.rmdir(&b, &s()));
                Done(ok(0))
            }
            "unlink" => {
                let b = tri!(base(p, q.a[0]));
                let r = tri!(w.fs.resolve(&b, &s(), false));
                tri!(wdir(w, &r));
                tri!(w.fs.unlink(&b, &s()));
                Done(ok(0))
            }
            "rename" => {
                let (a, c) = two();
                let b1 = tri!(base(p, q.a[0]));
                let b2 = tri!(base(p, q.a[1]));
                let r1 = tri!(w.fs.resolve(&b1, &a, false));
                let r2 = tri!(w.fs.resolve(&b2, &c, false));
                tri!(wdir(w, &r1));
                tri!(wdir(w, &r2));
                tri!(w.fs.rename("/", &r1.abs, &r2.abs, q.a[2] & 1 != 0));
                Done(ok(0))
            }
            "link" => {
                let (a, c) = two();
                let b1 = tri!(base(p, q.a[0]));
                let b2 = tri!(base(p, q.a[1]));
                let r1 = tri!(w.fs.resolve(&b1, &a, false));
                let r2 = tri!(w.fs.resolve(&b2, &c, false));
                tri!(wdir(w, &r2));
                tri!(w.fs.link("/", &r1.abs, &r2.abs));
                Done(ok(0))
            }
            "symlink" => {
                let (a, c) = two();
                let b2 = tri!(base(p, q.a[1]));
                let r2 = tri!(w.fs.resolve(&b2, &c, false));
                tri!(wdir(w, &r2));
                tri!(w.fs.symlink("/", &a, &r2.abs));
                Done(ok(0))
            }
            "chmod" | "utimens" => {
                let b = tri!(base(p, q.a[0]));
                let r = tri!(w.fs.resolve(&b, &s(), true));
                let Some(i) = r.ino else { return Done(err(ENOENT)) };
                if OPS[q.op] == "chmod" {
                    w.fs.chmod(i, q.a[1] as u32);
                } else {
                    w.fs.set_mtime(i, if q.a[1] < 0 { w.clock } else { q.a[1] * 1_000_000_000 + q.a[2] });
                }
                Done(ok(0))
            }
            "fchmod" | "futimens" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let i = o.borrow().ino;
                if i != 0 {
                    if OPS[q.op] == "fchmod" {
                        w.fs.chmod(i, q.a[1] as u32);
                    } else {
                        w.fs.set_mtime(i, if q.a[1] < 0 { w.clock } else { q.a[1] * 1_000_000_000 + q.a[2] });
                    }
                }
                Done(ok(0))
            }
            "readlink" => {
                let b = tri!(base(p, q.a[0]));
                let r = tri!(w.fs.resolve(&b, &s(), false));
                let Some(i) = r.ino else { return Done(err(ENOENT)) };
                match &w.fs.node(i).body {
                    Body::Link(t) => {
                        let t = enc(t);
                        Done(okd(t.len() as i64, t))
                    },
                    _ => Done(err(EINVAL)),
                }
            }
            "realpath" => {
                let r = tri!(w.fs.resolve(&p.cwd, &s(), true));
                if r.ino.is_none() {
                    return Done(err(ENOENT));
                }
                Done(okd(0, enc(&r.abs)))
            }
            "getcwd" => Done(okd(0, enc(&p.cwd))),
            "chdir" => {
                let r = tri!(w.fs.resolve(&p.cwd, &s(), true));
                let Some(i) = r.ino else { return Done(err(ENOENT)) };
                if !matches!(w.fs.node(i).body, Body::Dir(_)) {
                    return Done(err(ENOTDIR));
                }
                p.cwd = r.abs;
                Done(ok(0))
            }
            "getdents" => {
                let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() else { return Done(err(EBADF)) };
                let mut o = o.borrow_mut();
                let Kind::Dir(done) = o.kind else { return Done(err(ENOTDIR)) };
                if done {
                    return Done(ok(0));
                }
                o.kind = Kind::Dir(true);
                let Body::Dir(d) = &w.fs.node(o.ino).body else { return Done(err(ENOTDIR)) };
                let mut names: Vec<(String, Ino)> = d.iter().map(|(n, i)| (n.clone(), *i)).collect();
                names.push((".".into(), o.ino));
                names.push(("..".into(), o.ino));
                let mut r = Rng::new(hash_bytes(inv.list, o.path.as_bytes()));
                r.shuffle(&mut names);
                let mut v = vec![];
                for (n, i) in &names {
                    v.extend(i.to_le_bytes());
                    v.push(if inv.untyped {
                        libc::DT_UNKNOWN
                    } else {
                        match w.fs.node(*i).body {
                            Body::Dir(_) => libc::DT_DIR,
                            Body::File(_) => libc::DT_REG,
                            Body::Link(_) => libc::DT_LNK,
                        }
                    });
                    let n = enc(n);
                    v.push(n.len() as u8);
                    v.extend(n);
                }
                Done(okd(0, v))
            }
            "clock" => {
                let t = match q.a[0] as i32 {
                    libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => w.clock,
                    _ => w.mono,
                };
                let mut v = vec![];
                v.extend(t.div_euclid(1_000_000_000).to_le_bytes());
                v.extend(t.rem_euclid(1_000_000_000).to_le_bytes());
                Done(okd(0, v))
            }
            "sleep" => {
                let t = q.a[0] * 1_000_000_000 + q.a[1];
                if q.a[2] == 0 {
                    w.clock += t;
                    w.mono += t;
                } else {
                    let d = (t - w.mono).max(0);
                    w.clock += d;
                    w.mono += d;
                }
                Done(ok(0))
            }
            "pipe" => {
                let k = p.pipes.len();
                p.pipes.push(Pipe { buf: vec![], writers: 1 });
                let mk = |kind, rd| {
                    Rc::new(RefCell::new(Ofd { kind, ino: 0, off: 0, append: false, rd, wr: !rd, path: "<pipe>".into() }))
                };
                let a = p.newfd(mk(Kind::PipeR(k), true));
                let b = p.newfd(mk(Kind::PipeW(k), false));
                let mut v = vec![];
                v.extend(a.to_le_bytes());
                v.extend(b.to_le_bytes());
                Done(okd(0, v))
            }
            "spawn" => {
                let argv: Vec<String> = q
                    .payload
                    .split(|b| *b == 0)
                    .map(|b| dec(b))
                    .filter(|x| !x.is_empty())
                    .collect();
                p.spawned.push(argv.clone());
                let name = argv.first().cloned().unwrap_or_default();
                let h = match inv.helpers.get(&name) {
                    None => return Done(err(ENOENT)),
                    Some(h) => h,
                };
                if h.spawn_err != 0 {
                    return Done(err(h.spawn_err));
                }
                if q.a[0] >= 0 {
                    if let Some(o) = p.fds.get(&(q.a[0] as i32)).cloned() {
                        if let Kind::PipeW(k) = o.borrow().kind {
                            p.pipes[k].buf.extend(h.out.as_bytes());
                        }
                    }
                }
                let pid = 7000 + p.spawned.len() as i64;
                p.children.insert(pid, h.status);
                Done(ok(pid))
            }
            "wait" => match p.children.remove(&q.a[0]) {
                None => Done(err(ECHILD)),
                Some(s) => Done(okd(q.a[0], (s as i64).to_le_bytes().to_vec())),
            },
            "poll" => {
                let fds: Vec<i64> =
                    q.payload.chunks(8).map(|c| i64::from_le_bytes(c.try_into().unwrap_or([0; 8]))).collect();
                let mut v = vec![];
                let mut n = 0;
                for i in 0..fds.len() {
                    let mut ev = 0i64;
                    match p.fds.get(&(fds[i] as i32)).map(|o| o.borrow()) {
                        Some(o) => {
                            if let Kind::PipeR(k) = o.kind {
                                if !p.pipes[k].buf.is_empty() {
                                    ev |= libc::POLLIN as i64;
                                }
                                if p.pipes[k].writers <= 0 {
                                    ev |= libc::POLLHUP as i64;
                                }
                            } else {
                                ev = (libc::POLLIN | libc::POLLOUT) as i64;
                            }
                        }
                        None => {}
                    }
                    if ev != 0 {
                        n += 1;
                    }
                    v.extend(ev.to_le_bytes());
                }
                if n == 0 {
                    return Res::Block;
                }
                Done(okd(n, v))
            }
            "note" => {
                self.stats.unknown += 1;
                Done(ok(0))
            }
            _ => {
                self.stats.unknown += 1;
                Done(err(38))
            }
        }
    }
    fn stat(&self, w: &World, i: Ino) -> Vec<u8> {
        let n = w.fs.node(i);
        let ty = match n.body {
            Body::Dir(_) => libc::S_IFDIR,
            Body::File(_) => libc::S_IFREG,
            Body::Link(_) => libc::S_IFLNK,
        };
        let len = w.fs.len(i);
        let mut v = vec![];
        for x in [
            i,
            (ty | n.mode) as u64,
            n.nlink as u64,
            len,
            n.mtime.div_euclid(1_000_000_000) as u64,
            n.mtime.rem_euclid(1_000_000_000) as u64,
            77,
            len.div_ceil(512),
        ] {
            v.extend(x.to_le_bytes());
        }
        v
    }
}

fn describe(p: &Proc, q: &Req) -> (&'static str, String, String) {
    let op = OPS.get(q.op).copied().unwrap_or("?");
    let fdpath = |fd: i64| p.fds.get(&(fd as i32)).map(|o| o.borrow().path.clone()).unwrap_or_else(|| format!("<fd{}>", fd));
    let abs = |d: i64, s: &str| -> String {
        let f = if s.starts_with('/') {
            s.to_string()
        } else if d as i32 == libc::AT_FDCWD {
            format!("{}/{}", p.cwd, s)
        } else {
            format!("{}/{}", fdpath(d), s)
        };
        normalize(&f)
    };
    let s = dec(&q.payload);
    match op {
        "open" | "stat" | "access" | "mkdir" | "rmdir" | "unlink" | "chmod" | "utimens" | "readlink" => {
            (op, abs(q.a[0], &s), String::new())
        }
        "truncate" | "realpath" | "chdir" => (op, abs(libc::AT_FDCWD as i64, &s), String::new()),
        "rename" | "link" | "symlink" => {
            let k = q.payload.iter().position(|b| *b == 0).unwrap_or(q.payload.len());
            let a = dec(&q.payload[..k]);
            let b = dec(&q.payload[(k + 1).min(q.payload.len())..]);
            // `path` is the destination, `path2` the source
            (op, abs(q.a[1], &b), if op == "symlink" { a } else { abs(q.a[0], &a) })
        }
        "spawn" => {
            let k = q.payload.iter().position(|b| *b == 0).unwrap_or(q.payload.len());
            (op, dec(&q.payload[..k]), String::new())
        }
        "close" | "read" | "write" | "lseek" | "ftruncate" | "fsync" | "flock" | "dup" | "fdok" | "getfl" | "fstat"
        | "fchmod" | "futimens" | "getdents" => (op, fdpath(q.a[0]), String::new()),
        _ => (op, String::new(), String::new()),
    }
}
pub fn normalize(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
pub fn errname(n: i32) -> String {
    match n {
        EPERM => "EPERM",
        ENOENT => "ENOENT",
        EINTR => "EINTR",
        EIO => "EIO",
        EAGAIN => "EAGAIN",
        EACCES => "EACCES",
        EEXIST => "EEXIST",
        EXDEV => "EXDEV",
        EMFILE => "EMFILE",
        ENOSPC => "ENOSPC",
        EROFS => "EROFS",
        EPIPE => "EPIPE",
        ENOTDIR => "ENOTDIR",
        EISDIR => "EISDIR",
        ENOTEMPTY => "ENOTEMPTY",
        12 => "ENOMEM",
        116 => "ESTALE",
        _ => return format!("E{}", n),
    }
    .to_string()
}
