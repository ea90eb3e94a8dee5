//! The simulated machine: file system, pipes, processes, clock, scheduler and faults.
//!
//! Real binaries run as processes of this machine: each of their libc calls arrives here as a request
//! and is answered from simulated state.  Child programs (SAT solvers, minisat, SMT solvers) are
//! scripted state machines (`Stub`).  Exactly one actor runs at a time; which one, and which fault
//! hits which operation, is decided by the scenario (seeded), so one scenario is one execution.
use crate::json::J;
use crate::obj;
use crate::proc::Server;
use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashMap, VecDeque};

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const ECHILD: i32 = 10;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ESPIPE: i32 = 29;
pub const EPIPE: i32 = 32;
pub const ENOTEMPTY: i32 = 39;

// ------------------------------------------------------------------------------------------ faults
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Err(i32),
    Short(usize),
    Crash,
    /// Perform at most n bytes of the operation, then the process is killed.
    CrashMid(usize),
    /// The process stalls for this many nanoseconds before the operation is performed.
    Stall(u64),
    /// The wall clock jumps by this many nanoseconds at this operation.
    Jump(i64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub proc: usize,
    pub class: String,
    pub nth: u32,
    pub sticky: bool,
    pub act: Act,
}
impl Fault {
    pub fn to_json(&self) -> J {
        let (a, v) = match &self.act {
            Act::Err(e) => ("err", *e as i64),
            Act::Short(n) => ("short", *n as i64),
            Act::Crash => ("crash", 0),
            Act::CrashMid(n) => ("crashmid", *n as i64),
            Act::Stall(n) => ("stall", *n as i64),
            Act::Jump(n) => ("jump", *n),
        };
        obj! {"p" => self.proc, "class" => self.class.as_str(), "nth" => self.nth, "sticky" => self.sticky, "act" => a, "v" => v}
    }
    pub fn from_json(j: &J) -> Fault {
        let v = j.gi("v");
        let act = match j.gs("act").as_str() {
            "err" => Act::Err(v as i32),
            "short" => Act::Short(v as usize),
            "crash" => Act::Crash,
            "crashmid" => Act::CrashMid(v as usize),
            "stall" => Act::Stall(v as u64),
            _ => Act::Jump(v),
        };
        Fault { proc: j.gi("p") as usize, class: j.gs("class"), nth: j.gi("nth") as u32, sticky: j.gb("sticky"), act }
    }
    pub fn kind(&self) -> String {
        match &self.act {
            Act::Err(e) => format!("{}:{}", self.class, errno_name(*e)),
            Act::Short(_) => format!("{}:short", self.class),
            Act::Crash => format!("{}:crash-before", self.class),
            Act::CrashMid(_) => format!("{}:crash-mid", self.class),
            Act::Stall(_) => format!("{}:stall", self.class),
            Act::Jump(_) => format!("{}:clock-jump", self.class),
        }
    }
}
pub fn errno_name(e: i32) -> &'static str {
    match e {
        ENOENT => "ENOENT",
        EINTR => "EINTR",
        EIO => "EIO",
        EAGAIN => "EAGAIN",
        ENOMEM => "ENOMEM",
        EACCES => "EACCES",
        EMFILE => "EMFILE",
        ENOSPC => "ENOSPC",
        EPIPE => "EPIPE",
        _ => "errno",
    }
}

// ------------------------------------------------------------------------------------ file system
#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, u64>),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub nlink: u64,
    pub mtime: u64,
    /// Content that would survive a power loss (None: never synced).
    pub durable: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: BTreeMap<u64, Inode>,
    next: u64,
    pub quota: Option<u64>,
    /// Inodes whose content was changed since the last sync.
    pub dirty: Vec<u64>,
}
pub fn norm(cwd: &str, p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c.to_string()),
        }
    }
    v
}
impl Fs {
    pub fn new() -> Fs {
        let mut inodes = BTreeMap::new();
        inodes.insert(1, Inode { node: Node::Dir(BTreeMap::new()), nlink: 2, mtime: 0, durable: None });
        Fs { inodes, next: 2, quota: None, dirty: vec![] }
    }
    pub fn lookup(&self, path: &[String]) -> Result<u64, i32> {
        let mut cur = 1;
        for c in path {
            match &self.inodes[&cur].node {
                Node::Dir(d) => cur = *d.get(c).ok_or(ENOENT)?,
                Node::File(_) => return Err(ENOTDIR),
            }
        }
        Ok(cur)
    }
    fn parent(&self, path: &[String]) -> Result<(u64, String), i32> {
        let (last, dir) = path.split_last().ok_or(EEXIST)?;
        let d = self.lookup(dir)?;
        match &self.inodes[&d].node {
            Node::Dir(_) => Ok((d, last.clone())),
            _ => Err(ENOTDIR),
        }
    }
    fn dir_mut(&mut self, ino: u64) -> &mut BTreeMap<String, u64> {
        match &mut self.inodes.get_mut(&ino).unwrap().node {
            Node::Dir(d) => d,
            _ => panic!("not a directory"),
        }
    }
    fn add(&mut self, dir: u64, name: &str, node: Node) -> u64 {
        let ino = self.next;
        self.next += 1;
        self.inodes.insert(ino, Inode { node, nlink: 1, mtime: 0, durable: None });
        self.dir_mut(dir).insert(name.to_string(), ino);
        ino
    }
    pub fn mkdirs(&mut self, p: &str) -> u64 {
        let mut cur = 1;
        for c in norm("/", p) {
            cur = match self.dir_mut(cur).get(&c) {
                Some(&i) => i,
                None => self.add(cur, &c, Node::Dir(BTreeMap::new())),
            };
        }
        cur
    }
    /// Host-side (harness) write: creates directories as needed, durable at once.
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let mut path = norm("/", p);
        let name = path.pop().unwrap();
        let d = self.mkdirs(&("/".to_string() + &path.join("/")));
        let ino = match self.dir_mut(d).get(&name) {
            Some(&i) => i,
            None => self.add(d, &name, Node::File(vec![])),
        };
        let i = self.inodes.get_mut(&ino).unwrap();
        i.node = Node::File(data.to_vec());
        i.durable = Some(data.to_vec());
    }
    pub fn get(&self, p: &str) -> Option<&Vec<u8>> {
        let i = self.lookup(&norm("/", p)).ok()?;
        match &self.inodes[&i].node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }
    pub fn remove(&mut self, p: &str) {
        let path = norm("/", p);
        if let Ok((d, n)) = self.parent(&path) {
            self.dir_mut(d).remove(&n);
        }
    }
    /// All files, path -> content, sorted by path.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn rec(fs: &Fs, ino: u64, p: String, out: &mut BTreeMap<String, Vec<u8>>) {
            match &fs.inodes[&ino].node {
                Node::File(d) => {
                    out.insert(p, d.clone());
                }
                Node::Dir(m) => {
                    for (k, v) in m {
                        rec(fs, *v, format!("{}/{}", p, k), out);
                    }
                }
            }
        }
        let mut out = BTreeMap::new();
        rec(self, 1, String::new(), &mut out);
        out
    }
    fn used(&self) -> u64 {
        self.inodes.values().map(|i| if let Node::File(d) = &i.node { d.len() as u64 } else { 0 }).sum()
    }
    /// Power loss: every file with unsynced changes ends up as one of: its durable content, a prefix
    /// of the new content, the new content with a zeroed tail, empty, or (if never synced) missing.
    /// `choice` maps path -> (mode, permille).
    pub fn power_loss(&mut self, rng: &mut Rng) -> Vec<String> {
        let mut log = vec![];
        for (p, _) in self.files() {
            let ino = self.lookup(&norm("/", &p)).unwrap();
            if !self.dirty.contains(&ino) {
                continue;
            }
            let i = self.inodes.get_mut(&ino).unwrap();
            if let Node::File(d) = &mut i.node {
                let n = d.len();
                let mode = rng.idx(6);
                match mode {
                    0 => {
                        if let Some(o) = &i.durable {
                            *d = o.clone();
                        } else {
                            d.clear();
                        }
                    }
                    1 => d.truncate(rng.idx(n + 1)),
                    2 => {
                        let k = rng.idx(n + 1);
                        for b in &mut d[k..] {
                            *b = 0;
                        }
                    }
                    3 => d.clear(),
                    _ => {}
                }
                log.push(format!("{}: mode {} -> {} of {} bytes", p, mode, d.len(), n));
            }
        }
        self.dirty.clear();
        log
    }
}

// ------------------------------------------------------------------------------------------ pipes
#[derive(Debug)]
struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    readers: usize,
    writers: usize,
}
#[derive(Clone, Debug, PartialEq)]
enum OpenKind {
    File { ino: u64, append: bool, r: bool, w: bool },
    PipeR(usize),
    PipeW(usize),
    /// Captured stream: (root process index, 1 or 2)
    Sink(usize, u8),
    Null,
}
#[derive(Debug)]
struct Open {
    kind: OpenKind,
    pos: u64,
    refs: usize,
}

// ----------------------------------------------------------------------------------------- actors
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WaitOn {
    Read(i32),
    Write(i32),
    Time(u64),
}
pub enum Step {
    Ran,
    Blocked(WaitOn),
    Exit(i32),
}
pub enum Io {
    Data(Vec<u8>),
    N(usize),
    Eof,
    Block,
    Err(i32),
}
/// A scripted child program.
pub trait Stub {
    fn step(&mut self, io: &mut StubIo) -> Step;
}
pub struct StubIo<'a> {
    w: &'a mut World,
    me: usize,
}
impl StubIo<'_> {
    pub fn read(&mut self, fd: i32, n: usize) -> Io {
        self.w.do_read(self.me, fd, n)
    }
    pub fn write(&mut self, fd: i32, d: &[u8]) -> Io {
        self.w.do_write(self.me, fd, d)
    }
    pub fn close(&mut self, fd: i32) {
        self.w.do_close(self.me, fd);
    }
    pub fn put_file(&mut self, path: &str, d: &[u8]) -> bool {
        let cwd = self.w.actors[self.me].cwd.clone();
        let p = norm(&cwd, path);
        let full = "/".to_string() + &p.join("/");
        if self.w.fs.parent(&p).is_err() {
            return false;
        }
        self.w.fs.put(&full, d);
        true
    }
    pub fn now(&self) -> u64 {
        self.w.mono
    }
    pub fn log(&mut self, s: String) {
        let me = self.me;
        self.w.event(me, s);
    }
}
pub type Factory = Box<dyn FnMut(usize, &str, &[String]) -> Option<Box<dyn Stub>>>;

enum Kind {
    Real { sock: i32, pid: i32, server: usize },
    Stub(Option<Box<dyn Stub>>),
}
#[derive(Clone, Debug)]
struct Req {
    op: u32,
    a: [i64; 5],
    data: Vec<u8>,
}
struct Actor {
    kind: Kind,
    root: usize,
    parent: Option<usize>,
    pid: i32,
    fds: BTreeMap<i32, usize>,
    next_fd: i32,
    cwd: String,
    status: Option<i32>,
    reaped: bool,
    started: bool,
    pending: Option<Req>,
    blocked: Option<WaitOn>,
    stall_until: u64,
    fault_done: bool,
    counts: HashMap<String, u32>,
}

/// What one root process did, as seen from outside.
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: i32,
    pub exited: bool,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub killed_by_sim: bool,
}
impl Outcome {
    pub fn code(&self) -> Option<i32> {
        if self.exited && libc::WIFEXITED(self.status) {
            Some(libc::WEXITSTATUS(self.status))
        } else {
            None
        }
    }
    pub fn ok(&self) -> bool {
        self.code() == Some(0)
    }
    pub fn signal(&self) -> Option<i32> {
        if self.exited && libc::WIFSIGNALED(self.status) {
            Some(libc::WTERMSIG(self.status))
        } else {
            None
        }
    }
    pub fn describe(&self) -> String {
        if self.killed_by_sim {
            "killed by the simulator".into()
        } else if let Some(c) = self.code() {
            format!("exit {}", c)
        } else if let Some(s) = self.signal() {
            format!("signal {}", s)
        } else {
            "did not finish".into()
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Finish {
    Done,
    Deadlock,
    StepLimit,
    Stuck,
}

pub struct ProcSpec {
    pub server: usize,
    pub argv: Vec<String>,
    pub rnd: u64,
    pub heap: u64,
    pub allocs: i64,
    pub cwd: String,
    pub cpu: u32,
    pub start_delay: u64,
}

pub struct World {
    pub fs: Fs,
    opens: Vec<Open>,
    pipes: Vec<Pipe>,
    actors: Vec<Actor>,
    servers: *mut Vec<Server>,
    pub outcomes: Vec<Outcome>,
    root_actor: Vec<usize>,
    pid_base: i32,
    pub mono: u64,
    pub wall_off: i64,
    pub faults: Vec<Fault>,
    pub fired: Vec<usize>,
    pub schedule: Vec<u32>,
    sched_pos: usize,
    sched_rng: Option<Rng>,
    pub choices: Vec<u32>,
    last: usize,
    pub factory: Option<Factory>,
    pub pipe_cap: usize,
    pub readdir_seed: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub log: Option<Vec<String>>,
    pub op_counts: Vec<BTreeMap<String, u32>>,
    /// Bytes offered at each write-class operation of each root process: (class, nth, len)
    pub write_sizes: Vec<(usize, String, u32, usize)>,
    pub unsupported: Vec<String>,
    pub spawned: usize,
    pub max_runnable: usize,
    pub ctx_switches: u64,
}

const OPS: [&str; 35] = [
    "?", "hello", "open", "read", "write", "close", "lseek", "fstat", "stat", "unlink", "rename", "mkdir", "rmdir",
    "ftrunc", "fsync", "access", "chdir", "getcwd", "readdir", "dup", "dup2", "pipe", "spawn", "wait", "kill", "clock",
    "sleep", "poll", "pread", "pwrite", "link", "trunc", "flock", "realpath", "unsupported",
];
const O_ACCMODE: i64 = 3;
const O_CREAT: i64 = 0o100;
const O_EXCL: i64 = 0o200;
const O_TRUNC: i64 = 0o1000;
const O_APPEND: i64 = 0o2000;
const O_DIRECTORY: i64 = 0o200000;

pub fn set_rlimits() {
    unsafe {
        let rl = libc::rlimit { rlim_cur: 4096, rlim_max: 4096 };
        libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
    }
}

impl World {
    pub fn new(servers: &mut Vec<Server>) -> World {
        World {
            fs: Fs::new(),
            opens: vec![],
            pipes: vec![],
            actors: vec![],
            servers: servers as *mut _,
            outcomes: vec![],
            root_actor: vec![],
            pid_base: 0,
            mono: 1_000_000_000,
            wall_off: 1_600_000_000_000_000_000,
            faults: vec![],
            fired: vec![],
            schedule: vec![],
            sched_pos: 0,
            sched_rng: None,
            choices: vec![],
            last: 0,
            factory: None,
            pipe_cap: 65536,
            readdir_seed: 0,
            hash: 0,
            sched_hash: 0,
            steps: 0,
            step_limit: 400_000,
            log: None,
            op_counts: vec![],
            write_sizes: vec![],
            unsupported: vec![],
            spawned: 0,
            max_runnable: 0,
            ctx_switches: 0,
        }
    }
    pub fn seed_schedule(&mut self, seed: u64) {
        self.sched_rng = Some(Rng::new(seed));
    }
    pub fn event(&mut self, who: usize, s: String) {
        self.hash = fnv(self.hash ^ who as u64, s.as_bytes());
        if let Some(l) = &mut self.log {
            if l.len() < 20000 {
                l.push(format!("[{:>5}] t={:.6}s p{} {}", self.steps, self.mono as f64 / 1e9, who, s));
            }
        }
    }

    /// Starts a root process; returns its index.
    pub fn launch(&mut self, spec: &ProcSpec) -> usize {
        let root = self.outcomes.len();
        self.outcomes.push(Outcome::default());
        self.op_counts.push(BTreeMap::new());
        if self.pid_base == 0 {
            self.pid_base = 1000 + (spec.rnd % 400) as i32 * 64;
        }
        let pid_no = self.pid_base + self.actors.len() as i32;
        let servers = unsafe { &mut *self.servers };
        let (pid, sock) = servers[spec.server]
            .run(&spec.argv, spec.rnd, spec.heap, spec.allocs, spec.cpu, pid_no as u32)
            .unwrap_or_else(|e| panic!("HARNESS: cannot start simulated process: {}", e));
        let mut fds = BTreeMap::new();
        for (fd, kind) in [(0, OpenKind::Null), (1, OpenKind::Sink(root, 1)), (2, OpenKind::Sink(root, 2))] {
            self.opens.push(Open { kind, pos: 0, refs: 1 });
            fds.insert(fd, self.opens.len() - 1);
        }
        let idx = self.actors.len();
        self.actors.push(Actor {
            kind: Kind::Real { sock, pid, server: spec.server },
            root,
            parent: None,
            pid: pid_no,
            fds,
            next_fd: 100,
            cwd: spec.cwd.clone(),
            status: None,
            reaped: false,
            started: false,
            pending: None,
            blocked: None,
            stall_until: self.mono + spec.start_delay,
            fault_done: false,
            counts: HashMap::new(),
        });
        self.root_actor.push(idx);
        idx
    }

    fn recv(&mut self, i: usize) -> Result<Option<Req>, ()> {
        let Kind::Real { sock, .. } = self.actors[i].kind else { unreachable!() };
        let mut buf = vec![0u8; 70000];
        loop {
            let n = unsafe { libc::recv(sock, buf.as_mut_ptr() as *mut _, buf.len(), 0) };
            if n == 0 {
                return Ok(None);
            }
            if n < 0 {
                let e = std::io::Error::last_os_error();
                match e.raw_os_error() {
                    Some(libc::EINTR) => continue,
                    Some(libc::ECONNRESET) => return Ok(None),
                    _ => return Err(()),
                }
            }
            let n = n as usize;
            if n < 48 {
                return Err(());
            }
            let op = u32::from_ne_bytes(buf[0..4].try_into().unwrap());
            let mut a = [0i64; 5];
            for (k, x) in a.iter_mut().enumerate() {
                *x = i64::from_ne_bytes(buf[8 + 8 * k..16 + 8 * k].try_into().unwrap());
            }
            return Ok(Some(Req { op, a, data: buf[48..n].to_vec() }));
        }
    }
    fn reply(&mut self, i: usize, ret: i64, err: i32, data: &[u8]) {
        let Kind::Real { sock, .. } = self.actors[i].kind else { unreachable!() };
        let mut b = Vec::with_capacity(16 + data.len());
        b.extend_from_slice(&ret.to_ne_bytes());
        b.extend_from_slice(&err.to_ne_bytes());
        b.extend_from_slice(&(data.len() as u32).to_ne_bytes());
        b.extend_from_slice(data);
        loop {
            let n = unsafe { libc::send(sock, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            break;
        }
    }
    /// Lets process `i` run on real CPU until its next request (or its end).
    fn pump(&mut self, i: usize) -> Result<(), ()> {
        match self.recv(i)? {
            Some(r) => {
                self.actors[i].pending = Some(r);
                self.actors[i].fault_done = false;
            }
            None => self.reap_real(i, false),
        }
        Ok(())
    }
    fn reap_real(&mut self, i: usize, by_sim: bool) {
        let Kind::Real { sock, pid, server } = self.actors[i].kind else { unreachable!() };
        let servers = unsafe { &mut *self.servers };
        let st = servers[server].wait(pid).unwrap_or_else(|e| panic!("HARNESS: wait: {}", e));
        unsafe { libc::close(sock) };
        let root = self.actors[i].root;
        self.outcomes[root].status = st;
        self.outcomes[root].exited = true;
        self.outcomes[root].killed_by_sim = by_sim;
        self.event(i, format!("end status={}{}", st, if by_sim { " (killed)" } else { "" }));
        self.finish(i, st);
    }
    fn kill_real(&mut self, i: usize) {
        let Kind::Real { pid, .. } = self.actors[i].kind else { unreachable!() };
        unsafe { libc::kill(pid, libc::SIGKILL) };
        self.reap_real(i, true);
    }
    fn finish(&mut self, i: usize, st: i32) {
        let fds: Vec<i32> = self.actors[i].fds.keys().copied().collect();
        for fd in fds {
            self.do_close(i, fd);
        }
        self.actors[i].status = Some(st);
        self.actors[i].pending = None;
        if let Kind::Stub(s) = &mut self.actors[i].kind {
            *s = None;
        }
    }

    fn alive(&self, i: usize) -> bool {
        self.actors[i].status.is_none()
    }
    fn runnable(&self, i: usize) -> bool {
        let a = &self.actors[i];
        if a.status.is_some() || a.stall_until > self.mono {
            return false;
        }
        match &a.kind {
            Kind::Stub(_) => match a.blocked {
                None => true,
                Some(w) => self.ready(i, w),
            },
            Kind::Real { .. } => match &a.pending {
                None => true,
                Some(r) => match r.op {
                    3 => self.ready(i, WaitOn::Read(r.a[0] as i32)),
                    4 => self.ready(i, WaitOn::Write(r.a[0] as i32)),
                    23 => {
                        r.a[1] & 1 != 0
                            || !self.has_child(i, r.a[0] as i32)
                            || self.dead_child(i, r.a[0] as i32).is_some()
                    }
                    26 => a.blocked.map_or(true, |w| self.ready(i, w)),
                    27 => self.poll_ready(i, r) > 0 || r.a[1] == 0 || a.blocked.map_or(false, |w| self.ready(i, w)),
                    _ => true,
                },
            },
        }
    }
    fn ready(&self, i: usize, w: WaitOn) -> bool {
        match w {
            WaitOn::Time(t) => self.mono >= t,
            WaitOn::Read(fd) => match self.kind_of(i, fd) {
                Some(OpenKind::PipeR(p)) => !self.pipes[p].buf.is_empty() || self.pipes[p].writers == 0,
                _ => true,
            },
            WaitOn::Write(fd) => match self.kind_of(i, fd) {
                Some(OpenKind::PipeW(p)) => self.pipes[p].buf.len() < self.pipes[p].cap || self.pipes[p].readers == 0,
                _ => true,
            },
        }
    }
    fn poll_ready(&self, i: usize, r: &Req) -> i64 {
        let mut n = 0;
        for c in r.data.chunks(8) {
            let fd = i32::from_ne_bytes(c[0..4].try_into().unwrap());
            let ev = i16::from_ne_bytes(c[4..6].try_into().unwrap());
            if self.poll_events(i, fd, ev) != 0 {
                n += 1;
            }
        }
        n
    }
    fn poll_events(&self, i: usize, fd: i32, ev: i16) -> i16 {
        let mut out = 0;
        match self.kind_of(i, fd) {
            None => out |= libc::POLLNVAL,
            Some(OpenKind::PipeR(p)) => {
                if !self.pipes[p].buf.is_empty() {
                    out |= libc::POLLIN & ev;
                }
                if self.pipes[p].writers == 0 {
                    out |= libc::POLLHUP;
                }
            }
            Some(OpenKind::PipeW(p)) => {
                if self.pipes[p].readers == 0 {
                    out |= libc::POLLERR;
                } else if self.pipes[p].buf.len() < self.pipes[p].cap {
                    out |= libc::POLLOUT & ev;
                }
            }
            Some(_) => out |= ev & (libc::POLLIN | libc::POLLOUT),
        }
        out
    }
    fn kind_of(&self, i: usize, fd: i32) -> Option<OpenKind> {
        self.actors[i].fds.get(&fd).map(|&o| self.opens[o].kind.clone())
    }
    fn has_child(&self, i: usize, pid: i32) -> bool {
        self.actors.iter().any(|a| a.parent == Some(i) && !a.reaped && (pid == -1 || a.pid == pid))
    }
    fn dead_child(&self, i: usize, pid: i32) -> Option<usize> {
        (0..self.actors.len()).find(|&k| {
            let a = &self.actors[k];
            a.parent == Some(i) && !a.reaped && a.status.is_some() && (pid == -1 || a.pid == pid)
        })
    }

    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let c = if self.sched_pos < self.schedule.len() {
            (self.schedule[self.sched_pos] as usize) % n
        } else {
            match &mut self.sched_rng {
                // mostly stay on the same actor; switch with a seed-dependent rate
                Some(r) => {
                    if r.chance(3, 5) {
                        0
                    } else {
                        r.idx(n)
                    }
                }
                None => 0,
            }
        };
        self.sched_pos += 1;
        self.choices.push(c as u32);
        c
    }

    /// Runs until every root process has ended and all stubs are done (or nothing can run).
    pub fn run(&mut self) -> Finish {
        loop {
            self.steps += 1;
            if self.steps > self.step_limit {
                return Finish::StepLimit;
            }
            let n = self.actors.len();
            let mut run: Vec<usize> = vec![];
            for k in 0..n {
                let i = (self.last + k) % n.max(1);
                if self.alive(i) && self.runnable(i) {
                    run.push(i);
                }
            }
            if run.is_empty() {
                // advance time to the next timer
                let mut t = u64::MAX;
                for i in 0..n {
                    if !self.alive(i) {
                        continue;
                    }
                    let a = &self.actors[i];
                    if a.stall_until > self.mono {
                        t = t.min(a.stall_until);
                    } else if let Some(WaitOn::Time(x)) = a.blocked {
                        t = t.min(x);
                    }
                }
                if t != u64::MAX {
                    self.mono = t.max(self.mono);
                    continue;
                }
                if (0..n).any(|i| self.alive(i)) {
                    return Finish::Deadlock;
                }
                return Finish::Done;
            }
            self.max_runnable = self.max_runnable.max(run.len());
            let c = self.choose(run.len());
            let i = run[c];
            if i != self.last {
                self.ctx_switches += 1;
            }
            self.last = i;
            self.mono += 1000;
            let is_real = matches!(self.actors[i].kind, Kind::Real { .. });
            if is_real {
                if !self.actors[i].started {
                    self.actors[i].started = true;
                    if self.pump(i).is_err() {
                        self.kill_real(i);
                        return Finish::Stuck;
                    }
                    continue;
                }
                let req = self.actors[i].pending.take().expect("runnable real process has a request");
                if self.serve(i, req).is_err() {
                    self.kill_real(i);
                    return Finish::Stuck;
                }
            } else {
                let mut st = match &mut self.actors[i].kind {
                    Kind::Stub(s) => s.take(),
                    _ => None,
                };
                self.actors[i].blocked = None;
                if let Some(s) = &mut st {
                    let r = s.step(&mut StubIo { w: self, me: i });
                    match r {
                        Step::Ran => {}
                        Step::Blocked(w) => self.actors[i].blocked = Some(w),
                        Step::Exit(code) => {
                            self.event(i, format!("stub exit status={}", code));
                            self.finish(i, code);
                            continue;
                        }
                    }
                }
                if self.alive(i) {
                    if let Kind::Stub(s) = &mut self.actors[i].kind {
                        *s = st;
                    }
                }
            }
        }
    }

    /// Kills whatever is still alive (used after Deadlock / StepLimit and on drop).
    pub fn kill_all(&mut self) {
        for i in 0..self.actors.len() {
            if self.alive(i) {
                match self.actors[i].kind {
                    Kind::Real { .. } => self.kill_real(i),
                    Kind::Stub(_) => self.finish(i, 9),
                }
            }
        }
    }

    fn classify(&self, i: usize, r: &Req) -> Option<(String, usize)> {
        let k = |fd: i64| self.kind_of(i, fd as i32);
        let c = match r.op {
            2 => "open".to_string(),
            3 | 28 => match k(r.a[0])? {
                OpenKind::PipeR(_) => "read.pipe".into(),
                OpenKind::File { .. } => "read.file".into(),
                _ => return None,
            },
            4 | 29 => match k(r.a[0])? {
                OpenKind::PipeW(_) => "write.pipe".into(),
                OpenKind::File { .. } => "write.file".into(),
                OpenKind::Sink(_, 1) => "write.out".into(),
                OpenKind::Sink(_, _) => "write.err".into(),
                _ => return None,
            },
            5 => match k(r.a[0])? {
                OpenKind::File { .. } => "close.file".into(),
                _ => "close".into(),
            },
            7 | 8 => "stat".into(),
            10 => "rename".into(),
            9 => "unlink".into(),
            11 => "mkdir".into(),
            14 => "fsync".into(),
            15 => "access".into(),
            18 => "readdir".into(),
            21 => "pipe".into(),
            22 => "spawn".into(),
            // a poll for a child's status never blocks, so no signal interrupts it
            23 if r.a[1] & 1 != 0 => "wait.poll".into(),
            23 => "wait".into(),
            25 => "clock".into(),
            26 => "sleep".into(),
            _ => OPS.get(r.op as usize).unwrap_or(&"?").to_string(),
        };
        Some((c, r.data.len()))
    }

    fn serve(&mut self, i: usize, mut req: Req) -> Result<(), ()> {
        let mut crash_after = false;
        let mut forced: Option<i32> = None;
        let mut cls = String::new();
        if let Some((class, len)) = self.classify(i, &req) {
            let root = self.actors[i].root;
            if !self.actors[i].fault_done {
                let c = self.actors[i].counts.entry(class.clone()).or_insert(0);
                let nth = *c;
                *c += 1;
                *self.op_counts[root].entry(class.clone()).or_insert(0) += 1;
                if class.starts_with("write.") {
                    self.write_sizes.push((root, class.clone(), nth, len));
                }
                self.actors[i].fault_done = true;
                let mut stall = 0;
                for f in 0..self.faults.len() {
                    let ft = &self.faults[f];
                    if ft.proc != root || ft.class != class || !(ft.nth == nth || (ft.sticky && nth >= ft.nth)) {
                        continue;
                    }
                    let act = ft.act.clone();
                    if !self.fired.contains(&f) {
                        self.fired.push(f);
                    }
                    self.event(i, format!("FAULT {:?} at {} #{}", act, class, nth));
                    match act {
                        Act::Crash => {
                            self.kill_real(i);
                            return Ok(());
                        }
                        Act::Err(e) => forced = Some(e),
                        Act::Short(n) => {
                            let n = n.max(1);
                            match req.op {
                                3 => req.a[1] = req.a[1].min(n as i64),
                                4 => req.data.truncate(n),
                                _ => {}
                            }
                        }
                        Act::CrashMid(n) => {
                            crash_after = true;
                            if req.op == 4 || req.op == 29 {
                                req.data.truncate(n);
                            }
                        }
                        Act::Stall(ns) => stall = ns,
                        Act::Jump(ns) => self.wall_off += ns,
                    }
                }
                if stall > 0 {
                    self.actors[i].stall_until = self.mono + stall;
                    if forced.is_none() && !crash_after {
                        self.actors[i].pending = Some(req);
                        return Ok(());
                    }
                }
            }
            cls = class;
        }
        if let Some(e) = forced {
            // a close() that reports an error has still released the descriptor
            if req.op == 5 {
                self.do_close(i, req.a[0] as i32);
            }
            let e = if req.op == 25 { 0 } else { e };
            if e != 0 {
                self.event(i, format!("{} -> {}", cls, errno_name(e)));
                self.reply(i, -1, e, &[]);
                return self.pump(i);
            }
        }
        match self.perform(i, &req) {
            None => {
                self.actors[i].pending = Some(req);
                Ok(())
            }
            Some((ret, err, data)) => {
                let label = OPS.get(req.op as usize).unwrap_or(&"?");
                if req.op != 25 {
                    let path = match req.op {
                        2 | 8 | 9 | 10 | 11 | 15 | 18 => String::from_utf8_lossy(&req.data).replace('\0', " -> "),
                        4 => format!("{:016x}", fnv(0, &req.data)),
                        3 => format!("{:016x}", fnv(0, &data)),
                        _ => String::new(),
                    };
                    self.event(i, format!("{} {} {} -> {} {}", label, req.a[0], path, ret, if ret < 0 { err } else { 0 }));
                }
                if crash_after {
                    self.kill_real(i);
                    return Ok(());
                }
                self.reply(i, ret, if ret < 0 { err } else { 0 }, &data);
                self.pump(i)
            }
        }
    }

    fn add_fd(&mut self, i: usize, kind: OpenKind) -> i32 {
        match &kind {
            OpenKind::PipeR(p) => self.pipes[*p].readers += 1,
            OpenKind::PipeW(p) => self.pipes[*p].writers += 1,
            _ => {}
        }
        self.opens.push(Open { kind, pos: 0, refs: 1 });
        let fd = self.actors[i].next_fd;
        self.actors[i].next_fd += 1;
        self.actors[i].fds.insert(fd, self.opens.len() - 1);
        fd
    }
    fn do_close(&mut self, i: usize, fd: i32) -> i32 {
        match self.actors[i].fds.remove(&fd) {
            None => EBADF,
            Some(o) => {
                self.opens[o].refs -= 1;
                if self.opens[o].refs == 0 {
                    match self.opens[o].kind {
                        OpenKind::PipeR(p) => self.pipes[p].readers -= 1,
                        OpenKind::PipeW(p) => self.pipes[p].writers -= 1,
                        _ => {}
                    }
                }
                0
            }
        }
    }
    fn do_read(&mut self, i: usize, fd: i32, n: usize) -> Io {
        let Some(&o) = self.actors[i].fds.get(&fd) else { return Io::Err(EBADF) };
        match self.opens[o].kind.clone() {
            OpenKind::PipeR(p) => {
                let pp = &mut self.pipes[p];
                if pp.buf.is_empty() {
                    return if pp.writers == 0 { Io::Eof } else { Io::Block };
                }
                let k = n.min(pp.buf.len());
                Io::Data(pp.buf.drain(..k).collect())
            }
            OpenKind::File { ino, r, .. } => {
                if !r {
                    return Io::Err(EBADF);
                }
                let Node::File(d) = &self.fs.inodes[&ino].node else { return Io::Err(EISDIR) };
                let s = (self.opens[o].pos as usize).min(d.len());
                let e = (s + n).min(d.len());
                let v = d[s..e].to_vec();
                self.opens[o].pos = e as u64;
                if v.is_empty() {
                    Io::Eof
                } else {
                    Io::Data(v)
                }
            }
            OpenKind::Null => Io::Eof,
            _ => Io::Err(EBADF),
        }
    }
    fn write_at(&mut self, ino: u64, pos: u64, d: &[u8]) -> Result<usize, i32> {
        let mut n = d.len();
        if let Some(q) = self.fs.quota {
            let used = self.fs.used();
            let Node::File(c) = &self.fs.inodes[&ino].node else { return Err(EISDIR) };
            let grow = (pos as usize + n).saturating_sub(c.len()) as u64;
            if grow > 0 && used + grow > q {
                let room = q.saturating_sub(used) as usize + c.len().saturating_sub(pos as usize);
                n = n.min(room);
                if n == 0 {
                    return Err(ENOSPC);
                }
            }
        }
        let mt = self.mono;
        let i = self.fs.inodes.get_mut(&ino).unwrap();
        i.mtime = mt;
        let Node::File(c) = &mut i.node else { return Err(EISDIR) };
        let end = pos as usize + n;
        if c.len() < end {
            c.resize(end, 0);
        }
        c[pos as usize..end].copy_from_slice(&d[..n]);
        if !self.fs.dirty.contains(&ino) {
            self.fs.dirty.push(ino);
        }
        Ok(n)
    }
    fn do_write(&mut self, i: usize, fd: i32, d: &[u8]) -> Io {
        let Some(&o) = self.actors[i].fds.get(&fd) else { return Io::Err(EBADF) };
        match self.opens[o].kind.clone() {
            OpenKind::PipeW(p) => {
                let pp = &mut self.pipes[p];
                if pp.readers == 0 {
                    return Io::Err(EPIPE);
                }
                let room = pp.cap.saturating_sub(pp.buf.len());
                if room == 0 && !d.is_empty() {
                    return Io::Block;
                }
                let k = room.min(d.len());
                pp.buf.extend(&d[..k]);
                Io::N(k)
            }
            OpenKind::File { ino, append, w, .. } => {
                if !w {
                    return Io::Err(EBADF);
                }
                let pos = if append {
                    match &self.fs.inodes[&ino].node {
                        Node::File(c) => c.len() as u64,
                        _ => return Io::Err(EISDIR),
                    }
                } else {
                    self.opens[o].pos
                };
                match self.write_at(ino, pos, d) {
                    Ok(n) => {
                        self.opens[o].pos = pos + n as u64;
                        Io::N(n)
                    }
                    Err(e) => Io::Err(e),
                }
            }
            OpenKind::Sink(r, s) => {
                let oc = &mut self.outcomes[r];
                if s == 1 { &mut oc.out } else { &mut oc.err }.extend_from_slice(d);
                Io::N(d.len())
            }
            OpenKind::Null => Io::N(d.len()),
            _ => Io::Err(EBADF),
        }
    }

    fn stat_of(&self, ino: u64) -> Vec<u8> {
        let n = &self.fs.inodes[&ino];
        let (mode, size) = match &n.node {
            Node::File(d) => (0o100644u64, d.len() as u64),
            Node::Dir(_) => (0o040755, 4096),
        };
        self.wstat(ino, mode, n.nlink, size, n.mtime)
    }
    fn wstat(&self, ino: u64, mode: u64, nlink: u64, size: u64, mt: u64) -> Vec<u8> {
        let t = mt as i64 + self.wall_off;
        let mut v = vec![];
        for x in [ino as i64, mode as i64, nlink as i64, size as i64, t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000)] {
            v.extend_from_slice(&x.to_ne_bytes());
        }
        v
    }

    /// None = would block (stays pending).
    fn perform(&mut self, i: usize, r: &Req) -> Option<(i64, i32, Vec<u8>)> {
        let fail = |e: i32| Some((-1i64, e, vec![]));
        let okv = |v: i64| Some((v, 0, vec![]));
        let text = || String::from_utf8_lossy(&r.data).into_owned();
        let cwd = self.actors[i].cwd.clone();
        match r.op {
            2 => {
                let p = text();
                if p == "/dev/null" {
                    let fd = self.add_fd(i, OpenKind::Null);
                    return okv(fd as i64);
                }
                if p.is_empty() {
                    return fail(ENOENT);
                }
                let path = norm(&cwd, &p);
                let fl = r.a[0];
                let (rd, wr) = match fl & O_ACCMODE {
                    0 => (true, false),
                    1 => (false, true),
                    _ => (true, true),
                };
                let ino = match self.fs.lookup(&path) {
                    Ok(ino) => {
                        if fl & O_CREAT != 0 && fl & O_EXCL != 0 {
                            return fail(EEXIST);
                        }
                        match &self.fs.inodes[&ino].node {
                            Node::Dir(_) if wr => return fail(EISDIR),
                            Node::File(_) if fl & O_DIRECTORY != 0 || p.ends_with('/') => return fail(ENOTDIR),
                            _ => {}
                        }
                        if fl & O_TRUNC != 0 && wr {
                            if let Node::File(d) = &mut self.fs.inodes.get_mut(&ino).unwrap().node {
                                d.clear();
                            }
                            if !self.fs.dirty.contains(&ino) {
                                self.fs.dirty.push(ino);
                            }
                        }
                        ino
                    }
                    Err(ENOENT) if fl & O_CREAT != 0 => {
                        let (d, n) = match self.fs.parent(&path) {
                            Ok(x) => x,
                            Err(e) => return fail(e),
                        };
                        let ino = self.fs.add(d, &n, Node::File(vec![]));
                        self.fs.dirty.push(ino);
                        ino
                    }
                    Err(e) => return fail(e),
                };
                let fd = self.add_fd(i, OpenKind::File { ino, append: fl & O_APPEND != 0, r: rd, w: wr });
                okv(fd as i64)
            }
            3 => match self.do_read(i, r.a[0] as i32, r.a[1] as usize) {
                Io::Data(d) => Some((d.len() as i64, 0, d)),
                Io::Eof => okv(0),
                Io::Block => None,
                Io::Err(e) => fail(e),
                Io::N(_) => unreachable!(),
            },
            4 => match self.do_write(i, r.a[0] as i32, &r.data) {
                Io::N(n) => okv(n as i64),
                Io::Block => None,
                Io::Err(e) => fail(e),
                _ => unreachable!(),
            },
            28 | 29 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                let OpenKind::File { ino, .. } = self.opens[o].kind else { return fail(ESPIPE) };
                if r.op == 28 {
                    let Node::File(d) = &self.fs.inodes[&ino].node else { return fail(EISDIR) };
                    let s = (r.a[2] as usize).min(d.len());
                    let e = (s + r.a[1] as usize).min(d.len());
                    Some(((e - s) as i64, 0, d[s..e].to_vec()))
                } else {
                    match self.write_at(ino, r.a[1] as u64, &r.data) {
                        Ok(n) => okv(n as i64),
                        Err(e) => fail(e),
                    }
                }
            }
            5 => match self.do_close(i, r.a[0] as i32) {
                0 => okv(0),
                e => fail(e),
            },
            6 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                let OpenKind::File { ino, .. } = self.opens[o].kind else { return fail(ESPIPE) };
                let len = match &self.fs.inodes[&ino].node {
                    Node::File(d) => d.len() as i64,
                    _ => 0,
                };
                let base = match r.a[2] {
                    0 => 0,
                    1 => self.opens[o].pos as i64,
                    _ => len,
                };
                let np = base + r.a[1];
                if np < 0 {
                    return fail(EINVAL);
                }
                self.opens[o].pos = np as u64;
                okv(np)
            }
            7 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                let d = match self.opens[o].kind {
                    OpenKind::File { ino, .. } => self.stat_of(ino),
                    OpenKind::Null => self.wstat(9000, 0o020666, 1, 0, 0),
                    _ => self.wstat(9001, 0o010600, 1, 0, 0),
                };
                Some((0, 0, d))
            }
            8 => match self.fs.lookup(&norm(&cwd, &text())) {
                Ok(ino) => Some((0, 0, self.stat_of(ino))),
                Err(e) => fail(e),
            },
            9 | 12 => {
                let path = norm(&cwd, &text());
                let ino = match self.fs.lookup(&path) {
                    Ok(x) => x,
                    Err(e) => return fail(e),
                };
                match (&self.fs.inodes[&ino].node, r.op) {
                    (Node::Dir(_), 9) => return fail(EISDIR),
                    (Node::File(_), 12) => return fail(ENOTDIR),
                    (Node::Dir(d), _) if !d.is_empty() => return fail(ENOTEMPTY),
                    _ => {}
                }
                let (d, n) = self.fs.parent(&path).unwrap();
                self.fs.dir_mut(d).remove(&n);
                okv(0)
            }
            10 | 30 => {
                let t = text();
                let (a, b) = t.split_once('\0').unwrap_or((&t, ""));
                let (pa, pb) = (norm(&cwd, a), norm(&cwd, b));
                let ino = match self.fs.lookup(&pa) {
                    Ok(x) => x,
                    Err(e) => return fail(e),
                };
                let (d, n) = match self.fs.parent(&pb) {
                    Ok(x) => x,
                    Err(e) => return fail(e),
                };
                if r.op == 30 && self.fs.lookup(&pb).is_ok() {
                    return fail(EEXIST);
                }
                self.fs.dir_mut(d).insert(n, ino);
                if r.op == 10 && pa != pb {
                    let (d, n) = self.fs.parent(&pa).unwrap();
                    self.fs.dir_mut(d).remove(&n);
                }
                okv(0)
            }
            11 => {
                let path = norm(&cwd, &text());
                if self.fs.lookup(&path).is_ok() {
                    return fail(EEXIST);
                }
                match self.fs.parent(&path) {
                    Ok((d, n)) => {
                        self.fs.add(d, &n, Node::Dir(BTreeMap::new()));
                        okv(0)
                    }
                    Err(e) => fail(e),
                }
            }
            13 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                let OpenKind::File { ino, .. } = self.opens[o].kind else { return fail(EINVAL) };
                if let Node::File(d) = &mut self.fs.inodes.get_mut(&ino).unwrap().node {
                    d.resize(r.a[1] as usize, 0);
                }
                okv(0)
            }
            31 => {
                match self.fs.lookup(&norm(&cwd, &text())) {
                    Ok(ino) => {
                        if let Node::File(d) = &mut self.fs.inodes.get_mut(&ino).unwrap().node {
                            d.resize(r.a[0] as usize, 0);
                        }
                        okv(0)
                    }
                    Err(e) => fail(e),
                }
            }
            14 => {
                if let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) {
                    if let OpenKind::File { ino, .. } = self.opens[o].kind {
                        let n = self.fs.inodes.get_mut(&ino).unwrap();
                        if let Node::File(d) = &n.node {
                            n.durable = Some(d.clone());
                        }
                        self.fs.dirty.retain(|&x| x != ino);
                    }
                }
                okv(0)
            }
            15 => match self.fs.lookup(&norm(&cwd, &text())) {
                Ok(_) => okv(0),
                Err(e) => fail(e),
            },
            16 => {
                let p = norm(&cwd, &text());
                match self.fs.lookup(&p) {
                    Ok(_) => {
                        self.actors[i].cwd = "/".to_string() + &p.join("/");
                        okv(0)
                    }
                    Err(e) => fail(e),
                }
            }
            17 => Some((0, 0, cwd.into_bytes())),
            33 => {
                let p = norm(&cwd, &text());
                match self.fs.lookup(&p) {
                    Ok(_) => Some((0, 0, ("/".to_string() + &p.join("/")).into_bytes())),
                    Err(e) => fail(e),
                }
            }
            18 => {
                let ino = match self.fs.lookup(&norm(&cwd, &text())) {
                    Ok(x) => x,
                    Err(e) => return fail(e),
                };
                let Node::Dir(d) = &self.fs.inodes[&ino].node else { return fail(ENOTDIR) };
                let mut v: Vec<(String, u64)> = d.iter().map(|(k, v)| (k.clone(), *v)).collect();
                if self.readdir_seed != 0 {
                    Rng::new(self.readdir_seed).shuffle(&mut v);
                }
                let mut out = vec![];
                for (n, c) in v {
                    out.push(if matches!(self.fs.inodes[&c].node, Node::Dir(_)) { 4 } else { 8 });
                    out.extend_from_slice(n.as_bytes());
                    out.push(0);
                }
                Some((out.len() as i64, 0, out))
            }
            19 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                self.opens[o].refs += 1;
                let fd = self.actors[i].next_fd;
                self.actors[i].next_fd += 1;
                self.actors[i].fds.insert(fd, o);
                okv(fd as i64)
            }
            20 => {
                let Some(&o) = self.actors[i].fds.get(&(r.a[0] as i32)) else { return fail(EBADF) };
                let t = r.a[1] as i32;
                if t as i64 != r.a[0] {
                    self.do_close(i, t);
                    self.opens[o].refs += 1;
                    self.actors[i].fds.insert(t, o);
                }
                okv(t as i64)
            }
            21 => {
                self.pipes.push(Pipe { buf: VecDeque::new(), cap: self.pipe_cap, readers: 0, writers: 0 });
                let p = self.pipes.len() - 1;
                let a = self.add_fd(i, OpenKind::PipeR(p));
                let b = self.add_fd(i, OpenKind::PipeW(p));
                let mut d = a.to_ne_bytes().to_vec();
                d.extend_from_slice(&b.to_ne_bytes());
                Some((0, 0, d))
            }
            22 => self.spawn(i, r),
            23 => {
                let pid = r.a[0] as i32;
                if !self.has_child(i, pid) {
                    return fail(ECHILD);
                }
                match self.dead_child(i, pid) {
                    Some(k) => {
                        self.actors[k].reaped = true;
                        let st = self.actors[k].status.unwrap();
                        Some((self.actors[k].pid as i64, 0, st.to_ne_bytes().to_vec()))
                    }
                    None if r.a[1] & 1 != 0 => okv(0),
                    None => None,
                }
            }
            24 => {
                let pid = r.a[0] as i32;
                match (0..self.actors.len()).find(|&k| self.actors[k].pid == pid && !self.actors[k].reaped) {
                    None => fail(3),
                    Some(k) => {
                        if r.a[1] != 0 && self.alive(k) && matches!(self.actors[k].kind, Kind::Stub(_)) {
                            let st = r.a[1] as i32;
                            self.event(k, format!("killed by signal {}", st));
                            self.finish(k, st);
                        }
                        okv(0)
                    }
                }
            }
            25 => {
                let v = if r.a[0] == 0 { self.mono as i64 + self.wall_off } else { self.mono as i64 };
                okv(v)
            }
            26 => {
                match self.actors[i].blocked {
                    None => {
                        let t = if r.a[1] != 0 { r.a[0] as u64 } else { self.mono + r.a[0] as u64 };
                        self.actors[i].blocked = Some(WaitOn::Time(t));
                        None
                    }
                    Some(_) => {
                        self.actors[i].blocked = None;
                        okv(0)
                    }
                }
            }
            27 => {
                let n = self.poll_ready(i, r);
                if n == 0 && r.a[1] != 0 {
                    match self.actors[i].blocked {
                        None if r.a[1] > 0 => {
                            self.actors[i].blocked = Some(WaitOn::Time(self.mono + r.a[1] as u64 * 1_000_000));
                            return None;
                        }
                        None => return None,
                        Some(WaitOn::Time(t)) if self.mono < t => return None,
                        _ => {}
                    }
                }
                self.actors[i].blocked = None;
                let mut d = r.data.clone();
                for c in d.chunks_mut(8) {
                    let fd = i32::from_ne_bytes(c[0..4].try_into().unwrap());
                    let ev = i16::from_ne_bytes(c[4..6].try_into().unwrap());
                    let re = self.poll_events(i, fd, ev);
                    c[6..8].copy_from_slice(&re.to_ne_bytes());
                }
                Some((n, 0, d))
            }
            32 => okv(0),
            _ => {
                let t = text();
                self.unsupported.push(t);
                fail(38)
            }
        }
    }

    fn spawn(&mut self, i: usize, r: &Req) -> Option<(i64, i32, Vec<u8>)> {
        let cnt = i32::from_ne_bytes(r.data[0..4].try_into().unwrap()) as usize;
        let mut pairs = vec![];
        for k in 0..cnt {
            let o = 4 + 8 * k;
            pairs.push((
                i32::from_ne_bytes(r.data[o..o + 4].try_into().unwrap()),
                i32::from_ne_bytes(r.data[o + 4..o + 8].try_into().unwrap()),
            ));
        }
        let rest = &r.data[4 + 8 * cnt..];
        let mut parts: Vec<String> =
            rest.split(|&b| b == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
        parts.pop();
        let file = parts.remove(0);
        let root = self.actors[i].root;
        let mut fac = self.factory.take();
        let stub = fac.as_mut().and_then(|f| f(root, &file, &parts));
        self.factory = fac;
        self.event(i, format!("spawn {} {:?}", file, parts));
        let Some(stub) = stub else { return Some((-1, ENOENT, vec![])) };
        self.spawned += 1;
        let idx = self.actors.len();
        let mut fds = BTreeMap::new();
        // like exec with close-on-exec descriptors: only 0,1,2 survive, after the dup2 actions
        for fd in 0..3 {
            if let Some(&o) = self.actors[i].fds.get(&fd) {
                fds.insert(fd, o);
            }
        }
        for (s, t) in pairs {
            let src = self.actors[i].fds.get(&s).copied();
            if let Some(o) = src {
                fds.insert(t, o);
            }
        }
        for &o in fds.values() {
            self.opens[o].refs += 1;
        }
        let cwd = self.actors[i].cwd.clone();
        self.actors.push(Actor {
            kind: Kind::Stub(Some(stub)),
            root,
            parent: Some(i),
            pid: self.pid_base + idx as i32,
            fds,
            next_fd: 100,
            cwd,
            status: None,
            reaped: false,
            started: true,
            pending: None,
            blocked: None,
            stall_until: 0,
            fault_done: false,
            counts: HashMap::new(),
        });
        Some((self.pid_base as i64 + idx as i64, 0, vec![]))
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.kill_all();
    }
}
