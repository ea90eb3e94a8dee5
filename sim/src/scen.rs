//! Scenario fields shared by all checks: machine setup, faults, schedule; and their shrinking.
use crate::json::J;
use crate::obj;
use crate::prop::{Ctx, Verdict};
use crate::rng::{fnv, Rng};
use crate::world::*;

pub fn hexenc(b: &[u8]) -> J {
    match std::str::from_utf8(b) {
        Ok(s) => J::Str(s.to_string()),
        Err(_) => obj! {"hex" => b.iter().map(|x| format!("{:02x}", x)).collect::<String>()},
    }
}
pub fn hexdec(j: &J) -> Vec<u8> {
    match j {
        J::Str(s) => s.as_bytes().to_vec(),
        o => {
            let h = o.gs("hex");
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
        }
    }
}
pub fn file(path: &str, data: &[u8]) -> J {
    obj! {"path" => path, "data" => hexenc(data)}
}
pub fn proc_spec(bin: &str, argv: &[String], rnd: u64, heap: u64) -> J {
    obj! {"bin" => bin, "argv" => argv.to_vec(), "rnd" => rnd, "heap" => heap, "allocs" => -1i64, "cwd" => "/w", "delay" => 0i64}
}

/// Builds the machine described by a scenario and starts its processes.
pub fn setup(ctx: &mut Ctx, sc: &J, factory: Option<Factory>) -> World {
    let procs = sc.ga("procs");
    let idx: Vec<usize> = procs.iter().map(|p| ctx.server(&p.gs("bin"))).collect();
    let mut w = World::new(&mut ctx.servers);
    if ctx.trace {
        w.log = Some(vec![]);
    }
    w.fs.mkdirs("/w");
    w.fs.mkdirs("/tmp");
    for f in sc.ga("files") {
        w.fs.put(&f.gs("path"), &hexdec(f.get("data").unwrap_or(&J::Null)));
    }
    if let Some(q) = sc.get("quota").and_then(|x| x.u64()) {
        w.fs.quota = Some(q);
    }
    if let Some(c) = sc.get("pipe_cap").and_then(|x| x.u64()) {
        w.pipe_cap = c as usize;
    }
    w.readdir_seed = sc.gu("readdir");
    w.faults = sc.ga("faults").iter().map(Fault::from_json).collect();
    w.schedule = sc.ga("schedule").iter().map(|x| x.int().unwrap_or(0) as u32).collect();
    if let Some(s) = sc.get("sched_seed").and_then(|x| x.u64()) {
        w.seed_schedule(s);
    }
    w.factory = factory;
    for (p, server) in procs.iter().zip(idx) {
        launch(&mut w, p, server);
    }
    w
}
pub fn launch(w: &mut World, p: &J, server: usize) {
    let argv: Vec<String> = p.ga("argv").iter().map(|x| x.str().unwrap_or("").to_string()).collect();
    w.launch(&ProcSpec {
        server,
        argv,
        rnd: p.gu("rnd"),
        heap: p.gu("heap"),
        allocs: p.get("allocs").and_then(|x| x.int()).unwrap_or(-1),
        cwd: p.gs("cwd"),
        cpu: if p.ga("argv").first().and_then(|x| x.str()).map_or(false, |b| b.contains("eager")) { 20 } else { 5 },
        start_delay: p.gu("delay"),
    });
}
/// Folds what a finished world did into a verdict (hashes, fault tags, time).
pub fn absorb(v: &mut Verdict, w: &mut World, fin: Finish) {
    v.hash = fnv(v.hash ^ w.hash, &[fin as u8]);
    for o in &w.outcomes {
        v.hash = fnv(v.hash, &o.out);
        v.hash = fnv(v.hash, &o.err);
    }
    for (p, d) in w.fs.files() {
        v.hash = fnv(v.hash, p.as_bytes());
        v.hash = fnv(v.hash, &d);
    }
    for &f in &w.fired {
        v.tag(format!("fault:{}", w.faults[f].kind()));
    }
    for u in &w.unsupported {
        v.tag(format!("unsupported:{}", u));
    }
    if fin == Finish::Stuck {
        v.tag("inconclusive:stuck");
    }
    v.choices = std::mem::take(&mut w.choices);
    v.sim_ns += w.mono - 1_000_000_000;
    v.steps += w.steps;
    v.switches += w.ctx_switches;
    v.procs += (w.outcomes.len() + w.spawned) as u64;
    if let Some(l) = w.log.take() {
        v.log.extend(l);
    }
}
/// Resource-limit ends (CPU limit) say nothing about the property.
pub fn inconclusive(o: &Outcome, fin: Finish) -> bool {
    fin == Finish::Stuck || fin == Finish::StepLimit || matches!(o.signal(), Some(libc::SIGXCPU))
        || (o.signal() == Some(libc::SIGKILL) && !o.killed_by_sim)
}

/// True when an execution ran into the CPU or step limit, thousands of times beyond what its input needs.
pub fn endless(o: &Outcome, fin: Finish, fired: &[Fault]) -> bool {
    matches!(o.signal(), Some(libc::SIGXCPU)) || (fin == Finish::StepLimit && fired.is_empty())
}

/// "panicked at file: message" without line numbers; used as a failure's call site.
pub fn panic_site(err: &[u8]) -> String {
    let t = String::from_utf8_lossy(err);
    if let Some(p) = t.find("panicked at ") {
        let rest = &t[p + 12..];
        let mut it = rest.lines();
        let loc = it.next().unwrap_or("");
        let msg = it.next().unwrap_or("");
        let f = loc.split(':').next().unwrap_or("");
        let f = f.rsplit("/src/").next().unwrap_or(f);
        let msg: String = msg.chars().take(60).collect();
        return format!("panic {} {}", f, msg);
    }
    if t.contains("overflowed its stack") {
        return "stack overflow".into();
    }
    if t.contains("memory allocation of") {
        return "alloc failure".into();
    }
    t.lines().next().unwrap_or("").chars().take(80).collect()
}

pub const READ_ERRS: [i32; 2] = [EIO, EINTR];
/// Draws one fault aimed at an operation that the dry run performed.
pub fn draw_fault(rng: &mut Rng, proc: usize, counts: &std::collections::BTreeMap<String, u32>, sizes: &[(usize, String, u32, usize)]) -> Option<Fault> {
    let classes: Vec<(&String, u32)> = counts
        .iter()
        .filter(|(c, _)| !matches!(c.as_str(), "?" | "lseek" | "dup" | "getcwd" | "close" | "flock" | "poll" | "write.err"))
        .map(|(c, n)| (c, *n))
        .collect();
    if classes.is_empty() {
        return None;
    }
    let (class, n) = rng.pick(&classes);
    let nth = match rng.idx(3) {
        0 => *n - 1,
        _ => rng.idx(*n as usize) as u32,
    };
    let size = sizes.iter().find(|(p, c, k, _)| *p == proc && &c == class && *k == nth).map_or(0, |x| x.3);
    let crash = |rng: &mut Rng| {
        if size > 0 && rng.chance(2, 3) {
            Act::CrashMid(rng.idx(size + 1))
        } else {
            Act::Crash
        }
    };
    let mut sticky = false;
    let act = match class.as_str() {
        "open" => match rng.idx(4) {
            0 => Act::Err(EACCES),
            1 => Act::Err(EMFILE),
            2 => Act::Err(EINTR),
            _ => crash(rng),
        },
        "read.file" | "read.pipe" => match rng.idx(6) {
            0 => Act::Err(EINTR),
            1 | 2 => {
                sticky = rng.chance(1, 2);
                Act::Short(1 + rng.idx(40))
            }
            3 | 4 => {
                sticky = rng.chance(1, 2);
                Act::Err(EIO)
            }
            _ => crash(rng),
        },
        "write.file" => match rng.idx(7) {
            0 => Act::Err(EINTR),
            1 => {
                sticky = rng.chance(1, 2);
                Act::Short(1 + rng.idx(size.max(1)))
            }
            2 => {
                sticky = true;
                Act::Err(ENOSPC)
            }
            3 => Act::Err(EIO),
            _ => crash(rng),
        },
        "write.pipe" => match rng.idx(6) {
            0 => Act::Err(EINTR),
            1 => {
                sticky = rng.chance(1, 2);
                Act::Short(1 + rng.idx(size.max(1)))
            }
            2 => Act::Err(EIO),
            3 => {
                sticky = true;
                Act::Err(EPIPE)
            }
            _ => crash(rng),
        },
        "write.out" => match rng.idx(6) {
            0 => Act::Err(EINTR),
            1 => Act::Short(1 + rng.idx(size.max(1))),
            2 => Act::Err(EPIPE),
            3 => {
                sticky = true;
                Act::Err(ENOSPC)
            }
            4 => Act::Err(EIO),
            _ => crash(rng),
        },
        "close.file" => match rng.idx(3) {
            0 => Act::Err(EIO),
            _ => crash(rng),
        },
        "pipe" | "spawn" => match rng.idx(4) {
            0 => Act::Err(EMFILE),
            1 => Act::Err(ENOMEM),
            2 => Act::Err(EAGAIN),
            _ => crash(rng),
        },
        "wait" => match rng.idx(2) {
            0 => Act::Err(EINTR),
            _ => crash(rng),
        },
        "clock" => Act::Jump(*rng.pick(&[-3_600_000_000_000i64, 86_400_000_000_000, -1, 5_000_000_000])),
        "stat" | "access" | "readdir" | "rename" | "unlink" | "mkdir" | "fsync" => match rng.idx(3) {
            0 => Act::Err(EIO),
            1 => Act::Err(EACCES),
            _ => crash(rng),
        },
        _ => crash(rng),
    };
    Some(Fault { proc, class: class.to_string(), nth, sticky, act })
}
/// True when a fault may legitimately be invisible to the outcome (retry, short transfer, stall).
pub fn benign(f: &Fault) -> bool {
    match f.act {
        Act::Err(e) => e == EINTR && !f.sticky && matches!(f.class.as_str(), "read.file" | "read.pipe" | "write.file" | "write.pipe" | "write.out" | "open" | "wait"),
        Act::Short(_) | Act::Stall(_) | Act::Jump(_) => true,
        _ => false,
    }
}

/// Shrinks of the shared fields.
pub fn shrink_common(sc: &J) -> Vec<J> {
    let mut out = vec![];
    let with = |k: &str, v: J| {
        let mut c = sc.clone();
        c.set(k, v);
        c
    };
    let faults = sc.ga("faults");
    if faults.len() > 1 {
        out.push(with("faults", J::Arr(vec![])));
    }
    for i in 0..faults.len() {
        let mut f = faults.clone();
        f.remove(i);
        out.push(with("faults", J::Arr(f)));
    }
    for (i, f) in faults.iter().enumerate() {
        if f.gb("sticky") {
            let mut g = f.clone();
            g.set("sticky", J::Bool(false));
            let mut fs = faults.clone();
            fs[i] = g;
            out.push(with("faults", J::Arr(fs)));
        }
    }
    if sc.get("pipe_cap").is_some() {
        out.push(with("pipe_cap", J::Int(65536)));
    }
    let sch = sc.ga("schedule");
    if !sch.is_empty() {
        out.push(with("schedule", J::Arr(vec![])));
        let h = sch.len() / 2;
        out.push(with("schedule", J::Arr(sch[..h].to_vec())));
        if sch.len() <= 40 {
            for i in 0..sch.len() {
                if sch[i].int() != Some(0) {
                    let mut s = sch.clone();
                    s[i] = J::Int(0);
                    out.push(with("schedule", J::Arr(s)));
                }
            }
        }
    }
    let procs = sc.ga("procs");
    for i in 0..procs.len() {
        for k in ["heap", "rnd", "delay"] {
            for v in [0i64, 1, 2, 3] {
                let cur = procs[i].gu(k);
                if cur > v as u64 && (k != "delay" || v == 0) {
                    let mut p = procs.clone();
                    p[i].set(k, J::Int(v));
                    out.push(with("procs", J::Arr(p)));
                }
            }
        }
    }
    out
}
/// Shrinks of a list-valued field: drop halves, then single elements.
pub fn shrink_list(sc: &J, key: &str, min: usize) -> Vec<J> {
    let v = sc.ga(key);
    let mut out = vec![];
    let n = v.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut s = 0;
        while s < n {
            let e = (s + size).min(n);
            let mut c: Vec<J> = v[..s].to_vec();
            c.extend_from_slice(&v[e..]);
            if c.len() >= min && c.len() < n {
                let mut j = sc.clone();
                j.set(key, J::Arr(c));
                out.push(j);
            }
            s = e;
        }
        size /= 2;
    }
    out
}
