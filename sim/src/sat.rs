//! A small randomised CDCL SAT solver: the scripted "SAT solver" child process of the simulation.
//! Decision order and polarity are seeded, so for a satisfiable formula every run may return a
//! different (always legal) satisfying assignment.
use crate::rng::Rng;

pub struct Cnf {
    pub vars: usize,
    pub clauses: Vec<Vec<i32>>,
}

/// Strict DIMACS reader: header first, declared counts must match, every clause 0-terminated.
pub fn parse_dimacs(t: &str) -> Result<Cnf, String> {
    let mut it = t.lines();
    let head = loop {
        let l = it.next().ok_or("empty DIMACS")?;
        if !l.starts_with('c') {
            break l;
        }
    };
    let h: Vec<&str> = head.split_whitespace().collect();
    if h.len() != 4 || h[0] != "p" || h[1] != "cnf" {
        return Err(format!("bad header {:?}", head));
    }
    let vars: usize = h[2].parse().map_err(|_| "bad var count")?;
    let n: usize = h[3].parse().map_err(|_| "bad clause count")?;
    let mut clauses = vec![];
    let mut cur = vec![];
    for l in it {
        if l.starts_with('c') {
            continue;
        }
        for tok in l.split_whitespace() {
            let x: i32 = tok.parse().map_err(|_| format!("bad literal {:?}", tok))?;
            if x == 0 {
                clauses.push(std::mem::take(&mut cur));
            } else {
                if x.unsigned_abs() as usize > vars {
                    return Err(format!("literal {} out of range", x));
                }
                cur.push(x);
            }
        }
    }
    if !cur.is_empty() {
        return Err("unterminated clause".into());
    }
    if clauses.len() != n {
        return Err(format!("header says {} clauses, found {}", n, clauses.len()));
    }
    Ok(Cnf { vars, clauses })
}

pub enum Answer {
    Sat(Vec<bool>),
    Unsat,
    Unknown,
}

struct Solver {
    n: usize,
    cl: Vec<Vec<u32>>,
    watch: Vec<Vec<u32>>,
    val: Vec<i8>,
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<u32>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<u32>,
    pos: Vec<i32>,
    seen: Vec<bool>,
    /// Watchers visited: bounds the time of a run whatever the machine.
    work: u64,
}
const NONE: u32 = u32::MAX;

fn lit(x: i32) -> u32 {
    ((x.unsigned_abs() - 1) << 1) | (x < 0) as u32
}

impl Solver {
    fn lv(&self, l: u32) -> i8 {
        let v = self.val[(l >> 1) as usize];
        if l & 1 == 1 {
            -v
        } else {
            v
        }
    }
    fn enqueue(&mut self, l: u32, r: u32) {
        let v = (l >> 1) as usize;
        self.val[v] = if l & 1 == 1 { -1 } else { 1 };
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            let np = p ^ 1;
            let mut ws = std::mem::take(&mut self.watch[np as usize]);
            self.work += ws.len() as u64;
            let (mut i, mut j) = (0, 0);
            let mut confl = NONE;
            'outer: while i < ws.len() {
                let ci = ws[i];
                i += 1;
                let c = &mut self.cl[ci as usize];
                if c[0] == np {
                    c.swap(0, 1);
                }
                let first = c[0];
                let fv = {
                    let v = self.val[(first >> 1) as usize];
                    if first & 1 == 1 { -v } else { v }
                };
                if fv == 1 {
                    ws[j] = ci;
                    j += 1;
                    continue;
                }
                for k in 2..c.len() {
                    let lk = c[k];
                    let v = self.val[(lk >> 1) as usize];
                    let lvk = if lk & 1 == 1 { -v } else { v };
                    if lvk != -1 {
                        c.swap(1, k);
                        self.watch[lk as usize].push(ci);
                        continue 'outer;
                    }
                }
                ws[j] = ci;
                j += 1;
                if fv == -1 {
                    confl = ci;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                    self.qhead = self.trail.len();
                } else {
                    self.enqueue(first, ci);
                }
            }
            ws.truncate(j);
            self.watch[np as usize] = ws;
            if confl != NONE {
                return confl;
            }
        }
        NONE
    }
    fn up(&mut self, mut i: usize) {
        while i > 0 {
            let p = (i - 1) / 2;
            if self.act[self.heap[i] as usize] <= self.act[self.heap[p] as usize] {
                break;
            }
            self.swap(i, p);
            i = p;
        }
    }
    fn down(&mut self, mut i: usize) {
        loop {
            let (l, r) = (2 * i + 1, 2 * i + 2);
            let mut m = i;
            if l < self.heap.len() && self.act[self.heap[l] as usize] > self.act[self.heap[m] as usize] {
                m = l;
            }
            if r < self.heap.len() && self.act[self.heap[r] as usize] > self.act[self.heap[m] as usize] {
                m = r;
            }
            if m == i {
                break;
            }
            self.swap(i, m);
            i = m;
        }
    }
    fn swap(&mut self, i: usize, j: usize) {
        self.heap.swap(i, j);
        self.pos[self.heap[i] as usize] = i as i32;
        self.pos[self.heap[j] as usize] = j as i32;
    }
    fn hinsert(&mut self, v: u32) {
        if self.pos[v as usize] < 0 {
            self.pos[v as usize] = self.heap.len() as i32;
            self.heap.push(v);
            self.up(self.heap.len() - 1);
        }
    }
    fn hpop(&mut self) -> Option<u32> {
        let v = *self.heap.first()?;
        let last = self.heap.len() - 1;
        self.swap(0, last);
        self.heap.pop();
        self.pos[v as usize] = -1;
        if !self.heap.is_empty() {
            self.down(0);
        }
        Some(v)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in &mut self.act {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.pos[v] >= 0 {
            self.up(self.pos[v] as usize);
        }
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() > lvl {
            let b = self.lim[lvl];
            for k in (b..self.trail.len()).rev() {
                let l = self.trail[k];
                let v = (l >> 1) as usize;
                self.phase[v] = l & 1 == 0;
                self.val[v] = 0;
                self.hinsert(v as u32);
            }
            self.trail.truncate(b);
            self.lim.truncate(lvl);
            self.qhead = b;
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<u32>, usize) {
        let mut out = vec![0u32];
        let mut n = 0;
        let mut p = NONE;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear = vec![];
        loop {
            let c = self.cl[confl as usize].clone();
            for &q in &c {
                if q == p {
                    continue;
                }
                let v = (q >> 1) as usize;
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v] >= cur {
                        n += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] {
                    break;
                }
            }
            p = self.trail[idx];
            confl = self.reason[(p >> 1) as usize];
            self.seen[(p >> 1) as usize] = false;
            n -= 1;
            if n == 0 {
                break;
            }
        }
        out[0] = p ^ 1;
        for v in clear {
            self.seen[v] = false;
        }
        let mut bl = 0;
        if out.len() > 1 {
            let mut m = 1;
            for k in 2..out.len() {
                if self.level[(out[k] >> 1) as usize] > self.level[(out[m] >> 1) as usize] {
                    m = k;
                }
            }
            out.swap(1, m);
            bl = self.level[(out[1] >> 1) as usize] as usize;
        }
        (out, bl)
    }
}

pub fn solve(cnf: &Cnf, rng: &mut Rng, max_conflicts: u64) -> Answer {
    let n = cnf.vars;
    let mut s = Solver {
        n,
        cl: vec![],
        watch: vec![vec![]; 2 * n],
        val: vec![0; n],
        level: vec![0; n],
        reason: vec![NONE; n],
        trail: vec![],
        lim: vec![],
        qhead: 0,
        act: vec![0.0; n],
        inc: 1.0,
        phase: vec![false; n],
        heap: vec![],
        pos: vec![-1; n],
        seen: vec![false; n],
        work: 0,
    };
    let style = rng.idx(4);
    for v in 0..n {
        s.phase[v] = match style {
            0 => false,
            1 => true,
            _ => rng.chance(1, 2),
        };
        s.act[v] = rng.idx(1000) as f64 * 1e-6;
    }
    for v in 0..n {
        s.hinsert(v as u32);
    }
    for c in &cnf.clauses {
        let mut c: Vec<u32> = c.iter().map(|&x| lit(x)).collect();
        c.sort();
        c.dedup();
        if c.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            continue;
        }
        match c.len() {
            0 => return Answer::Unsat,
            1 => match s.lv(c[0]) {
                -1 => return Answer::Unsat,
                0 => s.enqueue(c[0], NONE),
                _ => {}
            },
            _ => {
                let id = s.cl.len() as u32;
                s.watch[c[0] as usize].push(id);
                s.watch[c[1] as usize].push(id);
                s.cl.push(c);
            }
        }
    }
    if s.propagate() != NONE {
        return Answer::Unsat;
    }
    let mut conflicts = 0u64;
    let mut until = 100u64;
    loop {
        let confl = s.propagate();
        if confl != NONE {
            conflicts += 1;
            if s.lim.is_empty() {
                return Answer::Unsat;
            }
            if conflicts > max_conflicts || s.work > max_conflicts * 250 {
                return Answer::Unknown;
            }
            let (c, bl) = s.analyze(confl);
            s.cancel(bl);
            if c.len() == 1 {
                s.enqueue(c[0], NONE);
            } else {
                let id = s.cl.len() as u32;
                s.watch[c[0] as usize].push(id);
                s.watch[c[1] as usize].push(id);
                let l0 = c[0];
                s.cl.push(c);
                s.enqueue(l0, id);
            }
            s.inc *= 1.05;
        } else {
            if conflicts >= until {
                until = conflicts + 100 + conflicts / 10;
                s.cancel(0);
                continue;
            }
            let mut next = None;
            if rng.chance(1, 40) && s.n > 0 {
                let v = rng.idx(s.n);
                if s.val[v] == 0 {
                    next = Some(v as u32);
                }
            }
            while next.is_none() {
                match s.hpop() {
                    None => break,
                    Some(v) => {
                        if s.val[v as usize] == 0 {
                            next = Some(v);
                        }
                    }
                }
            }
            match next {
                None => {
                    if let Some(v) = (0..s.n).find(|&v| s.val[v] == 0) {
                        next = Some(v as u32);
                    } else {
                        return Answer::Sat(s.val.iter().map(|&x| x == 1).collect());
                    }
                }
                _ => {}
            }
            let v = next.unwrap();
            s.lim.push(s.trail.len());
            let ph = s.phase[v as usize];
            s.enqueue((v << 1) | (!ph) as u32, NONE);
        }
    }
}

pub fn satisfies(cnf: &Cnf, m: &[bool]) -> bool {
    cnf.clauses.iter().all(|c| c.iter().any(|&l| m[l.unsigned_abs() as usize - 1] == (l > 0)))
}
