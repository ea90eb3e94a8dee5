//! Checks for amzn-smt-eager-arithmetic: `solve` and `encode` run as real processes against a
//! scripted SAT solver / minisat.
use crate::json::J;
use crate::obj;
use crate::oracle::Sat;
use crate::prop::*;
use crate::rng::{fnv, Rng};
use crate::sat::*;
use crate::scen::*;
use crate::sexp::{self, a, app, S};
use crate::world::*;

const BIN: &str = "amzn-smt-eager-arithmetic";

// ------------------------------------------------------------------------------- scripted children
/// Scripted SAT solver (reads DIMACS on stdin, answers on stdout) or minisat preprocessor
/// (`-dimacs=FILE`: reads DIMACS leniently, as minisat does, and writes simplified CNF).
pub struct SatStub {
    cfg: J,
    rng: Rng,
    phase: u32,
    inbuf: Vec<u8>,
    out: Vec<u8>,
    pos: usize,
    exit: i64,
    minisat: Option<String>,
    die: Option<(String, usize, i64)>,
}
impl SatStub {
    fn new(cfg: &J, argv: &[String]) -> SatStub {
        let minisat = argv.iter().find_map(|x| x.strip_prefix("-dimacs=").map(|s| s.to_string()));
        let die = cfg.get("die").map(|d| (d.gs("at"), d.gi("n") as usize, d.gi("status")));
        let mut s = SatStub {
            rng: Rng::new(cfg.gu("seed")),
            cfg: cfg.clone(),
            phase: 0,
            inbuf: vec![],
            out: vec![],
            pos: 0,
            exit: 0,
            minisat,
            die,
        };
        if cfg.gb("banner") && s.minisat.is_none() {
            s.out = b"c Kissat SAT Solver\nc\nc options: none\nc\n".to_vec();
        }
        s
    }
    fn exit_status(code: i64) -> i32 {
        if code < 0 {
            (-code) as i32
        } else {
            (code as i32) << 8
        }
    }
    /// What minisat -dimacs does: lenient parse (header mismatch is only a warning), unit
    /// propagation, then the remaining clauses; exit 20 and no file when propagation refutes.
    fn minisat_run(&mut self, io: &mut StubIo, path: &str) {
        let text = String::from_utf8_lossy(&self.inbuf).into_owned();
        let mut clauses: Vec<Vec<i32>> = vec![];
        let mut cur = vec![];
        for l in text.lines() {
            if l.starts_with('c') || l.starts_with('p') {
                continue;
            }
            for t in l.split_whitespace() {
                match t.parse::<i32>() {
                    Ok(0) => clauses.push(std::mem::take(&mut cur)),
                    Ok(x) => cur.push(x),
                    Err(_) => {
                        self.exit = 3;
                        return;
                    }
                }
            }
        }
        if !cur.is_empty() {
            self.exit = 3; // "PARSE ERROR! Unexpected char"
            return;
        }
        let mut val: std::collections::HashMap<i32, bool> = Default::default();
        loop {
            let mut changed = false;
            let mut next = vec![];
            for c in &clauses {
                if c.iter().any(|&x| val.get(&x.abs()) == Some(&(x > 0))) {
                    continue;
                }
                let r: Vec<i32> = c.iter().copied().filter(|x| !val.contains_key(&x.abs())).collect();
                match r.len() {
                    0 => {
                        self.exit = 20;
                        return;
                    }
                    1 => {
                        val.insert(r[0].abs(), r[0] > 0);
                        changed = true;
                    }
                    _ => next.push(r),
                }
            }
            clauses = next;
            if !changed {
                break;
            }
        }
        let mut units: Vec<i32> = val.iter().map(|(k, v)| if *v { *k } else { -*k }).collect();
        units.sort_by_key(|x| x.abs());
        let n = clauses.iter().flatten().chain(units.iter()).map(|x| x.abs()).max().unwrap_or(0);
        let mut o = format!("p cnf {} {}\n", n, clauses.len() + units.len());
        for u in units {
            o.push_str(&format!("{} 0\n", u));
        }
        for c in &clauses {
            for x in c {
                o.push_str(&format!("{} ", x));
            }
            o.push_str("0\n");
        }
        self.exit = 0;
        let mut data = o.into_bytes();
        if let Some((at, n, st)) = &self.die {
            if at == "out" {
                data.truncate(*n);
                self.exit = *st;
            }
        }
        if !io.put_file(path, &data) {
            self.exit = 1;
        }
    }
    fn answer(&mut self) {
        let text = String::from_utf8_lossy(&self.inbuf).into_owned();
        let mut o = String::new();
        match parse_dimacs(&text) {
            Err(e) => {
                o.push_str(&format!("c parse error: {}\n", e));
                self.exit = 1;
            }
            Ok(cnf) => match solve(&cnf, &mut self.rng, 60_000) {
                Answer::Unknown => {
                    o.push_str("s UNKNOWN\n");
                    self.exit = 0;
                }
                Answer::Unsat => {
                    o.push_str("c done\ns UNSATISFIABLE\n");
                    self.exit = 20;
                }
                Answer::Sat(m) => {
                    assert!(satisfies(&cnf, &m), "HARNESS: SAT stub produced an illegal model");
                    self.exit = 10;
                    o.push_str("c done\ns SATISFIABLE\n");
                    let mut order: Vec<usize> = (0..m.len()).collect();
                    if self.cfg.gb("shuffle") {
                        self.rng.shuffle(&mut order);
                    }
                    let per = self.cfg.get("per_line").and_then(|x| x.u64()).unwrap_or(10).max(1) as usize;
                    let mut lits: Vec<String> =
                        order.iter().map(|&v| format!("{}{}", if m[v] { "" } else { "-" }, v + 1)).collect();
                    lits.push("0".into());
                    for c in lits.chunks(per) {
                        o.push_str("v ");
                        o.push_str(&c.join(" "));
                        o.push('\n');
                        if self.cfg.gb("comments") && self.rng.chance(1, 4) {
                            o.push_str("c progress\n");
                        }
                    }
                    if self.cfg.gb("comments") {
                        o.push_str("c bye\n");
                    }
                }
            },
        }
        match self.cfg.gs("exit").as_str() {
            "zero" => self.exit = 0,
            _ => {}
        }
        match self.cfg.gs("garbage").as_str() {
            "empty" => o.clear(),
            "comments" => o = "c nothing to say\n".into(),
            "unknown" => o = "c gave up\ns UNKNOWN\n".into(),
            "nomodel" => o = o.lines().filter(|l| !l.starts_with("v ")).map(|l| format!("{}\n", l)).collect(),
            "badtoken" => o = o.replacen("v ", "v 1x ", 1),
            "timeout" => o = "c caught signal 14\n".into(),
            _ => {}
        }
        self.out = o.into_bytes();
        if self.cfg.gs("garbage") == "nonutf8" {
            self.out.insert(0, 0xff);
        }
    }
}
impl Stub for SatStub {
    fn step(&mut self, io: &mut StubIo) -> Step {
        match self.phase {
            // optional banner, before any input is read
            0 => {
                if self.pos < self.out.len() {
                    return match io.write(1, &self.out[self.pos..].to_vec()) {
                        Io::N(k) => {
                            self.pos += k;
                            Step::Ran
                        }
                        Io::Block => Step::Blocked(WaitOn::Write(1)),
                        _ => Step::Exit(13),
                    };
                }
                self.pos = 0;
                self.phase = 1;
                Step::Ran
            }
            1 => {
                let mut n = 1 + self.rng.idx(5000);
                if let Some((at, limit, st)) = &self.die {
                    if at == "read" {
                        if self.inbuf.len() >= *limit {
                            let st = *st;
                            io.log(format!("solver dies after reading {} bytes", self.inbuf.len()));
                            return Step::Exit(Self::exit_status(st));
                        }
                        n = n.min(*limit - self.inbuf.len());
                    }
                }
                match io.read(0, n) {
                    Io::Data(d) => {
                        self.inbuf.extend(d);
                        Step::Ran
                    }
                    Io::Block => Step::Blocked(WaitOn::Read(0)),
                    _ => {
                        self.phase = 2;
                        Step::Ran
                    }
                }
            }
            2 => {
                if let Some(path) = self.minisat.clone() {
                    self.minisat_run(io, &path);
                    return Step::Exit(Self::exit_status(self.exit));
                }
                self.answer();
                self.phase = 3;
                Step::Ran
            }
            _ => {
                let mut end = self.out.len();
                if let Some((at, n, _)) = &self.die {
                    if at == "out" {
                        end = end.min(*n);
                    }
                }
                if self.pos >= end {
                    if let Some((at, _, st)) = &self.die {
                        if at == "out" {
                            io.log(format!("solver dies after writing {} bytes", self.pos));
                            return Step::Exit(Self::exit_status(*st));
                        }
                    }
                    return Step::Exit(Self::exit_status(self.exit));
                }
                let n = (1 + self.rng.idx(3000)).min(end - self.pos);
                match io.write(1, &self.out[self.pos..self.pos + n].to_vec()) {
                    Io::N(k) => {
                        self.pos += k;
                        Step::Ran
                    }
                    Io::Block => Step::Blocked(WaitOn::Write(1)),
                    _ => Step::Exit(13),
                }
            }
        }
    }
}
pub fn factory(cfg: &J) -> Factory {
    let cfg = cfg.clone();
    Box::new(move |_root, file, argv| {
        if cfg.gb("missing") || !matches!(file, "kissat" | "cadical" | "minisat" | "/opt/solver") {
            return None;
        }
        Some(Box::new(SatStub::new(&cfg, argv)))
    })
}

// -------------------------------------------------------------------------------------- generator
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub ints: Vec<String>,
    pub bools: Vec<String>,
    pub ufs: Vec<(String, Vec<&'static str>, &'static str)>,
    /// Bit-vector constants and their widths; only `bvule` is supported on them.
    pub bvs: Vec<(String, usize)>,
    pub maxc: i64,
    pub lets: usize,
    pub ite: bool,
}
pub fn num(x: i64) -> S {
    if x < 0 {
        app("-", [a((-(x as i128)).to_string())])
    } else {
        a(x.to_string())
    }
}
impl Gen<'_> {
    fn c(&mut self) -> S {
        let m = self.maxc;
        num(self.r.range(-m, m))
    }
    fn int(&mut self, d: u32) -> S {
        let k = if d == 0 { self.r.idx(4) } else { self.r.idx(15) };
        match k {
            0..=2 if !self.ints.is_empty() => a(self.r.pick(&self.ints).clone()),
            0..=3 => self.c(),
            4 | 5 => {
                let n = 1 + self.r.idx(3);
                let v: Vec<S> = (0..n).map(|_| self.int(d - 1)).collect();
                app("+", v)
            }
            6 | 7 => {
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.int(d - 1)).collect();
                app("-", v)
            }
            8 => {
                let x = self.int(d - 1);
                app("-", [x])
            }
            9 | 10 if !self.ints.is_empty() => {
                // the widths of all variables grow with the logarithm of each large coefficient
                let m = if self.maxc > 100 && self.r.chance(1, 3) { self.maxc.min(1 << *self.r.pick(&[8u32, 12, 16, 20, 33])) } else { 4 };
                let c = self.r.range(-m, m);
                // products of a numeral and a declared constant (a let name could stand for any term)
                let n = self.r.pick(&self.ints).clone();
                if n.starts_with('l') {
                    return a(n);
                }
                let v = a(n);
                if self.r.chance(1, 2) {
                    app("*", [num(c), v])
                } else {
                    app("*", [v, num(c)])
                }
            }
            11 | 12 => {
                let f: Vec<_> = self.ufs.iter().filter(|f| f.2 == "Int").cloned().collect();
                if f.is_empty() {
                    return self.int(0);
                }
                let f = self.r.pick(&f).clone();
                self.uf(&f, d)
            }
            13 if self.ite => {
                let (c, x, y) = (self.boolean(d - 1), self.int(d - 1), self.int(d - 1));
                app("ite", [c, x, y])
            }
            _ => self.int(0),
        }
    }
    fn uf(&mut self, f: &(String, Vec<&'static str>, &'static str), d: u32) -> S {
        let args: Vec<S> = f
            .1
            .clone()
            .iter()
            .map(|s| if *s == "Int" { self.int(d.saturating_sub(1)) } else { self.boolean(d.saturating_sub(1)) })
            .collect();
        app(&f.0, args)
    }
    fn bvule(&mut self) -> S {
        let (x, w) = self.r.pick(&self.bvs).clone();
        let y = self.r.pick(&self.bvs).clone();
        let other = if y.1 == w && self.r.chance(1, 2) {
            a(y.0)
        } else {
            let n = self.r.next() & ((1u64 << w) - 1);
            if self.r.chance(2, 3) {
                a(format!("#b{:0w$b}", n))
            } else {
                app("_", [a(format!("bv{}", n)), a(w.to_string())])
            }
        };
        if self.r.chance(1, 2) {
            app("bvule", [a(x), other])
        } else {
            app("bvule", [other, a(x)])
        }
    }
    fn rel(&mut self, d: u32) -> S {
        if !self.bvs.is_empty() && self.r.chance(2, 3) {
            return self.bvule();
        }
        let op = *self.r.pick(&["<", "<=", ">", ">=", "=", "=", "distinct"]);
        let n = if self.r.chance(1, 6) { 3 } else { 2 };
        let v: Vec<S> = (0..n).map(|_| self.int(d)).collect();
        app(op, v)
    }
    pub fn boolean(&mut self, d: u32) -> S {
        if d == 0 {
            return match self.r.idx(5) {
                0 | 1 if !self.bools.is_empty() => a(self.r.pick(&self.bools).clone()),
                2 if self.r.chance(1, 4) => a(*self.r.pick(&["true", "false"])),
                _ => self.rel(0),
            };
        }
        match self.r.idx(16) {
            0 | 1 => {
                let n = 1 + self.r.idx(3);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d - 1)).collect();
                app("and", v)
            }
            2 | 3 => {
                let n = 1 + self.r.idx(3);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d - 1)).collect();
                app("or", v)
            }
            4 | 5 => {
                let x = self.boolean(d - 1);
                app("not", [x])
            }
            6 => {
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d - 1)).collect();
                app("=>", v)
            }
            7 => {
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d - 1)).collect();
                app("xor", v)
            }
            8 => {
                let (x, y) = (self.boolean(d - 1), self.boolean(d - 1));
                app("=", [x, y])
            }
            9 if self.ite => {
                let (c, x, y) = (self.boolean(d - 1), self.boolean(d - 1), self.boolean(d - 1));
                app("ite", [c, x, y])
            }
            10 if self.lets > 0 => {
                self.lets -= 1;
                let name = format!("l{}", self.lets);
                let isint = self.r.chance(1, 2);
                let v = if isint { self.int(d - 1) } else { self.boolean(d - 1) };
                if isint {
                    self.ints.push(name.clone());
                } else {
                    self.bools.push(name.clone());
                }
                let body = self.boolean(d - 1);
                if isint {
                    self.ints.retain(|x| *x != name);
                } else {
                    self.bools.retain(|x| *x != name);
                }
                app("let", [S::L(vec![S::L(vec![a(name), v])]), body])
            }
            11 => {
                let f: Vec<_> = self.ufs.iter().filter(|f| f.2 == "Bool").cloned().collect();
                if f.is_empty() {
                    return self.rel(d - 1);
                }
                let f = self.r.pick(&f).clone();
                self.uf(&f, d)
            }
            _ => self.rel(d),
        }
    }
}
pub fn names(r: &mut Rng, n: usize, pool: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
pub struct Formula {
    pub decls: Vec<String>,
    pub asserts: Vec<S>,
    pub kind: &'static str,
}
/// A random formula of one of several families.
pub fn formula(r: &mut Rng) -> Formula {
    let fam = r.weighted(&[6, 4, 3, 3, 4, 2, 2, 2, 2, 1]);
    let mut ints = names(r, 1 + r.clone().idx(4), &["x", "y", "z", "w", "i0", "|a b|", "X", "v_1"]);
    r.next();
    let mut bools = names(r, r.clone().idx(3), &["p", "q", "b0", "|c d|"]);
    r.next();
    let mut ufs: Vec<(String, Vec<&'static str>, &'static str)> = vec![];
    let mut bvs: Vec<(String, usize)> = vec![];
    let mut kind = "general";
    let mut asserts = vec![];
    let mut maxc = 8;
    match fam {
        0 => {}
        1 => {
            // chains of three-variable / scaled equalities: values grow fast along the chain
            kind = "chain";
            let n = 3 + r.idx(8);
            ints = (0..n).map(|i| format!("{}{}", if r.chance(1, 2) { "x" } else { "n" }, i)).collect();
            bools.clear();
            let two = r.chance(1, 2);
            let c0 = r.range(1, 3);
            let op = *r.pick(&["=", ">=", "="]);
            asserts.push(app("=", [a(&ints[0]), num(c0)]));
            let start = if two {
                1
            } else {
                asserts.push(app("=", [a(&ints[1]), num(c0)]));
                2
            };
            for i in start..n {
                let (t, u, v) = (a(&ints[i]), a(&ints[i - 1]), a(&ints[i.saturating_sub(2)]));
                let s = if two {
                    match r.idx(3) {
                        0 => app(op, [t, app("*", [num(2), u])]),
                        1 => app(op, [app("-", [t, u.clone()]), u]),
                        _ => app(op, [app("+", [t, app("*", [num(-3), u])]), num(r.range(-1, 1))]),
                    }
                } else {
                    match r.idx(4) {
                        0 => app(op, [t, app("+", [u, v])]),
                        1 => app(op, [app("-", [t, u]), v]),
                        2 => app(op, [app("+", [t, app("-", [v])]), u]),
                        _ => app("=", [app("+", [t, u, v]), num(0)]),
                    }
                };
                asserts.push(s);
            }
            if r.chance(1, 3) {
                let x = a(&ints[n - 1]);
                asserts.push(app(*r.pick(&["<", ">", "distinct"]), [x, num(r.range(-4, 60))]));
            }
            r.shuffle(&mut asserts);
        }
        2 => {
            kind = "difference";
            let n = 2 + r.idx(5);
            ints = (0..n).map(|i| format!("d{}", i)).collect();
            bools.clear();
            for _ in 0..(2 + r.idx(2 * n)) {
                let (x, y) = (r.idx(n), r.idx(n));
                let c = r.range(-6, 6);
                let op = *r.pick(&["<", "<=", ">", ">=", "=", "distinct"]);
                let lhs = if r.chance(1, 5) { a(&ints[x]) } else { app("-", [a(&ints[x]), a(&ints[y])]) };
                let mut t = app(op, [lhs, num(c)]);
                if r.chance(1, 5) {
                    t = app("not", [t]);
                }
                if r.chance(1, 5) {
                    let o = app(op, [a(&ints[y]), num(c)]);
                    t = app("or", [t, o]);
                }
                asserts.push(t);
            }
        }
        3 => {
            kind = "equality";
            let n = 2 + r.idx(5);
            ints = (0..n).map(|i| format!("e{}", i)).collect();
            if r.chance(1, 3) {
                ufs.push(("f".into(), vec!["Int"], "Int"));
            }
            if r.chance(1, 2) {
                asserts.push(app("distinct", ints.iter().map(|x| a(x.clone()))));
            }
            for _ in 0..(1 + r.idx(n + 2)) {
                let x = a(r.pick(&ints).clone());
                let mut y = a(r.pick(&ints).clone());
                if !ufs.is_empty() && r.chance(1, 2) {
                    y = app("f", [y]);
                }
                let t = app("=", [x, y]);
                asserts.push(if r.chance(1, 2) { app("not", [t]) } else { t });
            }
        }
        4 => {
            kind = "uf";
            ufs.push(("f".into(), vec!["Int"], "Int"));
            if r.chance(1, 2) {
                ufs.push(("g".into(), vec!["Int", "Int"], "Int"));
            }
            if r.chance(1, 2) {
                ufs.push(("h".into(), vec!["Int"], "Bool"));
            }
            if r.chance(1, 4) {
                ufs.push(("k".into(), vec!["Bool", "Int"], "Bool"));
            }
            maxc = 4;
        }
        5 => {
            kind = "boolean";
            ints.clear();
            bools = names(r, 2 + r.clone().idx(3), &["p", "q", "r", "s", "t"]);
            r.next();
        }
        6 => {
            kind = "bigconst";
            maxc = *r.pick(&[300i64, 70_000, 5_000_000_000, 9_000_000_000_000_000_000]);
        }
        8 => {
            kind = "bitvector";
            let w = *r.pick(&[1usize, 2, 3, 4, 4, 8, 13]);
            for i in 0..1 + r.idx(3) {
                bvs.push((format!("bv{}", i), if r.chance(1, 5) { 5 } else { w }));
            }
            ints.truncate(r.idx(3));
        }
        9 => {
            // many variables, in classes that differ in their bounds
            kind = "many";
            let n = 10 + r.idx(12);
            ints = (0..n).map(|i| format!("m{}", i)).collect();
            bools = (0..r.idx(14)).map(|i| format!("t{}", i)).collect();
            let cut = 1 + r.idx(n);
            for _ in 0..n + r.idx(n) {
                let side = r.chance(1, 2);
                let k = if side { cut } else { n - cut };
                if k < 2 {
                    continue;
                }
                let mut v = |r: &mut Rng| a(&ints[r.idx(k) + if side { 0 } else { cut }]);
                let (x, y) = (v(r), v(r));
                let op = *r.pick(&["<", "<=", ">", ">=", "=", "distinct"]);
                let c = if side { r.range(-3, 3) } else { r.range(-40, 40) };
                let t = if r.chance(1, 3) { app(op, [x, num(c)]) } else { app(op, [x, app("+", [y, num(c)])]) };
                let t = if r.chance(1, 6) { app("not", [t]) } else { t };
                asserts.push(if !bools.is_empty() && r.chance(1, 2) { app("or", [a(r.pick(&bools)), t]) } else { t });
            }
        }
        _ => {
            kind = "deep";
        }
    }
    if asserts.is_empty() {
        let n = if kind == "bitvector" { 1 + r.idx(6) } else { 1 + r.idx(3) };
        let depth = if kind == "deep" { 4 } else { 1 + r.idx(3) as u32 };
        let ite = r.chance(1, 2);
        for _ in 0..n {
            let mut g = Gen { r, ints: ints.clone(), bools: bools.clone(), ufs: ufs.clone(), bvs: bvs.clone(), maxc, lets: 3, ite };
            let t = g.boolean(depth);
            asserts.push(t);
        }
    }
    let mut decls = vec![];
    for x in &ints {
        decls.push(if r.chance(1, 2) { format!("(declare-fun {} () Int)", x) } else { format!("(declare-const {} Int)", x) });
    }
    for x in &bools {
        decls.push(format!("(declare-fun {} () Bool)", x));
    }
    for (x, w) in &bvs {
        decls.push(format!("(declare-fun {} () (_ BitVec {}))", x, w));
    }
    for (f, args, ret) in &ufs {
        decls.push(format!("(declare-fun {} ({}) {})", f, args.join(" "), ret));
    }
    Formula { decls, asserts, kind }
}
fn formula_text(sc: &J) -> String {
    let mut s = String::from("(set-logic QF_UFLIA)\n");
    for d in sc.ga("decls") {
        s.push_str(d.str().unwrap_or(""));
        s.push('\n');
    }
    for t in sc.ga("asserts") {
        s.push_str(&format!("(assert {})\n", t.str().unwrap_or("")));
    }
    s.push_str("(check-sat)\n");
    s
}

pub fn solver_script(r: &mut Rng) -> J {
    obj! {
        "seed" => r.next() >> 1, "shuffle" => r.chance(1, 4), "per_line" => *r.pick(&[1u64, 3, 10, 10, 1000]),
        "comments" => r.chance(1, 2), "banner" => r.chance(1, 2), "exit" => if r.chance(1, 8) { "zero" } else { "" },
    }
}

// ------------------------------------------------------------------------------------------ oracle
pub fn strip(text: &str) -> String {
    text.lines().filter(|l| !l.starts_with("(set-logic") && !l.starts_with("(check-sat")).collect::<Vec<_>>().join("\n")
}
fn truth(ctx: &mut Ctx, sc: &J) -> Sat {
    let t = strip(&formula_text(sc));
    ctx.z3().check(&t, 4000)
}
/// The verdict printed by `solve`: None when absent; Err when malformed.
fn printed(out: &[u8]) -> Result<Option<(Sat, String)>, String> {
    let t = String::from_utf8_lossy(out).into_owned();
    let mut pos = 0;
    let mut found = None;
    for l in t.split_inclusive('\n') {
        pos += l.len();
        match l.trim_end_matches('\n') {
            "sat" | "unsat" if found.is_some() => return Err("more than one verdict line".into()),
            "sat" => found = Some((Sat::Sat, t[pos..].to_string())),
            "unsat" => found = Some((Sat::Unsat, t[pos..].to_string())),
            _ => {}
        }
    }
    Ok(found)
}
/// Checks a printed model against the original formula: every completion must satisfy it.
fn model_ok(ctx: &mut Ctx, sc: &J, model: &str) -> Result<bool, String> {
    let m = sexp::parse_all(model).map_err(|e| format!("model does not parse: {}", e))?;
    let [S::L(defs)] = m.as_slice() else { return Err("model is not one list".into()) };
    let mut sorts: std::collections::HashMap<String, (Vec<S>, S)> = Default::default();
    let mut order = vec![];
    for d in sc.ga("decls") {
        let p = sexp::parse_all(d.str().unwrap_or("")).unwrap();
        let v = p[0].list().unwrap().to_vec();
        let name = sexp::unbar(v[1].atom().unwrap()).to_string();
        let (args, ret) = if v[0].is("declare-const") { (vec![], v[2].clone()) } else { (v[2].list().unwrap().to_vec(), v[3].clone()) };
        sorts.insert(name.clone(), (args, ret));
        order.push(p[0].clone());
    }
    let mut script = String::new();
    let mut seen = std::collections::HashSet::new();
    for d in defs {
        let v = d.list().ok_or("definition is not a list")?;
        if v.len() != 5 || !v[0].is("define-fun") {
            return Err(format!("unexpected entry {}", d));
        }
        let raw = v[1].atom().ok_or("bad name")?;
        let name = sexp::unbar(raw).to_string();
        let Some((args, ret)) = sorts.get(&name) else { return Err(format!("model defines undeclared symbol {}", name)) };
        if !seen.insert(name.clone()) {
            return Err(format!("model defines {} twice", name));
        }
        let ps: Vec<S> = v[2].list().ok_or("bad parameters")?.iter().map(|p| p.list().and_then(|l| l.get(1)).cloned().unwrap_or(a("?"))).collect();
        if &ps != args || &v[3] != ret {
            return Err(format!("wrong sort in {}", d));
        }
        // the model printer does not quote symbols; quote them here
        let mut w = v.to_vec();
        w[1] = a(format!("|{}|", name));
        script.push_str(&S::L(w).to_string());
        script.push('\n');
    }
    for d in order {
        let v = d.list().unwrap();
        if !seen.contains(sexp::unbar(v[1].atom().unwrap())) {
            script.push_str(&d.to_string());
            script.push('\n');
        }
    }
    let conj: Vec<String> = sc.ga("asserts").iter().map(|t| t.str().unwrap_or("").to_string()).collect();
    script.push_str(&format!("(assert (not (and true {})))\n", conj.join(" ")));
    let o = ctx.z3().raw(&format!("{}\n(check-sat)", script), 4000).unwrap_or_default();
    if o.contains("(error") {
        return Err(format!("model is ill-formed: {}", o.trim()));
    }
    match o.trim() {
        "unsat" => Ok(true),
        "sat" => Ok(false),
        _ => Ok(true), // oracle timeout: nothing claimed
    }
}
/// Short form of the model for messages.
fn short(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(300).collect()
}

pub struct Eager {
    pub which: &'static str,
}
impl Eager {
    fn base(&self, r: &mut Rng) -> J {
        let f = formula(r);
        let encode = self.which == "E04";
        let mut argv: Vec<String> = vec!["amzn-smt-eager-arithmetic".into()];
        if encode {
            argv.extend(["encode", "--instance", "in/a.smt2", "--cnf-outfile", "out.cnf"].map(String::from));
        } else {
            argv.extend(["solve", "--instance", "in/a.smt2"].map(String::from));
            if r.chance(1, 3) {
                argv.extend(["--solver".to_string(), r.pick(&["kissat", "cadical", "/opt/solver"]).to_string()]);
            }
        }
        let (rnd, heap) = (r.next() >> 1, r.next() >> 1);
        obj! {
            "kind" => f.kind,
            "decls" => f.decls,
            "asserts" => f.asserts.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
            "procs" => vec![proc_spec(BIN, &argv, rnd, heap)],
            "solver" => solver_script(r),
            "sched_seed" => r.next() >> 1,
            "pipe_cap" => *r.pick(&[65536u64, 65536, 4096, 16384]),
            "faults" => J::Arr(vec![]),
        }
    }
}
/// One line of statistics: vars, constraints, a_max, b_max, k, w, bound.
fn stats_line(l: &str) -> Result<(String, Vec<String>), String> {
    let bad = || format!("unreadable statistics: {}", l);
    let rest = l.strip_prefix("Partition '").ok_or_else(bad)?;
    let (name, rest) = rest.split_once("': stats: Stats { ").ok_or_else(bad)?;
    let rest = rest.strip_suffix(" bits").ok_or_else(bad)?;
    let rest = rest.replacen(" }", "", 1);
    let mut out = vec![];
    let names = ["vars", "constraints", "a_max", "b_max", "k", "w", "bound"];
    let parts: Vec<&str> = rest.split(", ").collect();
    if parts.len() != names.len() {
        return Err(bad());
    }
    for (p, n) in parts.iter().zip(names) {
        let (k, v) = p.split_once(": ").ok_or_else(bad)?;
        if k != n || v.is_empty() || !v.chars().all(|c| c.is_ascii_digit()) {
            return Err(bad());
        }
        out.push(v.to_string());
    }
    Ok((name.to_string(), out))
}
/// The bound as amzn-smt-prediction/scripts recompute it (they reject a difference of more than one bit).
fn script_bound(x: &[String]) -> Option<f64> {
    let f: Vec<f64> = x.iter().map(|t| t.parse::<f64>().ok()).collect::<Option<_>>()?;
    let (n, m, a, b, k, w) = (f[0], f[1], f[2], f[3], f[4], f[5]);
    let log = |x: f64| x.log2();
    let l = if k == 0.0 {
        log(n.min(m) * (b + 1.0) + 1.0)
    } else {
        k * log(a * w) + log(n + 2.0) + log((n + 1.0).min(m)) + log(b + 1.0)
    };
    Some((l + 1.0).ceil())
}
/// Reference statistics (vars, a_max, b_max, w per class, sorted) of formulas without functions, let,
/// ite and trivial atoms; None for the others.
fn reference_stats(sc: &J) -> Option<Vec<Vec<String>>> {
    use std::collections::BTreeMap;
    type Lin = (BTreeMap<String, i128>, i128);
    let mut ints = std::collections::HashSet::new();
    let mut bools = std::collections::HashSet::new();
    for d in sc.ga("decls") {
        let p = sexp::parse_all(d.str()?).ok()?;
        let v = p[0].list()?;
        let name = sexp::unbar(v[1].atom()?).to_string();
        let sort = v.last()?;
        if !v[0].is("declare-const") && !v[2].list()?.is_empty() {
            continue;
        }
        if sort.is("Int") {
            ints.insert(name);
        } else {
            bools.insert(name);
        }
    }
    fn lin(t: &S, ints: &std::collections::HashSet<String>) -> Option<Lin> {
        if let Some(x) = t.atom() {
            if let Ok(c) = x.parse::<i128>() {
                return Some((BTreeMap::new(), c));
            }
            let n = sexp::unbar(x).to_string();
            return if ints.contains(&n) { Some((BTreeMap::from([(n, 1)]), 0)) } else { None };
        }
        let v = t.list()?;
        let args: Vec<Lin> = v[1..].iter().map(|x| lin(x, ints)).collect::<Option<_>>()?;
        let add = |x: &mut Lin, y: &Lin, f: i128| {
            for (k, c) in &y.0 {
                *x.0.entry(k.clone()).or_insert(0) += f * c;
            }
            x.1 += f * y.1;
        };
        let mut out: Lin = Default::default();
        match t.head()? {
            "+" => args.iter().for_each(|x| add(&mut out, x, 1)),
            "-" if args.len() == 1 => add(&mut out, &args[0], -1),
            "-" => {
                add(&mut out, &args[0], 1);
                args[1..].iter().for_each(|x| add(&mut out, x, -1));
            }
            "*" if args.len() == 2 && args[0].0.is_empty() => add(&mut out, &args[1], args[0].1),
            "*" if args.len() == 2 && args[1].0.is_empty() => add(&mut out, &args[0], args[1].1),
            _ => return None,
        }
        Some(out)
    }
    fn atoms(t: &S, ints: &std::collections::HashSet<String>, bools: &std::collections::HashSet<String>, out: &mut Vec<Lin>) -> Option<()> {
        if let Some(x) = t.atom() {
            return if bools.contains(sexp::unbar(x)) { Some(()) } else { None };
        }
        let v = t.list()?;
        let h = t.head()?;
        match h {
            "and" | "or" | "not" | "=>" | "xor" => v[1..].iter().try_for_each(|x| atoms(x, ints, bools, out)),
            "<" | "<=" | ">" | ">=" | "=" | "distinct" => {
                let args: Option<Vec<Lin>> = v[1..].iter().map(|x| lin(x, ints)).collect();
                let Some(args) = args else {
                    return if h == "=" { v[1..].iter().try_for_each(|x| atoms(x, ints, bools, out)) } else { None };
                };
                for i in 0..args.len() {
                    for j in i + 1..args.len() {
                        if h != "distinct" && j != i + 1 {
                            continue;
                        }
                        let (mut m, mut c) = args[i].clone();
                        for (k, x) in &args[j].0 {
                            *m.entry(k.clone()).or_insert(0) -= x;
                        }
                        c -= args[j].1;
                        m.retain(|_, x| *x != 0);
                        if m.is_empty() {
                            return None;
                        }
                        out.push((m, c));
                    }
                }
                Some(())
            }
            _ => None,
        }
    }
    let mut cs = vec![];
    for t in sc.ga("asserts") {
        let p = sexp::parse_all(t.str()?).ok()?;
        atoms(&p[0], &ints, &bools, &mut cs)?;
    }
    // classes
    let mut class: BTreeMap<String, usize> = BTreeMap::new();
    let mut next = 0;
    for (m, _) in &cs {
        let ids: Vec<usize> = m.keys().filter_map(|k| class.get(k).copied()).collect();
        next += 1;
        for k in m.keys() {
            class.insert(k.clone(), next);
        }
        for x in class.values_mut() {
            if ids.contains(x) {
                *x = next;
            }
        }
    }
    let mut res: BTreeMap<usize, (i128, i128, i128, i128)> = BTreeMap::new();
    for c in class.values() {
        res.entry(*c).or_insert((0, 1, 0, 1)).0 += 1;
    }
    for (m, c) in &cs {
        let r = res.get_mut(&class[m.keys().next()?])?;
        r.1 = r.1.max(m.values().map(|x| x.abs()).max()?);
        r.2 = r.2.max(c.abs());
        r.3 = r.3.max(m.len() as i128);
    }
    let mut out: Vec<Vec<String>> = res.values().map(|r| vec![r.0.to_string(), r.1.to_string(), r.2.to_string(), r.3.to_string()]).collect();
    out.sort();
    Some(out)
}
impl Eager {
    fn exec_stats(&self, ctx: &mut Ctx, sc: &J, v: &mut Verdict) {
        let mut seen: Vec<(Vec<Vec<String>>, String)> = vec![];
        let mut hash = 0;
        for alt in [false, true] {
            if alt && sc.get("alt").is_none() {
                break;
            }
            let mut sc2 = sc.clone();
            sc2.set("files", J::Arr(vec![file("/w/in/a.smt2", formula_text(sc).as_bytes())]));
            if alt {
                let mut p = sc.ga("procs");
                p[0].set("rnd", sc.get("alt").unwrap().get("rnd").cloned().unwrap_or(J::Int(1)));
                p[0].set("heap", sc.get("alt").unwrap().get("heap").cloned().unwrap_or(J::Int(1)));
                sc2.set("procs", J::Arr(p));
            }
            let script = sc.get("solver").cloned().unwrap_or(J::Null);
            let o = {
                let mut w = setup(ctx, &sc2, Some(factory(&script)));
                w.fs.mkdirs("/opt");
                let fin = w.run();
                w.kill_all();
                absorb(v, &mut w, fin);
                if inconclusive(&w.outcomes[0], fin) {
                    v.tag("inconclusive");
                    return;
                }
                w.outcomes[0].clone()
            };
            hash = fnv(v.hash, &hash.to_string().into_bytes());
            v.hash = hash;
            let out = String::from_utf8_lossy(&o.out).into_owned();
            if !o.ok() {
                v.tag(format!("end:{}", o.describe()));
                return;
            }
            let mut lines = vec![];
            let mut labels = std::collections::HashSet::new();
            for l in out.lines().filter(|l| l.starts_with("Partition")) {
                match stats_line(l) {
                    Err(e) => {
                        v.fail("stats-format", e);
                        return;
                    }
                    Ok((name, x)) => {
                        if !labels.insert(name) {
                            v.fail("stats-class-twice", format!("a class of variables is listed twice: {}", l));
                            return;
                        }
                        let n = |i: usize| x[i].parse::<f64>().unwrap_or(0.0);
                        if let Some(b) = script_bound(&x) {
                            if (b - n(6)).abs() > 1.0 {
                                v.fail("stats-bound", format!("bound differs from the one the prediction scripts compute ({}): {}", b, l));
                                return;
                            }
                        }
                        if n(0) < 1.0 || n(1) < 1.0 || n(2) < 1.0 || n(5) < 1.0 || n(4) > n(1) || n(5) > n(0) {
                            v.fail("stats-impossible", format!("impossible statistics: {}", l));
                            return;
                        }
                        lines.push(x);
                    }
                }
            }
            lines.sort();
            let cnf = out.lines().find(|l| l.starts_with("CNF: ")).unwrap_or("").to_string();
            seen.push((lines, cnf));
        }
        v.tag(format!("family:{}", sc.gs("kind")));
        v.tag(format!("classes:{}", seen[0].0.len().min(5)));
        v.nontrivial = seen.len() == 2 && !seen[0].0.is_empty();
        v.key = fnv(v.hash, formula_text(sc).as_bytes());
        // An equation is counted once per orientation in which it occurs, and hash seeds decide how
        // generated equations are oriented: constraints, k and with them the bound are not compared exactly.
        let fixed = |s: &[Vec<String>]| {
            let mut f: Vec<Vec<String>> = s.iter().map(|x| vec![x[0].clone(), x[2].clone(), x[3].clone(), x[5].clone()]).collect();
            f.sort();
            f
        };
        if let Some(want) = reference_stats(sc) {
            v.tag("reference:compared");
            let got = fixed(&seen[0].0);
            if got != want {
                v.fail("stats-wrong", format!("printed (vars, a_max, b_max, w) {:?}, expected {:?}", got, want));
                return;
            }
        }
        let total = |s: &[Vec<String>], i: usize| s.iter().map(|x| x[i].parse::<u64>().unwrap_or(0)).sum::<u64>();
        let far = |i: usize| {
            let (x, y) = (total(&seen[0].0, i), total(&seen[1].0, i));
            x > 2 * y || y > 2 * x
        };
        if seen.len() == 2 && (fixed(&seen[0].0) != fixed(&seen[1].0) || far(1) || far(4)) {
            v.fail("stats-differ", format!("two runs print different statistics: {:?} / {:?}", seen[0].0, seen[1].0));
        }
    }
}
impl Prop for Eager {
    fn id(&self) -> &'static str {
        self.which
    }
    fn run_seed(&self, ctx: &mut Ctx, seed: u64, emit: Emit) {
        let mut r = Rng::derive(seed, &[fnv(0, self.which.as_bytes())]);
        let base = self.base(&mut r);
        let v = self.exec(ctx, &base);
        if !emit(&base, &v) {
            return;
        }
        match self.which {
            "E05" => {
                for _ in 0..2 {
                    let mut sc = base.clone();
                    sc.set("alt", obj! {"rnd" => r.next() >> 1, "heap" => r.next() >> 1});
                    sc.set("sched_seed", J::from(r.next() >> 1));
                    let v = self.exec(ctx, &sc);
                    if !emit(&sc, &v) {
                        return;
                    }
                }
            }
            "E01" | "E02" => {
                // same formula under another hash seed, heap layout, schedule and solver behaviour
                for _ in 0..2 {
                    let mut sc = base.clone();
                    let mut p = sc.ga("procs");
                    p[0].set("rnd", J::from(r.next() >> 1));
                    p[0].set("heap", J::from(r.next() >> 1));
                    sc.set("procs", J::Arr(p));
                    sc.set("solver", solver_script(&mut r));
                    sc.set("sched_seed", J::from(r.next() >> 1));
                    let v = self.exec(ctx, &sc);
                    if !emit(&sc, &v) {
                        return;
                    }
                }
            }
            _ => {
                let (counts, sizes, outlen) = self.dry(ctx, &base);
                for _ in 0..8 {
                    let mut sc = base.clone();
                    let mut script = base.get("solver").unwrap().clone();
                    let mut faults = vec![];
                    match r.idx(6) {
                        0 | 1 => {
                            let total: usize = sizes.iter().filter(|s| s.1 == "write.pipe").map(|s| s.3).sum();
                            let st = *r.pick(&[-9i64, -11, -6, 1, 0, 137]);
                            let n = match r.idx(4) {
                                0 => 0,
                                1 => total,
                                _ => r.idx(total + 1),
                            };
                            if self.which == "E03" && r.chance(2, 3) {
                                let n = if r.chance(1, 3) { outlen.saturating_sub(r.idx(30)) } else { r.idx(outlen + 1) };
                                script.set("die", obj! {"at" => "out", "n" => n, "status" => *r.pick(&[-9i64, -11, -15, 1])});
                            } else {
                                let st = if st == 0 { -9 } else { st };
                                script.set("die", obj! {"at" => "read", "n" => n, "status" => st});
                            }
                        }
                        2 if self.which == "E03" => {
                            script.set("garbage", J::from(*r.pick(&["empty", "comments", "unknown", "nomodel", "badtoken", "nonutf8", "timeout"])));
                        }
                        _ => {
                            for _ in 0..(1 + r.idx(2)) {
                                if let Some(f) = draw_fault(&mut r, 0, &counts, &sizes) {
                                    faults.push(f.to_json());
                                }
                            }
                            if r.chance(1, 25) {
                                script.set("missing", J::Bool(true));
                            }
                            if r.chance(1, 6) {
                                faults.clear();
                                let mut p = sc.ga("procs");
                                p[0].set("allocs", J::Int(r.range(20, 3000)));
                                sc.set("procs", J::Arr(p));
                            }
                        }
                    }
                    sc.set("solver", script);
                    sc.set("faults", J::Arr(faults));
                    let v = self.exec(ctx, &sc);
                    if !emit(&sc, &v) {
                        return;
                    }
                }
            }
        }
    }
    fn exec(&self, ctx: &mut Ctx, sc: &J) -> Verdict {
        let mut v = Verdict::default();
        if self.which == "E05" {
            self.exec_stats(ctx, sc, &mut v);
            return v;
        }
        let mut sc2 = sc.clone();
        let mut files = sc.ga("files");
        files.push(file("/w/in/a.smt2", formula_text(sc).as_bytes()));
        sc2.set("files", J::Arr(files));
        let script = sc.get("solver").cloned().unwrap_or(J::Null);
        let (fin, o, fired, cnf_out) = {
            let mut w = setup(ctx, &sc2, Some(factory(&script)));
            w.fs.mkdirs("/opt");
            let fin = w.run();
            w.kill_all();
            absorb(&mut v, &mut w, fin);
            let fired: Vec<Fault> = w.fired.iter().map(|&i| w.faults[i].clone()).collect();
            (fin, w.outcomes[0].clone(), fired, w.fs.get("/w/out.cnf").cloned())
        };
        v.tag(format!("family:{}", sc.gs("kind")));
        v.tag(format!("end:{}", o.describe()));
        if endless(&o, fin, &fired) {
            v.fail("does-not-terminate", o.describe());
            return v;
        }
        if inconclusive(&o, fin) {
            v.tag("inconclusive");
            return v;
        }
        let disturbed = fired.iter().any(|f| !benign(f))
            || script.get("die").is_some()
            || !script.gs("garbage").is_empty()
            || script.gb("missing")
            || sc.ga("procs")[0].gi("allocs") >= 0;
        if let Some(d) = script.get("die") {
            v.tag(format!("fault:solver-dies-{}", d.gs("at")));
        }
        if !script.gs("garbage").is_empty() {
            v.tag(format!("fault:solver-output-{}", script.gs("garbage")));
        }
        if sc.ga("procs")[0].gi("allocs") >= 0 {
            v.tag("fault:alloc-limit");
        }
        if fin == Finish::Deadlock {
            v.fail("hang", "the tool and the solver wait for each other forever");
            return v;
        }
        let t = truth(ctx, sc);
        v.tag(format!("truth:{:?}", t));
        let out = String::from_utf8_lossy(&o.out).into_owned();
        v.key = fnv(fnv(v.hash, self.which.as_bytes()), formula_text(sc).as_bytes());
        if self.which == "E04" {
            if o.ok() {
                let Some(cnf) = cnf_out else {
                    v.fail("no-output", "exit 0 but the CNF file does not exist");
                    return v;
                };
                match parse_dimacs(&String::from_utf8_lossy(&cnf)) {
                    Err(e) => v.fail("bad-cnf", format!("exit 0 but the CNF file is unusable: {}", e)),
                    Ok(c) => {
                        let got = match solve(&c, &mut Rng::new(1), 100_000) {
                            Answer::Sat(_) => Sat::Sat,
                            Answer::Unsat => Sat::Unsat,
                            Answer::Unknown => Sat::Unknown,
                        };
                        v.nontrivial = t != Sat::Unknown && got != Sat::Unknown;
                        v.tag(format!("cnf:{:?}", got));
                        if v.nontrivial && got != t {
                            v.fail("not-equisatisfiable", format!("formula is {:?}, encoded CNF is {:?}", t, got));
                        }
                    }
                }
            } else {
                let refuted = String::from_utf8_lossy(&o.err).contains("exit status: 20");
                if refuted && !disturbed {
                    v.nontrivial = t == Sat::Unsat;
                    if t == Sat::Sat {
                        v.fail("not-equisatisfiable", "formula is Sat, but minisat refutes the CNF it was given");
                    }
                } else if !disturbed && t != Sat::Unknown {
                    v.fail(format!("no-encoding {}", panic_site(&o.err)), format!("legal run ended with {}: {}", o.describe(), short(&String::from_utf8_lossy(&o.err))));
                } else {
                    v.nontrivial = true;
                }
            }
            return v;
        }
        let got = match printed(&o.out) {
            Err(e) => {
                v.fail("verdict-format", e);
                return v;
            }
            Ok(x) => x,
        };
        if let Some((g, _)) = &got {
            v.tag(format!("verdict:{:?}", g));
        }
        match (&got, self.which) {
            (Some((g, _)), "E01" | "E03") if t != Sat::Unknown && *g != t => {
                v.fail("wrong-verdict", format!("printed {:?}, but the formula is {:?}", g, t));
            }
            (Some((Sat::Sat, m)), "E02" | "E03") if o.ok() => match model_ok(ctx, sc, m) {
                Err(e) => v.fail("bad-model", format!("{}; model {}", e, short(m))),
                Ok(false) => v.fail("wrong-model", format!("model does not satisfy the formula: {}", short(m))),
                Ok(true) => {}
            },
            _ => {}
        }
        if o.ok() && got.is_none() {
            v.fail("exit0-no-verdict", "exit 0 but no verdict was printed");
        }
        let gave_up = out.contains("UNKNOWN") || String::from_utf8_lossy(&o.err).contains("s UNKNOWN");
        if !o.ok() && !disturbed && !gave_up && t != Sat::Unknown {
            v.fail(
                format!("no-verdict {}", panic_site(&o.err)),
                format!("legal run ended with {}: {}", o.describe(), short(&String::from_utf8_lossy(&o.err))),
            );
        }
        v.nontrivial = match self.which {
            "E01" => got.is_some() && t != Sat::Unknown,
            "E02" => matches!(got, Some((Sat::Sat, _))),
            _ => !fired.is_empty() || script.get("die").is_some() || !script.gs("garbage").is_empty() || script.gb("missing"),
        };
        v
    }
    fn shrink(&self, sc: &J) -> Vec<J> {
        let mut out = shrink_list(sc, "asserts", 0);
        out.extend(shrink_common(sc));
        for (k, dflt) in [("shuffle", J::Bool(false)), ("comments", J::Bool(false)), ("banner", J::Bool(false)), ("exit", J::from("")), ("per_line", J::Int(10)), ("seed", J::Int(1))] {
            let mut s = sc.get("solver").cloned().unwrap_or(J::Null);
            if s.get(k).is_some() && s.get(k) != Some(&dflt) {
                s.set(k, dflt);
                let mut c = sc.clone();
                c.set("solver", s);
                out.push(c);
            }
        }
        // replace a Boolean subterm structure by one of its parts
        let asserts = sc.ga("asserts");
        for (i, t) in asserts.iter().enumerate() {
            let Ok(p) = sexp::parse_all(t.str().unwrap_or("")) else { continue };
            for c in simpler(&p[0]) {
                let mut v = asserts.clone();
                v[i] = J::from(c.to_string());
                let mut s = sc.clone();
                s.set("asserts", J::Arr(v));
                out.push(s);
            }
        }
        // drop unused declarations
        let decls = sc.ga("decls");
        let used: String = asserts.iter().map(|t| t.str().unwrap_or("").to_string() + " ").collect();
        for (i, d) in decls.iter().enumerate() {
            let name = sexp::parse_all(d.str().unwrap_or("")).ok().and_then(|p| p[0].list().map(|v| v[1].to_string())).unwrap_or_default();
            if !used.contains(&name) {
                let mut v = decls.clone();
                v.remove(i);
                let mut s = sc.clone();
                s.set("decls", J::Arr(v));
                out.push(s);
            }
        }
        out
    }
    fn quick_seeds(&self) -> u64 {
        match self.which {
            "E01" | "E02" => 3600,
            "E05" => 2000,
            _ => 1000,
        }
    }
    fn rule(&self) -> &'static str {
        match self.which {
            "E01" => "distinct (formula, event history) pairs in which the tool printed a verdict that the oracle could decide",
            "E02" => "distinct (formula, event history) pairs in which a model was printed and evaluated against the original formula",
            "E05" => "distinct (formula, pair of event histories) in which statistics of at least one class were printed and compared",
            "E03" => "distinct (formula, event history) pairs in which at least one injected fault reached an operation the tool performed",
            _ => "distinct (formula, event history) pairs in which a CNF was delivered and compared, or an injected fault made the run fail",
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "z3 4.8.12 decides the generated formulas correctly (timeouts are counted as inconclusive)".into(),
            "formulas come from the generator's QF_UFLIA families; other inputs are not explored".into(),
            "libc calls are the program's only channel to the outside world; inline system calls would escape the shim".into(),
        ]
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["amzn-smt-eager-arithmetic binary (all of main.rs, lib.rs, canonicalize.rs, stats.rs, encoding.rs and aws-smt-ir)", "Rust std I/O, process and collection code"]
    }
    fn stubbed(&self) -> Vec<&'static str> {
        vec!["SAT solver / minisat child process (scripted CDCL in the simulator)", "file system, pipes, clock, entropy, memory placement"]
    }
}
impl Eager {
    fn dry(&self, ctx: &mut Ctx, sc: &J) -> (std::collections::BTreeMap<String, u32>, Vec<(usize, String, u32, usize)>, usize) {
        let mut sc2 = sc.clone();
        sc2.set("files", J::Arr(vec![file("/w/in/a.smt2", formula_text(sc).as_bytes())]));
        let script = sc.get("solver").cloned().unwrap();
        let mut w = setup(ctx, &sc2, Some(factory(&script)));
        w.run();
        w.kill_all();
        // length of the solver's answer, from its declared variable count
        let out = String::from_utf8_lossy(&w.outcomes[0].out).into_owned();
        let vars: usize = out.lines().find_map(|l| l.strip_prefix("CNF: ")).and_then(|l| l.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(10);
        (w.op_counts[0].clone(), w.write_sizes.clone(), 30 + vars * 5)
    }
}
/// Structurally smaller Boolean terms.
fn simpler(t: &S) -> Vec<S> {
    let mut out = vec![];
    if let S::L(v) = t {
        let h = v[0].atom().unwrap_or("");
        match h {
            "and" | "or" | "not" | "=>" | "xor" => {
                out.extend(v[1..].iter().cloned());
                if v.len() > 3 {
                    for i in 1..v.len() {
                        let mut w = v.clone();
                        w.remove(i);
                        out.push(S::L(w));
                    }
                }
            }
            "+" | "-" => {
                out.extend(v[1..].iter().cloned());
                out.push(a("0"));
            }
            "=" | "<" | "<=" | ">" | ">=" | "distinct" if v.len() > 3 => {
                for i in 1..v.len() {
                    let mut w = v.clone();
                    w.remove(i);
                    out.push(S::L(w));
                }
            }
            _ => {}
        }
        for i in 1..v.len() {
            if h == "let" && i == 1 {
                continue;
            }
            for c in simpler(&v[i]) {
                let mut w = v.clone();
                w[i] = c;
                out.push(S::L(w));
            }
        }
    } else if let S::A(s) = t {
        if let Ok(x) = s.parse::<u64>() {
            if x > 1 {
                out.push(a((x / 2).to_string()));
                out.push(a("1"));
            }
        }
    }
    out
}
