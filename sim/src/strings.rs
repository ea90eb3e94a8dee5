//! Checks for amzn-smt-string-transformer: convert, reconstruct and sub-formula run as real
//! processes, alone, in sequences sharing a global map, concurrently and under faults.
use crate::json::J;
use crate::obj;
use crate::oracle::{self, Sat};
use crate::prop::*;
use crate::rng::{fnv, Rng};
use crate::scen::*;
use crate::sem;
use crate::sexp::{self, a, app, unbar, S};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const BIN: &str = "amzn-smt-string-transformer";

// --------------------------------------------------------------------------------------- generator
/// What a query may contain.
#[derive(Clone, Debug)]
pub struct Ops {
    pub names: Vec<&'static str>,
    pub kind: &'static str,
    pub lets: bool,
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub ops: Ops,
    pub strs: Vec<String>,
    pub ints: Vec<String>,
    pub bools: Vec<String>,
    pub lits: Vec<String>,
    pub ranges: Vec<(char, char)>,
    pub lets: u32,
}
pub fn num(n: i64) -> S {
    if n < 0 {
        app("-", [a((-(n as i128)).to_string())])
    } else {
        a(n.to_string())
    }
}
fn slit(s: &str) -> S {
    S::Str(s.to_string())
}
impl Gen<'_> {
    fn has(&self, n: &str) -> bool {
        self.ops.names.contains(&n)
    }
    pub fn lit(&mut self) -> S {
        let l = self.lits.clone();
        slit(self.r.pick(&l))
    }
    fn var(&mut self) -> S {
        let v = self.strs.clone();
        a(self.r.pick(&v).clone())
    }
    pub fn string(&mut self, d: u32) -> S {
        let mut c: Vec<&str> = vec!["var", "var", "lit", "lit"];
        if d > 0 {
            for o in ["str.++", "str.at", "str.substr", "str.replace", "str.replace_all", "str.replace_re", "str.from_int", "str.from_code"] {
                if self.has(o) {
                    c.push(o);
                    c.push(o);
                }
            }
            if self.has("site") {
                c.push("site");
            }
        }
        match *self.r.pick(&c) {
            "lit" => self.lit(),
            "str.++" => {
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.string(d - 1)).collect();
                app("str.++", v)
            }
            "str.at" => {
                let s = self.string(d - 1);
                let i = self.int(d - 1);
                app("str.at", [s, i])
            }
            "str.substr" => {
                let s = self.string(d - 1);
                let (i, j) = (self.int(0), self.int(0));
                app("str.substr", [s, i, j])
            }
            o @ ("str.replace" | "str.replace_all") => {
                let v: Vec<S> = (0..3).map(|_| self.string(d - 1)).collect();
                app(o, v)
            }
            "str.replace_re" => {
                let (s, r, t) = (self.string(d - 1), self.re(1), self.string(d - 1));
                app("str.replace_re", [s, r, t])
            }
            "str.from_code" => {
                let i = if self.r.chance(1, 2) { num(self.r.range(40, 110)) } else { self.int(d - 1) };
                app("str.from_code", [i])
            }
            "str.from_int" => {
                let i = self.int(d - 1);
                app("str.from_int", [i])
            }
            "site" => {
                let c = self.boolean(0);
                let (x, y) = (self.string(d - 1), self.string(d - 1));
                app("ite", [c, x, y])
            }
            _ => self.var(),
        }
    }
    pub fn int(&mut self, d: u32) -> S {
        let mut c = vec!["num"];
        if !self.ints.is_empty() {
            c.push("var");
        }
        if d > 0 {
            for o in ["str.len", "str.indexof", "str.to_int", "str.to_code"] {
                if self.has(o) {
                    c.push(o);
                    c.push(o);
                }
            }
        }
        match *self.r.pick(&c) {
            "var" => {
                let v = self.ints.clone();
                a(self.r.pick(&v).clone())
            }
            "str.len" => {
                let s = self.string(d - 1);
                app("str.len", [s])
            }
            o @ ("str.to_int" | "str.to_code") => {
                let s = self.string(d - 1);
                app(o, [s])
            }
            "str.indexof" => {
                let (s, t) = (self.string(d - 1), self.string(d - 1));
                let i = num(self.r.range(0, 2));
                app("str.indexof", [s, t, i])
            }
            _ => match self.r.idx(6) {
                0 => {
                    let (x, y) = (self.int(0), num(self.r.range(0, 4)));
                    app(*self.r.pick(&["+", "-"]), [x, y])
                }
                1 => num(-self.r.range(1, 2)),
                2 | 3 => self.telling(),
                _ => num(self.r.range(0, 4)),
            },
        }
    }
    pub fn re(&mut self, d: u32) -> S {
        let mut c = vec![];
        if self.has("str.to_re") {
            c.push("lit");
            c.push("lit");
        }
        if self.has("re.range") {
            c.push("range");
        }
        if self.has("re.allchar") {
            c.push("allchar");
        }
        if d > 0 {
            for o in ["re.++", "re.union", "re.*", "re.+", "re.opt", "re.loop", "re.^", "re.all", "re.none", "re.inter", "re.diff", "re.comp"] {
                if self.has(o) {
                    c.push(o);
                    c.push(o);
                }
            }
        }
        if c.is_empty() {
            c.push("re.all");
        }
        match *self.r.pick(&c) {
            "lit" => {
                let l = self.lit();
                app("str.to_re", [l])
            }
            "range" => {
                let v = self.ranges.clone();
                let (x, y) = *self.r.pick(&v);
                app("re.range", [slit(&x.to_string()), slit(&y.to_string())])
            }
            "allchar" => a("re.allchar"),
            o @ ("re.all" | "re.none") => a(o),
            "re.diff" => {
                let (x, y) = (self.re(d - 1), self.re(d - 1));
                app("re.diff", [x, y])
            }
            "re.^" => {
                let x = self.re(d - 1);
                let n = self.r.range(0, 3);
                S::L(vec![S::L(vec![a("_"), a("re.^"), num(n)]), x])
            }
            o @ ("re.++" | "re.union" | "re.inter") => {
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.re(d - 1)).collect();
                app(o, v)
            }
            "re.loop" => {
                let x = self.re(d - 1);
                let lo = self.r.range(0, 2);
                let hi = lo + self.r.range(0, 2);
                S::L(vec![S::L(vec![a("_"), a("re.loop"), num(lo), num(hi)]), x])
            }
            o => {
                let x = self.re(d - 1);
                app(o, [x])
            }
        }
    }
    pub fn atom(&mut self) -> S {
        let mut c = vec![];
        for o in ["=", "distinct", "str.prefixof", "str.suffixof", "str.contains", "str.in_re", "intcmp", "str.is_digit", "booleq", "str.<", "str.<=", "code"] {
            if self.has(o) {
                c.push(o);
            }
        }
        if !self.bools.is_empty() {
            c.push("bool");
        }
        let d = if self.has("nested") { 2 } else { 0 };
        match *self.r.pick(&c) {
            o @ ("=" | "distinct") => {
                let n = if self.r.chance(1, 5) { 3 } else { 2 };
                let mut v: Vec<S> = (0..n).map(|_| self.string(d)).collect();
                if v.iter().all(|x| matches!(x, S::Str(_))) || (d == 0 && self.r.chance(1, 2)) {
                    v[0] = self.var();
                }
                app(o, v)
            }
            o @ ("str.prefixof" | "str.suffixof") => {
                let l = if self.has("varpat") { self.string(d) } else { self.lit() };
                let x = if self.has("nested") { self.string(d) } else { self.var() };
                app(o, [l, x])
            }
            "str.contains" => {
                let l = if self.has("varpat") { self.string(d) } else { self.lit() };
                let x = if self.has("nested") { self.string(d) } else { self.var() };
                app("str.contains", [x, l])
            }
            "str.in_re" => {
                let x = if self.has("nested") { self.string(d) } else { self.var() };
                let re = self.re(2);
                app("str.in_re", [x, re])
            }
            "intcmp" => {
                let o = *self.r.pick(&["=", "<", "<=", ">", ">="]);
                let (x, y) = (self.int(1 + d), self.int(0));
                app(o, [x, y])
            }
            "str.is_digit" => {
                let x = self.string(d);
                app("str.is_digit", [x])
            }
            o @ ("str.<" | "str.<=") => {
                let (x, y) = (self.string(d), self.string(d));
                app(o, [x, y])
            }
            "code" => {
                let o = *self.r.pick(&["=", "<", "<="]);
                let x = self.string(0);
                app(o, [app("str.to_code", [x]), num(self.r.range(40, 110))])
            }
            "booleq" => {
                let x = self.boolean(0);
                let y = match self.r.idx(3) {
                    0 => a(self.bools.first().cloned().unwrap_or("true".into())),
                    1 => a(*self.r.pick(&["true", "false"])),
                    _ => self.boolean(0),
                };
                match self.r.idx(5) {
                    0 => app("=", [y, x]),
                    1 => app("xor", [x, y]),
                    2 => app("distinct", [x, y]),
                    _ => app("=", [x, y]),
                }
            }
            _ => {
                let v = self.bools.clone();
                a(self.r.pick(&v).clone())
            }
        }
    }
    /// A number that one of the literals makes interesting: its value, length or code.
    fn telling(&mut self) -> S {
        let l = self.lits.clone();
        let l = self.r.pick(&l).clone();
        if self.has("str.to_int") || self.has("str.from_int") {
            if let (Ok(n), false) = (l.parse::<u32>(), l.starts_with('+')) {
                return num(n as i64);
            }
        }
        let n = l.chars().count() as i64;
        match self.r.idx(6) {
            0 => num(n + 1),
            1 => num((n - 1).max(0)),
            2 if self.has("str.to_code") => num(l.chars().next().map_or(-1, |c| c as i64)),
            _ => num(n),
        }
    }
    /// One constraint on a variable.
    fn dense(&mut self) -> S {
        let c: Vec<&str> = self.ops.names.iter().copied().filter(|o| !matches!(*o, "nested" | "varpat" | "booleq" | "code" | "str.to_re") && !o.starts_with("re.")).collect();
        let o = *self.r.pick(&c);
        let (x, l) = (self.var(), self.lit());
        let n = if self.r.chance(1, 2) { self.telling() } else { num(self.r.range(0, 6)) };
        let cmp = *self.r.pick(&["=", "=", "<=", "<", ">="]);
        let t = match o {
            "=" => app("=", [x, l]),
            "distinct" => {
                let m = self.lit();
                app("distinct", [x, l, m])
            }
            "str.prefixof" | "str.suffixof" | "str.contains" => {
                let (mut p, mut q) = (l, x);
                if self.has("varpat") {
                    match self.r.idx(3) {
                        0 => std::mem::swap(&mut p, &mut q),
                        1 => p = self.var(),
                        _ => {}
                    }
                }
                if o == "str.contains" {
                    app(o, [q, p])
                } else {
                    app(o, [p, q])
                }
            }
            "str.in_re" => {
                let re = self.re(2);
                app(o, [x, re])
            }
            "str.<" | "str.<=" => {
                if self.r.chance(1, 2) {
                    app(o, [x, l])
                } else {
                    app(o, [l, x])
                }
            }
            "str.is_digit" => app(o, [x]),
            "str.len" | "intcmp" => app(cmp, [app("str.len", [x]), n]),
            "str.to_int" | "str.to_code" => {
                let n = if self.r.chance(1, 2) { self.telling() } else { num(self.r.range(-1, 110)) };
                app(cmp, [app(o, [x]), n])
            }
            "str.from_int" | "str.from_code" => {
                let n = if self.r.chance(1, 2) { self.telling() } else { num(self.r.range(0, 110)) };
                app("=", [x, app(o, [n])])
            }
            "str.indexof" => {
                let (k, m) = (num(self.r.range(0, 2)), num(self.r.range(-1, 3)));
                app(cmp, [app(o, [x, l, k]), m])
            }
            "str.at" => {
                let (k, m) = (num(self.r.range(0, 3)), self.lit());
                let m = match m {
                    S::Str(m) => slit(&m.chars().take(1).collect::<String>()),
                    m => m,
                };
                app("=", [app(o, [x, k]), m])
            }
            "str.substr" => {
                let (k, m) = (num(self.r.range(0, 2)), num(self.r.range(1, 3)));
                app("=", [app(o, [x, k, m]), l])
            }
            "str.replace" | "str.replace_all" => {
                let (m, k) = (self.lit(), self.lit());
                app("=", [app(o, [x, l, m]), k])
            }
            "str.replace_re" => {
                let (re, m) = (self.re(1), self.lit());
                app("=", [app(o, [x, re, l]), m])
            }
            "str.++" => {
                let (y, m, k) = (self.var(), self.lit(), self.lit());
                match self.r.idx(4) {
                    0 => app("=", [app(o, [x, l]), app(o, [m, k])]),
                    1 => app("=", [app(o, [x, l]), app(o, [m, y])]),
                    2 => app("=", [app(o, [x, y]), app(o, [l, m])]),
                    _ => app("=", [app(o, [l, x, m]), app(o, [k, y])]),
                }
            }
            _ => app("=", [x, l]),
        };
        if self.r.chance(1, 5) {
            app("not", [t])
        } else {
            t
        }
    }
    pub fn boolean(&mut self, d: u32) -> S {
        if d == 0 {
            let t = self.atom();
            return if self.r.chance(1, 4) { app("not", [t]) } else { t };
        }
        match self.r.idx(if self.ops.lets && self.lets > 0 { 8 } else { 7 }) {
            0 | 1 => {
                let o = *self.r.pick(&["and", "or"]);
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d - 1)).collect();
                app(o, v)
            }
            2 => {
                let x = self.boolean(d - 1);
                app("not", [x])
            }
            3 => {
                let (x, y) = (self.boolean(d - 1), self.boolean(d - 1));
                app("=>", [x, y])
            }
            4 => {
                let (x, y, z) = (self.boolean(0), self.boolean(d - 1), self.boolean(d - 1));
                app("ite", [x, y, z])
            }
            7 => {
                self.lets -= 1;
                let name = format!("l{}", self.lets);
                let isstr = self.ops.names.contains(&"stringlet") && self.r.chance(2, 3);
                let v = if isstr { self.string(1) } else { self.boolean(0) };
                let saved = (self.strs.clone(), self.ints.clone(), self.bools.clone());
                for l in [&mut self.strs, &mut self.ints, &mut self.bools] {
                    l.retain(|x| *x != name);
                }
                if isstr {
                    self.strs.push(name.clone());
                } else {
                    self.bools.push(name.clone());
                }
                if self.strs.is_empty() {
                    self.strs.push("sx".into());
                }
                let b = self.boolean(d - 1);
                (self.strs, self.ints, self.bools) = saved;
                app("let", [S::L(vec![S::L(vec![a(name), v])]), b])
            }
            _ => self.boolean(0),
        }
    }
}

pub fn families() -> Vec<Ops> {
    let o = |kind, names: &[&'static str]| Ops { kind, names: names.to_vec(), lets: false };
    vec![
        o("eq", &["=", "distinct", "booleq"]),
        o("len", &["=", "distinct", "intcmp", "str.len"]),
        o("prefix", &["=", "str.prefixof"]),
        o("suffix", &["=", "str.suffixof"]),
        o("contains", &["=", "str.contains", "booleq"]),
        o("affix", &["=", "distinct", "str.prefixof", "str.suffixof", "str.contains"]),
        o("affixlen", &["=", "str.prefixof", "str.suffixof", "intcmp", "str.len"]),
        o("varpat", &["=", "str.prefixof", "str.contains", "varpat"]),
        o("re", &["=", "str.in_re", "str.to_re", "re.union", "re.*"]),
        o("recat", &["=", "str.in_re", "str.to_re", "re.union", "re.*", "re.++", "re.opt", "re.allchar", "re.loop"]),
        o("rerange", &["=", "str.in_re", "str.to_re", "re.union", "re.*", "re.range"]),
        o("rerangecat", &["str.in_re", "str.to_re", "re.union", "re.*", "re.range", "re.++"]),
        o("concat", &["=", "str.++", "nested"]),
        o("at", &["=", "str.at", "nested", "intcmp"]),
        o("substr", &["=", "str.substr", "nested"]),
        o("replace", &["=", "str.replace", "nested"]),
        o("indexof", &["=", "str.indexof", "intcmp"]),
        o("toint", &["=", "str.to_int", "str.from_int", "intcmp", "nested"]),
        o("isdigit", &["=", "str.is_digit"]),
        o("digits", &["=", "distinct", "str.is_digit", "str.to_int", "intcmp"]),
        o("digits2", &["=", "str.is_digit", "str.from_int", "str.to_int", "intcmp", "nested", "str.len", "str.at"]),
        o("intrange", &["=", "str.in_re", "str.to_re", "re.union", "re.*", "re.range", "str.to_int", "intcmp", "str.is_digit"]),
        o("lenrange", &["=", "str.in_re", "str.to_re", "re.++", "re.*", "re.range", "str.len", "intcmp"]),
        o("affixes", &["str.prefixof", "str.suffixof", "str.contains", "str.len", "intcmp"]),
        o("substrlen", &["str.substr", "str.contains", "str.prefixof", "str.suffixof", "intcmp", "str.len"]),
        o("lex", &["=", "str.<", "str.<=", "str.prefixof"]),
        o("code", &["=", "code", "str.to_code", "str.from_code", "nested", "intcmp"]),
        o("replall", &["=", "str.replace_all", "nested"]),
        o("replre", &["=", "str.replace_re", "nested", "str.to_re", "re.union"]),
        o("reset", &["=", "str.in_re", "str.to_re", "re.union", "re.inter", "re.diff", "re.comp", "re.*"]),
        o("resetcat", &["=", "str.in_re", "str.to_re", "re.union", "re.inter", "re.comp", "re.++", "re.all", "re.none", "re.^", "re.allchar"]),
        Ops { kind: "boollet", names: vec!["=", "distinct", "str.prefixof", "str.++", "nested", "intcmp", "str.len"], lets: true },
        o("mixed", &["=", "booleq", "distinct", "str.prefixof", "str.suffixof", "str.contains", "intcmp", "str.len", "str.++", "str.in_re", "str.to_re", "re.union", "re.*", "re.++", "nested"]),
    ]
}

pub fn literals(r: &mut Rng, n: usize) -> Vec<String> {
    let alpha: Vec<char> = match r.idx(8) {
        5 => (' '..='~').filter(|c| *c != '"' && *c != '\\').collect(),
        6 => "azAZ09_-".chars().collect(),
        0 => "ab".chars().collect(),
        1 => "abc#".chars().collect(),
        2 => "a:/*".chars().collect(),
        3 => "019a".chars().collect(),
        4 => "Ab $%&'(".chars().collect(),
        _ => "abcdefghij".chars().collect(),
    };
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(1, 3) {
            let base = r.pick(&v).clone();
            let c: Vec<char> = base.chars().collect();
            let t = match r.idx(4) {
                0 if c.len() > 1 => c[..1 + r.idx(c.len() - 1)].iter().collect(),
                1 if c.len() > 1 => c[1 + r.idx(c.len() - 1)..].iter().collect(),
                2 => format!("{}{}", base, r.pick(&alpha)),
                _ => format!("{}{}", r.pick(&alpha), base),
            };
            v.push(t);
            continue;
        }
        let len = if r.chance(1, 12) {
            0
        } else if alpha.len() > 50 && r.chance(1, 2) {
            10 + r.idx(30)
        } else {
            1 + r.idx(4)
        };
        v.push((0..len).map(|_| *r.pick(&alpha)).collect());
    }
    v
}

/// What the queries of one history share.
#[derive(Clone)]
pub struct Pool {
    pub lits: Vec<String>,
    pub ranges: Vec<(char, char)>,
    /// Few variables under many constraints over literals that share characters.
    pub dense: bool,
    /// All ranges occur.
    pub wide: bool,
    /// Fixed values and true statements about them.
    pub facts: bool,
}
impl Pool {
    pub fn draw(r: &mut Rng) -> Pool {
        if r.chance(1, 16) {
            // many characters in several ranges
            let mut ranges = vec![('A', 'Z'), ('0', '9'), ('a', 'z'), ('!', '/'), ('[', '`'), (':', '@')];
            r.shuffle(&mut ranges);
            ranges.truncate(2 + r.idx(3));
            ranges.retain(|x| !(*x == ('!', '/') || *x == ('[', '`')) || r.chance(1, 2));
            ranges.push(('a', 'z'));
            let n = 2 + r.idx(3);
            let lits = (0..n)
                .map(|_| {
                    let (lo, hi) = *r.pick(&ranges);
                    let mut c: Vec<char> = (lo..=hi).filter(|c| !"\"\\".contains(*c)).collect();
                    r.shuffle(&mut c);
                    c.truncate(4 + r.idx(23));
                    c.into_iter().collect()
                })
                .collect();
            return Pool { lits, ranges, dense: r.chance(1, 2), wide: true, facts: false };
        }
        let dense = r.chance(1, 3);
        let lits = if dense {
            let alpha: Vec<char> = r.pick(&["ab", "ab", "abc", "01", "a0", "b#"]).chars().collect();
            (0..3 + r.idx(5)).map(|_| (0..1 + r.idx(4)).map(|_| *r.pick(&alpha)).collect()).collect()
        } else {
            let nl = 1 + r.idx(5);
            literals(r, nl)
        };
        let ranges = {
            let all = [('a', 'c'), ('0', '9'), ('a', 'z'), ('b', 'e'), ('A', 'Z'), ('x', 'z'), ('1', '5'), (' ', '~'), ('0', 'z'), ('a', 'a'), ('#', '/'), ('c', 'a'), ('f', 'q')];
            let n = 1 + r.idx(3);
            (0..n)
                .map(|_| match r.idx(4) {
                    0 => {
                        let lo = r.range(32, 120);
                        let hi = (lo + if r.chance(1, 2) { r.range(0, 8) } else { r.range(0, 70) }).min(126);
                        (lo as u8 as char, hi as u8 as char)
                    }
                    _ => *r.pick(&all),
                })
                .filter(|(x, y)| !"\"\\".contains(*x) && !"\"\\".contains(*y))
                .chain([('a', 'c')])
                .take(n)
                .collect()
        };
        Pool { lits, ranges, dense, wide: false, facts: r.chance(1, 6) }
    }
    /// Some of the same literals, maybe a few new ones; maybe other ranges.
    pub fn vary(&self, r: &mut Rng) -> Pool {
        let mut p = self.clone();
        r.shuffle(&mut p.lits);
        p.lits.truncate(1 + r.idx(self.lits.len()));
        if r.chance(1, 2) {
            let n = 1 + r.idx(2);
            if self.dense {
                p.lits.extend(Pool::draw(r).lits.into_iter().take(n));
            } else {
                p.lits.extend(literals(r, n));
            }
        }
        if r.chance(1, 2) {
            p.ranges = Pool::draw(r).ranges;
        }
        p
    }
}

/// Variables with fixed values and true statements about them (one of them maybe denied): whatever
/// requirement on the literals goes lost, the answer changes.
fn facts(r: &mut Rng, ops: &Ops, pool: &Pool) -> Vec<String> {
    let names: Vec<&str> = ["x", "y"][..1 + r.idx(2)].to_vec();
    let mut env = sem::Env::new();
    let mut cmds: Vec<String> = vec![];
    let mut lits: Vec<String> = pool.lits.iter().filter(|l| !l.is_empty() && l.len() <= 30).cloned().collect();
    if ops.names.contains(&"str.to_int") && r.chance(1, 2) {
        lits = (0..2).map(|_| r.range(0, 120).to_string()).collect();
    }
    if lits.is_empty() {
        lits.push("ab".into());
    }
    for x in &names {
        cmds.push(format!("(declare-const {} String)", x));
        let l = r.pick(&lits).clone();
        env.insert(x.to_string(), sem::V::S(l.chars().collect()));
    }
    let val = |t: &S, env: &sem::Env| -> Option<S> {
        Some(match sem::ev(t, env)? {
            sem::V::S(c) => slit(&c.iter().collect::<String>()),
            sem::V::I(n) => num(n),
            sem::V::B(b) => a(if b { "true" } else { "false" }),
        })
    };
    let mut asserts: Vec<S> = names.iter().map(|x| app("=", [a(*x), val(&a(*x), &env).unwrap()])).collect();
    let n = 1 + r.idx(3);
    let mut done = 0;
    for _ in 0..20 {
        if done == n {
            break;
        }
        let x = *r.pick(&names);
        let Some(sem::V::S(v)) = env.get(x).cloned() else { continue };
        let len = v.len();
        let i = r.idx(len);
        let k = 1 + r.idx(len - i);
        let sub: String = v[i..i + k].iter().collect();
        let other = r.pick(&lits).clone();
        let x = a(x);
        let o = *r.pick(&ops.names);
        let t = match o {
            "str.len" | "intcmp" => app("str.len", [x]),
            "str.prefixof" => app(o, [slit(&if r.chance(2, 3) { v[..k].iter().collect::<String>() } else { other }), x]),
            "str.suffixof" => app(o, [slit(&if r.chance(2, 3) { v[i..].iter().collect::<String>() } else { other }), x]),
            "str.contains" => app(o, [x, slit(&if r.chance(2, 3) { sub } else { other })]),
            "str.at" => app(o, [x, num(i as i64)]),
            "str.substr" => app(o, [x, num(i as i64), num(k as i64)]),
            "str.indexof" => app(o, [x, slit(&sub), num(r.range(0, 2))]),
            "str.to_int" | "str.to_code" | "str.is_digit" => app(o, [x]),
            "str.replace" | "str.replace_all" => app(o, [x, slit(&sub), slit(&other)]),
            "str.++" => {
                let (l, m) = (slit(&v[..i].iter().collect::<String>()), slit(&v[i..].iter().collect::<String>()));
                app("=", [app(o, [l, m]), x])
            }
            "str.<" | "str.<=" => app(o, [x, slit(&other)]),
            "str.in_re" => {
                let (l, m) = (slit(&v[..i].iter().collect::<String>()), slit(&v[i..].iter().collect::<String>()));
                let (lo, hi) = *r.pick(&pool.ranges);
                let rg = || app("re.range", [slit(&lo.to_string()), slit(&hi.to_string())]);
                let lit = |l: S| app("str.to_re", [l]);
                let h = |n: &str| ops.names.contains(&n);
                let re = match r.idx(5) {
                    0 if h("re.range") => app("re.*", [rg()]),
                    1 if h("re.range") && h("re.++") => app("re.++", [lit(l), app("re.*", [rg()])]),
                    2 if h("re.++") => app("re.++", [lit(l), lit(m)]),
                    3 if h("re.allchar") => app("re.++", [lit(l), a("re.allchar"), app("re.*", [a("re.allchar")])]),
                    _ if h("re.union") => app("re.union", [lit(slit(&other)), lit(m), lit(slit(&sub))]),
                    _ => app("re.*", [lit(slit(&sub))]),
                };
                app(o, [x, re])
            }
            _ => continue,
        };
        let Some(c) = val(&t, &env) else { continue };
        asserts.push(match c.atom() {
            Some("true") => t,
            Some("false") => app("not", [t]),
            _ if o == "str.len" && r.chance(1, 3) => app("<=", [t, c]),
            _ => app("=", [t, c]),
        });
        done += 1;
    }
    let ns = names.len();
    if asserts.len() > ns && r.chance(1, 3) {
        let k = ns + r.idx(asserts.len() - ns);
        asserts[k] = app("not", [asserts[k].clone()]);
    } else {
        let w: Vec<String> = names.iter().map(|x| format!("({} {})", x, val(&a(*x), &env).unwrap())).collect();
        cmds.insert(0, format!("{}{}", WITNESS, w.join(" ")));
    }
    cmds.extend(asserts.iter().map(|t| format!("(assert {})", t)));
    cmds.push("(check-sat)".into());
    cmds
}

/// A query: list of commands.
pub fn query(r: &mut Rng, ops: &Ops, pool: &Pool) -> Vec<String> {
    if pool.facts && !ops.lets {
        return facts(r, ops, pool);
    }
    let dense = pool.dense && !ops.lets;
    let mut ns = 1 + r.idx(if dense { 2 } else { 3 });
    let mut names: Vec<&str> = vec!["x", "y", "z", "principal", "|a b|", "a0", "a1", "new_var0", "s-t"];
    r.shuffle(&mut names);
    // now and then many variables, so that numbered names get a second digit
    let many = !ops.lets && r.chance(1, 25);
    let strs: Vec<String> = if many {
        ns = 10 + r.idx(14);
        (0..ns).map(|k| format!("{}{}", r.pick(&["v", "a", "x"]), k)).collect()
    } else {
        names[..ns].iter().map(|s| s.to_string()).collect()
    };
    let wants_int = ops.names.contains(&"intcmp") || ops.names.contains(&"str.at") || ops.names.contains(&"str.substr");
    let ints: Vec<String> = if wants_int && r.chance(1, 2) { vec!["i".into()] } else { vec![] };
    let bools: Vec<String> = if r.chance(1, 3) { vec!["p".into()] } else { vec![] };
    let (mut lits, ranges) = (pool.lits.clone(), pool.ranges.clone());
    if ops.names.iter().any(|o| matches!(*o, "str.to_int" | "str.from_int" | "str.is_digit")) && r.chance(1, 2) {
        // numbers, some with something else
        for l in &mut lits {
            let n = 1 + r.idx(3);
            *l = (0..n).map(|_| *r.pick(&['0', '1', '7', '9', '4', '2'])).collect();
            if r.chance(1, 4) {
                l.insert(r.idx(l.len() + 1), *r.pick(&['x', '-', ' ', 'A']));
            }
        }
    }
    let mut decls = vec![];
    if ops.lets {
        decls.push("(declare-const sx String)".to_string());
    }
    for s in &strs {
        decls.push(if r.chance(1, 2) { format!("(declare-fun {} () String)", s) } else { format!("(declare-const {} String)", s) });
    }
    for s in &ints {
        decls.push(format!("(declare-fun {} () Int)", s));
    }
    for s in &bools {
        decls.push(format!("(declare-const {} Bool)", s));
    }
    r.shuffle(&mut decls);
    // maybe plant a model
    let mut hidden = sem::Env::new();
    if !ops.lets && r.chance(1, 2) {
        for x in &strs {
            let mut v = r.pick(&lits).clone();
            match r.idx(5) {
                0 => v += r.pick(&lits).as_str(),
                1 => v = v.chars().take(1 + r.idx(3)).collect(),
                2 => v.extend(r.pick(&lits).chars().next()),
                _ => {}
            }
            let v: Vec<char> = v.chars().take(30).collect();
            for _ in 0..r.idx(3) {
                let i = r.idx(v.len() + 1);
                let j = i + r.idx(v.len() - i + 1);
                if j > i {
                    lits.push(v[i..j].iter().collect());
                }
            }
            hidden.insert(x.clone(), sem::V::S(v));
        }
        for x in &ints {
            hidden.insert(x.clone(), sem::V::I(r.range(-1, 5)));
        }
        for x in &bools {
            hidden.insert(x.clone(), sem::V::B(r.chance(1, 2)));
        }
    }
    let n = if many { 8 + r.idx(16) } else if dense { 2 + r.idx(4) } else { 1 + r.idx(4) };
    let mut cmds = vec![];
    if r.chance(1, 3) {
        cmds.push("(set-option :produce-models true)".to_string());
    }
    if r.chance(2, 3) {
        cmds.push("(set-logic QF_SLIA)".to_string());
    }
    cmds.extend(decls);
    let depth = if many { 1 } else { r.idx(3) as u32 };
    if pool.wide && ops.names.iter().all(|o| !matches!(*o, "code" | "str.<")) {
        let parts: Vec<String> = ranges.iter().map(|(x, y)| format!("(re.* (re.range \"{}\" \"{}\"))", x, y)).collect();
        cmds.push(format!("(assert (str.in_re {} (re.++ {})))", r.pick(&strs), parts.join(" ")));
    }
    for _ in 0..n {
        let mut g = Gen {
            r,
            ops: ops.clone(),
            strs: strs.clone(),
            ints: ints.clone(),
            bools: bools.clone(),
            lits: lits.clone(),
            ranges: Clone::clone(&ranges),
            lets: 3,
        };
        let mut t = if dense { g.dense() } else { g.boolean(depth) };
        if sem::ev(&t, &hidden) == Some(sem::V::B(false)) {
            // prefer constraints that hold as they are
            for _ in 0..3 {
                if dense && sem::ev(&t, &hidden) == Some(sem::V::B(false)) {
                    t = g.dense();
                }
            }
            if sem::ev(&t, &hidden) == Some(sem::V::B(false)) {
                t = app("not", [t]);
            }
        }
        cmds.push(format!("(assert {})", t));
    }
    cmds.push("(check-sat)".into());
    if r.chance(1, 4) {
        cmds.push("(get-model)".into());
    }
    if !hidden.is_empty() {
        // a comment to the program, a witness to the oracle
        let w: Vec<String> = hidden
            .iter()
            .map(|(x, v)| match v {
                sem::V::S(c) => format!("({} {})", x, slit(&c.iter().collect::<String>())),
                sem::V::I(n) => format!("({} {})", x, n),
                sem::V::B(b) => format!("({} {})", x, b),
            })
            .collect();
        cmds.insert(0, format!("{}{}", WITNESS, w.join(" ")));
    }
    cmds
}
const WITNESS: &str = "; witness ";
/// Whether the witness that comes with a query satisfies it.
fn witnessed(src: &str, orig: &[S]) -> bool {
    let Some(Ok(w)) = src.lines().next().and_then(|l| l.strip_prefix(WITNESS)).map(sexp::parse_all) else { return false };
    let mut env = sem::Env::new();
    for x in &w {
        if let Some([n, v]) = x.list() {
            if let (Some(n), Some(v)) = (n.atom(), sem::ev(v, &env)) {
                env.insert(n.to_string(), v);
            }
        }
    }
    let mut asserts = orig.iter().filter(|c| c.head() == Some("assert"));
    asserts.all(|c| c.list().and_then(|l| l.get(1)).and_then(|t| sem::ev(t, &env)) == Some(sem::V::B(true)))
}

// ------------------------------------------------------------------------------------------ oracle
/// The commands that carry meaning for satisfiability.
pub fn logical(cmds: &[S]) -> String {
    let mut s = String::new();
    for c in cmds {
        if matches!(c.head(), Some("declare-fun" | "declare-const" | "define-fun" | "assert" | "declare-sort" | "define-const")) {
            s.push_str(&c.to_string());
            s.push('\n');
        }
    }
    s
}
/// Renames free symbols; bound ones get names that depend only on their position (so that terms equal up
/// to bound names become equal).
fn rename(t: &S, map: &BTreeMap<String, String>, bound: &mut Vec<String>) -> S {
    match t {
        S::A(x) => {
            let n = unbar(x).to_string();
            if let Some(k) = bound.iter().rposition(|b| *b == n) {
                return a(format!("#{}", k));
            }
            a(map.get(&n).unwrap_or(&n).clone())
        }
        S::Str(_) => t.clone(),
        S::L(v) => {
            if t.head() == Some("let") && v.len() == 3 {
                let bs: Vec<(String, S)> = v[1]
                    .list()
                    .unwrap_or(&[])
                    .iter()
                    .filter_map(|b| b.list().filter(|l| l.len() == 2).map(|l| (unbar(l[0].atom().unwrap_or("")).to_string(), rename(&l[1], map, bound))))
                    .collect();
                let k = bound.len();
                bound.extend(bs.iter().map(|b| b.0.clone()));
                let body = rename(&v[2], map, bound);
                bound.truncate(k);
                return app("let", [S::L(bs.into_iter().map(|(_, t)| t).collect()), body]);
            }
            S::L(v.iter().map(|x| rename(x, map, bound)).collect())
        }
    }
}
/// Compares shapes; collects the literal replacements (in visiting order).
fn zip(x: &S, y: &S, lits: &mut Vec<(String, String)>) -> Result<(), String> {
    match (x, y) {
        (S::Str(s), S::Str(t)) => {
            lits.push((s.clone(), t.clone()));
            Ok(())
        }
        (S::A(s), S::A(t)) if s == t => Ok(()),
        (S::L(v), S::L(w)) if v.len() == w.len() => {
            for (p, q) in v.iter().zip(w) {
                zip(p, q, lits)?;
            }
            Ok(())
        }
        _ => Err(format!("expected {} (up to string literals), found {}", x, y)),
    }
}
fn is_start(c: &S) -> bool {
    matches!(c.head(), Some("set-logic" | "set-info" | "set-option"))
}
fn is_decl(c: &S) -> bool {
    matches!(c.head(), Some("declare-const" | "declare-fun"))
}
pub fn declared(cmds: &[S]) -> Vec<String> {
    cmds.iter().filter(|c| is_decl(c)).map(|d| unbar(d.list().unwrap()[1].atom().unwrap_or("")).to_string()).collect()
}
/// (assert (= t t)) says nothing and may be left out.
fn vacuous(c: &S) -> bool {
    if c.head() != Some("assert") {
        return false;
    }
    let Some(v) = c.list().and_then(|v| v.get(1)).and_then(|t| t.list()) else { return false };
    v[0].is("=") && v.len() > 2 && v[2..].iter().all(|x| x == &v[1])
}
/// The renaming of declared symbols: complete, without additions, and injective.
pub fn check_alpha(orig: &[S], alpha: &BTreeMap<String, String>) -> Result<(), String> {
    let names: BTreeSet<String> = declared(orig).into_iter().collect();
    let have: BTreeSet<String> = alpha.keys().map(|k| unbar(k).to_string()).collect();
    if names != have {
        return Err(format!("renaming covers {:?}, declared are {:?}", have, names));
    }
    let img: BTreeSet<&String> = alpha.values().collect();
    if img.len() != alpha.len() {
        return Err(format!("renaming {:?} is not injective", alpha));
    }
    Ok(())
}
/// The original query, renamed and reordered the way `convert` documents (options, then declarations, then
/// the rest), must equal its output up to string literals; returns the pairs of literals.
pub fn fidelity(orig: &[S], out: &[S], alpha: &BTreeMap<String, String>) -> Result<Vec<(String, String)>, String> {
    let alpha: BTreeMap<String, String> = alpha.iter().map(|(k, v)| (unbar(k).to_string(), unbar(v).to_string())).collect();
    let none = BTreeMap::new();
    let mut exp: Vec<S> = orig.iter().filter(|c| is_start(c)).cloned().collect();
    exp.extend(orig.iter().filter(|c| is_decl(c)).map(|c| rename(c, &alpha, &mut vec![])));
    exp.extend(orig.iter().filter(|c| !is_start(c) && !is_decl(c)).map(|c| rename(c, &alpha, &mut vec![])));
    let out: Vec<S> = out.iter().map(|c| if is_start(c) { c.clone() } else { rename(c, &none, &mut vec![]) }).collect();
    let mut lits = vec![];
    let mut j = 0;
    let mut asserts = 0;
    for x in &exp {
        let mut l = vec![];
        let r = match out.get(j) {
            Some(y) => zip(x, y, &mut l),
            None => Err(format!("{} is missing", x)),
        };
        match r {
            Ok(()) => {
                lits.extend(l);
                j += 1;
                asserts += 1;
            }
            Err(_) if vacuous(x) => {}
            Err(e) => return Err(e),
        }
    }
    if let Some(y) = out.get(j) {
        return Err(format!("unexpected {} after {} commands", y, asserts));
    }
    Ok(lits)
}
pub fn pairs(j: &J, key: &str) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for p in j.get(key).and_then(|x| x.arr()).ok_or(format!("{} missing", key))? {
        let v = p.arr().unwrap_or(&[]);
        let (Some(x), Some(y)) = (v.first().and_then(|x| x.str()), v.get(1).and_then(|x| x.str())) else {
            return Err(format!("{} has a malformed entry", key));
        };
        if m.insert(x.to_string(), y.to_string()).is_some() {
            return Err(format!("{} lists {:?} twice", key, x));
        }
    }
    Ok(m)
}
/// Literal replacement must be a function, injective, and keep exactly the empty string empty.
pub fn function_of(lits: &[(String, String)]) -> Result<BTreeMap<String, String>, (String, String)> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (x, y) in lits {
        if let Some(z) = m.insert(x.clone(), y.clone()) {
            if &z != y {
                return Err(("inconsistent-literal".into(), format!("{:?} is replaced by both {:?} and {:?}", x, z, y)));
            }
        }
    }
    let mut seen: HashMap<&String, &String> = HashMap::new();
    for (x, y) in &m {
        if let Some(z) = seen.insert(y, x) {
            return Err(("collision".into(), format!("{:?} and {:?} are both replaced by {:?}", z, x, y)));
        }
        if x.is_empty() != y.is_empty() {
            return Err(("empty".into(), format!("{:?} is replaced by {:?}", x, y)));
        }
    }
    Ok(m)
}
/// Satisfiability with a second opinion only when the answers differ.
/// A witness for the original one counts as much as two solvers.
pub fn equisat(ctx: &mut Ctx, p: &[S], q: &[S], witnessed: bool) -> (Sat, Sat) {
    let (s, t) = (logical(p), logical(q));
    let (x, y) = (ctx.sat(&s), ctx.sat(&t));
    if witnessed && matches!(x, Sat::Sat | Sat::Unknown) {
        if y == Sat::Unsat && sure(ctx, &t) != y {
            return (Sat::Sat, Sat::Unknown);
        }
        return (Sat::Sat, y);
    }
    if witnessed && x == Sat::Unsat {
        if std::env::var("DST_DEBUG").is_ok() { eprintln!("DISAGREE {}", s); }
        return (Sat::Unknown, Sat::Unknown);
    }
    if x == Sat::Error || x == Sat::Unknown || y == Sat::Unknown || x == y || y == Sat::Error {
        return (x, y);
    }
    if sure(ctx, &s) != x || sure(ctx, &t) != y {
        return (Sat::Unknown, Sat::Unknown);
    }
    (x, y)
}
/// Verdict on which z3 and cvc5 agree.
pub fn sure(ctx: &mut Ctx, s: &str) -> Sat {
    let x = ctx.sat(s);
    if x != Sat::Unknown && x != Sat::Error && oracle::cvc5(&format!("(set-logic QF_SLIA)\n{}(check-sat)\n", s), 8000) == x {
        x
    } else {
        Sat::Unknown
    }
}
pub fn text(cmds: &[J]) -> String {
    let mut s = String::new();
    for c in cmds {
        s.push_str(c.str().unwrap_or(""));
        s.push('\n');
    }
    s
}

// ----------------------------------------------------------------------------------------- judging
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Literals,
    Equisat,
    Both,
}
/// Giving up is legitimate when ranges, code points or the lexicographic order constrain the characters,
/// or when characters run out.
fn may_translate(cmds: &[S]) -> bool {
    let mut lits = vec![];
    let mut ops = vec![];
    fn walk(t: &S, lits: &mut Vec<String>, ops: &mut Vec<String>) {
        match t {
            S::A(x) => ops.push(x.clone()),
            S::Str(x) => lits.push(x.clone()),
            S::L(v) => v.iter().for_each(|x| walk(x, lits, ops)),
        }
    }
    cmds.iter().for_each(|c| walk(c, &mut lits, &mut ops));
    let chars: BTreeSet<char> = lits.iter().flat_map(|l| l.chars()).collect();
    chars.len() <= 60 && !ops.iter().any(|o| matches!(o.as_str(), "re.range" | "str.<" | "str.<=" | "str.to_code" | "str.from_code"))
}
pub const BAIL: &str = "BAILING OUT";
/// Judges one finished `convert`.  `map` is the mapping file, when it surely is this run's.
pub fn judge_convert(ctx: &mut Ctx, v: &mut Verdict, fam: &str, src: &str, out: Option<&Vec<u8>>, map: Option<&Vec<u8>>, want: Want) {
    let Some(out) = out else {
        v.fail(format!("{} no-output", fam), "exit status 0 without an output file");
        return;
    };
    let Ok(out) = std::str::from_utf8(out) else {
        v.fail(format!("{} malformed", fam), "output is not UTF-8");
        return;
    };
    let orig = sexp::parse_all(src).expect("own query");
    if out.contains(BAIL) {
        v.tag(format!("bail:{}", fam));
        if may_translate(&orig) {
            v.fail(format!("{} gives-up", fam), format!("no transformation of {}", src));
        }
        return;
    }
    let got = match sexp::parse_all(out) {
        Ok(g) => g,
        Err(e) => {
            v.fail(format!("{} malformed", fam), e);
            return;
        }
    };
    let mut maps = None;
    if let Some(m) = map {
        let r = J::parse(&String::from_utf8_lossy(m))
            .map_err(|e| ("mapping-malformed", e))
            .and_then(|j| Ok((pairs(&j, "alpha_renaming_map").map_err(|e| ("mapping", e))?, pairs(&j, "string_map").map_err(|e| ("mapping", e))?)));
        match r {
            Err((k, e)) => {
                v.fail(format!("{} {}", fam, k), e);
                return;
            }
            Ok(x) => maps = Some(x),
        }
    }
    if want != Want::Equisat {
        // without a mapping file: declarations keep their order, so the renaming can be read off
        let alpha = match &maps {
            Some(x) => x.0.clone(),
            None => declared(&orig).into_iter().zip(declared(&got)).collect(),
        };
        if let Err(e) = check_alpha(&orig, &alpha) {
            v.fail(format!("{} renaming", fam), e);
            return;
        }
        let lits = match fidelity(&orig, &got, &alpha) {
            Ok(l) => l,
            Err(e) => {
                v.fail(format!("{} shape", fam), e);
                return;
            }
        };
        match function_of(&lits) {
            Err((k, e)) => {
                v.fail(format!("{} {}", fam, k), e);
                return;
            }
            Ok(m) => {
                if let Some((_, sm)) = &maps {
                    for (x, y) in &m {
                        if sm.get(x) != Some(y) && !x.is_empty() {
                            v.fail(format!("{} string_map", fam), format!("{:?} -> {:?}, string_map says {:?}", x, y, sm.get(x)));
                            return;
                        }
                    }
                }
                v.nontrivial |= !m.is_empty();
            }
        }
    }
    if want != Want::Literals {
        let w = witnessed(src, &orig);
        let (x, y) = equisat(ctx, &orig, &got, w);
        v.tag(format!("truth:{:?}", x));
        if x == Sat::Error || x == Sat::Unknown || y == Sat::Unknown {
            v.tag(format!("unknown:{}", fam));
            return;
        }
        v.nontrivial = true;
        if y == Sat::Error {
            v.fail(format!("{} ill-formed", fam), format!("no solver accepts {}", out));
        } else if x != y {
            v.fail(format!("{} equisat", fam), format!("original {:?}, transformed {:?}: {}", x, y, out));
        }
    }
}

// -------------------------------------------------------------------------------------------- runs
/// What a step runs; `q` is the index of its query file /w/in/q<q>.smt2.
fn argv(st: &J) -> Vec<String> {
    let mut v = vec![BIN.to_string(), st.gs("op"), "--input-file".into(), format!("/w/in/q{}.smt2", st.gi("q"))];
    if st.gs("op") == "convert" {
        v.push("--mapping".into());
        v.push(st.gs("mode"));
        if st.gb("global") {
            v.push("--use-global-map".into());
        }
    }
    v
}
pub struct StepEnd {
    pub o: Outcome,
    pub fin: Finish,
    pub fired: Vec<Fault>,
    pub out: Option<Vec<u8>>,
    pub map: Option<Vec<u8>>,
    /// Other steps ran at the same time.
    pub shared: bool,
    /// The global map as this step could have found it.
    pub before: Option<Vec<u8>>,
}
/// Runs the steps of a history: phases one after the other, the steps of a phase concurrently.
fn history(ctx: &mut Ctx, v: &mut Verdict, sc: &J) -> (Vec<StepEnd>, BTreeMap<String, Vec<u8>>, Vec<(BTreeMap<String, u32>, usize)>, Vec<(usize, String, u32, usize)>) {
    let steps = sc.ga("steps");
    let mut base = sc.clone();
    let mut files = sc.ga("files");
    for (i, q) in sc.ga("queries").iter().enumerate() {
        files.push(file(&format!("/w/in/q{}.smt2", i), text(q.arr().unwrap_or(&[])).as_bytes()));
    }
    base.set("files", J::Arr(files));
    base.set("procs", J::Arr(vec![]));
    let server = ctx.server(BIN);
    let mut w = setup(ctx, &base, None);
    let mut ends = vec![];
    let mut fin = Finish::Done;
    let nphase = steps.iter().map(|s| s.gi("phase")).max().unwrap_or(0);
    for ph in 0..=nphase {
        let mine: Vec<&J> = steps.iter().filter(|s| s.gi("phase") == ph).collect();
        let before = w.fs.get("/w/global_mapping.json").cloned();
        let first = w.outcomes.len();
        for st in &mine {
            let mut p = proc_spec(BIN, &argv(st), st.gu("rnd"), st.gu("heap"));
            p.set("delay", J::Int(st.gi("delay")));
            if let Some(n) = st.get("allocs") {
                p.set("allocs", n.clone());
            }
            launch(&mut w, &p, server);
        }
        fin = w.run();
        for (k, st) in mine.iter().enumerate() {
            let g = st.gb("global");
            let stem = format!("/w/in/q{}", st.gi("q"));
            let (out, map) = match st.gs("op").as_str() {
                "convert" => (format!("{}_transformed.smt2", stem), if g { "/w/global_mapping.json".to_string() } else { format!("{}_mapping.json", stem) }),
                "reconstruct" => (format!("{}_recon_check.smt2", stem), String::new()),
                _ => (format!("/w/q{}_recon.json", st.gi("q")), String::new()),
            };
            ends.push(StepEnd {
                o: w.outcomes[first + k].clone(),
                fin,
                fired: w.fired.iter().map(|&i| w.faults[i].clone()).filter(|f| f.proc == first + k).collect(),
                out: w.fs.get(&out).cloned(),
                map: w.fs.get(&map).cloned(),
                shared: mine.len() > 1,
                before: before.clone(),
            });
        }
        if fin != Finish::Done {
            break;
        }
        if let Some(l) = sc.ga("losses").iter().find(|l| l.gi("after") == ph) {
            let mut r = Rng::new(l.gu("seed"));
            for e in w.fs.power_loss(&mut r) {
                v.tag("fault:power-loss");
                w.event(99, e);
            }
        }
    }
    w.kill_all();
    absorb(v, &mut w, fin);
    let counts = w.op_counts.iter().cloned().enumerate().map(|(i, c)| (c, i)).collect();
    (ends, w.fs.files(), counts, w.write_sizes.clone())
}

/// Every function application of a term, innermost first, left to right.
fn applications(t: &S, out: &mut Vec<S>) {
    if let S::L(v) = t {
        if v.is_empty() || v[0].is("_") {
            return;
        }
        for x in &v[1..] {
            applications(x, out);
        }
        out.push(t.clone());
    }
}
/// Symbols in `vars` become v0, v1, ... in order of appearance.
fn normal(t: &S, vars: &BTreeSet<String>, seen: &mut Vec<String>) -> S {
    match t {
        S::A(x) if vars.contains(unbar(x)) => {
            let n = unbar(x).to_string();
            let k = seen.iter().position(|y| *y == n).unwrap_or_else(|| {
                seen.push(n);
                seen.len() - 1
            });
            a(format!("v{}", k))
        }
        S::L(v) => S::L(v.iter().map(|x| normal(x, vars, seen)).collect()),
        x => x.clone(),
    }
}
pub fn judge_listing(v: &mut Verdict, fam: &str, src: &str, out: Option<&Vec<u8>>) {
    let orig = sexp::parse_all(src).expect("own query");
    let vars: BTreeSet<String> = declared(&orig).into_iter().collect();
    let mut apps = vec![];
    for c in orig.iter().filter(|c| c.head() == Some("assert")) {
        applications(&c.list().unwrap()[1], &mut apps);
    }
    let want: Vec<String> = apps.iter().map(|t| normal(t, &vars, &mut vec![]).to_string()).collect();
    let Some(out) = out else {
        v.fail(format!("{} no-output", fam), "exit status 0 without an output file");
        return;
    };
    let j = J::parse(&String::from_utf8_lossy(out));
    let got: Option<Vec<String>> = j.ok().and_then(|j| j.get("sub_formula_list").and_then(|x| x.arr().map(|x| x.iter().map(|s| s.str().unwrap_or("").to_string()).collect())));
    let Some(got) = got else {
        v.fail(format!("{} malformed", fam), "not a listing");
        return;
    };
    // constants like true or re.allchar may be listed as applications without arguments
    let got: Vec<String> = got.iter().filter(|s| s.starts_with('(')).map(|s| sexp::parse_all(s).map(|p| p.iter().map(|x| x.to_string()).collect::<String>()).unwrap_or_else(|e| e)).collect();
    v.nontrivial = want.len() > 1;
    if got != want {
        let i = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
        v.fail(format!("{} listing", fam), format!("entry {}: expected {:?}, found {:?} ({} expected, {} found)", i, want.get(i), got.get(i), want.len(), got.len()));
    }
}

/// Judges the output of `reconstruct`: the original query plus, before each check-sat, equations that fix
/// variables to strings; satisfiable, as the transformed query was.
pub fn judge_recon(ctx: &mut Ctx, v: &mut Verdict, fam: &str, src: &str, answer: &str, whole: bool, affected: &BTreeSet<String>, alpha: &BTreeMap<String, String>, out: Option<&Vec<u8>>) {
    let Some(out) = out else {
        v.fail(format!("{} no-output", fam), "a model was announced without an output file");
        return;
    };
    let orig = sexp::parse_all(src).expect("own query");
    let got = match sexp::parse_all(&String::from_utf8_lossy(out)) {
        Ok(g) => g,
        Err(e) => {
            v.fail(format!("{} malformed", fam), e);
            return;
        }
    };
    let none = BTreeMap::new();
    let canon = |c: &S| rename(c, &none, &mut vec![]);
    let mut j = 0;
    let mut fixed: Vec<String> = vec![];
    for c in &orig {
        if c.head() == Some("check-sat") {
            fixed.clear();
            while let Some(g) = got.get(j) {
                let eq = g.list().filter(|v| v.len() == 2 && v[0].is("assert")).and_then(|v| v[1].list()).filter(|v| v.len() == 3 && v[0].is("=") && matches!(v[2], S::Str(_)));
                let Some(eq) = eq else { break };
                fixed.push(unbar(eq[1].atom().unwrap_or("")).to_string());
                j += 1;
            }
        }
        match got.get(j) {
            Some(g) if canon(g) == canon(c) => j += 1,
            o => {
                v.fail(format!("{} recon-shape", fam), format!("expected {}, found {:?}", c, o.map(|x| x.to_string())));
                return;
            }
        }
    }
    if j != got.len() {
        v.fail(format!("{} recon-shape", fam), format!("unexpected {}", got[j]));
        return;
    }
    let vars: BTreeSet<String> = declared(&orig).into_iter().collect();
    let set: BTreeSet<String> = fixed.iter().cloned().collect();
    if set.len() != fixed.len() || !set.is_subset(&vars) {
        v.fail(format!("{} recon-vars", fam), format!("equations for {:?}", fixed));
        return;
    }
    if whole {
        let ans = sexp::parse_all(answer).unwrap_or_default();
        let model: BTreeSet<String> = defs(&ans).into_iter().filter(|d| matches!(d.1, S::Str(_))).map(|d| d.0).collect();
        let back: BTreeMap<&String, &String> = alpha.iter().map(|(k, v)| (v, k)).collect();
        for x in affected.intersection(&model) {
            if let Some(o) = back.get(x) {
                if !set.contains(unbar(o)) {
                    v.fail(format!("{} recon-vars", fam), format!("no equation for {}, equations for {:?}", o, fixed));
                    return;
                }
            }
        }
    }
    v.tag(format!("equations:{}", fixed.len().min(3)));
    let s = logical(&got);
    match ctx.sat(&s) {
        Sat::Error => v.fail(format!("{} ill-formed", fam), s),
        Sat::Unsat if sure(ctx, &s) == Sat::Unsat => v.fail(format!("{} recon-unsat", fam), format!("model {} becomes {}", answer, String::from_utf8_lossy(out))),
        Sat::Sat => v.nontrivial |= !fixed.is_empty(),
        _ => v.tag("unknown"),
    }
}
/// The define-funs of a solver's answer.
fn defs(ans: &[S]) -> Vec<(String, S)> {
    let mut v = vec![];
    for x in ans {
        let l = match x.head() {
            Some("define-fun") => vec![x.clone()],
            _ => x.list().unwrap_or(&[]).to_vec(),
        };
        for d in l {
            if let (Some("define-fun"), Some(d)) = (d.head(), d.list()) {
                if d.len() == 5 {
                    v.push((unbar(d[1].atom().unwrap_or("")).to_string(), d[4].clone()));
                }
            }
        }
    }
    v
}

pub struct Strings {
    pub which: &'static str,
}
impl Strings {
    fn pick_ops(&self, r: &mut Rng) -> Ops {
        let mut fams = families();
        if let Ok(k) = std::env::var("DST_FAMILY") {
            fams.retain(|f| k.split(',').any(|x| x == f.kind));
        }
        r.pick(&fams).clone()
    }
    fn step(r: &mut Rng, op: &str, q: usize, mode: &str, global: bool, phase: usize) -> J {
        obj! {"op" => op, "q" => q, "mode" => mode, "global" => global, "phase" => phase, "rnd" => r.next() >> 1, "heap" => r.next() >> 1, "delay" => 0i64}
    }
    fn base(&self, r: &mut Rng) -> J {
        let mut ops = self.pick_ops(r);
        if self.which == "T06" {
            ops.lets = false;
        }
        let mode = if r.chance(1, 3) || self.which == "T05" { "char-to-char" } else { "no-reconstruct" };
        let mut queries = vec![];
        let mut steps = vec![];
        match self.which {
            "T03" => {
                let n = 2 + r.idx(4);
                let mut world = Pool::draw(r);
                world.facts |= r.chance(1, 3);
                if world.facts {
                    world.lits.truncate(3);
                }
                for _ in 0..n {
                    let o = if r.chance(1, 2) { ops.clone() } else { self.pick_ops(r) };
                    let own = if r.chance(1, 4) { Some(Pool::draw(r)) } else { None };
                    let p = own.unwrap_or_else(|| world.vary(r));
                    queries.push(J::from(query(r, &o, &p)));
                }
                let m = n + r.idx(3);
                let mut phase = 0;
                for k in 0..m {
                    let q = if k < n { k } else { r.idx(n) };
                    let md = if r.chance(1, 6) { "char-to-char" } else { "no-reconstruct" };
                    let mut s = Self::step(r, "convert", q, md, true, phase);
                    if r.chance(1, 3) {
                        s.set("delay", J::Int(r.range(0, 3_000_000)));
                    }
                    steps.push(s);
                    if r.chance(2, 3) {
                        phase += 1;
                    }
                }
            }
            "T05" => {
                let p = Pool::draw(r);
                queries.push(J::from(query(r, &ops, &p)));
                steps.push(Self::step(r, "convert", 0, mode, false, 0));
                steps.push(Self::step(r, "reconstruct", 0, "", false, 1));
            }
            "T06" => {
                let p = Pool::draw(r);
                queries.push(J::from(query(r, &ops, &p)));
                steps.push(Self::step(r, "sub-formula", 0, "", false, 0));
            }
            _ => {
                let p = Pool::draw(r);
                queries.push(J::from(query(r, &ops, &p)));
                let global = self.which == "T04" && r.chance(1, 5);
                steps.push(Self::step(r, "convert", 0, mode, global, 0));
                if self.which == "T04" && !global && r.chance(1, 4) {
                    let other = if r.chance(1, 2) { "char-to-char" } else { "no-reconstruct" };
                    steps.push(Self::step(r, "convert", 0, other, false, 1));
                }
            }
        }
        obj! {
            "kind" => ops.kind, "mode" => mode, "queries" => J::Arr(queries), "steps" => J::Arr(steps),
            "sched_seed" => r.next() >> 1,
            "schedule" => J::Arr(vec![]), "faults" => J::Arr(vec![]), "losses" => J::Arr(vec![]), "files" => J::Arr(vec![]),
        }
    }
    /// Disturbances that must not change anything.
    fn mild(r: &mut Rng, proc: usize) -> J {
        let (class, act) = match r.idx(6) {
            0 => ("read.file", Act::Err(EINTR)),
            1 => ("write.file", Act::Err(EINTR)),
            2 => ("open", Act::Err(EINTR)),
            3 => ("write.file", Act::Short(1 + r.idx(200))),
            4 => ("write.out", Act::Short(1 + r.idx(5))),
            _ => ("read.file", Act::Short(1 + r.idx(60))),
        };
        let sticky = matches!(act, Act::Short(_)) && r.chance(1, 2);
        Fault { proc, class: class.into(), nth: r.idx(3) as u32, sticky, act }.to_json()
    }
    /// The same answer with the characters of its strings spelled in other legal ways.
    fn spelled(r: &mut Rng, ans: &str) -> String {
        let cs: Vec<char> = ans.chars().collect();
        let (mut out, mut i, mut inside) = (String::new(), 0, false);
        let often = r.chance(1, 2);
        while i < cs.len() {
            let mut c = cs[i];
            let mut len = 1;
            if c == '"' {
                if inside && cs.get(i + 1) == Some(&'"') {
                    len = 2;
                } else {
                    inside = !inside;
                    out.push(c);
                    i += 1;
                    continue;
                }
            } else if inside && c == '\\' && cs[i + 1..].starts_with(&['u', '{']) {
                let hex: String = cs[i + 3..].iter().take_while(|c| **c != '}').collect();
                let Some(d) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) else { return ans.into() };
                c = d;
                len = hex.len() + 4;
            } else if inside && c == '\\' {
                return ans.into();
            }
            let code = c as u32;
            if inside && (len > 2 || r.chance(1, if often { 2 } else { 6 })) {
                match r.idx(5) {
                    0 if code <= 0xffff => out += &format!("\\u{:04x}", code),
                    1 if code <= 0xffff => out += &format!("\\u{:04X}", code),
                    2 => out += &format!("\\u{{{:05x}}}", code),
                    3 => out += &format!("\\u{{{:X}}}", code),
                    _ => out.extend(&cs[i..i + len]),
                }
            } else {
                out.extend(&cs[i..i + len]);
            }
            i += len;
        }
        out
    }
    /// A solver's answer to the transformed query, drawn among the legal ones.
    fn answer(ctx: &mut Ctx, r: &mut Rng, transformed: &str) -> Option<String> {
        let q = sexp::parse_all(transformed).ok()?;
        let s = logical(&q);
        let vars: Vec<String> = q.iter().filter(|c| is_decl(c)).filter(|c| c.list().unwrap().last().unwrap().is("String")).map(|c| c.list().unwrap()[1].to_string()).collect();
        let mut extra = String::new();
        for x in &vars {
            match r.idx(6) {
                0 => extra += &format!("(assert (>= (str.len {}) {}))", x, r.range(1, 4)),
                1 => extra += &format!("(assert (str.contains {} \"{}\"))", x, *r.pick(&["a", "b", "z", "0", "9", "#", "!", " ", "A", "~", "$", "c"])),
                2 => extra += &format!("(assert (= (str.len {}) {}))", x, r.range(0, 3)),
                3 => extra += &format!("(assert (str.contains {} \"{}\"))", x, *r.pick(&["\\u{e9}", "\\u{5c}", "\\u{1F600}", "\\u{0}", "\\u{7f}", "\\u{a}", "\\u0041"])),
                _ => {}
            }
        }
        let seed = r.below(1000);
        for e in [extra.as_str(), ""] {
            let o = ctx.z3().raw(&format!("(set-option :smt.random_seed {})\n{}{}\n(check-sat)\n", seed, s, e), 1500)?;
            if o.trim() == "sat" {
                let o = ctx.z3().raw(&format!("(set-option :produce-models true)\n(set-option :smt.random_seed {})\n{}{}\n(check-sat)\n(get-model)\n", seed, s, e), 1500)?;
                return if !o.starts_with("sat") || o.contains("(error") {
                    None
                } else if r.chance(1, 3) {
                    Some(Self::spelled(r, &o))
                } else {
                    Some(o)
                };
            }
            if o.trim() == "unsat" && e.is_empty() {
                return Some("unsat\n".into());
            }
        }
        None
    }
}
impl Prop for Strings {
    fn id(&self) -> &'static str {
        self.which
    }
    fn run_seed(&self, ctx: &mut Ctx, seed: u64, emit: Emit) {
        let mut r = Rng::derive(seed, &[fnv(0, self.which.as_bytes())]);
        let mut base = self.base(&mut r);
        if self.which == "T05" {
            let mut v = Verdict::default();
            let (_, files, _, _) = history(ctx, &mut v, &base);
            let Some(t) = files.get("/w/in/q0_transformed.smt2") else { return };
            let t = String::from_utf8_lossy(t).into_owned();
            if t.contains(BAIL) {
                return;
            }
            let Some(mut ans) = Self::answer(ctx, &mut r, &t) else { return };
            if r.chance(1, 12) {
                ans = r.pick(&["unsat\n", "unknown\n", "timeout\n", "sat\n"]).to_string();
            }
            base.set("files", J::Arr(vec![file("/w/in/q0_transformed.out", ans.as_bytes())]));
        }
        if matches!(self.which, "T04" | "T05" | "T06") && r.chance(1, 3) {
            // files of earlier runs
            let mut files = base.ga("files");
            for (p, t) in [
                ("/w/in/q0_transformed.smt2", "(declare-const left_over String)\n"),
                ("/w/in/q0_mapping.json", "{\"left\": \"over\"}\n"),
                ("/w/in/q0_recon_check.smt2", "(assert false)\n"),
                ("/w/q0_recon.json", "{\"sub_formula_list\": [\"left over\"]}\n"),
            ] {
                if r.chance(2, 3) {
                    let most = if r.chance(1, 2) { 4 } else { 300 };
                    let n = 1 + r.idx(most);
                    files.push(file(p, t.repeat(n).as_bytes()));
                }
            }
            base.set("files", J::Arr(files));
        }
        let vary = |r: &mut Rng, sc: &mut J| {
            let mut s = sc.ga("steps");
            for x in &mut s {
                x.set("rnd", J::from(r.next() >> 1));
                x.set("heap", J::from(r.next() >> 1));
            }
            sc.set("steps", J::Arr(s));
            sc.set("sched_seed", J::from(r.next() >> 1));
        };
        let nsteps = base.ga("steps").len();
        let v = self.exec(ctx, &base);
        if !emit(&base, &v) {
            return;
        }
        if matches!(self.which, "T01" | "T02") {
            for _ in 0..2 {
                let mut sc = base.clone();
                vary(&mut r, &mut sc);
                if r.chance(1, 2) {
                    let n = 1 + r.idx(3);
                    sc.set("faults", J::Arr((0..n).map(|_| Self::mild(&mut r, 0)).collect()));
                }
                let v = self.exec(ctx, &sc);
                if !emit(&sc, &v) {
                    return;
                }
            }
            return;
        }
        let (_, _, counts, sizes) = history(ctx, &mut Verdict::default(), &base);
        for k in 0..6 {
            let mut sc = base.clone();
            if k % 2 == 1 || self.which == "T03" {
                vary(&mut r, &mut sc);
            }
            let mut faults = vec![];
            let lo = if self.which == "T05" && r.chance(2, 3) { 1 } else { 0 };
            let nf = 1 + r.idx(2);
            for _ in 0..nf {
                let p = lo + r.idx(nsteps - lo);
                if r.chance(1, 6) {
                    faults.push(Self::mild(&mut r, p));
                } else if let Some((c, _)) = counts.get(p) {
                    if let Some(f) = draw_fault(&mut r, p, c, &sizes) {
                        faults.push(f.to_json());
                    }
                }
            }
            if r.chance(1, 8) && self.which != "T03" {
                faults.clear();
                let mut s = sc.ga("steps");
                let p = lo + r.idx(nsteps - lo);
                s[p].set("allocs", J::Int(r.range(20, 3000)));
                sc.set("steps", J::Arr(s));
            }
            if self.which == "T03" {
                if r.chance(1, 3) {
                    faults.clear();
                }
                if r.chance(1, 2) {
                    let n = sc.ga("steps").iter().map(|s| s.gi("phase")).max().unwrap_or(0);
                    sc.set("losses", J::Arr(vec![obj! {"after" => r.range(0, n), "seed" => r.next() >> 1}]));
                }
            }
            sc.set("faults", J::Arr(faults));
            let v = self.exec(ctx, &sc);
            if !emit(&sc, &v) {
                return;
            }
        }
    }
    fn exec(&self, ctx: &mut Ctx, sc: &J) -> Verdict {
        let mut v = Verdict::default();
        let (ends, files, _, _) = history(ctx, &mut v, sc);
        let queries: Vec<String> = sc.ga("queries").iter().map(|q| text(q.arr().unwrap_or(&[]))).collect();
        let steps = sc.ga("steps");
        let fam = format!("{}/{}", sc.gs("kind"), &sc.gs("mode")[..4]);
        v.tag(format!("family:{}", fam));
        let mut complete = true;
        for (st, e) in steps.iter().zip(&ends) {
            if endless(&e.o, e.fin, &e.fired) && !(e.fired.iter().any(|f| !benign(f)) || st.gi("allocs") > 0) {
                v.fail("does-not-terminate", e.o.describe());
                return v;
            }
            if inconclusive(&e.o, e.fin) {
                v.tag("inconclusive");
                return v;
            }
            let disturbed = e.fired.iter().any(|f| !benign(f)) || st.gi("allocs") > 0;
            v.tag(format!("{}:{}", if disturbed { "disturbed" } else { "undisturbed" }, e.o.describe()));
            if st.gi("allocs") > 0 {
                v.tag("fault:alloc-failure");
            }
            let op = st.gs("op");
            if !e.o.ok() {
                complete = false;
                if !disturbed && (op != "reconstruct" || steps.len() == 1) {
                    v.fail(format!("{} {} fails: {}", fam, op, panic_site(&e.o.err)), e.o.describe());
                    return v;
                }
            }
            let src = &queries[st.gi("q") as usize];
            match op.as_str() {
                "convert" if e.o.ok() => {
                    let want = match self.which {
                        "T01" => Want::Literals,
                        "T02" => Want::Equisat,
                        _ => Want::Both,
                    };
                    if self.which == "T05" && !disturbed {
                        continue;
                    }
                    // somebody else may have replaced the global map since
                    let map = if st.gb("global") && e.shared { None } else { e.map.as_ref() };
                    if !(st.gb("global") && e.shared) && e.map.is_none() {
                        v.fail(format!("{} no-mapping", fam), "exit status 0 without a mapping file");
                    }
                    if !st.gb("global") || !e.shared || !self.same_query_twice(&steps, st) {
                        judge_convert(ctx, &mut v, &fam, src, e.out.as_ref(), map, want);
                    }
                }
                "sub-formula" if e.o.ok() => judge_listing(&mut v, &fam, src, e.out.as_ref()),
                "reconstruct" if complete => {
                    let answer = files.get("/w/in/q0_transformed.out").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                    let said = String::from_utf8_lossy(&e.o.out).into_owned();
                    let first = answer.lines().next().unwrap_or("").to_string();
                    let expect = match first.as_str() {
                        "unsat" => "UNSAT\n",
                        "unknown" => "unknown\n",
                        "timeout" => "timeout\n",
                        "sat" if answer.lines().count() == 1 => "SAT: no model\n",
                        _ => "SAT: model reconstructed\n",
                    };
                    if said != expect {
                        v.fail(format!("{} announced", fam), format!("announced {:?} for an answer that starts {:?}", said, first));
                    } else if expect == "SAT: model reconstructed\n" {
                        let j = files.get("/w/in/q0_mapping.json").and_then(|m| J::parse(&String::from_utf8_lossy(m)).ok()).unwrap_or(J::Null);
                        let alpha = pairs(&j, "alpha_renaming_map").unwrap_or_default();
                        let affected = j.ga("affected_constraint_vars").iter().filter_map(|x| x.str().map(|s| unbar(s).to_string())).collect();
                        let t = files.get("/w/in/q0_transformed.smt2").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                        if !self.legal(ctx, &t, &answer) {
                            v.tag("answer-not-legal");
                            return v;
                        }
                        judge_recon(ctx, &mut v, &fam, src, &answer, true, &affected, &alpha, e.out.as_ref());
                    } else {
                        v.nontrivial = true;
                    }
                }
                _ => {}
            }
            if v.violation.is_some() {
                return v;
            }
        }
        v
    }
    fn shrink(&self, sc: &J) -> Vec<J> {
        let mut out = shrink_common(sc);
        if !sc.ga("losses").is_empty() {
            let mut c = sc.clone();
            c.set("losses", J::Arr(vec![]));
            out.push(c);
        }
        // whole steps (later faults move up)
        let steps = sc.ga("steps");
        for i in 0..steps.len() {
            if steps.len() == 1 || self.which == "T05" {
                break;
            }
            let mut s = steps.clone();
            s.remove(i);
            let mut c = sc.clone();
            let f: Vec<J> = sc
                .ga("faults")
                .into_iter()
                .filter(|f| f.gi("proc") != i as i64)
                .map(|mut f| {
                    let p = f.gi("proc");
                    if p > i as i64 {
                        f.set("proc", J::Int(p - 1));
                    }
                    f
                })
                .collect();
            c.set("faults", J::Arr(f));
            c.set("steps", J::Arr(s));
            out.push(c);
        }
        let qs = sc.ga("queries");
        for (i, q) in qs.iter().enumerate() {
            let h = obj! {"q" => q.clone()};
            for x in shrink_list(&h, "q", 1) {
                let mut n = qs.clone();
                n[i] = x.get("q").unwrap().clone();
                let mut c = sc.clone();
                c.set("queries", J::Arr(n));
                out.push(c);
            }
        }
        for (i, s) in steps.iter().enumerate() {
            for (k, x) in [("rnd", 0i64), ("rnd", 1), ("rnd", 2), ("heap", 0), ("delay", 0)] {
                if s.gi(k) > x {
                    let mut n = steps.clone();
                    n[i].set(k, J::Int(x));
                    let mut c = sc.clone();
                    c.set("steps", J::Arr(n));
                    out.push(c);
                }
            }
        }
        out
    }
    fn quick_seeds(&self) -> u64 {
        match self.which {
            "T01" => 14000,
            "T06" => 8000,
            "T02" => 5000,
            "T03" => 1000,
            _ => 2400,
        }
    }
    fn rule(&self) -> &'static str {
        match self.which {
            "T01" => "distinct event histories in which a query with at least one literal was converted and compared with the original",
            "T02" => "distinct event histories in which z3 decided both the original and the converted query",
            "T03" => "distinct event histories (of several conversions sharing a global map) in which at least one conversion was judged",
            "T04" => "distinct event histories in which a conversion exited with status 0 and was judged",
            "T05" => "distinct event histories in which equations were reconstructed and the result was judged",
            _ => "distinct event histories in which a listing of more than one subformula was judged",
        }
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec![
            "queries come from the generator's operator families; string-valued lets and ite, bound names that collide with other symbols, and \\u escapes in literals are not generated (see known-findings.json)".to_string(),
            "libc calls are the program's only channel to the outside world; inline system calls would escape the shim".to_string(),
        ];
        if !matches!(self.which, "T01" | "T06") {
            v.push("z3 4.8.12 is believed where it decides; a disagreement counts only if cvc5 1.1.2 confirms both answers; unknown and timeout are inconclusive".into());
        }
        if self.which == "T03" {
            v.push("a write system call and the truncation by open are each atomic; power loss keeps the old, a prefix, a zero-tailed or no version of an unsynced file".into());
        }
        v
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["amzn-smt-string-transformer binary built from /repo, unmodified (with aws-smt-ir)", "Rust std I/O and collections"]
    }
    fn stubbed(&self) -> Vec<&'static str> {
        vec!["file system, clock, entropy (hash seeds), memory placement (simulator)", "the SMT solver whose model is reconstructed (answers drawn from z3 models under random extra constraints)"]
    }
}
impl Strings {
    fn same_query_twice(&self, steps: &[J], st: &J) -> bool {
        steps.iter().filter(|s| s.gi("phase") == st.gi("phase") && s.gi("q") == st.gi("q")).count() > 1
    }
    /// A model a solver may give for the transformed query.
    fn legal(&self, ctx: &mut Ctx, transformed: &str, answer: &str) -> bool {
        let Ok(q) = sexp::parse_all(transformed) else { return false };
        let Ok(ans) = sexp::parse_all(answer) else { return false };
        let mut s = logical(&q);
        let vars: BTreeSet<String> = declared(&q).into_iter().collect();
        for (n, t) in defs(&ans) {
            if vars.contains(&n) {
                s += &format!("(assert (= {} {}))\n", n, t);
            }
        }
        ctx.sat(&s) == Sat::Sat
    }
}
