//! Checks for amzn-smt-string-fct-updater (U*) and amzn-smt-prediction (P*): batches of runs over a shared
//! directory, alone, concurrently, interrupted and repeated.
use crate::json::J;
use crate::obj;
use crate::prop::*;
use crate::rng::{fnv, Rng};
use crate::scen::*;
use crate::sexp::{self, a, app, unbar, S};
use crate::strings::num;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

const UPD: &str = "amzn-smt-string-fct-updater";
const PRED: &str = "amzn-smt-prediction";

// --------------------------------------------------------------------------------------- generator
/// Random scripts over all string operators, in the old or the modern dialect.
struct Gen<'a> {
    r: &'a mut Rng,
    old: bool,
    arith: bool,
    esc: bool,
    strs: Vec<String>,
    ints: Vec<String>,
    bools: Vec<String>,
    n: u32,
}
impl Gen<'_> {
    fn lit(&mut self) -> S {
        let toks = [
            "a", "b", "z", "0", "9", "A", " ", ":", "/", "\\x41", "\\x7f", "\\xE9", "\\n", "\\t", "\\a", "\\b", "\\f", "\\r", "\\v", "\\\\", "\\", "\\x", "\\x4", "\\u{41}",
            "\\u0041", "x", "n", "\"", "(", ";", "\\xg", "\\q", "é",
        ];
        let n = self.r.idx(5);
        let k = if self.esc { toks.len() } else { 9 };
        S::Str((0..n).map(|_| toks[self.r.idx(k)]).collect())
    }
    fn pick(&mut self, v: &[&'static str]) -> &'static str {
        v[self.r.idx(v.len())]
    }
    fn string(&mut self, d: u32) -> S {
        if d == 0 || self.r.chance(1, 3) {
            return if self.r.chance(1, 2) { self.lit() } else { a(self.r.pick(&self.strs.clone()).clone()) };
        }
        let d = d - 1;
        match self.r.idx(9) {
            0 | 1 => {
                let n = 2 + self.r.idx(3);
                let v: Vec<S> = (0..n).map(|_| self.string(d)).collect();
                app("str.++", v)
            }
            2 => app("str.at", [self.string(d), self.int(d)]),
            3 => app("str.substr", [self.string(d), self.int(d), self.int(d)]),
            4 => {
                let o = self.pick(&["str.replace", "str.replace_all"]);
                app(o, [self.string(d), self.string(d), self.string(d)])
            }
            5 => {
                let o = self.pick(&["str.replace_re", "str.replace_re_all"]);
                app(o, [self.string(d), self.re(d), self.string(d)])
            }
            6 => {
                let o = if self.old && self.r.chance(2, 3) { "int.to.str" } else { "str.from_int" };
                app(o, [self.int(d)])
            }
            7 => app("str.from_code", [self.int(d)]),
            _ => app("ite", [self.boolean(d), self.string(d), self.string(d)]),
        }
    }
    fn int(&mut self, d: u32) -> S {
        if d == 0 || self.r.chance(1, 3) {
            if !self.ints.is_empty() && self.r.chance(1, 2) {
                return a(self.r.pick(&self.ints.clone()).clone());
            }
            return a(self.r.idx(12).to_string());
        }
        let d = d - 1;
        match self.r.idx(if self.arith { 8 } else { 5 }) {
            0 => app("str.len", [self.string(d)]),
            1 => app("str.indexof", [self.string(d), self.string(d), self.int(d)]),
            2 => {
                let o = if self.old && self.r.chance(2, 3) { "str.to.int" } else { "str.to_int" };
                app(o, [self.string(d)])
            }
            3 => app("str.to_code", [self.string(d)]),
            4 => app("ite", [self.boolean(d), self.int(d), self.int(d)]),
            5 => {
                let o = self.pick(&["+", "-", "*"]);
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.int(d)).collect();
                app(o, v)
            }
            6 => {
                let n = self.r.range(1, 9);
                num(-n)
            }
            _ => {
                let o = self.pick(&["div", "mod"]);
                app(o, [self.int(d), num(3)])
            }
        }
    }
    fn re(&mut self, d: u32) -> S {
        if d == 0 || self.r.chance(1, 4) {
            return match self.r.idx(6) {
                0 => a(if self.old && self.r.chance(2, 3) { "re.nostr" } else { "re.none" }),
                1 => a("re.all"),
                2 => a("re.allchar"),
                3 => {
                    let (x, y) = (self.lit(), self.lit());
                    app("re.range", [x, y])
                }
                _ => {
                    let o = if self.old && self.r.chance(2, 3) { "str.to.re" } else { "str.to_re" };
                    let x = if self.r.chance(1, 5) { self.string(d) } else { self.lit() };
                    app(o, [x])
                }
            };
        }
        let d = d - 1;
        match self.r.idx(8) {
            0 | 1 => {
                let o = self.pick(&["re.++", "re.union", "re.inter"]);
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.re(d)).collect();
                app(o, v)
            }
            2 => app("re.diff", [self.re(d), self.re(d)]),
            3 => {
                let n = self.r.range(0, 5);
                S::L(vec![S::L(vec![a("_"), a("re.^"), num(n)]), self.re(d)])
            }
            4 | 5 => {
                let lo = self.r.range(0, 5);
                let hi = lo + self.r.range(0, 40);
                let x = self.re(d);
                if self.old && self.r.chance(2, 3) {
                    app("re.loop", [x, num(lo), num(hi)])
                } else {
                    S::L(vec![S::L(vec![a("_"), a("re.loop"), num(lo), num(hi)]), x])
                }
            }
            _ => {
                let o = self.pick(&["re.*", "re.+", "re.opt", "re.comp"]);
                app(o, [self.re(d)])
            }
        }
    }
    fn boolean(&mut self, d: u32) -> S {
        if d == 0 {
            return if !self.bools.is_empty() && self.r.chance(1, 2) { a(self.r.pick(&self.bools.clone()).clone()) } else { a(self.pick(&["true", "false"])) };
        }
        let d = d - 1;
        match self.r.idx(if self.arith { 14 } else { 13 }) {
            0 => {
                let o = self.pick(&["=", "distinct"]);
                app(o, [self.string(d), self.string(d)])
            }
            1 => {
                let o = self.pick(&["str.prefixof", "str.suffixof", "str.contains", "str.<", "str.<="]);
                app(o, [self.string(d), self.string(d)])
            }
            2 | 3 | 4 => {
                let o = if self.old && self.r.chance(2, 3) { "str.in.re" } else { "str.in_re" };
                app(o, [self.string(d), self.re(d)])
            }
            5 => app("str.is_digit", [self.string(d)]),
            6 => app("=", [self.int(d), self.int(d)]),
            7 | 8 => {
                let o = self.pick(&["and", "or", "=>", "xor"]);
                let n = 2 + self.r.idx(2);
                let v: Vec<S> = (0..n).map(|_| self.boolean(d)).collect();
                app(o, v)
            }
            9 => app("not", [self.boolean(d)]),
            10 => app("ite", [self.boolean(d), self.boolean(d), self.boolean(d)]),
            11 => {
                self.n += 1;
                let (x, y) = (format!("l{}", self.n), format!("m{}", self.n));
                let (s, b) = (self.string(d), self.boolean(d));
                self.strs.push(x.clone());
                self.bools.push(y.clone());
                let t = self.boolean(d);
                self.strs.pop();
                self.bools.pop();
                app("let", [S::L(vec![S::L(vec![a(x), s]), S::L(vec![a(y), b])]), t])
            }
            12 => {
                self.n += 1;
                let x = format!("q{}", self.n);
                self.strs.push(x.clone());
                let t = self.boolean(d);
                self.strs.pop();
                let o = self.pick(&["forall", "exists"]);
                app(o, [S::L(vec![S::L(vec![a(x), a("String")])]), t])
            }
            _ => {
                let o = self.pick(&["<", "<=", ">", ">="]);
                app(o, [self.int(d), self.int(d)])
            }
        }
    }
}
/// A script as a list of lines (commands, comments, blank lines; a command may span several lines).
fn script(r: &mut Rng, old: bool) -> Vec<String> {
    let names = ["x", "y", "|a b|", "|z|", "s.t", "re", "str"];
    let ns = 1 + r.idx(3);
    let strs: Vec<String> = (0..ns).map(|k| names[(k * 2 + r.idx(2)).min(6)].to_string()).collect::<BTreeSet<_>>().into_iter().collect();
    let arith = r.chance(1, 2);
    let esc = r.chance(1, 2);
    let ints: Vec<String> = if r.chance(1, 2) { vec!["i".into()] } else { vec![] };
    let mut cmds: Vec<S> = vec![];
    let mut g = Gen { r, old, arith, esc, strs: strs.clone(), ints: ints.clone(), bools: vec!["p".into()], n: 0 };
    if g.r.chance(1, 2) {
        for _ in 0..1 + g.r.idx(2) {
            cmds.push(app("set-option", [a(g.pick(&[":produce-models", ":produce-unsat-cores", ":print-success"])), a("true")]));
        }
    }
    if g.r.chance(1, 3) {
        cmds.push(app("set-logic", [a(g.pick(&["QF_S", "QF_SLIA", "ALL"]))]));
    }
    if g.r.chance(1, 4) {
        cmds.push(app("set-info", [a(":source"), S::Str("an \\x41 (str.to.re) \\n".into())]));
    }
    for s in &strs {
        cmds.push(if g.r.chance(1, 2) { app("declare-const", [a(s.clone()), a("String")]) } else { app("declare-fun", [a(s.clone()), S::L(vec![]), a("String")]) });
    }
    for s in &ints {
        cmds.push(app("declare-const", [a(s.clone()), a("Int")]));
    }
    cmds.push(app("declare-const", [a("p"), a("Bool")]));
    if g.r.chance(1, 4) {
        cmds.push(app("declare-fun", [a("f"), S::L(vec![a("String"), a("Int")]), a("Bool")]));
    }
    if g.r.chance(1, 4) {
        g.strs.push("w".into());
        let b = g.boolean(2);
        g.strs.pop();
        cmds.push(app("define-fun", [a("g"), S::L(vec![S::L(vec![a("w"), a("String")])]), a("Bool"), b]));
    }
    // now and then a long script: thousands of operators, more than one buffer of text
    let long = g.r.chance(1, 30);
    let n = if long { 100 + g.r.idx(500) } else { g.r.idx(6) };
    if long && g.r.chance(1, 3) {
        let n = 4000 + g.r.idx(8000);
        let x = S::Str(g.pick(&["ab", "\\x41", "\\n.", "é"]).repeat(n));
        cmds.push(app("assert", [app("=", [x, a(strs[0].clone())])]));
    }
    for _ in 0..n {
        match g.r.idx(10) {
            0 => cmds.push(app("push", [a("1")])),
            1 => cmds.push(app("echo", [S::Str("\\x41 re.nostr".into())])),
            2 if old => {
                let (x, y) = (g.string(2), g.re(1));
                cmds.push(app("get-value", [S::L(vec![x, y])]));
            }
            _ => {
                let d = 1 + g.r.idx(4) as u32;
                let b = g.boolean(d);
                cmds.push(app("assert", [b]));
            }
        }
    }
    if g.r.chance(9, 10) {
        cmds.push(S::L(vec![a("check-sat")]));
    }
    if g.r.chance(1, 4) {
        cmds.push(S::L(vec![a("get-model")]));
    }
    if g.r.chance(1, 30) {
        // only options, or nothing at all
        cmds.retain(|c| c.head() == Some("set-option"));
    }
    let mut out = vec![];
    for c in cmds {
        match g.r.idx(8) {
            0 => out.push("; a comment with ) and \" in it".to_string()),
            1 => out.push(String::new()),
            _ => {}
        }
        let t = c.to_string();
        // break a line where no literal or quoted symbol can be hit
        if g.r.chance(1, 4) && !t.contains('"') && !t.contains('|') {
            out.push(t.replacen(' ', "\n\t", 2));
        } else {
            out.push(t);
        }
    }
    out
}

// ----------------------------------------------------------------------------------- updater model
/// `\x<h><h>` and the letter escapes become \u{..}; other backslashes keep the next character company.
pub fn escapes(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        let hex = |k: usize| c.get(k).filter(|x| x.is_ascii_hexdigit());
        match c.get(i + 1) {
            Some('x') => {
                if let (Some(h), Some(l)) = (hex(i + 2), hex(i + 3)) {
                    o.push_str(&format!("\\u{{{}{}}}", h, l));
                    i += 4;
                } else {
                    o.push_str("\\x");
                    i += 2;
                }
            }
            Some(x) => {
                match "abfnrtv".find(*x) {
                    Some(k) => o.push_str(["\\u{07}", "\\u{08}", "\\u{0C}", "\\u{0A}", "\\u{0D}", "\\u{09}", "\\u{0B}"][k]),
                    None => {
                        o.push('\\');
                        o.push(*x);
                    }
                }
                i += 2;
            }
            None => {
                o.push('\\');
                i += 1;
            }
        }
    }
    o
}
fn modern(t: &S) -> S {
    match t {
        S::Str(s) => S::Str(escapes(s)),
        S::A(x) if x == "re.nostr" => a("re.none"),
        S::A(_) => t.clone(),
        S::L(v) => {
            if t.head() == Some("re.loop") && v.len() == 4 {
                return S::L(vec![S::L(vec![a("_"), a("re.loop"), v[2].clone(), v[3].clone()]), modern(&v[1])]);
            }
            let mut w: Vec<S> = v.iter().map(modern).collect();
            if let Some(h) = t.head() {
                let n = match h {
                    "str.to.re" => "str.to_re",
                    "str.in.re" => "str.in_re",
                    "str.to.int" => "str.to_int",
                    "int.to.str" => "str.from_int",
                    o => o,
                };
                w[0] = a(n);
            }
            S::L(w)
        }
    }
}
fn uses_arith(t: &S) -> bool {
    match t {
        S::L(v) => matches!(t.head(), Some("+" | "-" | "*" | "<" | "<=" | ">" | ">=" | "div" | "mod" | "abs")) || v.iter().any(uses_arith),
        _ => false,
    }
}
fn canon(t: &S) -> S {
    match t {
        S::A(x) => a(unbar(x)),
        S::L(v) => S::L(v.iter().map(canon).collect()),
        x => x.clone(),
    }
}
fn judge_update(v: &mut Verdict, src: &str, out: Option<&Vec<u8>>) {
    let Some(out) = out else {
        v.fail("no-output", "exit status 0 without an output file");
        return;
    };
    let orig = sexp::parse_all(src).expect("own script");
    let got = match std::str::from_utf8(out).map_err(|e| e.to_string()).and_then(sexp::parse_all) {
        Ok(g) => g,
        Err(e) => {
            v.fail("malformed", e);
            return;
        }
    };
    let want: Vec<S> = orig
        .iter()
        .map(|c| match c.head() {
            Some("set-info" | "set-option" | "echo") => canon(c),
            _ => canon(&modern(c)),
        })
        .collect();
    let mut got: Vec<S> = got.iter().map(canon).collect();
    if !orig.is_empty() && !orig.iter().any(|c| c.head() == Some("set-logic")) {
        let Some(k) = got.iter().position(|c| c.head() == Some("set-logic")) else {
            v.fail("no-logic", "no set-logic was added");
            return;
        };
        let l = got.remove(k);
        let name = l.list().and_then(|x| x.get(1)).and_then(|x| x.atom()).unwrap_or("").to_string();
        let arith = orig.iter().any(uses_arith);
        if !(name == "QF_SLIA" || name == "QF_S" && !arith) {
            v.fail("wrong-logic", format!("{} added to a script {} arithmetic", l, if arith { "with" } else { "without" }));
            return;
        }
        if got[..k].iter().any(|c| !matches!(c.head(), Some("set-option" | "set-info"))) || got[k..].first().map_or(false, |c| c.head() == Some("set-option")) {
            v.fail("logic-position", format!("set-logic added at position {}", k));
            return;
        }
    }
    v.nontrivial = got.len() > 3;
    if got != want {
        let i = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
        let s = |x: Option<&S>| x.map_or("nothing".to_string(), |x| x.to_string());
        v.fail("wrong-output", format!("command {}: expected {}, found {}", i, s(want.get(i)), s(got.get(i))));
    }
}

// ------------------------------------------------------------------------------------ feature model
const ALL: [(&str, &str); 35] = [
    ("str_concat", "str.++"),
    ("len", "str.len"),
    ("lex_ord", "str.<"),
    ("to_re", "str.to_re"),
    ("in_re", "str.in_re"),
    ("re_none", "re.none"),
    ("re_all", "re.all"),
    ("re_all_char", "re.allchar"),
    ("re_concat", "re.++"),
    ("re_union", "re.union"),
    ("re_intersect", "re.inter"),
    ("re_kleene_star", "re.*"),
    ("ref_clos_lex_ord", "str.<="),
    ("sing_str_at", "str.at"),
    ("substr", "str.substr"),
    ("prefix_of", "str.prefixof"),
    ("suffix_of", "str.suffixof"),
    ("contains", "str.contains"),
    ("index_of", "str.indexof"),
    ("replace", "str.replace"),
    ("replace_all", "str.replace_all"),
    ("replace_re", "str.replace_re"),
    ("replace_re_all", "str.replace_re_all"),
    ("re_compl", "re.comp"),
    ("re_diff", "re.diff"),
    ("re_kleene_cross", "re.+"),
    ("re_opt", "re.opt"),
    ("re_range", "re.range"),
    ("re_pow", "re.^"),
    ("re_loop", "re.loop"),
    ("is_digit", "str.is_digit"),
    ("to_code", "str.to_code"),
    ("from_code", "str.from_code"),
    ("to_int", "str.to_int"),
    ("from_int", "str.from_int"),
];
const SMTCOMP: [&str; 17] = [
    "str_concat", "len", "to_re", "in_re", "re_concat", "re_union", "re_kleene_star", "sing_str_at", "substr", "prefix_of", "contains", "index_of", "replace", "re_kleene_cross", "re_range", "to_int",
    "from_int",
];
fn columns(dataset: &str) -> Vec<&'static str> {
    match dataset {
        "smtcomp" | "script" => SMTCOMP.to_vec(),
        "kepler" => vec!["str_concat", "len"],
        _ => ALL.iter().map(|x| x.0).collect(),
    }
}
fn count(t: &S, m: &mut BTreeMap<String, u64>) {
    match t {
        S::A(x) => *m.entry(x.clone()).or_insert(0) += 1,
        S::L(v) => v.iter().for_each(|x| count(x, m)),
        _ => {}
    }
}
fn row(dataset: &str, src: &str) -> String {
    let mut m = BTreeMap::new();
    for c in sexp::parse_all(src).expect("own benchmark").iter().filter(|c| c.head() == Some("assert")) {
        count(c, &mut m);
    }
    let v: Vec<String> = columns(dataset).iter().map(|c| ALL.iter().find(|x| x.0 == *c).map_or(0, |x| m.get(x.1).copied().unwrap_or(0)).to_string()).collect();
    v.join(",") + "\n"
}
fn bench_dir(dataset: &str) -> &'static str {
    match dataset {
        "smtcomp" | "kepler" => "/w/SMT_Comp_2020/",
        _ => "/w/",
    }
}

// -------------------------------------------------------------------------------------------- runs
struct End {
    o: Outcome,
    fin: Finish,
    fired: Vec<Fault>,
    /// The output file when the step's phase ended.
    out: Option<Vec<u8>>,
}
pub struct Batch {
    pub which: &'static str,
}
impl Batch {
    fn bin(&self) -> &'static str {
        if self.which.starts_with('U') {
            UPD
        } else {
            PRED
        }
    }
    /// The argument naming script q, and its extension.
    fn ext(sc: &J, q: usize) -> String {
        sc.ga("exts").get(q).and_then(|x| x.str()).unwrap_or(".smtlib").to_string()
    }
    fn argv(&self, sc: &J, st: &J) -> Vec<String> {
        let q = st.gi("q");
        if self.bin() == UPD {
            vec![UPD.into(), format!("{}s{}", if st.gb("abs") { "/w/" } else { "" }, q)]
        } else {
            vec![PRED.into(), sc.gs("dataset"), format!("/w/list{}.csv", q), format!("run{}", q)]
        }
    }
    fn out_path(&self, sc: &J, st: &J) -> String {
        if self.bin() == UPD {
            format!("/w/s{}_upt{}", st.gi("q"), Self::ext(sc, st.gi("q") as usize))
        } else {
            format!("/w/off_features_run{}.csv", st.gi("q"))
        }
    }
    fn text(sc: &J, q: usize) -> String {
        let v = sc.ga("scripts");
        let l: Vec<String> = v.get(q).map(|x| x.arr().unwrap_or(&[]).iter().map(|s| s.str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let mut s = l.join(if sc.gb("crlf") { "\r\n" } else { "\n" });
        if !sc.gb("nonl") {
            s.push('\n');
        }
        s
    }
    fn inputs(&self, sc: &J) -> Vec<(String, String)> {
        let n = sc.ga("scripts").len();
        let mut f = vec![];
        if self.bin() == UPD {
            for q in 0..n {
                f.push((format!("/w/s{}{}", q, Self::ext(sc, q)), Self::text(sc, q)));
            }
        } else {
            let d = bench_dir(&sc.gs("dataset"));
            for q in 0..n {
                f.push((format!("{}b{}.smt2", d, q), Self::text(sc, q)));
            }
            for (k, l) in sc.ga("lists").iter().enumerate() {
                let v: Vec<String> = l.arr().unwrap_or(&[]).iter().map(|x| format!("{}b{}.smt2", if sc.gb("absolute") { "/w/" } else if d.len() > 3 { "/" } else { "" }, x.int().unwrap_or(0))).collect();
                let mut t = v.join(if sc.gb("crlf") { "\r\n" } else { "\n" });
                if !v.is_empty() && !sc.gb("nonl") {
                    t.push('\n');
                }
                f.push((format!("/w/list{}.csv", k), t));
            }
        }
        f
    }
    fn history(&self, ctx: &mut Ctx, v: &mut Verdict, sc: &J) -> (Vec<End>, BTreeMap<String, Vec<u8>>, Vec<BTreeMap<String, u32>>, Vec<(usize, String, u32, usize)>) {
        let steps = sc.ga("steps");
        let mut base = sc.clone();
        let mut files = sc.ga("files");
        for (p, t) in self.inputs(sc) {
            files.push(file(&p, t.as_bytes()));
        }
        base.set("files", J::Arr(files));
        base.set("procs", J::Arr(vec![]));
        let server = ctx.server(self.bin());
        let mut w = setup(ctx, &base, None);
        let mut ends = vec![];
        let mut fin = Finish::Done;
        let nphase = steps.iter().map(|s| s.gi("phase")).max().unwrap_or(0);
        for ph in 0..=nphase {
            let mine: Vec<&J> = steps.iter().filter(|s| s.gi("phase") == ph).collect();
            let first = w.outcomes.len();
            for st in &mine {
                let mut p = proc_spec(self.bin(), &self.argv(sc, st), st.gu("rnd"), st.gu("heap"));
                p.set("delay", J::Int(st.gi("delay")));
                if let Some(n) = st.get("allocs") {
                    p.set("allocs", n.clone());
                }
                launch(&mut w, &p, server);
            }
            fin = w.run();
            for (k, st) in mine.iter().enumerate() {
                ends.push(End {
                    o: w.outcomes[first + k].clone(),
                    fin,
                    fired: w.fired.iter().map(|&i| w.faults[i].clone()).filter(|f| f.proc == first + k).collect(),
                    out: w.fs.get(&self.out_path(sc, st)).cloned(),
                });
            }
            if fin != Finish::Done {
                break;
            }
            if let Some(l) = sc.ga("losses").iter().find(|l| l.gi("after") == ph) {
                let mut r = Rng::new(l.gu("seed"));
                for e in w.fs.power_loss(&mut r) {
                    v.tag("fault:power-loss");
                    w.event(99, e);
                }
            }
        }
        w.kill_all();
        absorb(v, &mut w, fin);
        (ends, w.fs.files(), w.op_counts.clone(), w.write_sizes.clone())
    }
    fn base(&self, r: &mut Rng) -> J {
        let faulty = matches!(self.which, "U02" | "P02");
        let n = 1 + r.idx(3);
        let old = self.bin() == UPD;
        let mut scripts: Vec<J> = (0..n).map(|_| J::from(script(r, old))).collect();
        let mut steps = vec![];
        let mut phase = 0;
        let step = |r: &mut Rng, q: usize, phase: i64| {
            let d = if r.chance(1, 3) { r.range(0, 2_000_000) } else { 0 };
            obj! {"q" => q, "phase" => phase, "rnd" => r.next() >> 1, "heap" => r.next() >> 1, "delay" => d, "abs" => r.chance(1, 2)}
        };
        let mut files = vec![];
        let mut sc = obj! {"kind" => self.bin()};
        let dataset = *r.pick(&["smtcomp", "kepler", "other", "script"]);
        let m = if old { n } else { 1 + r.idx(2) };
        for q in 0..m {
            steps.push(step(r, q, phase));
            if r.chance(1, 2) {
                phase += 1;
            }
        }
        if faulty {
            // afterwards everything is run again, undisturbed
            phase += 1;
            for q in 0..m {
                steps.push(step(r, q, phase));
            }
        }
        if old {
            let exts: Vec<&str> = (0..n).map(|_| *r.pick(&[".smtlib", ".smtlib", ".smt2"])).collect();
            for (q, e) in exts.iter().enumerate() {
                if r.chance(1, 4) {
                    files.push(file(&format!("/w/s{}_upt{}", q, e), "(assert (= \"left over\" x))\n".repeat(1 + r.idx(200)).as_bytes()));
                }
            }
            sc.set("exts", J::from(exts));
        } else {
            if r.chance(1, 8) {
                let k = r.idx(n);
                let mut l: Vec<J> = scripts[k].arr().unwrap().to_vec();
                l.push(J::from(*r.pick(&["(assert", "(assert (str.len))))", ")", "(frobnicate x)"])));
                scripts[k] = J::Arr(l);
                sc.set("broken", J::from(k));
            }
            let lists: Vec<J> = (0..m)
                .map(|_| {
                    let k = r.idx(5);
                    J::Arr((0..k).map(|_| J::from(r.idx(n))).collect())
                })
                .collect();
            for q in 0..m {
                if r.chance(1, 4) {
                    files.push(file(&format!("/w/off_features_run{}.csv", q), "1,2,3\n".repeat(1 + r.idx(500)).as_bytes()));
                }
            }
            sc.set("lists", J::Arr(lists));
            sc.set("dataset", J::from(dataset));
            if dataset == "script" && r.chance(1, 3) {
                sc.set("absolute", J::Bool(true));
            }
        }
        sc.set("crlf", J::Bool(r.chance(1, 10)));
        sc.set("nonl", J::Bool(r.chance(1, 5)));
        sc.set("scripts", J::Arr(scripts));
        sc.set("steps", J::Arr(steps));
        sc.set("sched_seed", J::from(r.next() >> 1));
        for k in ["schedule", "faults", "losses"] {
            sc.set(k, J::Arr(vec![]));
        }
        sc.set("files", J::Arr(files));
        sc
    }
    fn mild(r: &mut Rng, proc: usize) -> J {
        let (class, act) = match r.idx(6) {
            0 => ("read.file", Act::Err(EINTR)),
            1 => ("write.file", Act::Err(EINTR)),
            2 => ("open", Act::Err(EINTR)),
            3 => ("write.file", Act::Short(1 + r.idx(200))),
            4 => ("write.out", Act::Short(1 + r.idx(5))),
            _ => ("read.file", Act::Short(1 + r.idx(60))),
        };
        let sticky = matches!(act, Act::Short(_)) && r.chance(1, 2);
        Fault { proc, class: class.into(), nth: r.idx(4) as u32, sticky, act }.to_json()
    }
    /// The rows a run must write: all of them, or those before the first benchmark that is not SMT-LIB.
    fn expected(&self, sc: &J, q: usize) -> (String, Vec<usize>, bool) {
        let d = sc.gs("dataset");
        let broken = sc.get("broken").and_then(|x| x.int());
        let mut t = columns(&d).join(",") + "\n";
        let mut ends = vec![t.len()];
        for b in sc.ga("lists").get(q).map(|x| x.arr().unwrap_or(&[]).to_vec()).unwrap_or_default() {
            let b = b.int().unwrap_or(0);
            if Some(b) == broken {
                return (t, ends, false);
            }
            t += &row(&d, &Self::text(sc, b as usize));
            ends.push(t.len());
        }
        (t, ends, true)
    }
}
impl Prop for Batch {
    fn id(&self) -> &'static str {
        self.which
    }
    fn run_seed(&self, ctx: &mut Ctx, seed: u64, emit: Emit) {
        let mut r = Rng::derive(seed, &[fnv(1, self.which.as_bytes())]);
        let base = self.base(&mut r);
        let v = self.exec(ctx, &base);
        if !emit(&base, &v) {
            return;
        }
        let faulty = matches!(self.which, "U02" | "P02");
        let nsteps = base.ga("steps").len();
        let (_, _, counts, sizes) = self.history(ctx, &mut Verdict::default(), &base);
        let victims = if faulty { nsteps - base.ga("steps").iter().filter(|s| s.gi("phase") == base.ga("steps").last().unwrap().gi("phase")).count() } else { nsteps };
        for k in 0..if faulty { 8 } else { 2 } {
            let mut sc = base.clone();
            sc.set("sched_seed", J::from(r.next() >> 1));
            let mut faults = vec![];
            for _ in 0..1 + r.idx(3) {
                let p = r.idx(victims.max(1));
                if !faulty || r.chance(1, 8) {
                    faults.push(Self::mild(&mut r, p));
                } else if let Some(f) = counts.get(p).and_then(|c| draw_fault(&mut r, p, c, &sizes)) {
                    faults.push(f.to_json());
                }
            }
            if faulty && r.chance(1, 8) {
                faults.clear();
                let mut s = sc.ga("steps");
                s[r.idx(victims.max(1))].set("allocs", J::Int(r.range(10, 2000)));
                sc.set("steps", J::Arr(s));
            }
            if faulty && k % 4 == 3 {
                let n = sc.ga("steps").last().unwrap().gi("phase");
                sc.set("losses", J::Arr(vec![obj! {"after" => r.range(0, n - 1), "seed" => r.next() >> 1}]));
            }
            if faulty && r.chance(1, 10) {
                let used: usize = self.inputs(&sc).iter().map(|x| x.1.len()).sum();
                sc.set("quota", J::Int(used as i64 + r.range(0, 1500)));
                faults.clear();
            }
            sc.set("faults", J::Arr(faults));
            let v = self.exec(ctx, &sc);
            if !emit(&sc, &v) {
                return;
            }
        }
    }
    fn exec(&self, ctx: &mut Ctx, sc: &J) -> Verdict {
        let mut v = Verdict::default();
        let (ends, files, _, _) = self.history(ctx, &mut v, sc);
        let steps = sc.ga("steps");
        for (p, t) in self.inputs(sc) {
            if files.get(&p).map(|x| x.as_slice()) != Some(t.as_bytes()) {
                v.fail("input-changed", format!("{} was changed", p));
                return v;
            }
        }
        let last = steps.iter().map(|s| s.gi("phase")).max().unwrap_or(0);
        for (st, e) in steps.iter().zip(&ends) {
            if endless(&e.o, e.fin, &e.fired) && !(e.fired.iter().any(|f| !benign(f)) || st.gi("allocs") > 0 || sc.get("quota").is_some()) {
                v.fail("does-not-terminate", e.o.describe());
                return v;
            }
            if inconclusive(&e.o, e.fin) {
                v.tag("inconclusive");
                return v;
            }
            let q = st.gi("q") as usize;
            let disturbed = e.fired.iter().any(|f| !benign(f)) || st.gi("allocs") > 0 || sc.get("quota").is_some();
            v.tag(format!("{}:{}", if disturbed { "disturbed" } else { "undisturbed" }, e.o.describe()));
            if st.gi("allocs") > 0 {
                v.tag("fault:alloc-failure");
            }
            if sc.get("quota").is_some() {
                v.tag("fault:disk-full");
            }
            // a copy of the same step in the same phase shares the output file
            let alone = steps.iter().filter(|s| s.gi("phase") == st.gi("phase") && s.gi("q") == st.gi("q")).count() == 1;
            if self.bin() == UPD {
                if e.o.ok() {
                    judge_update(&mut v, &Self::text(sc, q), e.out.as_ref());
                } else if !disturbed {
                    v.fail(format!("fails: {}", panic_site(&e.o.err)), e.o.describe());
                }
            } else {
                let (want, rows, complete) = self.expected(sc, q);
                let got = e.out.clone().unwrap_or_default();
                if e.o.ok() {
                    v.nontrivial |= rows.len() > 1;
                    if !complete {
                        v.fail("unnoticed", "exit status 0 although a benchmark is not SMT-LIB");
                    }
                } else if !disturbed && complete {
                    v.fail(format!("fails: {}", panic_site(&e.o.err)), e.o.describe());
                }
                if alone && v.violation.is_none() {
                    let out = String::from_utf8_lossy(&e.o.out).into_owned();
                    let announced = out.lines().filter(|l| l.ends_with(".smt2")).count();
                    // a row is on its way to the file before the next benchmark is announced
                    let must = if e.o.ok() {
                        want.len()
                    } else if announced >= 2 {
                        rows[(announced - 1).min(rows.len() - 1)]
                    } else {
                        0
                    };
                    let fresh = !e.o.ok() && announced == 0;
                    if !want.as_bytes().starts_with(&got) && !fresh {
                        v.fail("wrong-rows", format!("expected (a prefix of) {:?}, found {:?}", want, String::from_utf8_lossy(&got)));
                    } else if got.len() < must && !fresh {
                        v.fail("missing-rows", format!("{} benchmarks were announced, found {:?}", announced, String::from_utf8_lossy(&got)));
                    }
                    v.nontrivial |= rows.len() > 1 && disturbed;
                }
            }
            if v.violation.is_some() {
                return v;
            }
            if st.gi("phase") == last && disturbed {
                v.tag("last-disturbed");
            }
            v.nontrivial |= disturbed;
        }
        v
    }
    fn shrink(&self, sc: &J) -> Vec<J> {
        let mut out = shrink_common(sc);
        for k in ["losses", "files"] {
            if !sc.ga(k).is_empty() {
                let mut c = sc.clone();
                c.set(k, J::Arr(vec![]));
                out.push(c);
            }
        }
        for k in ["crlf", "nonl"] {
            if sc.gb(k) {
                let mut c = sc.clone();
                c.set(k, J::Bool(false));
                out.push(c);
            }
        }
        let steps = sc.ga("steps");
        for i in 0..steps.len() {
            if steps.len() == 1 {
                break;
            }
            let mut s = steps.clone();
            s.remove(i);
            let f: Vec<J> = sc
                .ga("faults")
                .into_iter()
                .filter(|f| f.gi("proc") != i as i64)
                .map(|mut f| {
                    let p = f.gi("proc");
                    if p > i as i64 {
                        f.set("proc", J::Int(p - 1));
                    }
                    f
                })
                .collect();
            let mut c = sc.clone();
            c.set("faults", J::Arr(f));
            c.set("steps", J::Arr(s));
            out.push(c);
        }
        for key in ["scripts", "lists"] {
            let qs = sc.ga(key);
            for (i, q) in qs.iter().enumerate() {
                let h = obj! {"q" => q.clone()};
                for x in shrink_list(&h, "q", 0) {
                    let mut n = qs.clone();
                    n[i] = x.get("q").unwrap().clone();
                    let mut c = sc.clone();
                    c.set(key, J::Arr(n));
                    out.push(c);
                }
                if key == "lists" {
                    continue;
                }
                // smaller terms inside the commands
                for (k, line) in q.arr().unwrap_or(&[]).iter().enumerate() {
                    let Some(p) = sexp::parse_all(line.str().unwrap_or("")).ok().filter(|p| p.len() == 1 && p[0].head() == Some("assert")) else { continue };
                    for t in smaller(&p[0].list().unwrap()[1]) {
                        let mut l = q.arr().unwrap().to_vec();
                        l[k] = J::from(app("assert", [t]).to_string());
                        let mut n = qs.clone();
                        n[i] = J::Arr(l);
                        let mut c = sc.clone();
                        c.set(key, J::Arr(n));
                        out.push(c);
                    }
                }
            }
        }
        for (i, s) in steps.iter().enumerate() {
            for k in ["rnd", "heap", "delay"] {
                if s.gi(k) > 0 {
                    let mut n = steps.clone();
                    n[i].set(k, J::Int(0));
                    let mut c = sc.clone();
                    c.set("steps", J::Arr(n));
                    out.push(c);
                }
            }
        }
        out
    }
    fn quick_seeds(&self) -> u64 {
        match self.which {
            "U01" | "P01" => 5000,
            _ => 2000,
        }
    }
    fn rule(&self) -> &'static str {
        match self.which {
            "U01" => "distinct event histories in which a script of more than three commands was updated and compared with the reference translation",
            "P01" => "distinct event histories in which at least one benchmark's row was written and compared with the reference counts",
            _ => "distinct event histories in which an injected fault, crash, power loss or full disk hit a run",
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "scripts come from the generator (string operators of both dialects, lets, quantifiers, arithmetic, comments, line breaks); commands the parser of aws-smt-ir rejects are not explored".into(),
            "libc calls are the program's only channel to the outside world; inline system calls would escape the shim".into(),
        ]
    }
    fn real(&self) -> Vec<&'static str> {
        if self.bin() == UPD {
            vec!["amzn-smt-string-fct-updater binary built from /repo, unmodified (with aws-smt-ir)", "Rust std I/O"]
        } else {
            vec!["amzn-smt-prediction binary built from /repo, unmodified (with aws-smt-ir)", "Rust std I/O"]
        }
    }
    fn stubbed(&self) -> Vec<&'static str> {
        vec!["file system, clock, entropy, memory placement (simulator)"]
    }
}
/// Boolean subterms in place of a Boolean term.
fn smaller(t: &S) -> Vec<S> {
    let mut out = vec![a("true")];
    if let S::L(v) = t {
        match t.head() {
            Some("and" | "or" | "not" | "=>" | "xor" | "ite") => {
                out.extend(v[1..].iter().cloned());
                for (i, x) in v.iter().enumerate().skip(1) {
                    for y in smaller(x) {
                        let mut w = v.clone();
                        w[i] = y;
                        out.push(S::L(w));
                    }
                }
            }
            Some("let" | "forall" | "exists") => {
                for y in smaller(&v[2]) {
                    let mut w = v.clone();
                    w[2] = y;
                    out.push(S::L(w));
                }
            }
            _ => {
                for (i, x) in v.iter().enumerate().skip(1) {
                    if let S::L(k) = x {
                        for y in k.iter().skip(1) {
                            let mut w = v.clone();
                            w[i] = y.clone();
                            out.push(S::L(w));
                        }
                    }
                }
            }
        }
    }
    out.retain(|x| x != t);
    out
}
