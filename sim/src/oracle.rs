//! Reference solvers used only as oracles (outside the simulation): z3, with cvc5 as a second opinion.
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    n: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
    /// The script is not accepted at all.
    Error,
}

impl Z3 {
    pub fn start() -> Z3 {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2", "-memory:3000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("HARNESS: z3 not available");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Z3 { child, inp, out, n: 0 }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        *self = Z3::start();
    }
    /// Runs a script (already without set-logic), returns everything printed.
    pub fn raw(&mut self, script: &str, ms: u64) -> Option<String> {
        if self.n >= 400 {
            self.restart();
        }
        self.n += 1;
        let mark = format!("dst-end-{}", self.n);
        let text = format!("(reset)\n(set-option :timeout {})\n{}\n(echo \"{}\")\n", ms, script, mark);
        if self.inp.write_all(text.as_bytes()).and_then(|_| self.inp.flush()).is_err() {
            self.restart();
            return None;
        }
        let mut s = String::new();
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    self.restart();
                    return None;
                }
                Ok(_) => {
                    if l.trim() == mark {
                        return Some(s);
                    }
                    s.push_str(&l);
                }
            }
        }
    }
    pub fn check(&mut self, script: &str, ms: u64) -> Sat {
        match self.check_or_error(script, ms) {
            Sat::Error => Sat::Unknown,
            x => x,
        }
    }
    pub fn check_or_error(&mut self, script: &str, ms: u64) -> Sat {
        let Some(o) = self.raw(&format!("{}\n(check-sat)", script), ms) else { return Sat::Unknown };
        if o.contains("(error") {
            let unsure = ["cancel", "timeout", "memory", "max."].iter().any(|x| o.contains(x));
            return if unsure { Sat::Unknown } else { Sat::Error };
        }
        match o.lines().last().map(|l| l.trim()) {
            Some("sat") => Sat::Sat,
            Some("unsat") => Sat::Unsat,
            _ => Sat::Unknown,
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One-shot cvc5 run.
pub fn cvc5(script: &str, ms: u64) -> Sat {
    let c = Command::new("cvc5")
        .args(["--lang", "smt2", &format!("--tlimit={}", ms), "--strings-exp"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut c) = c else { return Sat::Unknown };
    let mut i = c.stdin.take().unwrap();
    let _ = i.write_all(script.as_bytes());
    drop(i);
    let mut s = String::new();
    let _ = c.stdout.take().unwrap().read_to_string(&mut s);
    let _ = c.wait();
    if s.contains("(error") {
        return Sat::Unknown;
    }
    match s.lines().last().map(|l| l.trim()) {
        Some("sat") => Sat::Sat,
        Some("unsat") => Sat::Unsat,
        _ => Sat::Unknown,
    }
}
