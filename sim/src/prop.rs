//! What every property check provides, and the state a worker thread carries.
use crate::json::J;
use crate::oracle::{Sat, Z3};
use crate::rng::fnv;
use crate::proc::Server;
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// (kind, description); the kind identifies the failure for minimisation and known findings.
    pub violation: Option<(String, String)>,
    /// Hash over every event of the execution(s): equal scenario => equal hash.
    pub hash: u64,
    /// What makes this execution distinct for coverage.
    pub key: u64,
    pub nontrivial: bool,
    pub tags: Vec<String>,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub procs: u64,
    pub log: Vec<String>,
    /// Scheduling choices made (to turn a seeded schedule into an explicit one).
    pub choices: Vec<u32>,
}
impl Verdict {
    pub fn tag(&mut self, s: impl Into<String>) {
        self.tags.push(s.into());
    }
    pub fn fail(&mut self, kind: impl Into<String>, desc: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some((kind.into(), desc.into()));
        }
    }
}

pub struct Ctx {
    pub servers: Vec<Server>,
    pub index: HashMap<String, usize>,
    pub bindir: String,
    pub shim: String,
    pub z3: Option<Z3>,
    pub trace: bool,
    sat: HashMap<u64, Sat>,
}
impl Ctx {
    pub fn new(bindir: &str, shim: &str) -> Ctx {
        Ctx { servers: vec![], index: HashMap::new(), bindir: bindir.into(), shim: shim.into(), z3: None, trace: false, sat: HashMap::new() }
    }
    pub fn server(&mut self, bin: &str) -> usize {
        if let Some(&i) = self.index.get(bin) {
            return i;
        }
        let s = Server::start(&format!("{}/{}", self.bindir, bin), &self.shim, &[])
            .unwrap_or_else(|e| panic!("HARNESS: cannot start {}: {}", bin, e));
        self.servers.push(s);
        self.index.insert(bin.to_string(), self.servers.len() - 1);
        self.servers.len() - 1
    }
    /// z3's verdict on a script, remembered.
    pub fn sat(&mut self, script: &str) -> Sat {
        let k = fnv(0, script.as_bytes());
        if let Some(&x) = self.sat.get(&k) {
            return x;
        }
        if self.sat.len() > 4000 {
            self.sat.clear();
        }
        let x = self.z3().check_or_error(script, 1500);
        self.sat.insert(k, x);
        x
    }
    pub fn z3(&mut self) -> &mut Z3 {
        self.z3.get_or_insert_with(Z3::start)
    }
}

pub type Emit<'a> = &'a mut dyn FnMut(&J, &Verdict) -> bool;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// Generates and executes the scenarios of one seed; reports each through `emit`
    /// (which returns false when the seed should stop).
    fn run_seed(&self, ctx: &mut Ctx, seed: u64, emit: Emit);
    /// Executes one explicit scenario.
    fn exec(&self, ctx: &mut Ctx, sc: &J) -> Verdict;
    /// Smaller variants of a scenario, most promising first.
    fn shrink(&self, sc: &J) -> Vec<J>;
    fn quick_seeds(&self) -> u64;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<String>;
    fn real(&self) -> Vec<&'static str>;
    fn stubbed(&self) -> Vec<&'static str>;
}
