//! Deterministic simulation of the rust-smt-ir-examples programs.  See /verif/DESIGN.md.
mod batch;
mod eager;
mod json;
mod oracle;
mod proc;
mod prop;
mod rng;
mod sat;
mod scen;
mod sem;
mod sexp;
mod strings;
mod world;

use json::J;
use prop::{Ctx, Prop, Verdict};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(eager::Eager { which: "E01" }),
        Box::new(eager::Eager { which: "E02" }),
        Box::new(eager::Eager { which: "E03" }),
        Box::new(eager::Eager { which: "E04" }),
        Box::new(eager::Eager { which: "E05" }),
        Box::new(strings::Strings { which: "T01" }),
        Box::new(strings::Strings { which: "T02" }),
        Box::new(strings::Strings { which: "T03" }),
        Box::new(strings::Strings { which: "T04" }),
        Box::new(strings::Strings { which: "T05" }),
        Box::new(strings::Strings { which: "T06" }),
        Box::new(batch::Batch { which: "U01" }),
        Box::new(batch::Batch { which: "U02" }),
        Box::new(batch::Batch { which: "P01" }),
        Box::new(batch::Batch { which: "P02" }),
    ]
}

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    keys: HashSet<u64>,
    histories: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    sim_ns: u128,
    steps: u64,
    switches: u64,
    procs: u64,
    nontrivial: u64,
    samples: Vec<J>,
    rechecked: u64,
    nondet: u64,
    unreproducible: Vec<String>,
    known_hits: BTreeMap<String, u64>,
    survey: BTreeMap<String, u64>,
}

fn main() {
    world::set_rlimits();
    let argv: Vec<String> = std::env::args().collect();
    let cmd = argv.get(1).cloned().unwrap_or_default();
    let mut m = HashMap::new();
    let mut pos = vec![];
    let mut i = 2;
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            m.insert(k.to_string(), argv.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(argv[i].clone());
            i += 1;
        }
    }
    let args = Args(m);
    let code = match cmd.as_str() {
        "check" => check(&pos[0], &args),
        "replay" => replay(&pos[0], &args),
        "seed" => one_seed(&pos[0], pos[1].parse().unwrap(), &args),
        _ => {
            eprintln!("usage: dst check ID | replay FILE | seed ID N");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Box<dyn Prop> {
    props().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
fn ctx(args: &Args) -> Ctx {
    Ctx::new(&args.get("bin", "/verif/target/bin/release"), &args.get("shim", "/verif/target/shim.so"))
}

/// Known findings of a property: (signature, what, pinned scenario).
fn known(path: &str, id: &str) -> Vec<(String, String, J)> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let j = J::parse(&t).unwrap_or_else(|e| panic!("HARNESS: {}: {}", path, e));
    j.ga("findings")
        .iter()
        .filter(|f| f.gs("property") == id && f.gs("status") == "open")
        .map(|f| (f.gs("signature"), f.gs("what"), f.get("scenario").cloned().unwrap_or(J::Null)))
        .collect()
}

fn minimise(p: &dyn Prop, ctx: &mut Ctx, sc: &J, kind: &str, budget: Duration) -> (J, u64) {
    let t0 = Instant::now();
    let mut cur = sc.clone();
    let mut tries = 0;
    // first make the schedule explicit
    if sc.get("sched_seed").is_some() {
        let v = p.exec(ctx, sc);
        let mut c = sc.clone();
        c.remove("sched_seed");
        c.set("schedule", J::Arr(v.choices.iter().map(|&x| J::Int(x as i64)).collect()));
        tries += 1;
        if p.exec(ctx, &c).violation.map_or(false, |x| x.0 == kind) {
            cur = c;
        }
    }
    'again: loop {
        for c in p.shrink(&cur) {
            if t0.elapsed() > budget || tries > 4000 {
                return (cur, tries);
            }
            if c == cur {
                continue;
            }
            tries += 1;
            let v = p.exec(ctx, &c);
            if v.violation.as_ref().map_or(false, |x| x.0 == kind) {
                cur = c;
                continue 'again;
            }
        }
        return (cur, tries);
    }
}

fn one_seed(id: &str, seed: u64, args: &Args) -> i32 {
    let p = find(id);
    let mut c = ctx(args);
    c.trace = args.get("trace", "0") == "1";
    let base: u64 = args.get("seed", "1").parse().unwrap();
    let mut n = 0;
    let only: i64 = args.get("only", "-1").parse().unwrap();
    p.run_seed(&mut c, mix(base, seed), &mut |sc, v| {
        if only < 0 || only == n {
            println!("#{} {}", n, sc.pretty());
            for l in &v.log {
                println!("{}", l);
            }
            println!("=> {:?} hash={:x} tags={:?}", v.violation, v.hash, v.tags);
        }
        n += 1;
        true
    });
    0
}

fn mix(base: u64, seed: u64) -> u64 {
    rng::Rng::derive(base, &[seed]).next()
}

fn replay(file: &str, args: &Args) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", file, e);
        std::process::exit(2)
    });
    let j = J::parse(&t).expect("replay file is not JSON");
    let p = find(&j.gs("property"));
    let mut c = ctx(args);
    c.trace = true;
    let v = p.exec(&mut c, j.get("scenario").expect("no scenario"));
    for l in &v.log {
        println!("{}", l);
    }
    println!("event hash {:016x} (recorded {})", v.hash, j.gs("hash"));
    match v.violation {
        Some((k, d)) => {
            println!("{}: {}", k, d);
            println!("VIOLATION property={} replay={}", p.id(), file);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

struct Found {
    seed: u64,
    sc: J,
    v: Verdict,
}

fn check(id: &str, args: &Args) -> i32 {
    let p = find(id);
    let p: &dyn Prop = p.as_ref();
    let t0 = Instant::now();
    let tier = args.get("tier", "quick");
    let base: u64 = args.get("seed", "1").parse().unwrap_or(1);
    let threads: usize = args.get("threads", "8").parse().unwrap();
    let (max_seeds, wall) = if tier == "thorough" {
        (u64::MAX, Duration::from_secs(args.get("wall", "600").parse().unwrap()))
    } else {
        (args.get("seeds", &p.quick_seeds().to_string()).parse().unwrap(), Duration::from_secs(args.get("wall", "200").parse().unwrap()))
    };
    let survey = args.get("survey", "0") == "1";
    let knowns = known(&args.get("known", "/verif/known-findings.json"), id);

    // pinned known findings first
    {
        let mut c = ctx(args);
        for (sig, what, sc) in &knowns {
            let v = p.exec(&mut c, sc);
            match v.violation {
                Some((k, _)) if &k == sig => println!("KNOWN-FINDING: property={} {}", id, what),
                Some((k, d)) => println!("note: pinned scenario of {:?} now fails differently: {} {}", sig, k, d),
                None => println!("note: known finding {:?} no longer fails", sig),
            }
        }
    }

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let seeds_done = AtomicU64::new(0);
    let dead = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut c = ctx(args);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= max_seeds || t0.elapsed() > wall || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let began = Instant::now();
                        let mut recheck: Vec<(J, u64)> = vec![];
                        let mut bad: Option<(J, Verdict)> = None;
                        p.run_seed(&mut c, mix(base, i), &mut |sc, v| {
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1;
                            st.histories.insert(v.hash);
                            st.sim_ns += v.sim_ns as u128;
                            st.steps += v.steps;
                            st.switches += v.switches;
                            st.procs += v.procs;
                            for t in &v.tags {
                                *st.tags.entry(t.clone()).or_insert(0) += 1;
                            }
                            if v.nontrivial {
                                st.nontrivial += 1;
                                st.keys.insert(if v.key == 0 { v.hash } else { v.key });
                                if st.samples.len() < 5 && i % 7 == 3 {
                                    st.samples.push(obj! {"seed" => i, "scenario" => sc.clone(), "tags" => v.tags.clone()});
                                }
                            }
                            if (i % 41 == 0 && recheck.len() < 2) || v.violation.is_some() {
                                recheck.push((sc.clone(), v.hash));
                            }
                            if let Some((k, _)) = &v.violation {
                                if knowns.iter().any(|x| &x.0 == k) {
                                    *st.known_hits.entry(k.clone()).or_insert(0) += 1;
                                    return true;
                                }
                                if survey {
                                    *st.tags.entry(format!("SURVEY {}", k)).or_insert(0) += 1;
                                    st.survey.entry(k.clone()).or_insert(i);
                                    return true;
                                }
                                bad = Some((sc.clone(), v.clone()));
                                return false;
                            }
                            true
                        });
                        if survey && began.elapsed() > Duration::from_secs(8) {
                            println!("slow: seed {} {:?}", i, began.elapsed());
                        }
                        for (sc, h) in recheck {
                            let v = p.exec(&mut c, &sc);
                            let mut st = stats.lock().unwrap();
                            st.rechecked += 1;
                            if v.hash != h {
                                st.nondet += 1;
                            }
                        }
                        seeds_done.fetch_add(1, Ordering::SeqCst);
                        if let Some((sc, v)) = bad {
                            // a violation counts only if its explicit scenario reproduces it
                            let again = p.exec(&mut c, &sc);
                            let kind = &v.violation.as_ref().unwrap().0;
                            if again.violation.as_ref().map(|x| &x.0) == Some(kind) {
                                found.lock().unwrap().push(Found { seed: i, sc, v });
                                stop.store(true, Ordering::SeqCst);
                            } else {
                                stats.lock().unwrap().unreproducible.push(format!("seed {}: {:?}", i, v.violation));
                            }
                        }
                    }
                }));
                if let Err(e) = r {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    dead.lock().unwrap().push(m);
                    stop.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    for (k, i) in &stats.lock().unwrap().survey {
        println!("survey: seed {} {}", i, k);
    }
    let search_s = t0.elapsed().as_secs_f64();
    let dead = dead.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.seed);
    let st = stats.into_inner().unwrap();
    let mut violations = J::Arr(vec![]);
    let mut code = 0;
    if let Some(f) = found.first() {
        let mut c = ctx(args);
        let (kind, desc) = f.v.violation.clone().unwrap();
        println!("seed {}: {}: {}", f.seed, kind, desc);
        let (sc, tries) = minimise(p, &mut c, &f.sc, &kind, Duration::from_secs(60));
        let v = p.exec(&mut c, &sc);
        let (mk, md) = v.violation.clone().unwrap_or((kind.clone(), desc.clone()));
        println!("minimised ({} attempts): {}: {}", tries, mk, md);
        let dir = args.get("replays", "/verif/replays");
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{}/{}-seed{}.json", dir, id, f.seed);
        let rj = obj! {
            "property" => id, "base_seed" => base, "seed" => f.seed, "kind" => mk.as_str(), "what" => md.as_str(),
            "hash" => format!("{:016x}", v.hash), "scenario" => sc, "original" => f.sc.clone(),
        };
        std::fs::write(&path, rj.pretty() + "\n").unwrap();
        println!("VIOLATION property={} replay={}", id, path);
        violations = J::Arr(vec![obj! {"kind" => mk.as_str(), "what" => md.as_str(), "seed" => f.seed, "replay" => path.as_str()}]);
        code = 1;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let tags = |pre: &str| {
        J::Obj(st.tags.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|s| (s.to_string(), J::from(*v)))).collect())
    };
    let seeds = seeds_done.load(Ordering::SeqCst);
    let injected: u64 = st.tags.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(_, v)| *v).sum();
    let ev = obj! {
        "property" => id, "tier" => tier.as_str(), "seed" => base, "level" => "exploration",
        "coverage" => obj! {
            "evaluations" => st.evaluations,
            "distinct_nontrivial" => st.keys.len(),
            "rule" => p.rule(),
            "samples" => J::Arr(st.samples.clone()),
            "seeds" => seeds,
            "simulated_runs" => st.evaluations,
            "seeds_per_hour" => (seeds as f64 / search_s.max(0.001) * 3600.0).round(),
            "simulated_runs_per_hour" => (st.evaluations as f64 / search_s.max(0.001) * 3600.0).round(),
            "simulated_seconds" => (st.sim_ns as f64 / 1e9),
            "scheduler_steps" => st.steps,
            "context_switches" => st.switches,
            "simulated_processes" => st.procs,
            "distinct_event_histories" => st.histories.len(),
            "nontrivial_runs" => st.nontrivial,
            "faults_injected_total" => injected,
            "faults_injected" => tags("fault:"),
            "outcomes" => J::Obj(st.tags.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| (k.clone(), J::from(*v))).collect()),
            "determinism_rechecks" => st.rechecked,
            "determinism_mismatches" => st.nondet,
            "unreproducible" => st.unreproducible.clone(),
            "known_finding_hits" => J::Obj(st.known_hits.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect()),
            "real_components" => p.real().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
            "stubbed_components" => p.stubbed().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        },
        "assumptions" => p.assumptions(),
        "wall_s" => wall_s,
        "violations" => code as i64,
        "violation_details" => violations,
    };
    let out = args.get("out", "");
    if !out.is_empty() {
        std::fs::write(&out, ev.pretty() + "\n").unwrap();
    }
    println!(
        "{} {}: {} seeds, {} runs, {} distinct nontrivial, {} faults injected, {} rechecked, {} nondeterministic, {:.1}s",
        id, tier, seeds, st.evaluations, st.keys.len(), injected, st.rechecked, st.nondet, wall_s
    );
    if args.get("verbose", "0") == "1" {
        for (k, v) in &st.tags {
            println!("  {:>8} {}", v, k);
        }
    }
    if !st.unreproducible.is_empty() {
        println!("unreproducible (not reported): {:?}", st.unreproducible);
    }
    if !dead.is_empty() {
        eprintln!("worker failed: {:?}", dead);
        if code == 0 {
            code = 2;
        }
    }
    if code == 0 && st.keys.is_empty() {
        eprintln!("nothing was explored");
        code = 2;
    }
    code
}
