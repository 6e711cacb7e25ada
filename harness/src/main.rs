mod capacity;
mod checks;
#[cfg(feature = "clients")]
mod clients;
#[cfg(not(feature = "clients"))]
mod clients {
    use crate::sim::*;
    pub fn strategy() -> proptest::strategy::BoxedStrategy<Case> {
        panic!("P17 needs the build with --features clients")
    }
    pub fn run(_: &mut Sim, _: &Case, _: &mut Out) {}
}
#[cfg(feature = "clients")]
mod js;
#[cfg(not(feature = "clients"))]
mod js {
    use crate::sim::*;
    pub fn run(_: &mut Sim, _: &Case, _: &mut Out) {
        panic!("P22 needs the build with --features clients")
    }
    pub fn cleanup() {}
}
mod gen;
mod ident;
mod inits;
mod model;
mod mutate;
mod sim;
mod svm;
mod twins;
mod wire;

use checks::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use sim::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn root() -> std::path::PathBuf {
    std::env::var("VH_ROOT").map(Into::into).unwrap_or_else(|_| {
        std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

fn seed_bytes(seed: u64, id: &str, thread: u64) -> [u8; 32] {
    solana_program::hash::hashv(&[&seed.to_le_bytes(), id.as_bytes(), &thread.to_le_bytes()]).to_bytes()
}

fn hash_case(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    foreign: u64,
    stats: Stats,
    samples: Vec<Value>,
    first_foreign: Option<String>,
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines "known: property=<id> sig=<signature> <text>"
    let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, r)| {
            let r = r.strip_prefix("sig=")?;
            let (s, t) = r.split_once(' ').unwrap_or((r, ""));
            Some((s.to_string(), t.to_string()))
        })
        .collect()
}

fn write_replay(id: &'static str, case: &Case, why: &str) -> std::path::PathBuf {
    let o = run(id, case, true);
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{id}-{:016x}.json", hash_case(case)));
    let v = json!({
        "property": id,
        "why": o.fail.clone().unwrap_or_else(|| why.to_string()),
        "case": case,
        "trace": o.trace,
    });
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    f
}

fn check(id: &'static str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cases = quick_cases(id);
    if tier == "thorough" {
        cases *= 25;
    }
    if let Ok(n) = std::env::var("VH_CASES") {
        cases = n.parse().unwrap();
    }
    // on a slow or busy machine, fewer cases rather than no answer
    let budget: u64 = if tier == "thorough" { 6 * 3600 } else { 400 };
    for (_, text) in known_findings(id) {
        println!("KNOWN-FINDING: property={id} {text}");
    }
    let threads: u32 = 8;
    let stop = AtomicBool::new(false);
    let tally = Mutex::new(Tally::default());
    let failures: Mutex<Vec<(u32, Case, String)>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);

    // saved inputs first: every defect found so far must stay away
    let mut regress = 0u64;
    if let Ok(d) = std::fs::read_dir(root().join("regress")) {
        let mut fs: Vec<_> = d.flatten().map(|e| e.path()).collect();
        fs.sort();
        for f in fs {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let v: Value = serde_json::from_str(&t).expect("regress file");
            if v["property"] != id {
                continue;
            }
            let case: Case = serde_json::from_value(v["case"].clone()).expect("regress case");
            regress += 1;
            if let Some(why) = run(id, &case, false).fail {
                failures.lock().unwrap().push((0, case, why));
                break;
            }
        }
    }
    if failures.lock().unwrap().is_empty() {
        std::thread::scope(|s| {
            for th in 0..threads {
                let (stop, tally, failures, broken) = (&stop, &tally, &failures, &broken);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let n = cases / threads + u32::from(th < cases % threads);
                        let cfg = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: if std::env::var("VH_NOSHRINK").is_ok() { 0 } else { 3000 },
                            max_shrink_time: 90_000,
                            max_global_rejects: 1000,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, th as u64));
                        let mut r = TestRunner::new_with_rng(cfg, rng);
                        let strat = strategy(id);
                        let mine = AtomicBool::new(false);
                        let local = std::cell::RefCell::new(Tally::default());
                        let res = r.run(&strat, |case| {
                            if !mine.load(Ordering::Relaxed)
                                && (stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() > budget)
                            {
                                return Ok(());
                            }
                            let o = run(id, &case, false);
                            if !mine.load(Ordering::Relaxed) {
                                let mut t = local.borrow_mut();
                                t.evaluations += 1;
                                t.stats.merge(&o.stats);
                                if o.foreign {
                                    t.foreign += 1;
                                    if t.first_foreign.is_none() {
                                        t.first_foreign = o.trace.last().cloned();
                                    }
                                }
                                if o.nontrivial {
                                    t.nontrivial.insert(hash_case(&case));
                                    if t.samples.len() < 1 && t.nontrivial.len() == 20 + th as usize {
                                        t.samples.push(serde_json::to_value(&case).unwrap());
                                    }
                                }
                            }
                            match o.fail {
                                Some(why) => {
                                    mine.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(why))
                                }
                                None => Ok(()),
                            }
                        });
                        let l = local.into_inner();
                        let mut t = tally.lock().unwrap();
                        t.evaluations += l.evaluations;
                        t.nontrivial.extend(l.nontrivial);
                        t.foreign += l.foreign;
                        t.stats.merge(&l.stats);
                        if t.samples.len() < 3 {
                            t.samples.extend(l.samples);
                        }
                        if t.first_foreign.is_none() {
                            t.first_foreign = l.first_foreign;
                        }
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(why, case)) => {
                                failures.lock().unwrap().push((th, case, why.message().to_string()))
                            }
                            Err(TestError::Abort(why)) => {
                                *broken.lock().unwrap() = Some(why.message().to_string())
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| (f.1.ops.len(), f.0));
    let t = tally.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": rule(id),
            "samples": t.samples,
            "operations": t.stats.n,
            "regressions_replayed": regress,
            "cases_with_disagreements_outside_the_property": t.foreign,
            "explanation": t.first_foreign,
        },
        "assumptions": [
            "the mini runtime in harness/src/svm.rs applies Solana's account rules; the program is compiled natively",
            "staking-contract requests (withdrawals, slashes, restakes) refer to stakes it recorded, or are refused"
        ],
        "wall_s": wall,
        "violations": failures.len(),
    });
    let mut ev = ev;
    if t.first_foreign.is_none() {
        ev["coverage"].as_object_mut().unwrap().remove("explanation");
    }
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} with disagreements outside the property, {:.1} s",
        t.evaluations,
        t.nontrivial.len(),
        t.foreign,
        wall
    );
    if std::env::var("VH_STATS").is_ok() {
        println!("{:?}", t.stats.n);
        println!("{:?}", t.first_foreign);
    }
    if let Some(why) = broken.into_inner().unwrap() {
        eprintln!("check aborted: {why}");
        return 2;
    }
    if let Some((_, case, why)) = failures.into_iter().next() {
        let f = write_replay(id, &case, &why);
        println!("{why}");
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    0
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let id = ALL.iter().find(|i| v["property"] == **i).expect("property");
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let o = run(id, &case, true);
    for l in &o.trace {
        println!("{l}");
    }
    match o.fail {
        Some(w) => {
            println!("{w}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("no violation of {id}");
            0
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).and_then(|i| ALL.iter().find(|x| *x == i)).expect("property id");
            check(id)
        }
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: vh check <ID> | vh replay <file>");
            2
        }
    };
    js::cleanup();
    std::process::exit(code);
}
