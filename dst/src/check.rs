//! Seeded search over cases, in parallel; replay files; evidence.
use crate::case::*;
use crate::cases;
use crate::judge::judge;
use crate::minimise::{minimise, Found};
use crate::oracle::{Tally, Viol};
use crate::rng::{hstr, mix};
use crate::world::{self, RunOut};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn execute(c: &Case, core: usize, record: bool, sched: Option<&Vec<Vec<Vec<u8>>>>) -> Vec<RunOut> {
    c.runs
        .iter()
        .enumerate()
        .map(|(k, r)| world::run(r, core, record, sched.and_then(|s| s.get(k)).filter(|s| !s.is_empty()).map(|s| &s[..])))
        .collect()
}
pub fn known_list() -> Vec<(String, String)> {
    let text = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .map(|(p, rest)| (p.to_string(), rest.split(' ').next().unwrap_or("").to_string()))
        .collect()
}
fn listed(v: &Viol, known: &[(String, String)]) -> bool {
    v.known.map_or(false, |k| known.iter().any(|(p, n)| p == v.prop && n == k))
}
/// The first violation of the property that is not a listed finding.
pub fn find(c: &Case, outs: &[RunOut], prop: &str) -> Option<Viol> {
    let mut t = Tally::default();
    let known = known_list();
    judge(c, outs, &mut t).into_iter().find(|v| v.prop == prop && !listed(v, &known))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn replay_json(f: &Found, seed: u64, index: u64) -> Value {
    json!({
        "property": f.viol.prop,
        "violation": f.viol.what,
        "seed": seed,
        "case_number": index,
        "case": f.case,
        "schedule": f.sched.iter().map(|r| r.iter().map(|s| hex(s)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "schedule_decisions": {"recorded": f.decisions.0, "kept": f.decisions.1},
        "hashes": f.hashes.iter().map(|h| format!("{h:016x}")).collect::<Vec<_>>(),
    })
}
/// Runs a replay file: whether the violation shows, and whether the run is the very same.
pub fn replay(path: &str, core: usize) -> Result<(Option<Viol>, bool), String> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let case: Case = serde_json::from_value(v["case"].clone()).map_err(|e| e.to_string())?;
    let sched: Vec<Vec<Vec<u8>>> =
        v["schedule"].as_array().unwrap_or(&vec![]).iter().map(|r| r.as_array().unwrap().iter().map(|s| unhex(s.as_str().unwrap())).collect()).collect();
    let outs = execute(&case, core, false, if sched.is_empty() { None } else { Some(&sched) });
    let same = outs.iter().map(|o| format!("{:016x}", o.hash)).eq(v["hashes"].as_array().unwrap_or(&vec![]).iter().map(|h| h.as_str().unwrap_or("").to_string()));
    let prop = case.property.clone();
    Ok((find(&case, &outs, &prop), same))
}

#[derive(Default)]
struct Sum {
    cases: u64,
    runs: u64,
    reqs: u64,
    nontrivial: u64,
    vtime: u64,
    tally: Tally,
    counts: BTreeMap<String, u64>,
    stats: Vec<u64>,
    edges: Vec<u8>,
    scheds: BTreeSet<u64>,
    sizes: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    samples: Vec<Value>,
    checked: u64,
    differed: u64,
    known: BTreeMap<(String, String), String>,
    sim_errors: u64,
    unrepeated: u64,
    capped: u64,
    most: (f64, u64),
    kinds: BTreeMap<String, u64>,
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub max: u64,
    pub first: u64,
    pub workers: usize,
}

pub fn check(o: &Opts) -> i32 {
    let start = Instant::now();
    let limit = Duration::from_secs(o.secs);
    let next = AtomicU64::new(o.first);
    let stop = AtomicBool::new(false);
    let sum = Mutex::new(Sum::default());
    let found: Mutex<Option<(u64, Case, Viol)>> = Mutex::new(None);
    let deep = o.tier == "thorough";
    let known = known_list();
    std::thread::scope(|s| {
        for w in 0..o.workers {
            let (next, stop, sum, found, known) = (&next, &stop, &sum, &found, &known);
            s.spawn(move || loop {
                if stop.load(SeqCst) || start.elapsed() > limit {
                    return;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= o.first + o.max {
                    return;
                }
                let case = cases::gen(&o.prop, o.seed, i, deep);
                let t0 = Instant::now();
                let outs = execute(&case, w, false, None);
                let spent = t0.elapsed();
                let mut tally = Tally::default();
                let all = judge(&case, &outs, &mut tally);
                if std::env::var_os("DST_ALL").is_some() {
                    for v in &all {
                        println!("case {i} {} {}{}", v.prop, v.what.chars().take(1500).collect::<String>(), v.known.map_or(String::new(), |k| format!(" [{k}]")));
                    }
                }
                // For trying out changes to the code under test: whatever is wrong counts.
                let any = std::env::var_os("DST_ANY").is_some();
                let mine: Vec<Viol> = all.into_iter().filter(|v| any || v.prop == o.prop).collect();
                let mut fresh = mine.iter().find(|v| !listed(v, known)).cloned();
                let mut unrepeated = 0;
                if fresh.as_ref().is_some_and(|v| find(&case, &execute(&case, w, false, None), v.prop).is_none()) {
                    // Only what a second execution of the same seed shows as well is reported.
                    fresh = None;
                    unrepeated = 1;
                }
                let again = i % 40 == 7 && spent < Duration::from_secs(2);
                let same = if again {
                    let second = execute(&case, (w + 3) % o.workers, false, None);
                    Some(second.iter().map(|x| x.hash).eq(outs.iter().map(|x| x.hash)))
                } else {
                    None
                };
                let mut s = sum.lock().unwrap();
                s.cases += 1;
                s.unrepeated += unrepeated;
                *s.kinds.entry(case.kind.clone()).or_default() += 1;
                if let Some(same) = same {
                    s.checked += 1;
                    if !same {
                        s.differed += 1;
                        eprintln!("case {i} of seed {} did not repeat exactly", o.seed);
                    }
                }
                for v in mine.iter().filter(|v| listed(v, known)) {
                    s.known.entry((v.prop.to_string(), v.known.unwrap().to_string())).or_insert_with(|| v.what.clone());
                }
                for (r, x) in case.runs.iter().zip(&outs) {
                    s.runs += 1;
                    s.reqs += r.reqs.len() as u64;
                    s.vtime += x.vtime;
                    for (k, n) in &x.counts {
                        *s.counts.entry(k.clone()).or_default() += n;
                    }
                    match x.exit {
                        8 => s.sim_errors += 1,
                        3 | 4 | 7 => s.capped += 1,
                        _ => {}
                    }
                    for st in &x.stats {
                        if s.stats.len() < st.len() {
                            s.stats.resize(st.len(), 0);
                        }
                        for (a, b) in s.stats.iter_mut().zip(st) {
                            *a = a.wrapping_add(*b);
                        }
                        s.scheds.insert(st[14]);
                        let share = (st[15] as f64 / r.sim.maxbb as f64).max(st[2] as f64 / r.sim.maxdec as f64);
                        if share > s.most.0 {
                            s.most = (share, i);
                        }
                    }
                    if s.edges.len() < x.edges.len() {
                        s.edges.resize(x.edges.len(), 0);
                    }
                    for (a, b) in s.edges.iter_mut().zip(&x.edges) {
                        *a |= b;
                    }
                    for q in &x.reqs {
                        *s.ends.entry(format!("{:?} {}", q.end, q.status)).or_default() += 1;
                    }
                }
                if tally.results > 0 || !case.runs[0].faults.is_empty() || !case.runs[0].env.is_empty() {
                    s.nontrivial += 1;
                }
                s.tally.positions += tally.positions;
                s.tally.results += tally.results;
                s.tally.inconclusive += tally.inconclusive;
                s.tally.ties += tally.ties;
                s.tally.soft += tally.soft;
                s.tally.seen.extend(tally.seen);
                if s.samples.len() < 3 {
                    let text = serde_json::to_string(&case).unwrap();
                    s.samples.push(json!({"case_number": i, "kind": case.kind, "case": text.chars().take(1500).collect::<String>(), "hash": format!("{:016x}", outs.iter().fold(0, |h, x| mix(h, x.hash)))}));
                }
                drop(s);
                if let Some(v) = fresh {
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map_or(true, |x| x.0 > i) {
                        *f = Some((i, case, v));
                    }
                    stop.store(true, SeqCst);
                }
            });
        }
    });
    let s = sum.into_inner().unwrap();
    for ((p, k), what) in &s.known {
        println!("KNOWN-FINDING: property={p} {k}: {}", what.chars().take(300).collect::<String>());
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some((i, case, v)) = found.into_inner().unwrap() {
        if std::env::var_os("DST_ANY").is_some() {
            println!("case {i} {}: {}", v.prop, v.what.chars().take(300).collect::<String>());
            return 1;
        }
        eprintln!("case {i}: {}", v.what.chars().take(3000).collect::<String>());
        let f = minimise(case, &v, 0, if deep { 120 } else { 40 });
        let _ = std::fs::create_dir_all("/verif/replays");
        let path = format!("/verif/replays/{}-{}-{i}.json", o.prop, o.seed);
        std::fs::write(&path, serde_json::to_string_pretty(&replay_json(&f, o.seed, i)).unwrap()).unwrap();
        // Confirmed by a fresh process.
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).stdout(std::process::Stdio::null()).status();
        let confirmed = st.map_or(false, |s| s.code() == Some(1));
        eprintln!("{}", f.viol.what.chars().take(3000).collect::<String>());
        eprintln!(
            "minimised in {} executions to {} runs, {} requests, {} faults, {} of {} scheduling decisions; replay {}",
            f.tried,
            f.case.runs.len(),
            f.case.runs.iter().map(|r| r.reqs.len()).sum::<usize>(),
            f.case.runs.iter().map(|r| r.faults.len() + r.env.len()).sum::<usize>(),
            f.decisions.1,
            f.decisions.0,
            if confirmed { "confirmed" } else { "NOT confirmed" }
        );
        println!("VIOLATION property={} replay={}", o.prop, path);
        violations.push(json!({"what": f.viol.what.chars().take(3000).collect::<String>(), "replay": path, "case_number": i, "confirmed": confirmed}));
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let names = ["threads_max_sum", "virtual_clock_ns", "decisions", "nondefault_decisions", "task_switches", "preemptions_in_computation", "spurious_wakeups", "interrupted_calls", "clock_jumps", "output_errors", "partial_output", "accept_errors", "lookup_failures"];
    let mut faults: BTreeMap<String, u64> = s.counts.clone();
    for (k, n) in names.iter().enumerate().skip(4) {
        let at = k;
        if let Some(x) = s.stats.get(at) {
            if *x > 0 && k != 4 {
                faults.insert((*n).into(), *x);
            }
        }
    }
    if let Some(x) = s.stats.last().filter(|x| **x > 0) {
        faults.insert("descriptors_exhausted".into(), *x);
    }
    let hit = s.edges.iter().filter(|e| **e > 0).count();
    let stub = ["data service, callers and network: simulated in the harness", "kernel calls of the server (threads, sockets, clocks, timers, randomness, output): simulated by libsim"];
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.cases,
            "distinct_nontrivial": s.nontrivial,
            "rule": "a case counts as non-trivial when at least one result was compared with the reference or another run, or a fault was injected; every case has its own seed, so cases are distinct",
            "samples": s.samples,
            "case_kinds": s.kinds,
            "simulated_runs": s.runs,
            "runs_per_hour": (s.runs as f64 / wall * 3600.0).round(),
            "seeds_per_hour": (s.cases as f64 / wall * 3600.0).round(),
            "requests": s.reqs,
            "request_outcomes": s.ends,
            "results_compared": s.tally.results,
            "positions_compared": s.tally.positions,
            "inconclusive_results": s.tally.inconclusive,
            "results_with_rounding_left_open": s.tally.soft,
            "simulated_seconds": s.vtime as f64 / 1e9,
            "faults_injected": faults,
            "distinct_interleavings": {"measure": "hash of the sequence of scheduling decisions and events of a process", "count": s.scheds.len()},
            "scheduling_decisions": s.stats.get(2),
            "task_switches": s.stats.get(4),
            "behaviours_seen": {"measure": "strategy/signal/stop/take combinations, sides with closing reasons, search shapes; client calls with fault and outcome", "count": s.tally.seen.len()},
            "code_edges_reached": {"reached": hit, "of": s.edges.len()},
            "repeat_check": {"repeated": s.checked, "differed": s.differed},
            "runs_over_work_limit": s.capped,
            "largest_share_of_work_limit": {"share": s.most.0, "case": s.most.1},
            "simulator_errors": s.sim_errors,
            "unrepeated_violations": s.unrepeated,
            "real_code": ["juno (library)", "juno_axum (server)", "axum, hyper, tokio, rayon, reqwest, serde_json as built into the server"],
            "stubs": stub,
        },
        "assumptions": [
            "shared memory is sequentially consistent: interleavings are explored at basic blocks and calls, not weak-memory effects",
            "the data service is deterministic in its content and speaks HTTP/1.1 over plain TCP",
        ],
        "violations": violations,
        "wall_s": wall,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", o.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} runs, {} results, {} positions, {} inconclusive, {} open roundings, {} behaviours, {}/{} edges, repeat {}/{} differed, {} capped, {} simulator errors, {:.1} s",
        o.prop, s.cases, s.runs, s.tally.results, s.tally.positions, s.tally.inconclusive, s.tally.soft, s.tally.seen.len(), hit, s.edges.len(), s.differed, s.checked, s.capped, s.sim_errors, wall
    );
    println!("outcomes {:?}; most work {:.3} of the limit in case {}", s.ends, s.most.0, s.most.1);
    // A check which compared nothing says nothing.
    let idle = s.cases >= 20 && s.tally.results == 0;
    if code == 0 && (s.cases == 0 || idle || s.sim_errors * 10 > s.runs) {
        eprintln!("the simulation itself failed");
        return 2;
    }
    code
}
#[allow(dead_code)]
fn unused() {
    hstr(0, "");
}
