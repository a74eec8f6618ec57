//! Makes a failing case smaller: first the case, then the schedule.
use crate::case::*;
use crate::check::{execute, find};
use crate::oracle::Viol;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub struct Found {
    pub case: Case,
    pub viol: Viol,
    pub sched: Vec<Vec<Vec<u8>>>,
    pub hashes: Vec<u64>,
    pub tried: u64,
    pub decisions: (usize, usize),
}

/// The note with request `i` of run `k` gone, or none if a relation rests on it and nothing else would be left.
fn without(note: &Value, k: usize, i: usize) -> Value {
    let mut n = note.clone();
    for key in ["equal", "replay", "prefix", "fame", "chrom", "cut"] {
        let Some(l) = note[key].as_array() else { continue };
        let mut out = vec![];
        for q in l {
            let mut v: Vec<u64> = q.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut keep = true;
            for (a, b) in [(0, 1), (2, 3)] {
                if v[a] == k as u64 {
                    if v[b] == i as u64 {
                        keep = false;
                    } else if v[b] > i as u64 {
                        v[b] -= 1;
                    }
                }
            }
            if keep {
                out.push(json!(v));
            }
        }
        n[key] = json!(out);
    }
    n
}
const LISTS: [&str; 3] = ["symbols", "training_symbols", "validation_symbols"];
fn related(note: &Value, k: usize, i: usize) -> bool {
    note.as_object().into_iter().flatten().flat_map(|(_, l)| l.as_array().into_iter().flatten()).any(|q| [0, 2].iter().any(|a| q[a] == k && q[a + 1] == i))
}
fn symbols(c: &Case) -> std::collections::BTreeSet<String> {
    let lists = c.runs.iter().flat_map(|r| &r.reqs).flat_map(|q| LISTS.iter().filter_map(|key| q.body[*key].as_array()));
    lists.flatten().filter_map(|x| x.as_str().map(str::to_string)).collect()
}
fn drop_req(c: &Case, k: usize, i: usize) -> Option<Case> {
    let mut c = c.clone();
    for q in &c.runs[k].reqs {
        if q.seed_from == Some(i) || q.chrom_from.map_or(false, |x| x.0 == i) {
            return None;
        }
    }
    c.runs[k].reqs.remove(i);
    for q in &mut c.runs[k].reqs {
        if let Some(s) = &mut q.seed_from {
            if *s > i {
                *s -= 1;
            }
        }
        if let Some(s) = &mut q.chrom_from {
            if s.0 > i {
                s.0 -= 1;
            }
        }
    }
    c.note = without(&c.note, k, i);
    Some(c)
}
fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    // Whole runs nothing refers to.
    for k in (1..c.runs.len()).rev() {
        if k + 1 == c.runs.len() {
            let mut d = c.clone();
            for i in (0..d.runs[k].reqs.len()).rev() {
                d.note = without(&d.note, k, i);
            }
            d.runs.pop();
            v.push(d);
        }
    }
    for k in 0..c.runs.len() {
        for i in (0..c.runs[k].reqs.len()).rev() {
            v.extend(drop_req(c, k, i));
        }
        let mut edit = |f: &mut dyn FnMut(&mut Run)| {
            let mut d = c.clone();
            f(&mut d.runs[k]);
            if d != *c {
                v.push(d);
            }
        };
        let run = &c.runs[k];
        for i in (0..run.faults.len()).rev() {
            edit(&mut |r| {
                r.faults.remove(i);
            });
        }
        for i in (0..run.env.len()).rev() {
            edit(&mut |r| {
                r.env.remove(i);
            });
        }
        edit(&mut |r| (r.sim.policy, r.sim.pswitch, r.sim.bbmean) = (0, 0, 0));
        edit(&mut |r| (r.sim.pspur, r.sim.peintr, r.sim.maxev, r.sim.pjump) = (0, 0, 0, 0));
        edit(&mut |r| (r.sim.ncpu, r.sim.rayon) = (1, 0));
        edit(&mut |r| (r.sim.happy, r.sim.sndbuf) = (0, 0));
        edit(&mut |r| (r.net.lat, r.net.frag, r.net.gap) = (0, 1, 0));
        edit(&mut |r| (r.net.close, r.net.chunked) = (0.0, 0.0));
        for i in 0..run.reqs.len() {
            edit(&mut |r| (r.reqs[i].keep, r.reqs[i].pipeline) = (None, false));
            edit(&mut |r| (r.reqs[i].frag, r.reqs[i].fgap, r.reqs[i].slow) = (1, 0, 0));
            edit(&mut |r| r.reqs[i].at = 0);
            // What is compared has to stay comparable.
            if related(&c.note, k, i) {
                continue;
            }
            for key in LISTS {
                let n = run.reqs[i].body[key].as_array().map_or(0, |a| a.len());
                if n > 1 || key == "validation_symbols" {
                    for j in (0..n).rev() {
                        edit(&mut |r| {
                            r.reqs[i].body[key].as_array_mut().unwrap().remove(j);
                        });
                    }
                }
            }
        }
    }
    // Changes that go for all runs alike, so that what is compared stays comparable.
    let all = |f: &dyn Fn(&mut Run)| {
        let mut d = c.clone();
        d.runs.iter_mut().for_each(f);
        (d != *c).then_some(d)
    };
    v.extend(all(&|r| (r.versioned, r.version) = (false, 0)));
    for name in symbols(c) {
        v.extend(
            all(&|r| {
                for q in &mut r.reqs {
                    for key in LISTS {
                        if let Some(l) = q.body[key].as_array_mut() {
                            l.retain(|x| x != &name);
                        }
                    }
                }
            })
            .filter(|d| d.runs.iter().flat_map(|r| &r.reqs).all(|q| LISTS[..2].iter().all(|key| q.body[*key].as_array().map_or(true, |l| !l.is_empty())))),
        );
    }
    v.extend(all(&|r| {
        for q in &mut r.reqs {
            if q.body["generations"].as_u64().unwrap_or(0) > 0 {
                q.body["generations"] = json!(q.body["generations"].as_u64().unwrap() / 2);
            }
        }
    }));
    v.extend(all(&|r| {
        for q in &mut r.reqs {
            if let (Some(a), Some(b), true) = (q.body["start"].as_u64(), q.body["end"].as_u64(), q.body.is_object()) {
                let iv = q.body["trading"]["trader"]["interval"].as_u64().unwrap_or(86_400_000);
                q.body["end"] = json!(a + (b - a) * 3 / 4 / iv * iv);
            }
        }
    }));
    for f in ["stop_loss", "take_profit"] {
        v.extend(all(&|r| {
            for q in &mut r.reqs {
                if q.body["trading"].is_object() && q.body["trading"].get(f).is_some() {
                    q.body["trading"][f] = json!({"type":"Noop"});
                }
            }
        }));
    }
    // Exchanges and symbols nobody asks for.
    v.extend(all(&|r| {
        let text: String = r.reqs.iter().map(|q| q.body.to_string()).collect();
        r.market.exchanges.retain(|e| text.contains(&format!("\"{}\"", e.name)));
    }));
    v
}

pub fn minimise(case: Case, viol: &Viol, core: usize, secs: u64) -> Found {
    let start = Instant::now();
    let limit = Duration::from_secs(secs);
    let prop = viol.prop;
    let mut tried = 0;
    let mut best = case;
    let mut last = viol.clone();
    loop {
        let mut better = false;
        for c in simpler(&best) {
            if start.elapsed() > limit {
                break;
            }
            tried += 1;
            let outs = execute(&c, core, false, None);
            // Some have nothing left to judge.
            let found = std::panic::catch_unwind(|| find(&c, &outs, prop)).ok().flatten();
            if let Some(v) = found {
                best = c;
                last = v;
                better = true;
                break;
            }
        }
        if !better || start.elapsed() > limit {
            break;
        }
    }
    // The schedule: drop recorded decisions in ever smaller pieces.
    let outs = execute(&best, core, true, None);
    let mut sched: Vec<Vec<Vec<u8>>> = outs.iter().map(|o| o.sched.clone()).collect();
    let before: usize = sched.iter().flatten().map(|s| s.len() / 32).sum();
    let check = |s: &Vec<Vec<Vec<u8>>>| {
        let outs = execute(&best, core, false, Some(s));
        find(&best, &outs, prop).map(|v| (v, outs))
    };
    let mut hashes: Vec<u64> = vec![];
    match check(&sched) {
        Some((v, outs)) => {
            last = v;
            hashes = outs.iter().map(|o| o.hash).collect();
            // All at once first.
            let empty: Vec<Vec<Vec<u8>>> = sched.iter().map(|r| r.iter().map(|_| vec![]).collect()).collect();
            tried += 1;
            if let Some((v, outs)) = check(&empty) {
                sched = empty;
                last = v;
                hashes = outs.iter().map(|o| o.hash).collect();
            } else {
                let limit = limit + Duration::from_secs(secs);
                for a in 0..sched.len() {
                    for b in 0..sched[a].len() {
                        let mut piece = sched[a][b].len() / 32;
                        while piece >= 1 && start.elapsed() < limit {
                            let mut at = 0;
                            let mut any = false;
                            while at < sched[a][b].len() / 32 && start.elapsed() < limit {
                                let mut s = sched.clone();
                                let end = ((at + piece) * 32).min(s[a][b].len());
                                s[a][b].drain(at * 32..end);
                                tried += 1;
                                if let Some((v, outs)) = check(&s) {
                                    sched = s;
                                    last = v;
                                    hashes = outs.iter().map(|o| o.hash).collect();
                                    any = true;
                                } else {
                                    at += piece;
                                }
                            }
                            if piece == 1 && !any {
                                break;
                            }
                            piece = if piece == 1 { 1 } else { piece / 2 };
                        }
                    }
                }
            }
        }
        None => {
            // Without a record the seeds alone decide.
            sched.clear();
        }
    }
    let after: usize = sched.iter().flatten().map(|s| s.len() / 32).sum();
    Found { case: best, viol: last, sched, hashes, tried, decisions: (before, after) }
}
