//! Judges the runs of a case: each reply against what the run's data and disturbances allow, and replies against each other.
use crate::case::*;
use crate::market::{base, quote};
use crate::model::{self, DAY};
use crate::oracle::*;
use crate::world::{body_of, data_reply, status_message, End, ReqOut, RunOut};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

fn strs(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().filter_map(|s| s.as_str()).map(String::from).collect()
}
fn uniq(v: Vec<String>) -> Vec<String> {
    let mut seen = BTreeSet::new();
    v.into_iter().filter(|s| seen.insert(s.clone())).collect()
}
/// Symbols and intervals a request needs.
fn needs(b: &Value) -> (Vec<String>, Vec<u64>) {
    if b.get("context").is_some() {
        let mut s = strs(&b["training_symbols"]);
        s.extend(strs(&b["validation_symbols"]));
        let iv = b["context"]["trader"]["intervals"].as_array().into_iter().flatten().filter_map(|i| i.as_u64()).collect();
        (uniq(s), iv)
    } else {
        (uniq(strs(&b["symbols"])), b["trading"]["trader"]["interval"].as_u64().into_iter().collect())
    }
}
/// The faults that strike a request's own fetches.
pub fn struck<'a>(run: &'a Run, q: &Req) -> Vec<&'a Fault> {
    let b = &q.body;
    let (syms, ivs) = needs(b);
    run.faults
        .iter()
        .filter(|f| {
            b["exchange"] == f.ex.as_str()
                && f.waves.map_or(true, |(a, z)| (a..=z).contains(&q.wave))
                && match f.path.as_str() {
                    "/exchange_info" | "/prices" => f.sym.is_none() && f.iv.is_none(),
                    "/candles" => f.sym.as_ref().map_or(true, |s| syms.contains(s)) && f.iv.map_or(true, |i| ivs.contains(&i)),
                    _ => false,
                }
        })
        .collect()
}
fn short(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(400)]).to_string()
}

/// Whether anything but the request itself may have kept it from succeeding.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// Must succeed.
    Clean,
    /// May succeed or fail.
    Shaky,
    /// Must fail.
    Doomed,
    /// Not judged, other than that it comes to an end.
    Odd,
}
/// Whether the fault leaves out or spoils anything the request needs.
fn dooms(run: &Run, q: &Req, o: &ReqOut, f: &Fault) -> bool {
    match &f.kind {
        FKind::Stall(_) => false,
        FKind::ShortPrices(n, asset) => {
            let b = body_of(q, &[]);
            let (ex, start, end) = (b["exchange"].as_str().unwrap(), b["start"].as_u64().unwrap(), b["end"].as_u64().unwrap());
            let (syms, ivs) = needs(&b);
            syms.iter().filter(|s| asset.as_ref().map_or(true, |a| a == base(s) || a == quote(s))).any(|s| {
                ivs.iter().any(|iv| {
                    let b = basis(&run.market, ex, s, *iv, start, end, o.version);
                    // A price for each day up to the end of trading, and the opening one.
                    let need = b.candles.last().map_or(1, |c| (c.time + iv) / DAY - start / DAY + 1);
                    (*n as u64) < need
                })
            })
        }
        _ => true,
    }
}
pub fn class(run: &Run, q: &Req, o: &ReqOut) -> Class {
    if q.odd || q.refuse || q.raw.is_some() || q.abandon.is_some() || q.part.is_some() || o.end == End::Killed {
        return Class::Odd;
    }
    let f = struck(run, q);
    if f.iter().any(|f| dooms(run, q, o, f)) {
        return Class::Doomed;
    }
    // Whether prices nobody needs are there is of no matter.
    if f.iter().any(|f| matches!(f.kind, FKind::ShortPrices(..))) {
        return Class::Shaky;
    }
    if f.iter().any(|f| matches!(f.kind, FKind::Stall(n) if n > SEC)) || run.env.iter().any(|e| matches!(e, Env::Refuse(..) | Env::Dns(..) | Env::IdleClose(_) | Env::ResetAll(_))) {
        return Class::Shaky;
    }
    Class::Clean
}

pub fn judge(case: &Case, outs: &[RunOut], t: &mut Tally) -> Vec<Viol> {
    let mut v = vec![];
    for (k, (run, out)) in case.runs.iter().zip(outs).enumerate() {
        if run.prog == 0 {
            judge_run(case, k, run, out, t, &mut v);
        } else {
            crate::probe::judge(run, out, t, &mut v);
        }
    }
    relations(case, outs, t, &mut v);
    v
}

/// After the first rounds, what the server holds no longer grows from round to round.
pub const ROUNDS: usize = 16;
fn held(k: usize, run: &Run, out: &RunOut, t: &mut Tally, v: &mut Vec<Viol>) {
    let s = &out.samples;
    if s.len() < ROUNDS {
        return;
    }
    let z = ROUNDS - 1;
    t.results += 1;
    t.seen.insert(format!("{} threads", s[z][0]));
    for (x, what) in [(0, "threads"), (1, "descriptors")] {
        let l: Vec<u64> = s.iter().map(|s| s[x]).collect();
        // One more than once again and again, or many at once.
        // (The threads for searches are started with the first search that is not given up before.)
        let pool = x == 0 && l[z] - l[1].min(l[z]) == (if run.sim.rayon == 0 { run.sim.ncpu } else { run.sim.rayon }) as u64 && l.windows(2).skip(1).filter(|w| w[0] != w[1]).count() == 1;
        if l[z] > l[1] && !pool && (l[z] > l[ROUNDS / 2] || l[z] > l[1] + 4) {
            v.push(viol("D07", format!("run {k}: the number of {what} held when all is quiet grew from round to round: {l:?}")));
        }
    }
    let l: Vec<u64> = s.iter().map(|s| s[2]).collect();
    // (Tables grow now and then until they are large enough; what is lost for each request is lost in each round.)
    let still = l.windows(2).skip(3).filter(|w| w[1] <= w[0] + 24).count();
    if still <= 1 && l[3..].windows(4).all(|w| w[3] > w[0] + 72) {
        v.push(viol("D07", format!("run {k}: the memory held when all is quiet grew from round to round: {l:?} bytes")));
    }
}
fn judge_run(case: &Case, k: usize, run: &Run, out: &RunOut, t: &mut Tally, v: &mut Vec<Viol>) {
    if out.exit == 5 || out.exit == 6 {
        let txt = format!("run {k}: the service stopped by itself (exit {}): {}", out.exit, short(&out.logs));
        v.push(viol("D04", txt.clone()));
        v.push(viol("X01", txt.clone()));
        v.push(viol("V01", txt));
    }
    if run.sample {
        held(k, run, out, t, v);
    }
    let troubled = !run.faults.is_empty() || !run.env.is_empty() || run.reqs.iter().any(|q| q.odd || q.raw.is_some() || q.abandon.is_some() || q.part.is_some());
    for (i, (q, o)) in run.reqs.iter().zip(&out.reqs).enumerate() {
        let who = format!("run {k} request {i} ({} in wave {})", q.path, q.wave);
        if o.end == End::Pending && o.sent || o.end == End::Pending && out.exit == 0 {
            if q.part.is_none() {
                let txt = format!("{who} is still unanswered {} ms after it was sent (the run ended with code {} at {} ms)", (out.vtime.saturating_sub(o.sent_at)) / MS, out.exit, out.vtime / MS);
                if class(run, q, o) == Class::Clean && o.sent {
                    v.push(viol(if q.spell > 0 { "V02" } else { "V01" }, txt.clone()));
                    if troubled {
                        v.push(viol("D04", txt.clone()));
                    }
                    if run.env.iter().any(|e| matches!(e, Env::Out(..))) {
                        v.push(viol("X01", txt.clone()));
                    }
                }
                v.push(viol("D05", txt));
            }
            continue;
        }
        if o.extra > 0 && o.end == End::Replied {
            v.push(viol("D05", format!("{who}: {} more bytes arrived after the complete reply", o.extra)));
        }
        if o.malformed {
            v.push(viol("D05", format!("{who}: the reply is not HTTP")));
        }
        if q.refuse && o.sent && o.end != End::Killed {
            t.results += 1;
            let how = match &q.raw {
                Some(s) => s.chars().skip(s.len().saturating_sub(900)).collect(),
                None => format!("{} {}", q.method, q.path),
            };
            if o.end != End::Replied || o.status < 400 || o.status >= 500 {
                v.push(viol("V02", format!("{who}, which nobody can read, was answered with {:?} {} {}: {how}", o.end, o.status, short(&o.body))));
            }
            if let Some(f) = out.fetches.iter().find(|f| f.body["exchange"] == q.body["exchange"]) {
                v.push(viol("V02", format!("{who}, which nobody can read, made the server ask for {} {}: {how}", f.path, f.body)));
            }
            t.seen.insert(format!("refused {}", o.status));
        }
        if inquiry(q) {
            if o.sent && o.end != End::Killed {
                inquired(run, out, q, o, &who, troubled, t, v);
            }
            continue;
        }
        let c = class(run, q, o);
        if c == Class::Odd || q.chrom_from.map_or(false, |(k, _, _)| !out.reqs[k].ok()) {
            continue;
        }
        if !o.sent {
            continue;
        }
        let body = body_of(q, &out.reqs);
        if o.end == End::Replied && o.status == 200 {
            if c == Class::Doomed {
                let f = struck(run, q);
                v.push(viol("D02", format!("{who} succeeded although {:?} struck it: {}", f, short(&o.body))));
                continue;
            }
            let mut w = vec![];
            judge_reply(case, run, &body, q, o, t, &mut w);
            if troubled {
                if let Some(x) = w.iter().find(|x| x.prop == "D01").cloned() {
                    w.push(Viol { prop: "D02", ..x.clone() });
                }
            }
            for x in &mut w {
                x.what = format!("{who}: {}", x.what);
            }
            v.extend(w);
            continue;
        }
        // Not a success.
        let how = if o.end == End::Replied { format!("status {} {}", o.status, short(&o.body)) } else { format!("{:?} without a reply; {}", o.end, short(&out.logs)) };
        match c {
            // Where too much is missing for coarse candles, a request may fail visibly.
            Class::Clean if gappy(run, &body, o.version) => t.inconclusive += 1,
            Class::Clean => {
                let txt = format!("{who} got no result: {how}; {body}");
                v.push(viol(if q.spell > 0 { "V02" } else { "V01" }, txt.clone()));
                for p in ["T08", "F02", "T03", "T07", "T05", "T01", "T02", "O03", "O05", "D01"] {
                    if case.property == p {
                        v.push(viol(p, txt.clone()));
                    }
                }
                if let Some(p) = body.get("trading") {
                    let need = model::Strat::new(&p["strategy"], p["trader"]["interval"].as_u64().unwrap_or(1)).warmup();
                    let (syms, ivs) = needs(&body);
                    let least = syms.iter().map(|s| run.market.candles(body["exchange"].as_str().unwrap(), run.market.sym(body["exchange"].as_str().unwrap(), s).unwrap(), ivs[0], body["start"].as_u64().unwrap(), body["end"].as_u64().unwrap(), o.version).len()).min().unwrap_or(0);
                    if least < need + 2 {
                        v.push(viol("T06", txt.clone()));
                    }
                }
                if troubled {
                    v.push(viol("D04", txt.clone()));
                }
                if run.env.iter().any(|e| matches!(e, Env::Out(..))) {
                    v.push(viol("X01", txt));
                }
            }
            _ => {
                let f = struck(run, q);
                let msg = if o.end == End::Replied && o.status == 500 { o.json().and_then(|j| j["message"].as_str().map(String::from)).filter(|m| !m.trim().is_empty()) } else { None };
                let Some(msg) = msg else {
                    v.push(viol("D03", format!("{who}, struck by {f:?} {:?}, was not told: {how}", run.env)));
                    continue;
                };
                let shaky = run.env.iter().any(|e| matches!(e, Env::Refuse(..) | Env::Dns(..) | Env::IdleClose(_) | Env::ResetAll(_)));
                let f: Vec<_> = f.into_iter().filter(|f| !matches!(f.kind, FKind::Stall(_))).collect();
                let fits = f.iter().any(|f| match &f.kind {
                    FKind::Status(c, 0) if *c < 500 && *c >= 400 => msg.contains(&c.to_string()) && msg.contains(&status_message(&f.ex, &f.path, *c)),
                    FKind::Status(c, _) if *c >= 500 => msg.contains(&c.to_string()),
                    _ => true,
                });
                if !fits && !shaky && !f.is_empty() {
                    v.push(viol("D03", format!("{who}, struck by {f:?}, was told only: {msg}")));
                }
            }
        }
    }
}

/// Asks what the service offers; needs no data service.
fn inquiry(q: &Req) -> bool {
    q.method == "GET" && !q.odd && !q.refuse && q.raw.is_none() && q.abandon.is_none() && q.part.is_none()
}
#[allow(clippy::too_many_arguments)]
fn inquired(run: &Run, out: &RunOut, q: &Req, o: &ReqOut, who: &str, troubled: bool, t: &mut Tally, v: &mut Vec<Viol>) {
    t.results += 1;
    t.seen.insert(format!("inquired {}", q.path));
    if o.end != End::Replied || o.status != 200 {
        if run.env.iter().any(|e| matches!(e, Env::ResetAll(_) | Env::Kill(..))) {
            return;
        }
        let txt = format!("{who} (an inquiry) got no answer: {:?} {} {}; {}", o.end, o.status, short(&o.body), short(&out.logs));
        v.push(viol("V02", txt.clone()));
        if troubled {
            v.push(viol("D04", txt.clone()));
        }
        if run.env.iter().any(|e| matches!(e, Env::Out(..))) {
            v.push(viol("X01", txt));
        }
        return;
    }
    if q.path != "/optimize" {
        return;
    }
    let j = o.json().unwrap_or(Value::Null);
    for (key, want) in [("evaluation_statistics", &crate::gen::STATS[..]), ("evaluation_aggregations", &crate::gen::AGGS[..])] {
        let mut got: Vec<String> = j[key].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("?").to_string()).collect();
        let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
        got.sort();
        want.sort();
        if got != want {
            v.push(viol("V02", format!("{who}: the service lists the {key} {got:?}, a search accepts {want:?}: {}", short(&o.body))));
        }
    }
}

fn gappy(run: &Run, body: &Value, version: u64) -> bool {
    let (syms, ivs) = needs(body);
    let coarse = body["trading"]["strategy"]["buffer_interval"].as_u64().or(body["context"]["strategy"]["buffer_interval"].as_u64());
    coarse.map_or(false, |c| ivs.iter().any(|i| c > *i))
        && syms.iter().any(|s| ivs.iter().any(|iv| basis(&run.market, body["exchange"].as_str().unwrap(), s, *iv, body["start"].as_u64().unwrap(), body["end"].as_u64().unwrap(), version).gaps))
}

/// A success reply against the data.
fn judge_reply(case: &Case, run: &Run, body: &Value, q: &Req, o: &ReqOut, t: &mut Tally, v: &mut Vec<Viol>) {
    let Some(j) = o.json() else {
        v.push(viol("V01", format!("the reply is not JSON: {}", short(&o.body))));
        return;
    };
    if q.path != "/backtest" && q.path != "/optimize" || q.method == "GET" {
        return;
    }
    let ex = body["exchange"].as_str().unwrap();
    let (start, end, quote) = (body["start"].as_u64().unwrap(), body["end"].as_u64().unwrap(), body["quote"].as_f64().unwrap());
    let (syms, _) = needs(body);
    if q.path == "/backtest" {
        check_symbols(&j["symbol_stats"], &syms, v);
        let iv = body["trading"]["trader"]["interval"].as_u64().unwrap();
        for s in &syms {
            let Some(st) = j["symbol_stats"].get(s) else { continue };
            let b = basis(&run.market, ex, s, iv, start, end, o.version);
            for mut x in judge_symbol(&body["trading"], &b, quote, st, t) {
                x.what = format!("{s}: {}", x.what);
                v.push(x);
            }
        }
    } else {
        judge_optimize(case, run, body, &j, o, t, v);
    }
}
fn check_symbols(stats: &Value, syms: &[String], v: &mut Vec<Viol>) {
    let got: BTreeSet<&str> = stats.as_object().into_iter().flatten().map(|(k, _)| k.as_str()).collect();
    let want: BTreeSet<&str> = syms.iter().map(|s| s.as_str()).collect();
    if got != want {
        v.push(viol("D01", format!("symbols in the reply {got:?}, requested {want:?}")));
        v.push(viol("V01", format!("symbols in the reply {got:?}, requested {want:?}")));
        v.push(viol("O03", format!("symbols in the reply {got:?}, requested {want:?}")));
        v.push(viol("D05", format!("symbols in the reply {got:?}, requested {want:?}")));
    }
}

pub fn fitness(j: &Value) -> f64 {
    // Minus infinity is shown as null.
    j["fitness"].as_f64().unwrap_or(f64::NEG_INFINITY)
}
fn judge_optimize(case: &Case, run: &Run, body: &Value, j: &Value, o: &ReqOut, t: &mut Tally, v: &mut Vec<Viol>) {
    let ex = body["exchange"].as_str().unwrap();
    let (start, end, quote) = (body["start"].as_u64().unwrap(), body["end"].as_u64().unwrap(), body["quote"].as_f64().unwrap());
    let (syms, ivs) = needs(body);
    let (pop, gens, hof) = (body["population_size"].as_u64().unwrap(), body["generations"].as_u64().unwrap(), body["hall_of_fame_size"].as_u64().unwrap());
    let Some(seed) = j["seed"].as_u64() else {
        v.push(viol("O02", format!("no seed in the reply: {}", j["seed"])));
        return;
    };
    if let Some(s) = body["seed"].as_u64() {
        if s != seed {
            v.push(viol("O02", format!("given seed {s} is reported as {seed}")));
        }
    }
    let empty = vec![];
    let list = j["generations"].as_array().unwrap_or(&empty);
    let who = |g: usize, h: usize| format!("entry {g} (nr {}) place {h}", list[g]["nr"]);
    if list.is_empty() {
        v.push(viol("O04", "no generation is reported".into()));
        v.push(viol("V01", "no generation is reported".into()));
        return;
    }
    let n = pop.min(hof) as usize;
    let mut best: Vec<f64> = vec![];
    let mut prev_nr = None;
    for (g, gen) in list.iter().enumerate() {
        let Some(nr) = gen["nr"].as_u64() else {
            v.push(viol("O04", format!("no number: {}", who(g, 0))));
            continue;
        };
        if g == 0 && nr != 0 {
            v.push(viol("O04", format!("the initial population is missing: the first entry is number {nr}")));
        }
        if prev_nr.map_or(false, |p| p >= nr) || nr > gens {
            v.push(viol("O04", format!("number {nr} after {prev_nr:?}, of {gens} generations")));
        }
        prev_nr = Some(nr);
        let hs = gen["hall_of_fame"].as_array().unwrap_or(&empty);
        if hs.len() != n {
            v.push(viol("O04", format!("{}: {} individuals listed, due {n}", who(g, 0), hs.len())));
        }
        let fit: Vec<f64> = hs.iter().map(|h| fitness(&h["individual"])).collect();
        if fit.windows(2).any(|w| w[0] < w[1]) {
            v.push(viol("O04", format!("{}: not in descending order: {fit:?}", who(g, 0))));
        }
        if g > 0 {
            if !fit.iter().zip(&best).any(|(a, b)| a > b) {
                v.push(viol("O04", format!("{} improves on nothing: {fit:?} after {best:?}", who(g, 0))));
            }
            if !fit.is_empty() && !best.is_empty() && fit[0] < best[0] {
                v.push(viol("O04", format!("{}: the best fitness fell from {} to {}", who(g, 0), best[0], fit[0])));
            }
        }
        for (k, f) in fit.iter().enumerate() {
            if k >= best.len() {
                best.push(*f);
            } else if *f > best[k] {
                best[k] = *f;
            }
        }
        t.seen.insert(format!("gen{}of{}", nr.min(9), gens.min(9)));
    }
    // Every individual.
    let train = strs(&body["training_symbols"]);
    let mut done: BTreeSet<String> = BTreeSet::new();
    let model_cap = if ["O04", "O05", "O06"].contains(&case.property.as_str()) { 4 } else { 400 };
    for (g, gen) in list.iter().enumerate() {
        for (h, x) in gen["hall_of_fame"].as_array().unwrap_or(&empty).iter().enumerate() {
            let ch = &x["individual"]["chromosome"];
            if let Err(e) = in_space(ch, &body["context"]) {
                v.push(viol("O05", format!("{}: {e}; context {}", who(g, h), body["context"])));
                continue;
            }
            t.seen.insert(format!("{}", ch["strategy"]["type"]));
            let stats = &x["symbol_stats"];
            check_symbols(stats, &syms, v);
            if let Some(want) = aggregate(body, stats, &train) {
                let got = fitness(&x["individual"]);
                let ok = if want.0.is_finite() { (want.0 - got).abs() <= want.1 } else { got == want.0 };
                if !ok {
                    v.push(viol("O03", format!("{}: fitness {got} ({}), the statistics give {}", who(g, h), x["individual"]["fitness"], want.0)));
                }
            } else {
                t.soft += 1;
            }
            // The same individual reappears in generation after generation.
            if !done.insert(ch.to_string()) || done.len() > model_cap {
                continue;
            }
            let Some(iv) = ch["trader"]["interval"].as_u64().filter(|i| ivs.contains(i)) else { continue };
            for s in &syms {
                let Some(st) = stats.get(s) else { continue };
                let b = basis(&run.market, ex, s, iv, start, end, o.version);
                for mut y in judge_symbol(ch, &b, quote, st, t) {
                    y.what = format!("{} {s}: {}", who(g, h), y.what);
                    v.push(y);
                }
            }
        }
    }
}

/// The aggregated score and how far it may be off; none if it hangs on rounding noise.
fn aggregate(body: &Value, stats: &Value, train: &[String]) -> Option<(f64, f64)> {
    let (mut acc, mut tol) = (0.0, 1e-12);
    for s in train {
        let x = stats.get(s)?;
        let (val, dv) = match body["evaluation_statistic"].as_str()? {
            "Profit" => {
                let p = x["core"]["profit"].as_f64()?;
                let sum: f64 = x["positions"].as_array()?.iter().map(|p| p["cost"].as_f64().unwrap_or(0.0).abs() + p["gain"].as_f64().unwrap_or(0.0).abs()).sum();
                (p, 1e-12 * (p.abs() + sum))
            }
            "ReturnOverMaxDrawdown" => {
                let (a, b) = (x["core"]["return_over_max_drawdown"].as_f64()?, x["core"]["max_drawdown"].as_f64()?);
                if b != 0.0 && b < 1e-6 {
                    return None;
                }
                (a, 1e-9 * a.abs() + 1e-12)
            }
            k => {
                let a = x["extended"][if k == "SharpeRatio" { "sharpe_ratio" } else { "sortino_ratio" }].as_f64()?;
                if a.abs() > 1e5 || a != 0.0 && a.abs() < 1e-9 {
                    return None;
                }
                (a, 1e-8 * a.abs() + 1e-10)
            }
        };
        let log = |val: f64| if val >= 0.0 { (val + 1.0).log10() } else { -(10f64.powf(-val + 1.0)) };
        // Right at zero the logarithmic aggregation jumps.
        let k = match body["evaluation_aggregation"].as_str()? {
            "Linear" => {
                acc += val;
                tol += dv;
                continue;
            }
            "Log10" => 1.0,
            _ => 10.0,
        };
        if val != 0.0 && val.abs() <= dv {
            return None;
        }
        acc += log(val * k);
        let slope = if val >= 0.0 { 1.0 } else { 2.31 * 10f64.powf(-val * k + 1.0) };
        tol += slope * k * dv + 1e-12 * log(val * k).abs();
    }
    if !acc.is_finite() || acc < -1e290 {
        // Growth beyond the floating range.
        return if acc == f64::NEG_INFINITY { Some((acc, 0.0)) } else { None };
    }
    Some((acc, tol))
}

// ------------------------------------------------------------------------------ search space
fn num_in(v: &Value, a: f64, b: f64) -> bool {
    v.as_f64().map_or(false, |x| x >= a && x <= b)
}
fn ma_ok(v: &Value, a: u64, b: u64) -> Result<u64, String> {
    let p = v["period"].as_u64().ok_or("no period")?;
    if p < a || p > b {
        return Err(format!("average period {p} not in {a}..={b}"));
    }
    let ok = match v["type"].as_str().unwrap_or("") {
        "Alma" => v["offset"].as_f64() == Some(0.85) && v["sigma"].is_null(),
        "Ema" => v["smoothing"].is_null(),
        "Dema" | "Ema2" | "Kama" | "Sma" | "Smma" => true,
        _ => false,
    };
    if !ok {
        return Err(format!("average {v}"));
    }
    Ok(p)
}
fn mas(v: &Value, lim: &[(u64, u64)]) -> Result<(), String> {
    let a = v.as_array().filter(|a| a.len() == lim.len()).ok_or("averages")?;
    let mut prev = 0;
    for (m, (x, y)) in a.iter().zip(lim) {
        let p = ma_ok(m, *x, *y)?;
        if p <= prev {
            return Err(format!("averages not from short to long: {v}"));
        }
        prev = p;
    }
    Ok(())
}
/// Checks a component against its context: fixed fields kept, the others within range.
fn comp(v: &Value, c: &Value, ty: Option<&str>) -> Result<(), String> {
    let t = match ty {
        Some(t) => t.to_string(),
        None => v["type"].as_str().ok_or("no type")?.to_string(),
    };
    let ct = c["type"].as_str();
    if ty.is_none() {
        if let Some(ct) = ct {
            if ct != "None" && ct != t {
                return Err(format!("{t} where {ct} is fixed"));
            }
        }
    }
    let nil = Value::Null;
    let sub = |f: &str| if ct == Some("None") { &nil } else { c.get(f).unwrap_or(&nil) };
    let o = v.as_object().ok_or("not an object")?;
    for (f, x) in o {
        if f == "type" {
            continue;
        }
        // Nested components have contexts of their own.
        let nested = matches!((t.as_str(), f.as_str()), ("Sig" | "SigOsc", "sig") | ("SigOsc", "osc"));
        if nested {
            comp(x, sub(f), None)?;
            continue;
        }
        match (t.as_str(), f.as_str()) {
            ("DoubleMAStoch", "double_ma") => {
                comp(x, sub(f), Some("DoubleMA"))?;
                continue;
            }
            ("DoubleMAStoch", "stoch") => {
                comp(x, sub(f), Some("Stoch"))?;
                continue;
            }
            ("BasicPlusTrailing", "basic") => {
                comp(x, sub(f), Some("Basic"))?;
                continue;
            }
            ("BasicPlusTrailing", "trailing") => {
                comp(x, sub(f), Some("Trailing"))?;
                continue;
            }
            _ => {}
        }
        let fixed = sub(f);
        if !fixed.is_null() {
            if !same(fixed, x) {
                return Err(format!("{t}.{f} is {x} where {fixed} is fixed"));
            }
            continue;
        }
        range(&t, f, x).map_err(|e| format!("{t}.{f} = {x}: {e}"))?;
    }
    Ok(())
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(_), Value::Number(_)) => a.as_f64() == b.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, v)| x.get(k).map_or(v.is_null(), |w| same(w, v))),
        _ => a == b,
    }
}
fn range(t: &str, f: &str, x: &Value) -> Result<(), String> {
    let int = |a: u64, b: u64| if x.as_u64().map_or(false, |v| v >= a && v <= b) { Ok(()) } else { Err(format!("not in {a}..={b}")) };
    let flt = |a: f64, b: f64| if num_in(x, a, b) { Ok(()) } else { Err(format!("not in {a}..={b}")) };
    match (t, f) {
        ("DoubleMA", "mas") => mas(x, &[(1, 299), (2, 300)]),
        ("DoubleMA2", "mas") => mas(x, &[(1, 199), (2, 200)]),
        ("DoubleMA2", "neg_threshold") => flt(-1.0, -0.1),
        ("DoubleMA2", "pos_threshold") => flt(0.1, 1.0),
        ("FourWeekRule", "period") => int(2, 299),
        ("FourWeekRule", "ma") => ma_ok(x, 2, 299).map(|_| ()),
        ("Macd", "periods") => match (x[0].as_u64(), x[1].as_u64()) {
            (Some(a), Some(b)) if a >= 1 && a < b && b <= 100 => Ok(()),
            _ => Err("not short and long".into()),
        },
        ("Macd", "signal_period") => int(1, 99),
        ("SingleMA", "ma") => ma_ok(x, 1, 299).map(|_| ()),
        ("TripleMA", "mas") => mas(x, &[(1, 298), (2, 299), (3, 300)]),
        ("Rsi", "period") => int(1, 100),
        ("Rsi" | "Stoch", "up_threshold") => flt(50.0, 100.0),
        ("Rsi" | "Stoch", "down_threshold") => flt(0.0, 50.0),
        ("Stoch", "k_period" | "k_sma_period" | "d_sma_period") => int(1, 200),
        ("Sig" | "SigOsc", "persistence") => int(0, 9),
        ("Sig" | "SigOsc", "mid_trend_policy") => if ["Current", "Previous", "Ignore"].contains(&x.as_str().unwrap_or("")) { Ok(()) } else { Err("unknown".into()) },
        ("Sig", "buffer_interval") => if x.is_null() { Ok(()) } else { Err("not free".into()) },
        ("SigOsc", "osc_filter") => if ["Enforce", "Prevent"].contains(&x.as_str().unwrap_or("")) { Ok(()) } else { Err("unknown".into()) },
        ("Basic" | "Trailing", "up_threshold" | "down_threshold") => flt(0.001, 10.0),
        ("Legacy", "threshold") => if x.as_f64() == Some(0.0) { Ok(()) } else { flt(0.01, 10.0) },
        ("Legacy", "trail") | ("Trending", "lock_threshold") => if x.is_boolean() { Ok(()) } else { Err("not yes or no".into()) },
        ("Trending", "up_thresholds" | "down_thresholds") => match (x[0].as_f64(), x[1].as_f64()) {
            (Some(a), Some(b)) if a >= 0.001 && a < b && b <= 10.0 => Ok(()),
            _ => Err("not a low and a high threshold".into()),
        },
        ("Trending", "period") => int(1, 199),
        ("Trending", "easing") => if model::EASINGS.contains(&x.as_str().unwrap_or("")) { Ok(()) } else { Err("unknown".into()) },
        _ => Err("unknown parameter".into()),
    }
}
/// Whether a chromosome lies in the space its context describes.
pub fn in_space(ch: &Value, ctx: &Value) -> Result<(), String> {
    let ivs = ctx["trader"]["intervals"].as_array().ok_or("no intervals")?;
    if !ivs.contains(&ch["trader"]["interval"]) {
        return Err(format!("interval {} is not one of {}", ch["trader"]["interval"], ctx["trader"]["intervals"]));
    }
    comp(&ch["strategy"], &ctx["strategy"], None)?;
    comp(&ch["stop_loss"], &ctx["stop_loss"], None)?;
    comp(&ch["take_profit"], &ctx["take_profit"], None)?;
    // Stop-loss thresholds end at the whole price.
    for f in ["up_threshold", "down_threshold", "threshold"] {
        if let Some(x) = ch["stop_loss"].get(f).and_then(|x| x.as_f64()) {
            if x > 1.0 && ctx["stop_loss"].get(f).map_or(true, |c| c.is_null()) {
                return Err(format!("stop_loss.{f} = {x}"));
            }
        }
    }
    for k in ["basic", "trailing"] {
        for f in ["up_threshold", "down_threshold"] {
            if let Some(x) = ch["stop_loss"][k].get(f).and_then(|x| x.as_f64()) {
                if x > 1.0 && ctx["stop_loss"][k].get(f).map_or(true, |c| c.is_null()) {
                    return Err(format!("stop_loss.{k}.{f} = {x}"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ breadth of the search
/// What an open parameter may be: one of these, or anything between these.
enum Open {
    One(Vec<Value>),
    Between(f64, f64),
    /// The shortest, longest or middle of a sorted few.
    Middle(f64, f64),
    Short(f64, f64),
    Long(f64, f64),
}
fn open(t: &str, f: &str, place: &str, ctx: &Value) -> Option<Open> {
    let one = |l: &[&str]| Some(Open::One(l.iter().map(|x| Value::from(*x)).collect()));
    let yes_no = || Some(Open::One(vec![true.into(), false.into()]));
    match (t, f) {
        (_, "interval") => Some(Open::One(ctx["trader"]["intervals"].as_array()?.clone())),
        (_, "ma type") => one(&["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"]),
        ("strategy", "type") => one(&["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA", "SigOsc", "Sig"]),
        ("sig", "type") => one(&["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"]),
        ("osc", "type") => one(&["Rsi", "Stoch"]),
        ("stop_loss", "type") => one(&["BasicPlusTrailing", "Basic", "Legacy", "Noop", "Trailing"]),
        ("take_profit", "type") => one(&["Basic", "Legacy", "Noop", "Trending"]),
        ("Sig" | "SigOsc", "mid_trend_policy") => one(&["Current", "Previous", "Ignore"]),
        ("Sig" | "SigOsc", "persistence") => Some(Open::One((0..10).map(Value::from).collect())),
        ("SigOsc", "osc_filter") => one(&["Enforce", "Prevent"]),
        ("Legacy", "trail") | ("Trending", "lock_threshold") => yes_no(),
        ("Trending", "easing") => one(&model::EASINGS),
        ("DoubleMA2", "neg_threshold") => Some(Open::Between(-1.0, -0.1)),
        ("DoubleMA2", "pos_threshold") => Some(Open::Between(0.1, 1.0)),
        ("FourWeekRule", "period") | ("FourWeekRule", "ma period") => Some(Open::Between(2.0, 299.0)),
        ("SingleMA", "ma period") => Some(Open::Between(1.0, 299.0)),
        ("Macd", "signal_period") => Some(Open::Between(1.0, 99.0)),
        ("Rsi", "period") => Some(Open::Between(1.0, 100.0)),
        ("Rsi" | "Stoch", "up_threshold") => Some(Open::Between(50.0, 100.0)),
        ("Rsi" | "Stoch", "down_threshold") => Some(Open::Between(0.0, 50.0)),
        ("Stoch", "k_period" | "k_sma_period" | "d_sma_period") => Some(Open::Between(1.0, 200.0)),
        ("Trending", "period") => Some(Open::Between(1.0, 199.0)),
        ("Basic" | "Trailing", "up_threshold" | "down_threshold") => Some(Open::Between(0.001, if place.starts_with("stop") { 1.0 } else { 10.0 })),
        ("Legacy", "threshold") => Some(Open::Long(0.0, if place.starts_with("stop") { 1.0 } else { 10.0 })),
        ("DoubleMA" | "TripleMA", "first period") => Some(Open::Short(1.0, 300.0)),
        ("TripleMA", "middle period") => Some(Open::Middle(1.0, 300.0)),
        ("DoubleMA" | "TripleMA", "last period") => Some(Open::Long(1.0, 300.0)),
        ("DoubleMA2", "first period") => Some(Open::Short(1.0, 200.0)),
        ("DoubleMA2", "last period") => Some(Open::Long(1.0, 200.0)),
        ("Macd", "first of periods") => Some(Open::Short(1.0, 100.0)),
        ("Macd", "last of periods") => Some(Open::Long(1.0, 100.0)),
        ("Trending", "first of up_thresholds" | "first of down_thresholds") => Some(Open::Short(0.001, 10.0)),
        ("Trending", "last of up_thresholds" | "last of down_thresholds") => Some(Open::Long(0.001, 10.0)),
        _ => None,
    }
}
/// Everything left open in a component, and what was chosen: (kind of component, field, place, value).
fn choices(v: &Value, ctx: &Value, kind: &str, place: &str, out: &mut Vec<(String, String, String, Value)>) {
    let nil = Value::Null;
    let typed = v.get("type").and_then(|t| t.as_str());
    let free = ctx.is_null() || ctx["type"] == "None";
    if typed.is_some() && free {
        out.push((kind.into(), "type".into(), place.into(), v["type"].clone()));
    }
    let t = typed.unwrap_or(kind);
    let here = format!("{place}/{t}");
    for (f, x) in v.as_object().into_iter().flatten().filter(|(f, _)| *f != "type") {
        let c = if ctx["type"] == "None" { &nil } else { ctx.get(f).unwrap_or(&nil) };
        let inner = match f.as_str() {
            "sig" | "osc" => Some(f.as_str()),
            "double_ma" => Some("DoubleMA"),
            "stoch" => Some("Stoch"),
            "basic" => Some("Basic"),
            "trailing" => Some("Trailing"),
            _ => None,
        };
        if let Some(kind) = inner {
            choices(x, c, kind, &format!("{here}/{f}"), out);
            continue;
        }
        if !c.is_null() {
            continue;
        }
        if f == "ma" {
            out.push((t.into(), "ma type".into(), here.clone(), x["type"].clone()));
            out.push((t.into(), "ma period".into(), here.clone(), x["period"].clone()));
        } else if f == "mas" {
            for (k, x) in x.as_array().into_iter().flatten().enumerate() {
                out.push((t.into(), "ma type".into(), format!("{here}/{k}"), x["type"].clone()));
            }
            out.push((t.into(), "first period".into(), here.clone(), x[0]["period"].clone()));
            let k = x.as_array().map_or(0, |l| l.len().max(1) - 1);
            out.push((t.into(), "last period".into(), here.clone(), x[k]["period"].clone()));
            if k == 2 {
                out.push((t.into(), "middle period".into(), here.clone(), x[1]["period"].clone()));
            }
        } else if x.is_array() {
            out.push((t.into(), format!("first of {f}"), here.clone(), x[0].clone()));
            out.push((t.into(), format!("last of {f}"), here.clone(), x[1].clone()));
        } else {
            out.push((t.into(), f.clone(), here.clone(), x.clone()));
        }
    }
}
/// Every open choice takes every value it can among enough random individuals.
fn explored(run: &Run, out: &RunOut, t: &mut Tally, v: &mut Vec<Viol>) {
    let mut seen: BTreeMap<(String, String, String), Vec<Value>> = BTreeMap::new();
    let mut firsts: Vec<(Value, Vec<String>)> = vec![];
    for (q, o) in run.reqs.iter().zip(&out.reqs) {
        let Some(j) = o.json().filter(|_| o.ok()) else { continue };
        let ctx = &q.body["context"];
        let empty = vec![];
        let all = j["generations"][0]["hall_of_fame"].as_array().unwrap_or(&empty);
        let mut texts = vec![];
        for h in all {
            let ch = &h["individual"]["chromosome"];
            texts.push(ch.to_string());
            let mut l = vec![("trader".to_string(), "interval".to_string(), "trader".to_string(), ch["trader"]["interval"].clone())];
            for k in ["strategy", "stop_loss", "take_profit"] {
                choices(&ch[k], &ctx[k], k, k, &mut l);
            }
            for (kind, f, place, x) in l {
                seen.entry((kind, f, place)).or_default().push(x);
            }
        }
        texts.sort();
        // With this many different individuals, equal populations are no coincidence.
        let telling = texts.windows(2).filter(|w| w[0] != w[1]).count() >= 25;
        for (seed, other) in &firsts {
            if telling && *seed != j["seed"] && other == &texts {
                v.push(viol("O06", format!("seeds {seed} and {} give the same first population", j["seed"])));
            }
        }
        firsts.push((j["seed"].clone(), texts));
    }
    let Some(ctx) = run.reqs.first().map(|q| &q.body["context"]) else { return };
    for ((kind, f, place), l) in seen {
        let open = open(&kind, &f, &place, ctx);
        match open {
            Some(Open::One(all)) => {
                // The chance to miss one is below e^-25 each.
                if l.len() < 25 * all.len() {
                    continue;
                }
                t.results += 1;
                t.seen.insert(format!("{kind}/{f}"));
                let missing: Vec<_> = all.iter().filter(|x| !l.contains(x)).collect();
                if !missing.is_empty() {
                    v.push(viol("O06", format!("{place} {f}: {missing:?} never chosen among {} random individuals; context {ctx}", l.len())));
                }
            }
            Some(Open::Between(a, b) | Open::Short(a, b) | Open::Long(a, b) | Open::Middle(a, b)) => {
                // The chance to miss either end is below e^-25.
                let (due, low, high) = match open {
                    Some(Open::Short(..)) => (600, 0.2, 0.6),
                    Some(Open::Long(..)) => (600, 0.4, 0.8),
                    Some(Open::Middle(..)) => (130, 0.4, 0.6),
                    _ => (130, 0.2, 0.8),
                };
                if l.len() < due {
                    continue;
                }
                t.results += 1;
                t.seen.insert(format!("{kind}/{f}"));
                // Nor is any tenth of it left out, or every other number; thresholds may be off.
                if matches!(open, Some(Open::Between(..))) && l.len() >= 300 {
                    let tenth = |x: f64| (((x - a) / (b - a) * 10.0) as usize).min(9);
                    let mut met = [false; 10];
                    l.iter().filter_map(|x| x.as_f64()).for_each(|x| met[tenth(x)] = true);
                    let odd = l.iter().filter_map(|x| x.as_u64()).map(|x| x % 2).collect::<BTreeSet<_>>();
                    if met.contains(&false) || odd.len() == 1 {
                        v.push(viol("O06", format!("{place} {f}: {} random individuals leave out some of {a} to {b}: tenths met {met:?}, remainders by two {odd:?}; context {ctx}", l.len())));
                    }
                }
                if kind == "Legacy" && f == "threshold" {
                    let off = l.iter().filter(|x| x.as_f64() == Some(0.0)).count();
                    if off == 0 || off == l.len() {
                        v.push(viol("O06", format!("{place} {f}: off in {off} of {} random individuals; context {ctx}", l.len())));
                    }
                }
                let xs = l.iter().filter_map(|x| x.as_f64());
                let (lo, hi) = xs.fold((f64::INFINITY, f64::NEG_INFINITY), |(lo, hi), x| (lo.min(x), hi.max(x)));
                if lo > a + low * (b - a) || hi < a + high * (b - a) {
                    v.push(viol("O06", format!("{place} {f}: {} random individuals only have values from {lo} to {hi} of {a} to {b}; context {ctx}", l.len())));
                }
            }
            None => {}
        }
    }
}

// ------------------------------------------------------------------------------ replies against each other
fn quad(v: &Value) -> (usize, usize, usize, usize) {
    let g = |i: usize| v[i].as_u64().unwrap() as usize;
    (g(0), g(1), g(2), g(3))
}
/// First difference between two values.
pub fn differ(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let d = differ(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), &format!("{path}/{k}"));
                if d.is_some() {
                    return d;
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                let d = differ(p, q, &format!("{path}/{i}"));
                if d.is_some() {
                    return d;
                }
            }
            if x.len() != y.len() { Some(format!("{path}: {} and {} entries", x.len(), y.len())) } else { None }
        }
        _ if a == b => None,
        _ => Some(format!("{path}: {} and {}", short(a.to_string().as_bytes()), short(b.to_string().as_bytes()))),
    }
}
fn relations(case: &Case, outs: &[RunOut], t: &mut Tally, v: &mut Vec<Viol>) {
    let empty = vec![];
    let get = |r: usize, i: usize| outs.get(r).and_then(|o| o.reqs.get(i)).filter(|o| o.ok()).and_then(|o| o.json());
    let list = |k: &str| case.note[k].as_array().unwrap_or(&empty).iter().map(quad).collect::<Vec<_>>();
    for (ra, i, rb, j) in list("equal") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        t.results += 1;
        if let Some(d) = differ(&a, &b, "") {
            let prop: &'static str = PROPS.iter().find(|p| **p == case.property).unwrap();
            v.push(viol(prop, format!("run {ra} request {i} and run {rb} request {j} ask the same and got different replies: {d}")));
        }
    }
    // Same generations, whatever the seed entry says.
    for (ra, i, rb, j) in list("replay") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        t.results += 1;
        if let Some(d) = differ(&a["generations"], &b["generations"], "generations") {
            v.push(viol("O02", format!("run {rb} request {j}, given the seed {} reported for run {ra} request {i}, went another way: {d}", a["seed"])));
        }
        if a["seed"] != b["seed"] {
            v.push(viol("O02", format!("seed {} is reported back as {}", a["seed"], b["seed"])));
        }
    }
    // A search stopped earlier reports the same entries up to there.
    for (ra, i, rb, j) in list("prefix") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        t.results += 1;
        let g = case.runs[rb].reqs[j].body["generations"].as_u64().unwrap();
        let x: Vec<Value> = a["generations"].as_array().unwrap_or(&empty).iter().filter(|e| e["nr"].as_u64().map_or(false, |n| n <= g)).cloned().collect();
        let y = b["generations"].as_array().cloned().unwrap_or_default();
        if let Some(d) = differ(&Value::from(x), &Value::from(y), "generations") {
            v.push(viol("O04", format!("the search stopped after {g} generations reports other entries than the longer one up to number {g}: {d}")));
        }
    }
    // The same search shows the same individuals, however many are asked for.
    for (ra, i, rb, j) in list("fame") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        t.results += 1;
        let (x, y) = (a["generations"].as_array().unwrap_or(&empty), b["generations"].as_array().unwrap_or(&empty));
        let width = |l: &[Value]| l.first().and_then(|g| g["hall_of_fame"].as_array()).map_or(0, |h| h.len());
        // From the longer lists follow the shorter ones: where one of the first places improves.
        let (x, y) = if width(x) >= width(y) { (x, y) } else { (y, x) };
        let n = width(y);
        let mut best = vec![f64::NAN; n];
        let mut due = vec![];
        for g in x {
            let hs = g["hall_of_fame"].as_array().unwrap_or(&empty);
            let mut better = false;
            for (k, h) in hs.iter().take(n).enumerate() {
                let f = fitness(&h["individual"]);
                if best[k].is_nan() || f > best[k] {
                    best[k] = f;
                    better = true;
                }
            }
            if better {
                due.push(serde_json::json!({"nr": g["nr"], "hall_of_fame": hs[..n.min(hs.len())]}));
            }
        }
        if let Some(d) = differ(&Value::from(due), &Value::from(y.clone()), "generations") {
            v.push(viol("O04", format!("halls of fame of {} and of {n} of the same search differ in the first {n} places: {d}", width(x))));
        }
    }
    // A backtest of reported parameters shows the reported statistics.
    for (ra, i, rb, j) in list("chrom") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        let Some((_, g, h)) = case.runs[rb].reqs[j].chrom_from else { continue };
        let Some(gs) = a["generations"].as_array().filter(|g| !g.is_empty()) else { continue };
        let Some(hs) = gs[g % gs.len()]["hall_of_fame"].as_array().filter(|h| !h.is_empty()) else { continue };
        t.results += 1;
        if let Some(d) = differ(&hs[h % hs.len()]["symbol_stats"], &b["symbol_stats"], "symbol_stats") {
            v.push(viol("O03", format!("entry {g} place {h}: the reported statistics and those of a backtest of the reported parameters differ: {d}")));
        }
    }
    for (ra, ..) in list("explored") {
        explored(&case.runs[ra], &outs[ra], t, v);
    }
    // A history cut short.
    for (ra, i, rb, j) in list("cut") {
        let (Some(a), Some(b)) = (get(ra, i), get(rb, j)) else { continue };
        let (run, body) = (&case.runs[rb], &case.runs[rb].reqs[j].body);
        let (syms, ivs) = needs(body);
        let ex = body["exchange"].as_str().unwrap();
        for s in &syms {
            let c = run.market.candles(ex, run.market.sym(ex, s).unwrap(), ivs[0], body["start"].as_u64().unwrap(), body["end"].as_u64().unwrap(), case.runs[rb].version);
            let cut = c.last().map_or(0, |c| c.time + ivs[0]);
            t.results += 1;
            let (x, y) = (&a["symbol_stats"][s]["positions"], &b["symbol_stats"][s]["positions"]);
            let (Some(x), Some(y)) = (x.as_array(), y.as_array()) else { continue };
            t.positions += y.len() as u64;
            let mut bad = None;
            let upto = x.iter().filter(|p| p["open_time"].as_u64().unwrap_or(0) <= cut).count();
            if upto != y.len() {
                bad = Some(format!("{} positions open up to the cut in the longer history, {} in the shorter", upto, y.len()));
            }
            for (k, (p, q)) in x.iter().zip(y).enumerate() {
                if q["close_reason"] == "Cancelled" {
                    let same = ["open_time", "cost", "type"].iter().all(|f| p[*f] == q[*f]);
                    // Alike if no candle comes after the cut.
                    if p == q {
                        continue;
                    }
                    if !same || p["close_time"].as_u64().unwrap_or(0) <= cut || q["close_time"] != cut {
                        bad = Some(format!("position {k}, open at the cut: {q}, in the longer history {p}"));
                    }
                } else if let Some(d) = differ(p, q, "") {
                    bad = Some(format!("position {k} differs at {d}: {q}, in the longer history {p}"));
                }
            }
            if let Some(e) = bad {
                v.push(viol("T04", format!("{s}: history up to {cut} against one up to {}: {e}; {}", case.runs[ra].reqs[i].body["end"], body["trading"])));
            }
        }
    }
}
pub const PROPS: [&str; 26] = [
    "D01", "D02", "D03", "D04", "D05", "D06", "D07", "O01", "O02", "O03", "O04", "O05", "O06", "T01", "T02", "T03", "T04", "T05", "T06", "T07", "T08", "F01", "F02", "V01", "V02", "X01",
];
#[allow(dead_code)]
fn unused() {
    let _ = data_reply;
}
