//! D06: the client library, driven directly by the probe program.
use crate::model::DAY;
use crate::case::*;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::world::{status_message, RunOut};
use serde_json::{json, Value};
use std::collections::HashMap;

const OPS: [&str; 5] = ["exchange_info", "candles", "candles_fill_missing_with_none", "candle_intervals", "prices"];

pub fn gen(r: &mut Rng) -> Case {
    let nex = r.range(1, 4);
    let mut exs = vec![];
    for k in 0..nex {
        let n = r.range(1, 4) as usize;
        let mut e = exchange(r, &format!("lib{k}"), n);
        for s in &mut e.symbols {
            if r.p(0.5) {
                s.gap_p = 0.1;
                s.gap_max = r.range(1, 8);
            }
        }
        exs.push(e);
    }
    let m = market(r, exs);
    let mut reqs: Vec<Req> = vec![];
    let groups = r.range(1, 5);
    let start0 = 1_500_000_000_000 / DAY * DAY;
    for g in 0..groups {
        for _ in 0..r.range(1, 6) {
            let e = r.pick(&m.exchanges).clone();
            let op = *r.pick(&OPS);
            // Every call has its own start, so that it can be told from the others.
            let start = start0 + reqs.len() as u64 * 7 * DAY + if r.p(0.3) { r.below(DAY) } else { 0 };
            let iv = *r.pick(&[MIN, HOUR, DAY, 12_345]);
            let n = *r.pick(&[0, 1, 3, 50, 400]);
            let args = match op {
                "exchange_info" | "candle_intervals" => json!({"exchange": e.name}),
                "prices" => {
                    let mut a: Vec<String> = e.symbols.iter().flat_map(|s| s.name.split('-').map(String::from).collect::<Vec<_>>()).collect();
                    a.sort();
                    a.dedup();
                    r.shuffle(&mut a);
                    a.truncate(r.below(a.len() as u64 + 1) as usize);
                    json!({"exchange": e.name, "assets": a, "interval": *r.pick(&[DAY, HOUR]), "start": start, "end": start + n.min(50) * DAY, "target_asset": *r.pick(&["usdt", "btc", "eur", "", "é/\"\\\n"])})
                }
                _ => json!({"exchange": e.name, "symbol": r.pick(&e.symbols).name.clone(), "interval": iv, "start": start, "end": start + n * iv, "type_": *r.pick(&["regular", "regular", "heikin-ashi"])}),
            };
            let mut body = json!({"op": op, "g": g, "args": args});
            if r.p(0.4) {
                body["after"] = json!(r.skew(10 * MS));
            }
            if r.p(0.08) {
                body["cut"] = json!(r.skew(10 * MS));
            }
            reqs.push(Req { path: op.into(), body, ..Default::default() });
        }
    }
    let mut faults = vec![];
    if r.p(0.7) {
        for _ in 0..r.range(1, 3) {
            let q = r.pick(&reqs).body.clone();
            let x = *r.pick(&[0.0, 0.05, 0.3, 0.5, 0.8, 0.95]);
            let kind = match r.below(15) {
                14 => FKind::Damage(r.below(1 << 40), *r.pick(&[0, 1, 3])),
                0 => FKind::ResetBefore,
                1 => FKind::CloseBefore,
                2 => FKind::ResetMid(x),
                3 | 4 => FKind::FinMid(x, r.p(0.5)),
                5 => FKind::TruncJson(x),
                6 => FKind::BadJson(r.below(8) as u8),
                7 => FKind::Garbage,
                8 => FKind::Stall(*r.pick(&[20 * MS, SEC, 30 * SEC])),
                9 => FKind::Missing(q["args"]["assets"][0].as_str().or(q["args"]["symbol"].as_str()).unwrap_or("fees").to_string()),
                _ if r.p(0.1) => FKind::Status(*r.pick(&[202, 204, 205, 304]), 1),
                _ => FKind::Status(*r.pick(&[400, 401, 404, 408, 418, 429, 499, 500, 502, 503, 504, 505]), *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5])),
            };
            let sym = if r.p(0.5) { q["args"]["symbol"].as_str().map(String::from) } else { None };
            faults.push(Fault { ex: q["args"]["exchange"].as_str().unwrap().into(), path: format!("/{}", q["op"].as_str().unwrap()), sym, iv: None, kind, once: r.p(0.4), waves: None });
        }
    }
    let mut env = vec![];
    if r.p(0.3) {
        for _ in 0..r.range(1, 2) {
            env.push(match r.below(5) {
                0 => {
                    let a = r.skew(20 * MS);
                    Env::Refuse(a, a + r.skew(200 * MS) + MS)
                }
                1 => Env::Dns(r.skew(10 * MS), r.range(1, 3)),
                2 | 3 => Env::IdleClose(r.skew(20 * MS)),
                _ => Env::ResetAll(r.skew(30 * MS)),
            });
        }
    }
    if r.p(0.1) {
        env.push(Env::NoV6(MS));
    }
    let run = Run { sim: sim(r), market: m, reqs, net: net(r), faults, env, versioned: false, version: 0, horizon: 300 * SEC, sample: false, prog: 1 };
    Case { property: String::new(), kind: "client calls".into(), runs: vec![run], note: json!({}) }
}

/// Equal but for the last digit of numbers too long to be read exactly.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                x == y || (x - y).abs() <= 3e-16 * x.abs().max(y.abs())
            }
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        _ => a == b,
    }
}
fn is_candle(v: &Value) -> bool {
    v["time"].is_u64() && ["open", "high", "low", "close", "volume"].iter().all(|k| v[*k].is_number())
}
fn numeric(v: &Value) -> bool {
    match v {
        Value::Object(o) => o.values().all(numeric),
        _ => v.is_number(),
    }
}
/// Whether a reply is of the shape the call is to return.
fn shaped(op: &str, v: &Value) -> bool {
    let all = |p: fn(&Value) -> bool| v.as_array().map_or(false, |l| l.iter().all(p));
    match op {
        "exchange_info" => ["assets", "fees", "filters", "borrow_info"].iter().all(|k| v[*k].is_object()) && numeric(v),
        "candles" => all(is_candle),
        "candles_fill_missing_with_none" => all(|x| x.is_null() || is_candle(x)),
        "candle_intervals" => all(|x| x.is_u64()),
        _ => v.as_object().map_or(false, |o| o.values().all(|l| l.as_array().map_or(false, |l| l.iter().all(|x| x.is_number())))),
    }
}

pub fn judge(run: &Run, out: &RunOut, t: &mut Tally, v: &mut Vec<Viol>) {
    let mut bad = |s: String| v.push(viol("D06", s));
    if matches!(out.exit, 3 | 4 | 7 | 8) {
        return;
    }
    let mut told: HashMap<usize, Value> = HashMap::new();
    let logs = String::from_utf8_lossy(&out.logs);
    for l in logs.split('\n') {
        if let Some((i, j)) = l.strip_prefix("RESULT ").and_then(|l| l.split_once(' ')) {
            if let (Ok(i), Ok(j)) = (i.parse(), serde_json::from_str(j)) {
                if told.insert(i, j).is_some() {
                    bad(format!("call {i} returned twice"));
                }
            }
        }
    }
    for f in &out.fetches {
        let op = f.path.trim_start_matches('/');
        if !run.reqs.iter().any(|q| q.body["op"] == op && q.body["args"] == f.body) {
            bad(format!("the data service was asked {} {}, which no call asks for", f.path, f.body));
        }
    }
    let shaky = run.env.iter().any(|e| !matches!(e, Env::NoV6(_)));
    for (i, q) in run.reqs.iter().enumerate() {
        let (op, args) = (q.body["op"].as_str().unwrap(), &q.body["args"]);
        let who = format!("call {i} {op} {args}");
        t.results += 1;
        let Some(r) = told.get(&i) else {
            bad(format!("{who} never returned (exit {} after {} ms): {}", out.exit, out.vtime / MS, { let n = logs.chars().count(); logs.chars().skip(n.saturating_sub(300)).collect::<String>() }));
            continue;
        };
        let path = format!("/{op}");
        let mut faults = vec![];
        for f in run.faults.iter().filter(|f| crate::world::matches(f, &path, args)) {
            faults.push(&f.kind);
            if !f.once {
                break;
            }
        }
        let fault = faults.first().copied();
        let end = if r["cut"] == true { "given up" } else { r["err"].as_str().unwrap_or("ok") };
        t.seen.insert(format!("{op}/{}/{end}", fault.map_or("none".into(), |f| format!("{f:?}").split('(').next().unwrap().to_string())));
        let asked: Vec<_> = out.fetches.iter().filter(|f| f.path == path && f.body == *args).collect();
        let alike = run.reqs.iter().filter(|x| x.body["op"] == op && x.body["args"] == *args).count();
        if asked.len() > alike && !shaky {
            bad(format!("the data service was asked {} times for {alike} {who}", asked.len()));
        }
        if r["cut"] == true {
            if q.body["cut"].is_null() {
                bad(format!("{who} was given up by nobody"));
            }
            continue;
        }
        let whole = asked.iter().filter(|f| f.status == 200 && f.text.as_ref().and_then(|s| serde_json::from_str(s).ok()).map_or(false, |y: Value| shaped(op, &y))).count();
        if let Some(x) = r.get("ok") {
            let fine = run.reqs.iter().enumerate().filter(|(j, x)| x.body["op"] == op && x.body["args"] == *args && told.get(j).map_or(false, |r| r.get("ok").is_some())).count();
            if fine > whole {
                bad(format!("{fine} {who} returned values but the data service sent {whole} whole replies {faults:?}"));
            }
            let good = asked.iter().any(|f| f.status == 200 && f.text.as_ref().and_then(|s| serde_json::from_str(s).ok()).map_or(false, |y| same(x, &y)));
            if !good {
                let sent: Vec<_> = asked.iter().map(|f| f.text.as_ref().map(|s| s.chars().take(300).collect::<String>())).collect();
                bad(format!("{who} returned {} but the data service sent {sent:?} {fault:?}", x.to_string().chars().take(300).collect::<String>()));
            }
            continue;
        }
        // An error.
        if whole >= alike && !shaky {
            bad(format!("{who} returned {r} though the data service sent a whole reply"));
        }
        if asked.is_empty() && !shaky {
            bad(format!("{who} returned {r} without asking the data service"));
        }
        let text = r["text"].as_str().unwrap_or("");
        if text.trim().is_empty() {
            bad(format!("{who} failed without saying why: {r}"));
        }
        let mut ok = faults.is_empty() || shaky;
        for k in faults {
            let FKind::Status(c, k) = k else {
                ok = true;
                break;
            };
            let url = format!("http://localhost:3030{path}");
            let want = status_message(args["exchange"].as_str().unwrap(), &path, *c);
            ok |= if *c >= 500 {
                r["err"] == "request" && r["status"] == *c && text.contains(&c.to_string())
            } else if *k == 0 {
                r["err"] == "api" && r["status"] == *c && r["url"] == url.as_str() && r["message"] == want.as_str() && text.contains(&c.to_string()) && text.contains(&want) && text.contains(&url)
            } else {
                true
            };
        }
        if !ok {
            bad(format!("{who}, answered with {fault:?}, returned {r}"));
        }
    }
}
