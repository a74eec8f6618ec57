//! What each property's check runs: one case per number.
use crate::case::*;
use crate::gen::*;
use crate::market::*;
use crate::model::{Strat, DAY, EASINGS, MONTH, WEEK};
use crate::rng::{hstr, mix, Rng};
use serde_json::{json, Value};

pub fn gen(prop: &str, seed: u64, i: u64, deep: bool) -> Case {
    let mut r = Rng::new(hstr(seed, prop), i);
    let mut c = match prop {
        "D01" => d01(&mut r),
        "D02" => d02(&mut r, false),
        "D03" => d02(&mut r, true),
        "D04" => d04(&mut r),
        "D05" => d05(&mut r),
        "D06" => crate::probe::gen(&mut r),
        "D07" => d07(&mut r),
        "O01" => o01(&mut r, deep),
        "O02" => o02(&mut r),
        "O03" => o03(&mut r),
        "O04" => o04(&mut r, deep),
        "O05" => o05(&mut r, deep),
        "O06" => o06(&mut r),
        "T04" => t04(&mut r),
        "T06" => t06(&mut r),
        "F01" => f01(&mut r),
        "V01" => v01(&mut r, deep),
        "V02" => v02(&mut r),
        "X01" => x01(&mut r),
        _ => t(&mut r, prop, deep),
    };
    c.property = prop.into();
    c
}
fn case(kind: &str, runs: Vec<Run>, note: Value) -> Case {
    Case { property: String::new(), kind: kind.into(), runs, note }
}
fn run(r: &mut Rng, market: Market, reqs: Vec<Req>) -> Run {
    Run { sim: calm(r), market, reqs, net: Net { seed: r.u() >> 12, lat: 0, frag: 1, ..Default::default() }, faults: vec![], env: vec![], versioned: false, version: 0, horizon: 120 * SEC, sample: false, prog: 0 }
}
fn names(e: &Ex) -> Vec<&str> {
    e.symbols.iter().map(|s| s.name.as_str()).collect()
}
/// Some of the symbols, in any order.
fn some<'a>(r: &mut Rng, e: &'a Ex, max: usize) -> Vec<&'a str> {
    let mut n = names(e);
    r.shuffle(&mut n);
    let k = 1 + r.below(n.len().min(max) as u64) as usize;
    n.truncate(k);
    n
}
fn quote_of(r: &mut Rng) -> f64 {
    *r.pick(&[1.0, 1.0, 10.0, 0.1, 100.0, 1000.0])
}
fn interval(r: &mut Rng) -> u64 {
    *r.pick(&[MIN, 5 * MIN, HOUR, HOUR, 4 * HOUR, DAY])
}

// ------------------------------------------------------------------------------ trading
fn t(r: &mut Rng, prop: &str, deep: bool) -> Case {
    if r.p(0.12) {
        return t_bulk(r, prop);
    }
    let n = 1 + r.below(3) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = if prop == "T08" { *r.pick(&[HOUR, 4 * HOUR, DAY, 15 * MIN, DAY, WEEK]) } else { interval(r) };
    let len = match prop {
        "T08" => *r.pick(&[30, 100, 300]),
        _ => *r.pick(&[60, 150, 300, 600]),
    } * if deep && r.p(0.1) { 4 } else { 1 };
    let (start, end) = span(r, iv, len);
    for s in &mut e.symbols {
        match prop {
            "T05" => strict(r, s),
            "F02" => halts(r, s, iv, len),
            "T08" if r.p(0.25) => s.late = r.below(6) * DAY + r.below(2) * 6 * HOUR,
            "T02" | "T01" if r.p(0.2) => {
                s.gap_p = 0.02;
                s.gap_max = 10;
            }
            _ => {}
        }
    }
    // Balances so small, or so large, that what is left over counts.
    let extreme = prop == "T01" && r.p(0.15);
    if extreme {
        for s in &mut e.symbols {
            (s.p0, s.grid) = *r.pick(&[(1.0 / 4096.0, 1.0 / 16_777_216.0), (0.03125, 1.0 / 65_536.0)]);
            s.filters.base_precision = 8;
            s.filters.quote_precision = 8;
            s.filters.size = Lim { min: 0.0, max: 0.0, step: *r.pick(&[0.0, 0.0, 0.00001]) };
            s.fees.taker = *r.pick(&[0.0, 0.001, 0.01]);
        }
    }
    let m = market(r, vec![e]);
    let k = r.range(3, 8);
    let reqs = (0..k)
        .map(|_| {
            let mm = *r.pick(&[4, 10, 10, 25, 60, 200]);
            let mut s = strategy(r, mm.min(len / 3).max(3), iv, false);
            if prop == "T03" || prop == "T02" || prop == "T05" {
                if r.p(0.5) {
                    s = *r.pick(&[0, 1]).eq(&0).then(|| Box::new(signal(r, "DoubleMA", 8))).unwrap_or_else(|| Box::new(signal(r, "SingleMA", 8)));
                }
            }
            if prop == "F02" && r.p(0.4) {
                s = json!({"type":"SigOsc","sig":signal(r, "SingleMA", 8),"osc":osc(r, 12),"osc_filter":*r.pick(&["Enforce","Prevent"]),"persistence":0,"mid_trend_policy":policy(r)});
            }
            let sl = if prop == "T07" && r.p(0.6) { noop() } else { stop_loss(r) };
            let tp = if prop == "T07" && r.p(0.6) { noop() } else { take_profit(r) };
            let q = if extreme { *r.pick(&[0.000_000_4, 0.000_001, 0.000_003, 0.000_02, 0.0005, 1e6, 1e9]) } else if prop == "T05" { *r.pick(&[0.001, 0.05, 1.0, 7.0, 100.0, 12_345.678, 1_000_000.0]) } else { quote_of(r) };
            let syms = some(r, &m.exchanges[0], 3);
            let (mut a, mut z) = (start, end);
            if r.p(0.2) {
                a += r.below(len / 3 + 1) * iv;
                z -= r.below(len / 4 + 1) * iv;
            }
            backtest("ex", &syms, a, z, q, trading(s, iv, sl, tp))
        })
        .collect();
    case("backtests", vec![run(r, m, reqs)], json!({}))
}
/// Terms that bind.
fn strict(r: &mut Rng, s: &mut Sym) {
    s.fees.taker = *r.pick(&[0.0, 0.0001, 0.00075, 0.001, 0.0015, 0.0333, 0.1, 0.25]);
    let p = *r.pick(&[0, 1, 2, 3, 5, 8]);
    s.filters.base_precision = p;
    s.filters.quote_precision = if r.p(0.5) { p } else { *r.pick(&[0, 1, 2, 4, 8]) };
    s.filters.size = Lim {
        min: *r.pick(&[0.0, 0.001, 0.015, 0.1, 0.5, 1.0]),
        max: *r.pick(&[0.0, 0.0, 0.75, 2.0, 50.0]),
        step: *r.pick(&[0.0, 0.001, 0.003, 0.01, 0.07, 0.1, 0.25, 1.0]),
    };
    s.borrow = (*r.pick(&[MIN, HOUR, 3 * HOUR, DAY, 10 * DAY]), *r.pick(&[0.0, 0.00001, 0.0005, 0.01, 0.05]), *r.pick(&[1e9, 1e9, 10.0, 0.3, 0.01, 0.0]));
    if r.p(0.3) {
        (s.p0, s.grid) = *r.pick(&[(0.00390625, 1.0 / 65_536.0), (50_000.0, 0.5), (7.0, 0.015625)]);
    }
}
/// Flat stretches of any length.
fn halts(r: &mut Rng, s: &mut Sym, iv: u64, len: u64) {
    s.flats = (0..r.range(1, 3))
        .map(|_| {
            let a = if r.p(0.3) { 0 } else { r.below(len * 2 / 3) };
            let n = *r.pick(&[2, 5, 15, 40, len / 3]);
            (a * iv, (a + n) * iv)
        })
        .collect();
}
/// Many random individuals at once: a search that ends with its initial population.
fn t_bulk(r: &mut Rng, prop: &str) -> Case {
    let n = 1 + r.below(2) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = interval(r);
    let len = *r.pick(&[400, 800, 1200]);
    for s in &mut e.symbols {
        match prop {
            "T05" => strict(r, s),
            "F02" => halts(r, s, iv, len),
            _ => {}
        }
    }
    let (start, end) = span(r, iv, len);
    let m = market(r, vec![e]);
    let names: Vec<String> = names(&m.exchanges[0]).into_iter().map(String::from).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let pop = r.range(10, 40);
    let ctx = if r.p(0.5) {
        json!({"strategy":{"type":"None"},"trader":{"intervals":[iv]},"stop_loss":{"type":"None"},"take_profit":{"type":"None"}})
    } else {
        let (sl, tp) = (stop_loss(r), take_profit(r));
        json!({"strategy":{"type":*r.pick(&SIGNALS)},"trader":{"intervals":[iv]},"stop_loss":sl,"take_profit":tp})
    };
    let q = quote_of(r);
    let q = optimize("ex", &names, &[], start, end, q, pop, 0, pop, Some(r.u() >> 20), "Profit", "Linear", ctx);
    case("individuals", vec![run(r, m, vec![q])], json!({}))
}
fn t04(r: &mut Rng) -> Case {
    let n = 1 + r.below(3) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = interval(r);
    let len = *r.pick(&[60, 150, 400]);
    let (start, end) = span(r, iv, len);
    let buffered = r.p(0.2);
    if !buffered && r.p(0.2) {
        for s in &mut e.symbols {
            s.gap_p = 0.03;
            s.gap_max = 6;
        }
    }
    if r.p(0.2) {
        for s in &mut e.symbols {
            halts(r, s, iv, len);
        }
    }
    let m = market(r, vec![e]);
    let mut reqs = vec![];
    let mut cuts = vec![];
    for _ in 0..r.range(2, 4) {
        let mm = *r.pick(&[4, 8, 20]);
        let s = strategy(r, mm, iv, buffered);
        let (sl, tp) = (stop_loss(r), take_profit(r));
        let tr = trading(s, iv, sl, tp);
        let q = quote_of(r);
        let syms = some(r, &m.exchanges[0], 3);
        let a = reqs.len();
        reqs.push(backtest("ex", &syms, start, end, q, tr.clone()));
        for _ in 0..r.range(2, 4) {
            let z = start + r.range(len / 8, len - 1) * iv;
            cuts.push(json!([0, a, 0, reqs.len()]));
            reqs.push(backtest("ex", &syms, start, z, q, tr.clone()));
        }
    }
    case("cuts", vec![run(r, m, reqs)], json!({"cut":cuts}))
}
fn t06(r: &mut Rng) -> Case {
    let n = 1 + r.below(3) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = interval(r);
    for s in &mut e.symbols {
        s.filters.size.min = 0.0;
        if r.p(0.5) {
            s.style = 5;
            s.vol = 0.03;
        }
    }
    let mut m = market(r, vec![e]);
    let (start, _) = span(r, iv, 1);
    let mut reqs = vec![];
    for _ in 0..r.range(5, 12) {
        let buffered = r.p(0.25);
        let mm = if buffered { *r.pick(&[3, 6, 12, 30]) } else { *r.pick(&[3, 6, 12, 30, 30, 300]) };
        let s = strategy(r, mm, iv, buffered);
        let need = Strat::new(&s, iv).warmup() as i64;
        let f = s["buffer_interval"].as_u64().map_or(1, |b| if b >= WEEK { 7 } else { (b / iv) as i64 });
        let n = match r.below(6) {
            0 => need * f - 1,
            1 => need * f,
            2 => need * f + 1,
            3 => r.below(3) as i64,
            4 => need * f + r.below(10) as i64,
            _ => need * f * 2 + 20,
        }
        .clamp(0, 4000) as u64;
        let (sl, tp) = (stop_loss(r), take_profit(r));
        let syms = some(r, &m.exchanges[0], 3);
        reqs.push(backtest("ex", &syms, start, start + n * iv + r.below(2) * (iv / 2), quote_of(r), trading(s, iv, sl, tp)));
    }
    if r.p(0.1) {
        m.cut = Some(start);
    }
    case("short histories", vec![run(r, m, reqs)], json!({}))
}
fn f01(r: &mut Rng) -> Case {
    let n = 1 + r.below(3) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = *r.pick(&[MIN, 5 * MIN, 15 * MIN, HOUR, HOUR, 4 * HOUR, DAY, DAY]);
    let len = *r.pick(&[100, 300, 700]);
    let (start, end) = span(r, iv, len);
    let rough = r.p(0.75);
    for s in &mut e.symbols {
        if s.vol < 0.01 {
            s.vol = 0.01;
        }
        if rough {
            match r.below(3) {
                0 => {
                    s.gap_p = *r.pick(&[0.005, 0.02, 0.1]);
                    s.gap_max = *r.pick(&[1, 2, 5, 12]);
                }
                1 => {
                    // Whole coarse periods go missing.
                    let a = r.below(len * 2 / 3);
                    let n = r.range(1, 60);
                    s.gaps = vec![(a * iv, (a + n) * iv)];
                }
                _ => {
                    let a = r.below(len / 2);
                    s.gaps = vec![(a * iv, (a + r.range(1, 30)) * iv), ((a + 40) * iv, (a + 40 + r.range(1, 10)) * iv)];
                }
            }
        }
        if r.p(0.2) {
            s.late = r.below(20) * iv;
        }
    }
    let m = market(r, vec![e]);
    let reqs = (0..r.range(4, 9))
        .map(|_| {
            let mm = *r.pick(&[3, 4, 6, 10]);
            let kind = *r.pick(&["FourWeekRule", "SingleMA", "DoubleMA", "DoubleMAStoch", "TripleMA", "Macd"]);
            let s = json!({"type":"Sig","sig":signal(r, kind, mm),"persistence": if r.p(0.7) { 0 } else { r.range(1, 3) },"mid_trend_policy":policy(r),"buffer_interval":coarse(r, iv)});
            let syms = some(r, &m.exchanges[0], 3);
            let sl = if r.p(0.7) { noop() } else { stop_loss(r) };
            backtest("ex", &syms, start, end, quote_of(r), trading(s, iv, sl, noop()))
        })
        .collect();
    case("coarse candles", vec![run(r, m, reqs)], json!({}))
}

// ------------------------------------------------------------------------------ service
/// A request of some kind on the exchange, not too heavy.
fn any_req(r: &mut Rng, e: &Ex, start: u64, ivs: &[u64]) -> Req {
    let iv = *r.pick(ivs);
    let len = *r.pick(&[30, 80, 200]);
    let a = start + r.below(3) * DAY;
    if r.p(0.7) {
        let coarse = r.p(0.15);
        let s = strategy(r, 10, iv, coarse);
        let (sl, tp) = (stop_loss(r), take_profit(r));
        let mut syms = some(r, e, 3);
        if r.p(0.3) {
            let x = *r.pick(&syms);
            let at = r.below(syms.len() as u64 + 1) as usize;
            syms.insert(at, x);
        }
        let q = quote_of(r);
        return backtest(&e.name, &syms, a, a + len * iv, q, trading(s, iv, sl, tp));
    }
    search(r, e, a, len, ivs, 1)
}
fn search(r: &mut Rng, e: &Ex, start: u64, len: u64, ivs: &[u64], scale: u64) -> Req {
    let mut names: Vec<&str> = names(e);
    r.shuffle(&mut names);
    let k = 1 + r.below(names.len() as u64) as usize;
    let most = if r.p(0.5) { 8 } else { 3 };
    let (train, valid) = names.split_at(k.min(most));
    let mut valid: Vec<&str> = valid[..r.below(valid.len() as u64 + 1).min(2) as usize].to_vec();
    if r.p(0.15) {
        valid.push(train[0]);
    }
    let n = 1 + r.below(ivs.len() as u64) as usize;
    let mut iv = ivs.to_vec();
    r.shuffle(&mut iv);
    iv.truncate(n);
    let longest = *iv.iter().max().unwrap();
    let pop = r.range(2, 6 + 6 * scale);
    let gens = r.below(2 + 3 * scale);
    let hof = r.range(1, 4);
    let mut ctx = context(r, &iv, 12);
    // Buffered strategies need one particular interval.
    if ctx["strategy"]["buffer_interval"].is_number() {
        ctx["strategy"].as_object_mut().unwrap().remove("buffer_interval");
    }
    let (stat, agg) = (*r.pick(&STATS), *r.pick(&AGGS));
    let q = *r.pick(&[1.0, 1.0, 10.0, 0.5]);
    let span = (len * iv[0]).min(3000 * iv.iter().min().unwrap()).max(longest * 2);
    optimize(&e.name, train, &valid, start, start + span, q, pop, gens, hof, Some(r.u() >> r.below(60)), stat, agg, ctx)
}
/// A short backtest.
fn light(r: &mut Rng, e: &Ex, start: u64, ivs: &[u64]) -> Req {
    let iv = *r.pick(ivs);
    let a = start + r.below(6) * 12 * HOUR;
    let coarse = r.p(0.15);
    let s = strategy(r, 5, iv, coarse);
    let (sl, tp) = (stop_loss(r), take_profit(r));
    let syms = some(r, e, 4);
    let q = quote_of(r);
    backtest(&e.name, &syms, a, a + *r.pick(&[8, 20, 40, 150]) * iv, q, trading(s, iv, sl, tp))
}
/// A machine that switches tasks all the time.
fn restless(r: &mut Rng) -> Sim {
    let mut s = sim(r);
    s.ncpu = *r.pick(&[2, 3, 4, 8]);
    s.policy = 1;
    s.pswitch = *r.pick(&[3000, 12_000, 40_000]);
    s.bbmean = *r.pick(&[50, 300, 2000]);
    s
}
fn base_time(r: &mut Rng) -> u64 {
    (17_500 + r.below(1500)) * DAY + if r.p(0.2) { r.below(24) * HOUR } else { 0 }
}
fn busy(r: &mut Rng, market: Market, reqs: Vec<Req>) -> Run {
    Run { sim: sim(r), market, reqs, net: net(r), faults: vec![], env: vec![], versioned: false, version: 0, horizon: 120 * SEC, sample: false, prog: 0 }
}
/// How the caller sends.
fn manner(r: &mut Rng, q: &mut Req) {
    q.at = r.skew(20 * MS);
    q.frag = *r.pick(&[1, 1, 2, 6]);
    q.fgap = *r.pick(&[0, 100_000, 3 * MS]);
    if r.p(0.25) {
        q.keep = Some(r.below(2));
        q.pipeline = r.p(0.3);
    }
    if r.p(0.1) {
        q.slow = *r.pick(&[200, 3000]);
    }
    if r.p(0.2) {
        q.spell = r.range(1, 1 << 40);
    }
}
/// What does the service offer?
fn inquire(r: &mut Rng) -> Req {
    let mut q = Req { path: (*r.pick(&["/optimize", "/optimize", "/"])).into(), method: "GET".into(), ..Default::default() };
    manner(r, &mut q);
    q.keep = None;
    q.spell = 0;
    q
}
/// That request by itself on a quiet machine.
fn alone(r: &mut Rng, of: &Run, i: usize) -> Run {
    let mut q = of.reqs[i].clone();
    q.spell = 0;
    let version = of.version + if of.versioned { q.wave as u64 } else { 0 };
    (q.wave, q.at, q.frag, q.fgap, q.keep, q.pipeline, q.slow) = (0, 0, 1, 0, None, false, 0);
    let mut run = run(r, of.market.clone(), vec![q]);
    run.version = version;
    run
}
fn d01(r: &mut Rng) -> Case {
    let ivs: Vec<u64> = (0..2).map(|_| *r.pick(&[5 * MIN, 15 * MIN, HOUR, 4 * HOUR, DAY])).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let nx = r.range(1, 3);
    // More series than are fetched at once.
    let vast = r.p(0.06);
    let exs: Vec<Ex> = (0..nx)
        .map(|k| {
            let n = r.range(2, 5) as usize;
            let name = ex_name(r, k);
            if vast && k == 0 {
                let n = r.range(33, 140) as usize;
                return crowd(r, &name, n);
            }
            exchange(r, &name, n)
        })
        .collect();
    let m = market(r, exs);
    let start = base_time(r);
    let burst = r.p(0.3);
    let waves = if burst { 1 } else { r.range(1, 3) as usize };
    let mut reqs = vec![];
    for w in 0..waves {
        let n = if burst { r.range(6, 20) } else { r.range(1, 5) };
        for _ in 0..n {
            let e = r.pick(&m.exchanges).clone();
            let mut q = if burst { light(r, &e, start, &ivs) } else { any_req(r, &e, start, &ivs) };
            q.wave = w;
            manner(r, &mut q);
            if burst {
                q.at = r.skew(MS);
            }
            reqs.push(q);
        }
    }
    if vast {
        let e = m.exchanges[0].clone();
        let mut q = light(r, &e, start, &ivs);
        let mut n: Vec<&str> = names(&e);
        r.shuffle(&mut n);
        q.body["symbols"] = json!(n);
        q.wave = r.below(waves as u64) as usize;
        reqs.push(q);
        reqs.sort_by_key(|q| q.wave);
    }
    // The same question again, in another wave or at the same time.
    if r.p(0.5) {
        let mut q = r.pick(&reqs).clone();
        q.wave = r.below(waves as u64) as usize;
        if r.p(0.5) && q.path == "/backtest" {
            q.body["end"] = json!(q.body["end"].as_u64().unwrap() + 3 * DAY);
        }
        reqs.push(q);
        reqs.sort_by_key(|q| q.wave);
    }
    // Much the same asked one after the other.
    let refrain = !burst && !vast && r.p(0.15);
    let mut m = m;
    if refrain {
        let first = m.exchanges[0].clone();
        m.exchanges.push(Ex { name: "twin".into(), ..first.clone() });
        let q = light(r, &first, start, &ivs);
        let len = q.body["end"].as_u64().unwrap() - q.body["start"].as_u64().unwrap();
        for w in 0..r.range(4, 9) as usize {
            let mut q = q.clone();
            if r.p(0.4) {
                q.body["exchange"] = json!("twin");
            }
            if r.p(0.3) {
                let s = q.body["start"].as_u64().unwrap() + r.range(1, 3) * 7 * DAY;
                q.body["start"] = json!(s);
                q.body["end"] = json!(s + len);
            }
            q.wave = waves + w;
            reqs.push(q);
        }
    }
    let mut a = busy(r, m, reqs);
    if burst && r.p(0.7) {
        a.sim = restless(r);
    }
    if refrain {
        a.sim.rayon = *r.pick(&[1, 1, 2, 3]);
    }
    a.versioned = r.p(0.6);
    let mut runs = vec![a];
    let mut eq = vec![];
    for _ in 0..2 {
        let i = r.below(runs[0].reqs.len() as u64) as usize;
        let s = alone(r, &runs[0], i);
        eq.push(json!([0, i, runs.len(), 0]));
        runs.push(s);
    }
    case("mixed load", runs, json!({"equal":eq}))
}
fn fault(r: &mut Rng, q: &Req, told: bool) -> Fault {
    let b = &q.body;
    let path = *r.pick(&["/exchange_info", "/candles", "/candles", "/prices"]);
    let (mut sym, mut iv) = (None, None);
    if path == "/candles" {
        let key = if b.get("context").is_some() { "training_symbols" } else { "symbols" };
        let l = b[key].as_array().unwrap();
        if r.p(0.7) {
            sym = Some(r.pick(l).as_str().unwrap().to_string());
        }
        if b.get("context").is_some() && r.p(0.6) {
            iv = Some(r.pick(b["context"]["trader"]["intervals"].as_array().unwrap()).as_u64().unwrap());
        }
    }
    let x = *r.pick(&[0.0, 0.05, 0.3, 0.5, 0.8, 0.9]);
    let kind = match r.below(if told { 15 } else { 13 }) {
        9 if path != "/prices" || r.p(0.5) => FKind::Damage(r.below(1 << 40), *r.pick(if path == "/prices" { &[0, 1, 3] } else { &[0, 1, 2, 3] })),
        9 | 10 if path == "/prices" => {
            let days = (b["end"].as_u64().unwrap() - b["start"].as_u64().unwrap()) / DAY;
            let key = if b.get("context").is_some() { "training_symbols" } else { "symbols" };
            let s = r.pick(b[key].as_array().unwrap()).as_str().unwrap().to_string();
            let a = if r.p(0.5) { base(&s) } else { quote(&s) };
            FKind::ShortPrices(*r.pick(&[0, days / 2, days.saturating_sub(1), days]) as usize, r.p(0.7).then(|| a.to_string()))
        }
        10 if path == "/exchange_info" => {
            let key = if b.get("context").is_some() { "training_symbols" } else { "symbols" };
            let s = r.pick(b[key].as_array().unwrap()).as_str().unwrap().to_string();
            FKind::Missing(match r.below(4) {
                0 => format!("fees/{s}"),
                1 => format!("filters/{s}"),
                2 => format!("borrow_info/{s}"),
                _ => format!("borrow_info/{s}/{}", base(&s)),
            })
        }
        10 => FKind::Damage(r.below(1 << 40), *r.pick(&[0, 1, 3])),
        11 => {
            FKind::Status(*r.pick(&[400, 404, 408, 409, 429, 500, 501, 502, 503, 504]), r.range(4, 5) as u8)
        }
        0 => FKind::ResetBefore,
        1 => FKind::CloseBefore,
        2 => FKind::ResetMid(x),
        3 | 4 => FKind::FinMid(x, r.p(0.5)),
        5 => FKind::TruncJson(x),
        6 => {
            let k = r.below(8) as u8;
            FKind::BadJson(if path == "/candles" && k == 1 { 2 } else { k })
        }
        7 => FKind::Garbage,
        8 if !told => {
            let key = if b.get("context").is_some() { "training_symbols" } else { "symbols" };
            let s = r.pick(b[key].as_array().unwrap()).as_str().unwrap().to_string();
            match path {
                "/exchange_info" => FKind::Missing(s),
                "/prices" => FKind::Missing(if r.p(0.5) { base(&s).into() } else { quote(&s).into() }),
                _ => FKind::TruncJson(0.99),
            }
        }
        _ if r.p(0.12) => FKind::Status(*r.pick(&[202, 204, 205, 304]), 1),
        _ => FKind::Status(*r.pick(&[400, 400, 401, 403, 404, 409, 422, 429, 500, 500, 502, 503, 504, 300]), if told { *r.pick(&[0, 0, 0, 1, 2, 3]) } else { r.below(4) as u8 }),
    };
    Fault { ex: b["exchange"].as_str().unwrap().into(), path: path.into(), sym, iv, kind, once: r.p(0.3), waves: None }
}
fn shake(r: &mut Rng) -> Env {
    match r.below(6) {
        0 | 1 => {
            let a = r.skew(20 * MS);
            Env::Refuse(a, a + r.skew(200 * MS) + MS)
        }
        2 => Env::Dns(r.skew(10 * MS), r.range(1, 3)),
        3 => Env::IdleClose(r.skew(60 * MS)),
        _ => Env::ResetAll(r.skew(60 * MS)),
    }
}
fn d02(r: &mut Rng, told: bool) -> Case {
    let ivs = [*r.pick(&[15 * MIN, HOUR]), 4 * HOUR];
    let n = r.range(2, 6);
    let mut exs = vec![];
    let mut reqs: Vec<Req> = vec![];
    let mut faults = vec![];
    let start = base_time(r);
    for k in 0..n {
        let m = r.range(1, 4) as usize;
        let name = ex_name(r, k as u64);
        let e = exchange(r, &name, m);
        let mut q = any_req(r, &e, start, &ivs);
        manner(r, &mut q);
        q.wave = if r.p(0.7) { 0 } else { 1 };
        if r.p(0.75) {
            for _ in 0..(if r.p(0.2) { 2 } else { 1 }) {
                let f = fault(r, &q, told);
                // (Prices that are short but long enough leave nothing for another fault to strike.)
                if !faults.iter().any(|g: &Fault| g.ex == f.ex && g.path == f.path && matches!(g.kind, FKind::ShortPrices(..))) {
                    faults.push(f);
                }
            }
        }
        let mut e = e;
        lack(r, &mut e);
        exs.push(e);
        // Asked again and again, of which once is struck.
        if r.p(0.25) {
            let n = r.range(2, 4) as usize;
            let k = r.below(n as u64) as usize;
            for f in faults.iter_mut().filter(|f| f.ex == q.body["exchange"]) {
                (f.once, f.waves) = (false, Some((k, if r.p(0.7) { k } else { n })));
            }
            for w in 0..n {
                let mut q = q.clone();
                manner(r, &mut q);
                q.wave = w;
                reqs.push(q);
            }
        } else {
            reqs.push(q);
        }
    }
    reqs.sort_by_key(|q| q.wave);
    let m = market(r, exs);
    let mut a = busy(r, m, reqs);
    a.versioned = r.p(0.5);
    a.faults = faults;
    if r.p(0.35) {
        for _ in 0..r.range(1, 3) {
            let e = shake(r);
            a.env.push(e);
        }
    }
    if r.p(0.2) {
        a.env.push(Env::NoV6(*r.pick(&[0, 10_000, MS])));
    }
    case("faulty data service", vec![a], json!({}))
}
/// Troubles from this number on are light ones.
const LIGHT: u64 = 1 << 20;
/// Something that goes wrong by itself.
fn trouble(r: &mut Rng, k: u64, start: u64, ivs: &[u64], exs: &mut Vec<Ex>, faults: &mut Vec<Fault>) -> Req {
    let n = r.range(1, 3) as usize;
    let e = exchange(r, &format!("bad{k}"), n);
    let mut q = if k >= LIGHT { light(r, &e, start, ivs) } else { any_req(r, &e, start, ivs) };
    manner(r, &mut q);
    match r.below(10) {
        0 | 1 => faults.push(fault(r, &q, false)),
        2 => {
            // Late, or never while the caller does not wait for it.
            let never = r.p(0.4);
            if never {
                q.abandon = Some(*r.pick(&[20 * MS, 300 * MS, 2 * SEC]));
                q.fin = r.p(0.5);
            }
            let late = if never { 100 * 86_400 * SEC } else { *r.pick(&[SEC / 2, 5 * SEC, 45 * SEC]) };
            faults.push(Fault { ex: e.name.clone(), path: (*r.pick(&["/exchange_info", "/candles", "/prices"])).into(), sym: None, iv: None, kind: FKind::Stall(late), once: false, waves: None });
        }
        3 => {
            let s = q.body.to_string();
            q.raw = Some(match r.below(7) {
                0 => s[..s.len() / 2].to_string(),
                1 => "{}".into(),
                2 => "".into(),
                3 => "\u{0}\u{1}binary".into(),
                4 => s.replace("\"quote\"", "\"quota\""),
                5 => format!("[{}]", "[".repeat(2000)),
                _ => s.replace("Linear", "Cubic").replace("Noop", "Nope"),
            });
        }
        4 => {
            q.method = (*r.pick(&["PUT", "DELETE", "GET", "HEADX"])).into();
            q.path = (*r.pick(&["/backtest", "/nowhere", "/"])).into();
            q.odd = true;
        }
        5 | 6 => {
            // Parameters that make the computation fail.
            q = {
                let iv = ivs[0];
                let s = match r.below(4) {
                    0 => json!({"type":"DoubleMA","mas":[{"type":"Sma","period":9},{"type":"Sma","period":4}]}),
                    1 => json!({"type":"SingleMA","ma":{"type":"Sma","period":0}}),
                    2 => json!({"type":"Sig","sig":signal(r, "SingleMA", 6),"persistence":0,"mid_trend_policy":"Current","buffer_interval":iv / 2}),
                    _ => json!({"type":"DoubleMA2","mas":[{"type":"Ema","period":3,"smoothing":null},{"type":"Ema","period":4,"smoothing":null}],"neg_threshold":-2.0,"pos_threshold":0.5}),
                };
                let syms = some(r, &e, 3);
                backtest(&e.name, &syms, start, start + 50 * iv, 1.0, trading(s, iv, noop(), noop()))
            };
            manner(r, &mut q);
            q.odd = true;
        }
        7 if r.p(0.4) => {
            // More than any machine can hold.
            let mut b = search(r, &e, start, 30, ivs, 1);
            let k = *r.pick(&["population_size", "population_size", "generations"]);
            b.body[k] = json!(*r.pick(&[1_000_000_000_000u64, 1_000_000_000_000_000]));
            q = b;
            manner(r, &mut q);
            q.odd = true;
        }
        7 => {
            q.body["exchange"] = "unknown".into();
            q.odd = true;
        }
        8 => {
            q.abandon = Some(r.skew(40 * MS));
            q.fin = r.p(0.5);
            q.keep = None;
        }
        _ => {
            q.part = Some(*r.pick(&[0.0, 0.1, 0.6, 0.95]));
            q.abandon = Some(*r.pick(&[MS, 30 * MS, 2 * SEC]));
            q.fin = r.p(0.5);
            q.keep = None;
        }
    }
    // Whatever comes after trouble on the same connection shares its fate.
    q.keep = None;
    exs.push(e);
    q
}
/// Many callers who leave at every stage of their requests, and some who stay.
fn exodus(r: &mut Rng, e: &Ex, start: u64, ivs: &[u64], waves: usize, exs: &mut Vec<Ex>, faults: &mut Vec<Fault>) -> Vec<Req> {
    let n = r.range(1, 3) as usize;
    let gone = exchange(r, "gone", n);
    match r.below(4) {
        0 => faults.push(Fault { ex: gone.name.clone(), path: (*r.pick(&["/exchange_info", "/candles", "/prices"])).into(), sym: None, iv: None, kind: FKind::Stall(5 * SEC), once: false, waves: None }),
        1 => faults.push(Fault { ex: gone.name.clone(), path: "/candles".into(), sym: None, iv: None, kind: FKind::Stall(*r.pick(&[MS, 20 * MS, 200 * MS])), once: false, waves: None }),
        _ => {}
    }
    // What they want: backtests, searches, either.
    let searches = *r.pick(&[0.0, 0.3, 1.0]);
    let many = if searches > 0.5 { r.range(4, 14) } else { r.range(10, 44) };
    let patience = if searches > 0.5 { *r.pick(&[5 * MS, 15 * MS, 50 * MS]) } else { *r.pick(&[3 * MS, 20 * MS, 200 * MS, 2 * SEC]) };
    // Some are cut off all at once.
    let together = r.p(0.5);
    let stay = r.p(0.5);
    let mut reqs = vec![];
    for w in 0..waves {
        let n = reqs.len();
        for _ in 0..many {
            let len = *r.pick(&[20, 60, 200]);
            let mut q = if r.p(searches) { search(r, &gone, start, len, ivs, 1) } else { light(r, &gone, start, ivs) };
            manner(r, &mut q);
            q.abandon = Some(r.below(patience));
            if together {
                (q.at, q.frag, q.abandon) = (0, 1, Some(patience));
            }
            q.fin = r.p(0.5);
            q.keep = None;
            reqs.push(q);
        }
        for _ in 0..if stay { r.range(2, 6) } else { 1 } {
            let mut q = if r.p(searches) { search(r, e, start, 60, ivs, 1) } else { light(r, e, start, ivs) };
            manner(r, &mut q);
            q.at = r.skew(patience);
            reqs.push(q);
        }
        r.shuffle(&mut reqs[n..]);
        for q in &mut reqs[n..] {
            q.wave = w;
        }
    }
    exs.push(gone);
    reqs
}
/// Now and then one of the feeds has nothing to offer.
fn lack(r: &mut Rng, e: &mut Ex) {
    if r.p(0.15) {
        let k = r.below(e.symbols.len() as u64) as usize;
        e.symbols[k].late = 100_000 * DAY;
    }
}
fn d04(r: &mut Rng) -> Case {
    let ivs = [*r.pick(&[15 * MIN, HOUR]), 4 * HOUR];
    let start = base_time(r);
    let mut exs = vec![];
    let mut faults = vec![];
    let mut reqs = vec![];
    let n = r.range(2, 4) as usize;
    exs.push(exchange(r, "good", n));
    lack(r, &mut exs[0]);
    let waves = r.range(1, 3) as usize;
    // Now and then trouble comes in numbers.
    let storm = r.p(0.3);
    let mut leaving = 0;
    if r.p(0.1) {
        leaving = r.range(2, 4) as usize;
        let e = exs[0].clone();
        reqs = exodus(r, &e, start, &ivs, leaving, &mut exs, &mut faults);
    }
    // Or goes on and on.
    if leaving == 0 && r.p(0.07) {
        let first: Vec<Req> = (0..r.range(1, 3)).map(|k| trouble(r, LIGHT * 2 + k, start, &ivs, &mut exs, &mut faults)).collect();
        leaving = r.range(10, 30) as usize;
        for w in 0..leaving {
            for _ in 0..r.range(10, 30) {
                let mut q = r.pick(&first).clone();
                (q.wave, q.at) = (w, r.skew(20 * MS));
                reqs.push(q);
            }
        }
    }
    for w in leaving..leaving + waves {
        let n = if storm { r.range(8, 24) } else { r.range(1, 4) };
        for _ in 0..n {
            let k = reqs.len() as u64 + if storm { LIGHT } else { 0 };
            let mut q = trouble(r, k, start, &ivs, &mut exs, &mut faults);
            q.wave = w;
            reqs.push(q);
        }
        for _ in 0..r.range(1, 2) {
            let e = exs[0].clone();
            let mut q = any_req(r, &e, start, &ivs);
            manner(r, &mut q);
            q.wave = w;
            reqs.push(q);
        }
    }
    if r.p(0.3) {
        let mut q = inquire(r);
        q.wave = r.below((leaving + waves) as u64 + 1) as usize;
        reqs.push(q);
    }
    // The last wave is of innocents alone.
    let e = exs[0].clone();
    let mut q = any_req(r, &e, start, &ivs);
    q.wave = leaving + waves;
    if r.p(0.15) {
        // After a long quiet.
        q.at += *r.pick(&[91 * SEC, 3601 * SEC, 25 * 3600 * SEC, 60 * 86_400 * SEC]);
        // (Slow readers look for more all the time.)
        for q in &mut reqs {
            q.slow = 0;
        }
        q.slow = 0;
    }
    reqs.push(q);
    let m = market(r, exs);
    let mut a = busy(r, m, reqs);
    a.faults = faults;
    if r.p(0.25) {
        a.env.push(Env::Kill(r.skew(80 * MS), *r.pick(&[MS, 200 * MS, 3 * SEC])));
    }
    if r.p(0.25) {
        a.env.push(Env::Accept(r.skew(20 * MS), *r.pick(&[103, 24, 23, 12]), r.range(1, 3)));
    }
    let mut runs = vec![a];
    let mut eq = vec![];
    let good: Vec<usize> = (0..runs[0].reqs.len()).filter(|i| runs[0].reqs[*i].body["exchange"] == "good").collect();
    let mut pick = vec![*r.pick(&good), *good.last().unwrap()];
    pick.dedup();
    for i in pick {
        let s = alone(r, &runs[0], i);
        eq.push(json!([0, i, runs.len(), 0]));
        runs.push(s);
    }
    case("troublesome neighbours", runs, json!({"equal":eq}))
}
fn d05(r: &mut Rng) -> Case {
    let ivs = [*r.pick(&[15 * MIN, HOUR]), 4 * HOUR];
    let start = base_time(r);
    let mut exs = vec![];
    let mut faults = vec![];
    let mut reqs = vec![];
    let n = r.range(2, 4) as usize;
    exs.push(exchange(r, "good", n));
    lack(r, &mut exs[0]);
    let waves = r.range(1, 3) as usize;
    let storm = r.p(0.3);
    let bad = if storm { *r.pick(&[0.0, 0.2, 0.8]) } else { 0.35 };
    let mut leaving = 0;
    if r.p(0.1) {
        leaving = r.range(1, 3) as usize;
        let e = exs[0].clone();
        reqs = exodus(r, &e, start, &ivs, leaving, &mut exs, &mut faults);
    }
    for w in leaving..leaving + waves {
        let n = if storm { r.range(8, 30) } else { r.range(2, 6) };
        for _ in 0..n {
            let mut q = if r.p(bad) {
                let k = reqs.len() as u64 + if storm { LIGHT } else { 0 };
                trouble(r, k, start, &ivs, &mut exs, &mut faults)
            } else {
                let e = exs[0].clone();
                let mut q = if storm { light(r, &e, start, &ivs) } else { any_req(r, &e, start, &ivs) };
                manner(r, &mut q);
                if r.p(0.4) {
                    q.keep = Some(r.below(3));
                    q.pipeline = r.p(0.6);
                }
                q
            };
            q.wave = w;
            reqs.push(q);
        }
    }
    let m = market(r, exs);
    let mut a = busy(r, m, reqs);
    a.faults = faults;
    for _ in 0..r.below(4) {
        let e = match r.below(7) {
            0 => Env::Accept(r.skew(20 * MS), *r.pick(&[103, 24, 23, 12]), r.range(1, 3)),
            1 => Env::Clock(r.skew(40 * MS), *r.pick(&[-3_600_000_000_000, -SECI, SECI, 86_400_000_000_000])),
            2 => Env::NoV6(*r.pick(&[0, MS])),
            3 if r.p(0.5) => Env::Kill(r.skew(80 * MS), *r.pick(&[MS, 200 * MS])),
            _ => shake(r),
        };
        a.env.push(e);
    }
    if storm && r.p(0.5) {
        a.sim = restless(r);
    }
    case("liveness", vec![a], json!({}))
}
fn d07(r: &mut Rng) -> Case {
    let ivs = [*r.pick(&[15 * MIN, HOUR]), 4 * HOUR];
    let start = base_time(r);
    let mut exs = vec![];
    let mut faults = vec![];
    let n = r.range(2, 4) as usize;
    exs.push(exchange(r, "good", n));
    // Every wave is like the first, about other days and amounts.
    let mut first = vec![];
    let k = r.range(2, 6);
    for i in 0..k {
        let mut q = if r.p(0.4) {
            let k = i + if r.p(0.5) { LIGHT } else { 0 };
            trouble(r, k, start, &ivs, &mut exs, &mut faults)
        } else {
            let e = exs[0].clone();
            let mut q = if r.p(0.5) { light(r, &e, start, &ivs) } else { any_req(r, &e, start, &ivs) };
            manner(r, &mut q);
            q
        };
        q.keep = None;
        first.push(q);
    }
    let stride = *r.pick(&[DAY, DAY, 35 * DAY]);
    let mut reqs = vec![];
    for w in 0..crate::judge::ROUNDS {
        for q in &first {
            let mut q = q.clone();
            q.wave = w;
            if q.raw.is_none() {
                for k in ["start", "end"] {
                    if let Some(x) = q.body[k].as_u64() {
                        q.body[k] = json!(x + w as u64 * stride);
                    }
                }
                if let Some(x) = q.body["quote"].as_f64() {
                    q.body["quote"] = json!(x + w as f64 * 0.125);
                }
                if q.body["seed"].is_u64() {
                    q.body["seed"] = json!(w);
                }
            }
            reqs.push(q);
        }
    }
    let m = market(r, exs);
    let mut a = busy(r, m, reqs);
    a.faults = faults;
    a.sample = true;
    a.sim.maxbb *= 3;
    if r.p(0.3) {
        for _ in 0..r.range(1, 3) {
            let e = match r.below(3) {
                0 => Env::Accept(r.skew(20 * MS), *r.pick(&[103, 24, 23, 12]), r.range(1, 3)),
                1 => Env::Clock(r.skew(40 * MS), *r.pick(&[-SECI, 86_400 * SECI])),
                _ => shake(r),
            };
            a.env.push(e);
        }
    }
    case("rounds", vec![a], json!({}))
}
const SECI: i64 = 1_000_000_000;
fn x01(r: &mut Rng) -> Case {
    let ivs = [*r.pick(&[15 * MIN, HOUR]), 4 * HOUR];
    let start = base_time(r);
    let n = r.range(2, 4) as usize;
    let mut e = exchange(r, "ex", n);
    lack(r, &mut e);
    let m = market(r, vec![e]);
    let mut reqs = vec![];
    for w in 0..r.range(1, 3) as usize {
        for _ in 0..r.range(1, 3) {
            let e = m.exchanges[0].clone();
            let mut q = if r.p(0.5) { search(r, &e, start, 60, &ivs, 1) } else { any_req(r, &e, start, &ivs) };
            manner(r, &mut q);
            q.wave = w;
            reqs.push(q);
        }
        if r.p(0.2) {
            let mut q = inquire(r);
            q.wave = w;
            reqs.push(q);
        }
    }
    let mut a = busy(r, m, reqs);
    for _ in 0..r.range(1, 3) {
        let at = if r.p(0.5) { 0 } else { r.skew(40 * MS) };
        a.env.push(Env::Out(at, r.range(1, 2), *r.pick(&[28, 32, 5, 9, 11, 28, 32, -1, -2])));
        if r.p(0.3) {
            a.env.push(Env::Out(at + r.skew(40 * MS), r.range(1, 2), 0));
        }
    }
    if r.p(0.4) {
        a.sim.log = r.below(8);
    }
    let mut b = a.clone();
    b.env.clear();
    b.sim = calm(r);
    let eq: Vec<Value> = (0..a.reqs.len()).map(|i| json!([0, i, 1, i])).collect();
    case("output lost", vec![a, b], json!({"equal":eq}))
}

// ------------------------------------------------------------------------------ searches
fn search_market(r: &mut Rng) -> (Market, Vec<u64>, u64) {
    let n = if r.p(0.3) { r.range(5, 8) } else { r.range(2, 4) } as usize;
    let e = exchange(r, "ex", n);
    let m = market(r, vec![e]);
    let ivs = if r.p(0.15) {
        (1..=r.range(4, 9)).map(|k| k * 15 * MIN).collect()
    } else {
        let k = r.range(1, 3) as usize;
        [15 * MIN, HOUR, 4 * HOUR][..k].to_vec()
    };
    let start = base_time(r);
    (m, ivs, start)
}
/// A machine so slow, or so often held up, that searches take minutes or hours.
fn slow(r: &mut Rng, a: &mut Run) {
    if r.p(0.6) {
        a.sim.bbns = *r.pick(&[200, 2000, 20_000]);
    }
    if r.p(0.6) {
        a.sim.pjump = *r.pick(&[20, 100]);
        a.sim.jumpmax = *r.pick(&[SEC, 20 * SEC, 600 * SEC]);
    }
    a.horizon = 1_000_000 * SEC;
}
/// A large population, most or all of which is listed.
fn crowded(r: &mut Rng, q: &mut Req) {
    let pop = *r.pick(&[65, 100, 129, 200, 260, 300]);
    let gens = r.below(4);
    q.body["population_size"] = json!(pop);
    q.body["generations"] = json!(gens);
    q.body["hall_of_fame_size"] = json!(*r.pick(&[pop, pop, pop + 1, pop * 3 / 4, 40]));
    q.body["training_symbols"].as_array_mut().unwrap().truncate(2);
    q.body["validation_symbols"].as_array_mut().unwrap().truncate(1);
    let (a, n) = (q.body["start"].as_u64().unwrap(), q.body["context"]["trader"]["intervals"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap()).max().unwrap());
    q.body["end"] = json!(a + 30 * n);
}
fn o01(r: &mut Rng, deep: bool) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let mut q = search(r, &e, start, 80, &ivs, if deep { 4 } else { 2 });
    // What is added up of many symbols must not depend on how many threads there are.
    let wide = r.p(0.3);
    if wide {
        let mut n = names(&e);
        r.shuffle(&mut n);
        n.truncate(r.range(4, 9) as usize);
        q.body["training_symbols"] = json!(n);
        if r.p(0.6) {
            q.body["evaluation_aggregation"] = json!("Linear");
        }
    }
    if r.p(0.6) {
        // Everything free: every kind of gene takes part.
        q.body["context"] = json!({"strategy":{"type":"None"},"trader":{"intervals":ivs},"stop_loss":{"type":"None"},"take_profit":{"type":*r.pick(&["None", "Trending", "None"])}});
    }
    if !wide && r.p(0.04) {
        crowded(r, &mut q);
    }
    let mut reqs = vec![q.clone()];
    let mut second = q.clone();
    second.wave = 1;
    let mut load = vec![];
    for _ in 0..r.range(0, 3) {
        let mut l = any_req(r, &e, start, &ivs);
        manner(r, &mut l);
        l.keep = None;
        if r.p(0.3) && l.path == "/optimize" {
            l.body["seed"] = Value::Null;
        }
        load.push(l);
    }
    reqs.extend(load);
    let mut twin = q.clone();
    if r.p(0.3) {
        twin.at = r.skew(10 * MS);
        reqs.push(twin);
    }
    let two = r.p(0.5);
    if two {
        reqs.push(second);
    }
    let a = busy(r, m.clone(), reqs);
    let mut a = a;
    if two && r.p(0.4) {
        // Restarted between the two: the kill comes while the second is not yet sent.
        let at = 30 * SEC;
        let k = a.reqs.len() - 1;
        a.reqs[k].at = 2 * at;
        a.env.push(Env::Kill(at, SEC));
    }
    if r.p(0.3) {
        a.env.push(Env::Clock(r.skew(30 * MS), *r.pick(&[-3600 * SECI, 7 * SECI])));
    }
    let mut b = run(r, m, vec![q.clone()]);
    if r.p(0.3) {
        slow(r, &mut a);
    }
    if wide {
        a.sim.ncpu = *r.pick(&[3, 4, 8]);
        a.sim.rayon = *r.pick(&[0, 0, 2, 5]);
        b.sim.ncpu = 1;
        b.sim.rayon = 0;
    }
    let eq: Vec<Value> = (0..a.reqs.len()).filter(|i| a.reqs[*i].body == q.body).map(|i| json!([0, i, 1, 0])).collect();
    case("same search again", vec![a, b], json!({"equal":eq}))
}
fn o02(r: &mut Rng) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let mut reqs = vec![];
    let mut re = vec![];
    let n = r.range(1, 3);
    for _ in 0..n {
        let mut q = search(r, &e, start, 60, &ivs, 2);
        if r.p(0.8) {
            if r.p(0.5) {
                q.body["seed"] = Value::Null;
            } else {
                q.body.as_object_mut().unwrap().remove("seed");
            }
        } else {
            q.body["seed"] = json!(*r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 53) + 1, i64::MAX as u64]));
        }
        q.at = r.skew(5 * MS);
        reqs.push(q);
    }
    for i in 0..n as usize {
        let mut q = reqs[i].clone();
        q.wave = 1;
        q.seed_from = Some(i);
        re.push(json!([0, i, 0, reqs.len()]));
        reqs.push(q);
    }
    let mut a = busy(r, m, reqs);
    if r.p(0.3) {
        let k = a.reqs.len();
        for q in &mut a.reqs[n as usize..k] {
            q.at = 90 * SEC;
        }
        a.env.push(Env::Kill(60 * SEC, SEC));
    }
    if r.p(0.25) {
        slow(r, &mut a);
    }
    case("reported seed", vec![a], json!({"replay":re}))
}
fn o03(r: &mut Rng) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let mut q = search(r, &e, start, *r.clone().pick(&[60, 150, 400]), &ivs, 2);
    if r.p(0.3) {
        // Hardly anything to choose: individuals differ in far digits only.
        let n = r.range(1, 2) as usize;
        q.body["training_symbols"].as_array_mut().unwrap().truncate(n);
        q.body["population_size"] = json!(r.range(20, 60));
        q.body["generations"] = json!(r.range(0, 6));
        let p = r.range(1, 9);
        let sl = match r.below(4) {
            0 => json!({"type":"Basic"}),
            1 => json!({"type":"Trailing"}),
            2 => json!({"type":"Legacy","trail":r.p(0.5)}),
            _ => json!({"type":"Noop"}),
        };
        let tp = if sl["type"] == "Noop" || r.p(0.2) { json!({"type":*r.pick(&["Basic", "Legacy"])}) } else { noop() };
        q.body["context"]["strategy"] = json!({"type":"SingleMA","ma":ma(r, p)});
        q.body["context"]["stop_loss"] = sl;
        q.body["context"]["take_profit"] = tp;
        let iv = q.body["context"]["trader"]["intervals"][0].clone();
        q.body["context"]["trader"]["intervals"] = json!([iv]);
    }
    let pop = q.body["population_size"].as_u64().unwrap();
    if r.p(0.6) {
        q.body["hall_of_fame_size"] = json!(*r.pick(&[pop, pop - 1, pop + 3, pop / 2 + 1]));
    }
    if r.p(0.05) {
        crowded(r, &mut q);
    }
    let mut reqs = vec![q.clone()];
    let mut ch = vec![];
    let mut syms: Vec<String> = vec![];
    for k in ["training_symbols", "validation_symbols"] {
        for s in q.body[k].as_array().unwrap() {
            if !syms.contains(&s.as_str().unwrap().to_string()) {
                syms.push(s.as_str().unwrap().into());
            }
        }
    }
    for _ in 0..r.range(1, 3) {
        let s: Vec<&str> = syms.iter().map(|s| s.as_str()).collect();
        let mut b = backtest("ex", &s, q.body["start"].as_u64().unwrap(), q.body["end"].as_u64().unwrap(), q.body["quote"].as_f64().unwrap(), json!({}));
        b.wave = 1;
        b.chrom_from = Some((0, r.below(20) as usize, r.below(10) as usize));
        ch.push(json!([0, 0, 0, reqs.len()]));
        reqs.push(b);
    }
    let a = if r.p(0.3) { busy(r, m, reqs) } else { run(r, m, reqs) };
    case("true fitness", vec![a], json!({"chrom":ch}))
}
fn o04(r: &mut Rng, deep: bool) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let mut q = search(r, &e, start, 60, &ivs, 2);
    let long = r.p(0.15);
    let gens = if long { *r.pick(&[50, 120, 300]) } else { r.range(3, if deep { 25 } else { 12 }) };
    if long {
        q.body["population_size"] = json!(r.range(2, 5));
        let t = q.body["training_symbols"][0].clone();
        q.body["training_symbols"] = json!([t]);
        q.body["validation_symbols"] = json!([]);
        q.body["end"] = json!(start + 40 * ivs.iter().max().unwrap());
    }
    q.body["generations"] = json!(gens);
    let pop = q.body["population_size"].as_u64().unwrap();
    q.body["hall_of_fame_size"] = json!(*r.pick(&[1, 1, 2, pop, pop + 2, pop / 2 + 1]));
    let (mut gens, mut pop) = (gens, pop);
    if r.p(0.05) {
        crowded(r, &mut q);
        (gens, pop) = (q.body["generations"].as_u64().unwrap(), q.body["population_size"].as_u64().unwrap());
    }
    let mut reqs = vec![q.clone()];
    let mut pre = vec![];
    let mut gs: Vec<u64> = (0..gens).collect();
    r.shuffle(&mut gs);
    for g in gs.into_iter().take(3) {
        let mut p = q.clone();
        p.body["generations"] = json!(g);
        pre.push(json!([0, 0, 0, reqs.len()]));
        reqs.push(p);
    }
    // The record does not depend on how much of it is asked for.
    let mut fames = vec![];
    for _ in 0..r.range(1, 2) {
        let mut p = q.clone();
        p.body["hall_of_fame_size"] = json!(*r.pick(&[1, 1, 2, pop, pop / 2 + 1]));
        fames.push(json!([0, 0, 0, reqs.len()]));
        reqs.push(p);
    }
    let a = if r.p(0.3) { busy(r, m, reqs) } else { run(r, m, reqs) };
    case("record of the search", vec![a], json!({"prefix":pre,"fame":fames}))
}
fn o05(r: &mut Rng, deep: bool) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let reqs = (0..r.range(2, 4))
        .map(|_| {
            let mut q = search(r, &e, start, 30, &ivs, 1);
            let pop = r.range(6, 40);
            q.body["population_size"] = json!(pop);
            q.body["hall_of_fame_size"] = json!(pop);
            q.body["generations"] = json!(r.range(0, if deep { 40 } else { 12 }));
            q.body["validation_symbols"] = json!([]);
            let t = q.body["training_symbols"][0].clone();
            q.body["training_symbols"] = json!([t]);
            q.body["end"] = json!(start + 30 * ivs.iter().max().unwrap());
            if r.p(0.05) {
                crowded(r, &mut q);
            }
            q
        })
        .collect();
    case("search space", vec![run(r, m, reqs)], json!({}))
}
fn o06(r: &mut Rng) -> Case {
    let (m, ivs, start) = search_market(r);
    let e = m.exchanges[0].clone();
    let mut ctx = context(r, &ivs, 12);
    match r.below(4) {
        0 => ctx["strategy"] = json!({"type":"None"}),
        1 => ctx["strategy"] = json!({"type":*r.pick(&SIGNALS)}),
        2 => ctx["strategy"] = json!({"type":*r.pick(&["Sig", "SigOsc"]),"sig":{"type":*r.pick(&SIGNALS)}}),
        _ => {}
    }
    if r.p(0.4) {
        ctx["stop_loss"] = json!({"type":*r.pick(&["None", "Basic", "Trailing", "BasicPlusTrailing", "Legacy"])});
    }
    if r.p(0.4) {
        ctx["take_profit"] = json!({"type":*r.pick(&["None", "Trending", "Trending", "Basic", "Legacy"])});
    }
    if ctx["strategy"]["buffer_interval"].is_number() {
        ctx["strategy"].as_object_mut().unwrap().remove("buffer_interval");
    }
    let mut reqs = vec![];
    // Seeds that have much in common are still different seeds.
    let kin = if r.p(0.5) { Some((r.u() >> r.below(60), r.range(300, 420))) } else { None };
    for w in 0..3 {
        let n = kin.map_or(r.range(300, 420), |k| k.1);
        let s = e.symbols[r.below(e.symbols.len() as u64) as usize].name.clone();
        let seed = match kin {
            Some((s, _)) if w == 0 => Some(s),
            Some((s, _)) => Some(match r.below(6) {
                0 => !s,
                1 => s.swap_bytes(),
                2 => s.rotate_left(32),
                _ => s ^ 1 << r.below(64),
            }),
            None if r.p(0.3) => None,
            None => Some(r.u() >> r.below(60)),
        };
        let mut q = optimize("ex", &[&s], &[], start, start + 12 * ivs.iter().max().unwrap(), 1.0, n, 0, n, seed, *r.pick(&STATS), *r.pick(&AGGS), ctx.clone());
        q.wave = w;
        reqs.push(q);
    }
    case("first populations", vec![run(r, m, reqs)], json!({"explored":[[0, 0, 0, 0]]}))
}
/// More candle series at once than a process may open connections.
/// More candles than fit a small counter, and positions that stay open all along.
fn years(r: &mut Rng) -> Case {
    let start = base_time(r);
    let n = *r.pick(&[33_000, 66_500, 66_500, 70_000, 132_000]);
    let mut e = exchange(r, "ex", 1);
    let s = &mut e.symbols[0];
    if r.p(0.8) {
        s.style = *r.pick(&[4, 7]);
        s.vol = *r.pick(&[0.01, 0.03]);
    }
    let m = market(r, vec![e]);
    let mm = *r.pick(&[5, 60]);
    let s = strategy(r, mm, MIN, false);
    let (sl, tp) = if r.p(0.7) { (noop(), noop()) } else { (stop_loss(r), take_profit(r)) };
    let syms = some(r, &m.exchanges[0], 1);
    let q = backtest("ex", &syms, start, start + n * MIN, 1.0, trading(s, MIN, sl, tp));
    let mut a = run(r, m, vec![q]);
    a.net.frag = 1;
    case("long history", vec![a], json!({}))
}
fn many(r: &mut Rng) -> Case {
    let iv = *r.pick(&[5 * MIN, HOUR, DAY]);
    let start = base_time(r);
    let (ivs, n): (Vec<u64>, usize) = if r.p(0.5) {
        (vec![iv], *r.pick(&[70, 300, 1100, 1500]))
    } else {
        ((1..=*r.pick(&[10, 12])).map(|k| k * iv).collect(), r.range(60, 110) as usize)
    };
    let m = {
        let e = crowd(r, "ex", n);
        market(r, vec![e])
    };
    let mut syms: Vec<&str> = m.exchanges[0].symbols.iter().map(|s| s.name.as_str()).collect();
    r.shuffle(&mut syms);
    let end = start + r.range(12, 24) * iv;
    let q = if ivs.len() == 1 {
        let s = strategy(r, 4, iv, false);
        let (sl, tp) = (stop_loss(r), take_profit(r));
        backtest("ex", &syms, start, end, 1.0, trading(s, iv, sl, tp))
    } else {
        let k = r.range(1, n as u64 - 1) as usize;
        let ctx = context(r, &ivs, 4);
        let gens = r.below(2);
        let seed = Some(r.u());
        let mut q = optimize("ex", &syms[..k], &syms[k..], start, end, 1.0, 2, gens, 1, seed, *r.pick(&STATS), *r.pick(&AGGS), ctx);
        if q.body["context"]["strategy"]["buffer_interval"].is_number() {
            q.body["context"]["strategy"].as_object_mut().unwrap().remove("buffer_interval");
        }
        q
    };
    let mut reqs = vec![q];
    if r.p(0.3) {
        let mut q = reqs[0].clone();
        q.at = r.skew(100 * MS);
        reqs.push(q);
    }
    let a = if r.p(0.2) { busy(r, m, reqs) } else { run(r, m, reqs) };
    case("many series", vec![a], json!({}))
}
/// Look-backs that no history will ever fill.
fn endless(r: &mut Rng, s: &mut Value) {
    let far = *r.pick(&[100_000_000u64, 700_000_000, 1_000_000_000, 2_000_000_000]);
    let ma = json!({"type":*r.pick(&["Sma", "Ema", "Ema2", "Dema", "Smma", "Kama", "Alma"]),"period":far,"offset":0.85});
    *s = match r.below(4) {
        0 => json!({"type":"SingleMA","ma":ma}),
        1 => json!({"type":"DoubleMA","mas":[{"type":"Sma","period":2},ma]}),
        2 => json!({"type":"FourWeekRule","period":far,"ma":{"type":"Sma","period":2}}),
        _ => json!({"type":"TripleMA","mas":[{"type":"Sma","period":2},{"type":"Ema","period":5},ma]}),
    };
}
fn v01(r: &mut Rng, deep: bool) -> Case {
    if r.p(0.05) {
        return many(r);
    }
    if r.p(0.01) {
        return years(r);
    }
    let n = r.range(1, 8) as usize;
    let mut e = exchange(r, "ex", n);
    let iv = *r.pick(&[MIN, 5 * MIN, HOUR, HOUR, 4 * HOUR, DAY, DAY, 3 * DAY, WEEK]);
    let len = *r.pick(&[0, 1, 2, 20, 100, 300, 1000]);
    let start = {
        let b = base_time(r);
        if r.p(0.2) { b + r.below(DAY) / MIN * MIN } else { b }
    };
    let end = start + len * iv + if r.p(0.3) { r.below(iv) / MIN * MIN } else { 0 };
    for s in &mut e.symbols {
        if r.p(0.5) {
            strict(r, s);
        }
        if r.p(0.3) {
            s.filters.base_precision = r.range(0, 15) as u32;
            s.filters.quote_precision = r.range(0, 15) as u32;
        }
        if r.p(0.1) {
            halts(r, s, iv, len.max(10));
        }
        if r.p(0.1) {
            s.late = r.below(10) * DAY;
        }
        if r.p(0.1) {
            s.flats = vec![(0, u64::MAX)];
        }
        if r.p(0.1) {
            s.vol = 0.3;
        }
        if r.p(0.05) {
            s.gap_p = 0.1;
            s.gap_max = 20;
        }
    }
    let mut m = market(r, vec![e]);
    if r.p(0.05) {
        m.cut = Some(start);
    }
    let mut reqs = vec![];
    for _ in 0..r.range(1, 5) {
        if r.p(0.55) {
            let gappy = m.exchanges[0].symbols.iter().any(|s| s.gap_p > 0.0);
            let buf = !gappy && iv < WEEK && iv != 3 * DAY && r.p(0.15);
            let mm = *r.pick(&[3, 10, 40, 300]);
            let mut s = strategy(r, mm, iv, buf);
            if r.p(0.1) {
                let k = SIGNALS[r.below(7) as usize];
                s = signal(r, k, 3);
            }
            if r.p(0.04) {
                endless(r, &mut s);
            }
            let sl = stop_loss(r);
            let tp = if r.p(0.15) {
                json!({"type":"Trending","up_thresholds":[0.01,0.5],"down_thresholds":[0.01,0.5],"period":r.range(1, 3),"lock_threshold":r.p(0.5),"easing":*r.pick(&EASINGS)})
            } else {
                take_profit(r)
            };
            let syms = some(r, &m.exchanges[0], 8);
            let q = *r.pick(&[1.0, 0.0001, 10.0, 1e6, 1e9]);
            reqs.push(backtest("ex", &syms, start, end, q, trading(s, iv, sl, tp)));
        } else {
            let mut q = search(r, &m.exchanges[0].clone(), start, len.min(300), &[iv], 1);
            q.body["start"] = json!(start);
            q.body["end"] = json!(start + len.min(300) * iv);
            q.body["population_size"] = json!(match r.below(4) {
                0 => 2,
                1 => r.range(2, 5),
                2 => r.range(2, 20),
                _ => r.range(2, if deep { 100 } else { 50 }),
            });
            q.body["generations"] = json!(r.skew(if deep { 30 } else { 10 }));
            q.body["hall_of_fame_size"] = json!(*r.pick(&[1, 2, 5, 60]));
            if r.p(0.05) {
                q.body["hall_of_fame_size"] = json!(*r.pick(&[1u64 << 20, 10_000_000_000, 1_000_000_000_000_000]));
            }
            if q.body["population_size"].as_u64().unwrap() > 20 {
                q.body["training_symbols"].as_array_mut().unwrap().truncate(2);
            }
            reqs.push(q);
        }
    }
    let mut a = if r.p(0.2) { busy(r, m, reqs) } else { run(r, m, reqs) };
    if r.p(0.2) && a.reqs.iter().all(|q| q.slow == 0) {
        slow(r, &mut a);
    }
    case("all sorts", vec![a], json!({}))
}
fn v02(r: &mut Rng) -> Case {
    let ivs: Vec<u64> = (0..2).map(|_| *r.pick(&[5 * MIN, 15 * MIN, HOUR, 90 * MIN, 4 * HOUR, DAY])).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let n = r.range(1, 4) as usize;
    let mut exs = vec![exchange(r, "good", n)];
    let start = base_time(r) + if r.p(0.3) { r.below(DAY) } else { 0 };
    let mut reqs: Vec<Req> = vec![];
    let mut plain = vec![];
    for _ in 0..r.range(1, 3) {
        let e = exs[0].clone();
        let q = any_req(r, &e, start, &ivs);
        for _ in 0..r.range(1, 3) {
            let mut q = q.clone();
            manner(r, &mut q);
            q.spell = r.range(1, 1 << 40);
            plain.push(reqs.len());
            reqs.push(q);
        }
    }
    for k in 0..r.below(6) {
        let n = r.range(1, 2) as usize;
        let e = exchange(r, &format!("none{k}"), n);
        let mut q = any_req(r, &e, start, &ivs);
        manner(r, &mut q);
        q.keep = None;
        q.refuse = true;
        if r.p(0.5) {
            q.spell = r.range(1, 1 << 40);
        }
        if r.p(0.1) {
            let (m, p) = *r.pick(&[("GET", "/backtest"), ("DELETE", "/optimize"), ("POST", "/nowhere"), ("PUT", "/backtest"), ("POST", "/backtests"), ("POST", "/")]);
            (q.method, q.path) = (m.into(), p.into());
        } else {
            q.raw = Some(crate::spell::unreadable(r, &q.body));
        }
        exs.push(e);
        reqs.push(q);
    }
    for _ in 0..r.below(3) {
        let q = inquire(r);
        reqs.push(q);
    }
    let m = market(r, exs);
    // Each question again, written plainly.
    let mut asked: Vec<Req> = vec![];
    let mut eq = vec![];
    for i in &plain {
        let mut q = Req { spell: 0, keep: None, pipeline: false, slow: 0, frag: 1, at: 0, ..reqs[*i].clone() };
        q.fgap = 0;
        let j = asked.iter().position(|a| a.body == q.body).unwrap_or_else(|| {
            asked.push(q.clone());
            asked.len() - 1
        });
        eq.push(json!([0, i, 1, j]));
    }
    let a = busy(r, m.clone(), reqs);
    let b = run(r, m, asked);
    case("spellings", vec![a, b], json!({"equal":eq}))
}
#[allow(dead_code)]
fn unused() {
    let _ = (MONTH, mix(0, 0));
}
