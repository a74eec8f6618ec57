//! Generators of markets, requests, machines and disturbances.
use crate::case::*;
use crate::market::*;
use crate::model::{DAY, EASINGS, MONTH, WEEK};
use crate::rng::Rng;
use serde_json::{json, Value};

pub const HOUR: u64 = 3_600_000;
pub const MIN: u64 = 60_000;
pub const NAMES: [&str; 16] = ["eth-btc", "ltc-btc", "xrp-eth", "btc-usdt", "ada-btc", "dot-usdt", "bnb-eth", "eos-btc", "link-btc", "1inch-usdt", "usdt-dai", "ar-eth", "usdc-usdt", "btc-eur", "stormx-usdc", "c98-btc"];

/// Interleavings, slice lengths, interruptions and processors.
pub fn sim(r: &mut Rng) -> Sim {
    let mut s = Sim {
        ncpu: *r.pick(&[1, 2, 2, 3, 4, 8]),
        rayon: *r.pick(&[0, 0, 1, 2, 5]),
        tick: *r.pick(&[100, 500, 500, 3000]),
        bbns: *r.pick(&[1, 5, 5, 20]),
        sseed: r.u() >> 16,
        hseed: r.u() >> 16,
        mseed: r.u() >> 16,
        rtbase: (1_500_000_000 + r.below(500_000_000)) * SEC,
        sndbuf: *r.pick(&[0, 0, 0, 4608, 20_000]),
        ..Default::default()
    };
    match r.below(4) {
        0 => {}
        1 => {
            s.policy = 1;
            s.pswitch = *r.pick(&[500, 3000, 12_000, 40_000]);
        }
        2 => {
            s.policy = 1;
            s.pswitch = *r.pick(&[3000, 20_000]);
            s.bbmean = *r.pick(&[2000, 10_000, 50_000]);
        }
        _ => {
            s.policy = 2;
            s.pctdepth = r.range(1, 6);
            s.pctlen = *r.pick(&[1000, 5000, 20_000]);
        }
    }
    if r.p(0.4) {
        s.pspur = *r.pick(&[200, 2000, 10_000]);
    }
    if r.p(0.4) {
        s.peintr = *r.pick(&[500, 5000]);
    }
    if r.p(0.3) {
        s.maxev = *r.pick(&[1, 2]);
    }
    if r.p(0.3) {
        s.pjump = *r.pick(&[100, 1000]);
        s.jumpmax = *r.pick(&[MS, 50 * MS]);
    }
    s.happy = *r.pick(&[0, 0, 1, 2]);
    if r.p(0.08) {
        s.log = r.below(8);
    }
    s
}
/// A quiet machine: for checks in which only the data matters.
pub fn calm(r: &mut Rng) -> Sim {
    Sim { ncpu: *r.pick(&[1, 2, 4]), hseed: r.u() >> 16, sseed: r.u() >> 16, mseed: r.u() >> 16, tick: 200, bbns: 1, ..Default::default() }
}
pub fn net(r: &mut Rng) -> Net {
    Net {
        seed: r.u() >> 12,
        lat: *r.pick(&[0, MS, 5 * MS, 40 * MS]),
        frag: *r.pick(&[1, 1, 3, 8]),
        gap: *r.pick(&[0, 50_000, 2 * MS]),
        close: *r.pick(&[0.0, 0.0, 0.3, 1.0]),
        chunked: *r.pick(&[0.0, 0.5]),
        dress: *r.pick(&[0.0, 0.1, 0.5]),
    }
}

pub fn sym(r: &mut Rng, name: &str) -> Sym {
    let (p0, grid) = *r.pick(&[(100.0, 0.0625), (100.0, 0.0625), (1.0, 1.0 / 1024.0), (0.03125, 1.0 / 65536.0), (4000.0, 0.25), (16.0, 1.0)]);
    let vol = *r.pick(&[0.001, 0.01, 0.01, 0.03, 0.08]);
    let fee = *r.pick(&[0.0, 0.00075, 0.001, 0.001, 0.0025, 0.01, 0.05]);
    let min = *r.pick(&[0.0, 0.0, 0.001, 0.01, 0.1]);
    let step = *r.pick(&[0.0, 0.001, 0.001, 0.01, 0.00001, 0.25]);
    let prec = *r.pick(&[8, 8, 8, 2, 4, 6]);
    Sym {
        name: name.into(),
        style: r.below(9) as u8,
        p0,
        vol,
        grid,
        fees: Fees { maker: *r.pick(&[0.0, 0.0005, 0.0123]), taker: fee },
        filters: Filters {
            price: Lim { min: 0.0, max: 0.0, step: 0.0 },
            size: Lim { min, max: if r.p(0.15) { *r.pick(&[5.0, 0.5, 1000.0]) } else { 0.0 }, step },
            base_precision: prec,
            quote_precision: if r.p(0.7) { prec } else { *r.pick(&[2, 4, 8]) },
        },
        borrow: (*r.pick(&[HOUR, DAY, 8 * HOUR]), *r.pick(&[0.0, 0.00002, 0.0005, 0.002]), if r.p(0.2) { *r.pick(&[0.5, 3.0, 0.0]) } else { 1e9 }),
        gap_p: 0.0,
        gap_max: 0,
        gaps: vec![],
        flats: vec![],
        late: 0,
    }
}
/// `n` symbols with distinct names.
pub fn exchange(r: &mut Rng, name: &str, n: usize) -> Ex {
    let mut names = NAMES.to_vec();
    r.shuffle(&mut names);
    Ex { name: name.into(), symbols: names[..n].iter().map(|s| sym(r, s)).collect() }
}
/// What an exchange may be called.
pub fn ex_name(r: &mut Rng, k: u64) -> String {
    let tail = if r.p(0.8) { "" } else { *r.pick(&[" (test)", "-é", "\"'\\", "取引所", "/../x?a=b&c=%41", "\n{}", ".00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"]) };
    format!("ex{k}{tail}")
}
/// More symbols than there are names.
pub fn crowd(r: &mut Rng, name: &str, n: usize) -> Ex {
    Ex { name: name.into(), symbols: (0..n).map(|k| sym(r, &format!("s{k}-{}", ["btc", "eth", "btc", "usdt"][k % 4]))).collect() }
}
pub fn market(r: &mut Rng, exs: Vec<Ex>) -> Market {
    Market { seed: r.u() >> 12, exchanges: exs, cut: None, price_style: *r.pick(&[0, 0, 0, 1, 2]) }
}

// ------------------------------------------------------------------------------ parameters
pub fn ma(r: &mut Rng, p: u64) -> Value {
    match r.below(8) {
        0 => json!({"type":"Alma","period":p,"offset":*r.pick(&[0.85, 0.85, 0.5, 0.25]),"sigma": if r.p(0.3) { json!(r.range(1, 8)) } else { Value::Null }}),
        1 => json!({"type":"Dema","period":p}),
        2 => json!({"type":"Ema","period":p,"smoothing": if r.p(0.3) { json!(*r.pick(&[0.125, 0.25, 0.5, 0.75])) } else { Value::Null }}),
        3 => json!({"type":"Ema2","period":p}),
        4 => json!({"type":"Kama","period":p}),
        5 => json!({"type":"Smma","period":p}),
        _ => json!({"type":"Sma","period":p}),
    }
}
fn two(r: &mut Rng, max: u64) -> (u64, u64) {
    let a = r.range(1, max.max(2) - 1);
    (a, r.range(a + 1, max.max(a + 1)))
}
pub const SIGNALS: [&str; 7] = ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"];
/// A basic strategy with look-backs up to `m`.
pub fn signal(r: &mut Rng, kind: &str, m: u64) -> Value {
    let m = m.max(3);
    let mut v = match kind {
        "DoubleMA" => {
            let (s, l) = two(r, m);
            json!({"mas":[ma(r, s), ma(r, l)]})
        }
        "DoubleMA2" => {
            let (s, l) = two(r, m);
            json!({"mas":[ma(r, s), ma(r, l)],"neg_threshold": -*r.pick(&[0.1, 0.25, 0.5, 0.9375]),"pos_threshold": *r.pick(&[0.1, 0.25, 0.5, 0.9375])})
        }
        "DoubleMAStoch" => {
            let (s, l) = two(r, m);
            json!({"double_ma":{"mas":[ma(r, s), ma(r, l)]},"stoch":stoch(r, m)})
        }
        "FourWeekRule" => {
            let (p, q) = (r.range(2, m), r.range(2, m));
            json!({"period":p,"ma":ma(r, q)})
        }
        "Macd" => {
            let (s, l) = if r.p(0.1) { (12, 26) } else { two(r, m) };
            json!({"periods":[s, l],"signal_period":r.range(1, m)})
        }
        "SingleMA" => {
            let p = r.range(1, m);
            json!({"ma":ma(r, p)})
        }
        "TripleMA" => {
            let a = r.range(1, m - 2);
            let b = r.range(a + 1, m - 1);
            let c = r.range(b + 1, m);
            json!({"mas":[ma(r, a), ma(r, b), ma(r, c)]})
        }
        o => panic!("{o}"),
    };
    v["type"] = kind.into();
    v
}
pub fn stoch(r: &mut Rng, m: u64) -> Value {
    json!({"k_period":r.range(1, m),"k_sma_period":r.range(1, (m / 2).max(1)),"d_sma_period":r.range(1, (m / 2).max(1)),
        "up_threshold":*r.pick(&[100.0, 75.0, 80.0, 62.5, 50.0]),"down_threshold":*r.pick(&[0.0, 25.0, 20.0, 37.5, 50.0])})
}
pub fn osc(r: &mut Rng, m: u64) -> Value {
    if r.p(0.5) {
        json!({"type":"Rsi","period":r.range(1, m),"up_threshold":*r.pick(&[50.0, 62.5, 70.0, 100.0]),"down_threshold":*r.pick(&[50.0, 37.5, 30.0, 0.0])})
    } else {
        let mut s = stoch(r, m);
        s["type"] = "Stoch".into();
        s
    }
}
pub fn policy(r: &mut Rng) -> Value {
    (*r.pick(&["Current", "Previous", "Ignore"])).into()
}
/// Any strategy; `buffered`: works on candles coarser than the feed's.
pub fn strategy(r: &mut Rng, m: u64, iv: u64, buffered: bool) -> Value {
    let kind = *r.pick(&SIGNALS);
    let s = signal(r, kind, m);
    match if buffered { 0 } else { r.below(5) } {
        0 | 1 => json!({"type":"Sig","sig":s,"persistence": if r.p(0.5) { 0 } else if r.p(0.1) { r.range(7, 40) } else { r.range(1, 6) },"mid_trend_policy":policy(r),
            "buffer_interval": if buffered { json!(coarse(r, iv)) } else { Value::Null }}),
        2 => json!({"type":"SigOsc","sig":s,"osc":osc(r, m.min(20)),"osc_filter":*r.pick(&["Enforce","Prevent"]),
            "persistence": if r.p(0.6) { 0 } else { r.range(1, 4) },"mid_trend_policy":policy(r)}),
        _ => s,
    }
}
pub fn coarse(r: &mut Rng, iv: u64) -> u64 {
    let c: Vec<u64> = [iv * 2, iv * 3, iv * 4, iv * 5, HOUR, 4 * HOUR, DAY, 3 * DAY, WEEK, MONTH]
        .into_iter()
        .filter(|c| *c > iv && (*c == MONTH && DAY % iv == 0 || *c != MONTH && c % iv == 0))
        .collect();
    *r.pick(&c)
}
fn th(r: &mut Rng) -> f64 {
    if r.p(0.6) { *r.pick(&[0.015625, 0.03125, 0.0625, 0.125, 0.25, 0.5]) } else { *r.pick(&[0.001, 0.004, 0.01, 0.02, 0.05, 0.1]) }
}
pub fn stop_loss(r: &mut Rng) -> Value {
    match r.below(7) {
        0 => json!({"type":"Noop"}),
        1 | 2 => json!({"type":"Basic","up_threshold":th(r),"down_threshold":th(r)}),
        3 | 4 => json!({"type":"Trailing","up_threshold":th(r),"down_threshold":th(r)}),
        5 => json!({"type":"BasicPlusTrailing","basic":{"up_threshold":th(r),"down_threshold":th(r)},"trailing":{"up_threshold":th(r),"down_threshold":th(r)}}),
        _ => json!({"type":"Legacy","threshold": if r.p(0.15) { 0.0 } else { th(r) },"trail":r.p(0.5)}),
    }
}
pub fn take_profit(r: &mut Rng) -> Value {
    match r.below(7) {
        0 => json!({"type":"Noop"}),
        1 | 2 | 3 => json!({"type":"Basic","up_threshold":th(r),"down_threshold":th(r)}),
        4 => json!({"type":"Legacy","threshold": if r.p(0.15) { 0.0 } else { th(r) }}),
        _ => {
            let (a, b) = (th(r) / 4.0, th(r));
            let (c, d) = (th(r) / 4.0, th(r));
            json!({"type":"Trending","up_thresholds":[a, round15(a + b)],"down_thresholds":[c, round15(c + d)],"period": if r.p(0.15) { r.range(30, 200) } else { r.range(1, 30) },"lock_threshold":r.p(0.5),"easing":*r.pick(&EASINGS)})
        }
    }
}
pub fn noop() -> Value {
    json!({"type":"Noop"})
}
pub fn trading(strategy: Value, iv: u64, sl: Value, tp: Value) -> Value {
    json!({"strategy":strategy,"trader":{"interval":iv},"stop_loss":sl,"take_profit":tp})
}
pub fn backtest(ex: &str, symbols: &[&str], start: u64, end: u64, quote: f64, trading: Value) -> Req {
    Req {
        path: "/backtest".into(),
        body: json!({"exchange":ex,"symbols":symbols,"start":start,"end":end,"quote":quote,"trading":trading}),
        frag: 1,
        ..Default::default()
    }
}
/// A search context: components free, of fixed type, or with some parameters fixed.
pub fn context(r: &mut Rng, intervals: &[u64], m: u64) -> Value {
    let strat = match r.below(4) {
        0 => json!({"type":"None"}),
        1 => {
            let k = *r.pick(&SIGNALS);
            let sg = signal(r, k, m);
            part(r, sg, &[])
        }
        2 => {
            let s = strategy(r, m, intervals[0], false);
            let deep = r.p(0.5);
            nested(r, s, deep)
        }
        _ => json!({"type": *r.pick(&["Sig", "SigOsc"])}),
    };
    json!({"strategy":strat,"trader":{"intervals":intervals},"stop_loss":free(r, stop_loss),"take_profit":free(r, take_profit)})
}
fn free(r: &mut Rng, f: fn(&mut Rng) -> Value) -> Value {
    match r.below(3) {
        0 => json!({"type":"None"}),
        1 => {
            let v = f(r);
            json!({"type":v["type"]})
        }
        _ => {
            let v = f(r);
            if v["type"] == "BasicPlusTrailing" {
                let mut w = v.clone();
                for k in ["basic", "trailing"] {
                    w[k] = part(r, v[k].clone(), &[]);
                }
                return w;
            }
            part(r, v, &[])
        }
    }
}
/// Keeps the type and a random part of the other fields.
fn part(r: &mut Rng, v: Value, keep: &[&str]) -> Value {
    let p = *r.pick(&[0.3, 0.7, 1.0]);
    let mut o = v.as_object().unwrap().clone();
    for (k, x) in v.as_object().unwrap() {
        if k == "type" || keep.contains(&k.as_str()) {
            continue;
        }
        if k == "double_ma" || k == "stoch" {
            o.insert(k.clone(), part(r, x.clone(), &[]));
        } else if !r.p(p) {
            o.remove(k);
        }
    }
    Value::Object(o)
}
fn nested(r: &mut Rng, v: Value, deep: bool) -> Value {
    if v["type"] != "Sig" && v["type"] != "SigOsc" {
        return part(r, v, &[]);
    }
    let mut w = part(r, v.clone(), &["sig", "osc"]);
    for k in ["sig", "osc"] {
        if v.get(k).is_some() {
            w[k] = if deep { part(r, v[k].clone(), &[]) } else { json!({"type":"None"}) };
        }
    }
    w
}
#[allow(clippy::too_many_arguments)]
pub fn optimize(ex: &str, train: &[&str], valid: &[&str], start: u64, end: u64, quote: f64, pop: u64, gens: u64, hof: u64, seed: Option<u64>, stat: &str, agg: &str, ctx: Value) -> Req {
    Req {
        path: "/optimize".into(),
        body: json!({"exchange":ex,"training_symbols":train,"validation_symbols":valid,"start":start,"end":end,"quote":quote,
            "population_size":pop,"generations":gens,"hall_of_fame_size":hof,"seed":seed,"evaluation_statistic":stat,"evaluation_aggregation":agg,"context":ctx}),
        frag: 1,
        ..Default::default()
    }
}
pub const STATS: [&str; 4] = ["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"];
pub const AGGS: [&str; 3] = ["Linear", "Log10", "Log10Factored"];

/// Start aligned to the interval, and an end after about `n` candles.
pub fn span(r: &mut Rng, iv: u64, n: u64) -> (u64, u64) {
    let base = 1_500_000_000_000 / DAY * DAY + r.below(1500) * DAY;
    let start = match r.below(6) {
        0 => base + r.below(DAY / MIN) * MIN,
        1 => base + HOUR * r.below(24),
        _ => base,
    };
    let extra = if r.p(0.15) { r.below(iv) } else { 0 };
    (start, start + n * iv + extra)
}

/// A number of at most fifteen digits.
fn round15(x: f64) -> f64 {
    format!("{x:.14e}").parse().unwrap()
}
