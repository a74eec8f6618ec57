//! Judges results of backtests against the reference model and against themselves.
use crate::market::*;
use crate::model::{self, annualized, Cx, Input, Out, Strat, DAY};
use serde_json::Value;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap};

/// A violated property and how.
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub prop: &'static str,
    pub what: String,
    /// Set when this is a defect already listed.
    pub known: Option<&'static str>,
}
pub fn viol(prop: &'static str, what: String) -> Viol {
    Viol { prop, what, known: None }
}
#[derive(Clone, Debug, Default)]
pub struct Tally {
    pub positions: u64,
    pub results: u64,
    pub inconclusive: u64,
    pub ties: u64,
    pub soft: u64,
    /// Behaviours seen, for measuring diversity.
    pub seen: BTreeSet<String>,
}

pub fn rel(a: f64, b: f64) -> f64 {
    (a - b).abs() / a.abs().max(b.abs()).max(1e-300)
}
pub fn near(a: f64, b: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + 1e-10 * a.abs().max(b.abs())
}
fn num(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}

/// What one result rests on.
pub struct Basis {
    pub candles: Vec<Candle>,
    pub fees: Fees,
    pub filters: Filters,
    pub borrow: (u64, f64, f64),
    pub base: Vec<f64>,
    pub quote: Vec<f64>,
    /// Days between the start of the price table and the first candle.
    pub shift: usize,
    pub flats: bool,
    pub gaps: bool,
}
pub fn basis(m: &Market, ex: &str, sym: &str, iv: u64, start: u64, end: u64, version: u64) -> Basis {
    let s = m.sym(ex, sym).unwrap();
    let candles = m.candles(ex, s, iv, start, end, version);
    let (fees, filters, borrow) = terms(s, version);
    let shift = candles.first().map_or(0, |c| (c.time / DAY - start / DAY) as usize);
    let gaps = candles.windows(2).any(|w| w[1].time != w[0].time + iv);
    Basis {
        fees,
        filters,
        borrow,
        base: m.prices(ex, base(sym), start, end, version),
        quote: m.prices(ex, quote(sym), start, end, version),
        shift,
        flats: !s.flats.is_empty(),
        gaps,
        candles,
    }
}

struct RPos {
    long: bool,
    open: u64,
    close: u64,
    cost: f64,
    gain: f64,
    reason: String,
}
fn rpos(v: &Value) -> Option<RPos> {
    Some(RPos {
        long: v["type"] == "Long",
        open: v["open_time"].as_u64()?,
        close: v["close_time"].as_u64()?,
        cost: v["cost"].as_f64()?,
        gain: v["gain"].as_f64()?,
        reason: v["close_reason"].as_str()?.to_string(),
    })
}

/// First position that differs in kind or time, with the candle at which the histories part.
fn diverge(out: &Out, rep: &[RPos], b: &Basis, iv: u64) -> Option<(usize, usize)> {
    let idx = |t: u64| b.candles.partition_point(|c| c.time + iv < t);
    for k in 0..out.pos.len().max(rep.len()) {
        match (out.pos.get(k), rep.get(k)) {
            (Some(m), Some(r)) => {
                if m.long != r.long || m.open_time != r.open {
                    return Some((k, m.open_i.min(idx(r.open))));
                }
                if m.close_time != r.close || m.reason != r.reason {
                    return Some((k, m.close_i.min(idx(r.close))));
                }
            }
            (Some(m), Option::None) => return Some((k, m.open_i)),
            (Option::None, Some(r)) => return Some((k, idx(r.open))),
            _ => {}
        }
    }
    Option::None
}

/// The model's history, ties resolved the way the reported history suggests where that is possible.
fn modelled(params: &Value, b: &Basis, quote: f64, rep: &[RPos], iv: u64, t: &mut Tally) -> (Out, Option<(usize, usize)>, bool) {
    let inp = Input { candles: &b.candles, fees: &b.fees, filters: &b.filters, borrow: b.borrow, quote };
    let mut force: HashMap<usize, Ordering> = HashMap::new();
    let mut out = model::trade(params, &inp, force.clone());
    let mut div = diverge(&out, rep, b, iv);
    t.ties += out.ties.len() as u64;
    let mut rounds = 0;
    while let Some((_, at)) = div {
        let ties: Vec<usize> = (0..out.ties.len()).filter(|n| out.ties[*n] <= at).collect();
        if ties.is_empty() {
            return (out, div, false);
        }
        rounds += 1;
        let mut better = false;
        if rounds <= 12 {
            'try_: for n in ties.iter().rev().take(8) {
                for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
                    if force.get(n) == Some(&o) {
                        continue;
                    }
                    let mut f = force.clone();
                    f.insert(*n, o);
                    let o2 = model::trade(params, &inp, f.clone());
                    let d2 = diverge(&o2, rep, b, iv);
                    if d2.map_or(true, |d| d.1 > at) {
                        force = f;
                        out = o2;
                        div = d2;
                        better = true;
                        break 'try_;
                    }
                }
            }
        }
        if !better {
            return (out, div, true);
        }
    }
    (out, div, false)
}

/// Compares the statistics reported for a symbol with what the data imply.
pub fn judge_symbol(params: &Value, b: &Basis, quote: f64, stats: &Value, t: &mut Tally) -> Vec<Viol> {
    let mut v = vec![];
    let iv = params["trader"]["interval"].as_u64().unwrap();
    t.results += 1;
    let Some(list) = stats["positions"].as_array() else {
        return vec![viol("V01", "no positions in the reply".into())];
    };
    let rep: Vec<RPos> = match list.iter().map(rpos).collect() {
        Some(r) => r,
        Option::None => return vec![viol("V01", format!("incomplete position in the reply: {}", Value::from(list.clone())))],
    };
    t.positions += rep.len() as u64;
    own_positions(params, b, quote, stats, list, &rep, iv, &mut v);
    own_core(b, quote, stats, list, &rep, iv, &mut v);

    // Against the model.
    let (out, div, unsure) = modelled(params, b, quote, &rep, iv, t);
    let strat = params["strategy"]["type"].as_str().unwrap();
    let inner = params["strategy"]["sig"]["type"].as_str().unwrap_or("");
    let buffered = params["strategy"]["buffer_interval"].as_u64().map_or(false, |x| x > iv);
    t.seen.insert(format!("{strat}/{inner}/{}/{}", params["stop_loss"]["type"].as_str().unwrap(), params["take_profit"]["type"].as_str().unwrap()));
    for r in &rep {
        t.seen.insert(format!("{}{}{}", if r.long { "L" } else { "S" }, r.reason, rep.len().min(3)));
    }
    let describe = || format!("{params} quote {quote}, {} candles from {}", b.candles.len(), b.candles.first().map_or(0, |c| c.time));
    if let Some((k, at)) = div {
        if unsure || out.overrun.map_or(false, |o| o <= at) {
            t.inconclusive += 1;
        } else {
            let m = out.pos.get(k).map(|p| format!("{} {}..{} {}", if p.long { "Long" } else { "Short" }, p.open_time, p.close_time, p.reason));
            let r = rep.get(k).map(|p| format!("{} {}..{} {}", if p.long { "Long" } else { "Short" }, p.open, p.close, p.reason));
            let txt = format!("position {k} (candle {at}): reported {r:?}, due {m:?}; {}", describe());
            let (mp, rp) = (out.pos.get(k), rep.get(k));
            let open_differs = match (mp, rp) {
                (Some(m), Some(r)) => m.long != r.long || m.open_time != r.open,
                _ => true,
            };
            let mut props: Vec<&'static str> = vec![];
            if open_differs {
                if out.stopped.map_or(false, |s| s <= at) && rp.is_some() {
                    props.push("T05");
                } else if out.stopped.is_none() && mp.is_some() && b.filters.size.min > 0.0 && rp.is_none() {
                    props.extend(["T05", "T07"]);
                } else {
                    props.push("T07");
                }
                // None after some: as if the balance were gone.
                if k > 0 && rp.is_none() && k >= rep.len() {
                    props.push("T01");
                }
                // Positions that could open only in the closing candle of the previous one.
                if k > 0 && mp.map_or(false, |m| m.open_time == out.pos[k - 1].close_time) {
                    props.push("T02");
                }
            } else {
                let (a, c) = (mp.unwrap().reason, rp.unwrap().reason.as_str());
                let exit = |s: &str| s == "StopLoss" || s == "TakeProfit";
                if exit(a) || exit(c) {
                    props.push("T03");
                }
                if a == "Strategy" || c == "Strategy" {
                    props.push("T07");
                }
                if props.is_empty() || a == "Cancelled" && c != "Cancelled" && mp.unwrap().close_time == rp.unwrap().close {
                    props.push("T02");
                }
            }
            if buffered && (open_differs || props.contains(&"T07")) {
                props.push("F01");
            }
            if b.flats {
                props.push("F02");
            }
            props.push("D01");
            props.sort();
            props.dedup();
            for p in props {
                v.push(viol(p, txt.clone()));
            }
        }
        return v;
    }
    if out.overrun.is_some() {
        return v;
    }
    // Same history: amounts.
    for (k, (m, r)) in out.pos.iter().zip(&rep).enumerate() {
        let tol = m.tol + 1e-11 * quote.abs();
        if !near(m.cost, r.cost, tol) || !near(m.gain, r.gain, tol) {
            let txt = format!("position {k}: reported cost {} gain {}, due cost {} gain {} (within {tol:e}); {}; fees {} filters {:?} borrowing {:?}", r.cost, r.gain, m.cost, m.gain, describe(), b.fees.taker, b.filters, b.borrow);
            v.push(viol("T05", txt.clone()));
            v.push(viol("D01", txt));
            return v;
        }
    }
    if out.pos.iter().any(|p| p.tol > 0.0) {
        t.soft += 1;
        return v;
    }
    // Daily valuation.
    let ext = &stats["extended"];
    if let Some(want) = model::ratios(&out, quote, &b.base, &b.quote, b.shift) {
        if want.soft {
            t.soft += 1;
        } else {
            let got = [num(&ext["annualized_return"]), num(&ext["sharpe_ratio"]), num(&ext["sortino_ratio"])];
            let w = [want.ret, want.sharpe, want.sortino];
            let same = |w: &[f64; 3]| (0..3).all(|k| near(got[k], w[k], 1e-10 + want.tol[k]) || rel(got[k], w[k]) < 1e-6);
            if !same(&w) {
                let mut x = viol("T08", format!("annualized return, Sharpe, Sortino reported {got:?}, due {w:?} (first candle {} days after the price table starts); {}", b.shift, describe()));
                if b.shift > 0 {
                    if let Some(o) = model::ratios(&out, quote, &b.base, &b.quote, 0) {
                        if o.soft || same(&[o.ret, o.sharpe, o.sortino]) {
                            x.known = Some("late-first-candle");
                        }
                    }
                }
                let mut y = x.clone();
                y.prop = "D01";
                v.push(x);
                v.push(y);
            }
        }
    }
    v
}

/// What must hold of the listed positions by themselves.
#[allow(clippy::too_many_arguments)]
fn own_positions(params: &Value, b: &Basis, quote: f64, _stats: &Value, list: &[Value], rep: &[RPos], iv: u64, v: &mut Vec<Viol>) {
    let ends: BTreeSet<u64> = b.candles.iter().map(|c| c.time + iv).collect();
    let last = ends.iter().next_back().copied().unwrap_or(0);
    let txt = |k: usize| format!("position {k} {} of {}; {params}", list[k], rep.len());
    let mut balance = quote;
    let mut prev = 0;
    // Warm-up.
    let mut strat = Strat::new(&params["strategy"], iv);
    let need = strat.warmup();
    let mut warm = Option::None;
    let mut cx = Cx::default();
    for (i, c) in b.candles.iter().enumerate() {
        strat.update(c, &mut cx);
        let n = strat.buffer().map_or(i + 1, |x| x.emitted);
        if n >= need {
            warm = Some(c.time + iv);
            break;
        }
        if strat.buffer().is_none() && i + 1 < need {
            continue;
        }
    }
    for (k, p) in rep.iter().enumerate() {
        if !ends.contains(&p.open) || !ends.contains(&p.close) {
            v.push(viol("T02", format!("not at the end of a candle: {}", txt(k))));
        }
        let atlast = p.open == last && p.close == last && p.reason == "Cancelled";
        if p.close < p.open || p.close == p.open && !atlast {
            v.push(viol("T02", format!("closes before it opens: {}", txt(k))));
        }
        if p.open < prev {
            v.push(viol("T02", format!("overlaps the previous one: {}", txt(k))));
        }
        prev = p.close;
        if p.reason == "Cancelled" && (p.close != last || k + 1 != rep.len()) {
            v.push(viol("T02", format!("cancelled before the end of the data: {}", txt(k))));
        }
        let profit = num(&list[k]["profit"]);
        if !near(profit, p.gain - p.cost, 1e-11 * (p.cost.abs() + p.gain.abs())) {
            v.push(viol("T01", format!("profit is not gain minus cost: {}", txt(k))));
        }
        if !(p.cost <= balance + 1e-9 * (quote.abs() + balance.abs())) {
            v.push(viol("T01", format!("costs more than the balance {balance}: {}", txt(k))));
        }
        balance += p.gain - p.cost;
        if !(p.cost >= 0.0) || !p.gain.is_finite() {
            v.push(viol("T01", format!("cost or gain is not an amount: {}", txt(k))));
        }
        if warm.map_or(true, |w| p.open < w) {
            v.push(viol("T06", format!("opens before the warm-up of {need} candles is over (at {warm:?}): {}", txt(k))));
        }
    }
}

/// What must hold of the statistics given the listed positions.
fn own_core(b: &Basis, quote: f64, stats: &Value, list: &[Value], rep: &[RPos], iv: u64, v: &mut Vec<Viol>) {
    let core = &stats["core"];
    let g = |k: &str| num(&core[k]);
    let profit: f64 = rep.iter().map(|p| p.gain - p.cost).sum();
    let scale = quote.abs() + rep.iter().map(|p| p.gain.abs() + p.cost.abs()).sum::<f64>();
    let tol = 1e-10 * scale;
    if !near(g("profit"), profit, tol) || !near(g("cost"), quote, 0.0) || !near(g("gain"), quote + profit, tol) {
        v.push(viol("T01", format!("totals: cost {} gain {} profit {}; positions make {profit} from {quote}", g("cost"), g("gain"), g("profit"))));
    }
    let (start, end) = if b.candles.is_empty() {
        (core["start"].as_u64().unwrap_or(0), core["end"].as_u64().unwrap_or(0))
    } else {
        (b.candles[0].time, b.candles[b.candles.len() - 1].time + iv)
    };
    let mut bad = |k: &str, want: f64, tol: f64| {
        let got = g(k);
        let ok = if want.is_finite() { near(got, want, tol) } else { core[k].is_null() };
        if !ok {
            v.push(viol("T08", format!("{k} is {}, due {want}; {} positions {}", core[k], rep.len(), Value::from(list.to_vec()).to_string().chars().take(2000).collect::<String>())));
        }
    };
    bad("start", start as f64, 0.0);
    bad("end", end as f64, 0.0);
    bad("duration", (end - start) as f64, 0.0);
    let roi = profit / quote;
    bad("roi", roi, 1e-9 * scale / quote);
    if 1.0 + roi > 1e-9 {
        let a = annualized(end - start, roi);
        // Powers magnify the rounding of the profit.
        let n = (end - start) as f64 / 31_556_952_000.0;
        let slack = if n > 0.0 { 1e-13 * scale / quote / (1.0 + roi) / n } else { 0.0 };
        if slack < 1e-3 {
            let got = g("annualized_roi");
            let ok = if a.is_finite() { (got - a).abs() <= (slack + 1e-9) * (1.0 + a.abs()) } else { core["annualized_roi"].is_null() || got.is_finite() };
            if !ok {
                bad("annualized_roi", a, 0.0);
            }
        }
    }
    let n = rep.len() as f64;
    let durs: u64 = rep.iter().map(|p| p.close - p.open).sum();
    bad("mean_position_profit", if rep.is_empty() { 0.0 } else { profit / n }, tol);
    bad("mean_position_duration", if rep.is_empty() { 0.0 } else { (durs / rep.len() as u64) as f64 }, 1.0);
    // Drawdowns along the balance after each position.
    let (mut q, mut max, mut maxdd, mut sum) = (quote, quote, 0f64, 0f64);
    for p in rep {
        q += p.gain - p.cost;
        max = max.max(q);
        let dd = 1.0 - q / max;
        maxdd = maxdd.max(dd);
        sum += dd;
    }
    let dtol = 1e-9 * (scale / quote).max(1.0);
    bad("max_drawdown", maxdd, dtol);
    bad("mean_drawdown", if rep.is_empty() { 0.0 } else { sum / n }, dtol);
    if maxdd > 1e-6 || maxdd == 0.0 {
        bad("return_over_max_drawdown", if maxdd == 0.0 { 0.0 } else { roi / maxdd }, 1e-9 * scale / quote / maxdd.max(1e-6));
    }
    let cnt = |f: &dyn Fn(&RPos, &Value) -> bool| rep.iter().zip(list).filter(|(p, l)| f(p, l)).count() as f64;
    let wins = cnt(&|_, l| num(&l["profit"]) >= 0.0);
    bad("num_positions", n, 0.0);
    bad("num_positions_in_profit", wins, 0.0);
    bad("num_positions_in_loss", n - wins, 0.0);
    bad("num_stop_losses", cnt(&|p, _| p.reason == "StopLoss"), 0.0);
    bad("num_take_profits", cnt(&|p, _| p.reason == "TakeProfit"), 0.0);
    for (k, p) in rep.iter().enumerate() {
        let l = &list[k];
        let d = p.close - p.open;
        let r = (p.gain - p.cost) / p.cost;
        let mut bad = |f: &str, want: f64, tol: f64| {
            let ok = if want.is_finite() { near(num(&l[f]), want, tol) } else { l[f].is_null() };
            if !ok {
                v.push(viol("T08", format!("{f} of position {k} is {}, due {want}: {l}", l[f])));
            }
        };
        bad("duration", d as f64, 0.0);
        bad("roi", r, 1e-11);
        if p.cost > 0.0 && 1.0 + r > 1e-9 {
            let a = annualized(d, r);
            let y = d as f64 / 31_556_952_000.0;
            let slack = if y > 0.0 { 1e-14 / (1.0 + r) / y } else { 0.0 };
            if slack < 1e-3 && a.is_finite() {
                bad("annualized_roi", a, (slack + 1e-9) * (1.0 + a.abs()));
            }
        }
    }
    // Well-defined numbers throughout; growth beyond the floating range may be shown as null.
    for (k, x) in core.as_object().into_iter().flatten().chain(stats["extended"].as_object().into_iter().flatten()) {
        if x.is_null() && k != "annualized_roi" {
            v.push(viol("T08", format!("{k} is not a number; {} positions {}", rep.len(), Value::from(list.to_vec()).to_string().chars().take(1000).collect::<String>())));
        }
    }
}
