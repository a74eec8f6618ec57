//! The simulated data service's content: exchanges, candle feeds and asset prices, all derived from a seed.
use crate::model::{floor_time, DAY, WEEK};
use crate::rng::{hstr, mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Candle {
    pub time: u64,
    pub open: f64,
    pub high: f64,
    pub low: f64,
    pub close: f64,
    pub volume: f64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fees {
    pub maker: f64,
    pub taker: f64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lim {
    pub min: f64,
    pub max: f64,
    pub step: f64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Filters {
    pub price: Lim,
    pub size: Lim,
    pub base_precision: u32,
    pub quote_precision: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sym {
    pub name: String,
    pub style: u8,
    pub p0: f64,
    pub vol: f64,
    pub grid: f64,
    pub fees: Fees,
    pub filters: Filters,
    /// Interest interval, rate, limit.
    pub borrow: (u64, f64, f64),
    /// Chance that a candle starts a run of missing ones, and the longest run.
    #[serde(default)]
    pub gap_p: f64,
    #[serde(default)]
    pub gap_max: u64,
    /// Missing stretches, ms since the requested start.
    #[serde(default)]
    pub gaps: Vec<(u64, u64)>,
    /// Flat stretches, ms since the requested start.
    #[serde(default)]
    pub flats: Vec<(u64, u64)>,
    /// No candles before this many ms after the requested start.
    #[serde(default)]
    pub late: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ex {
    pub name: String,
    pub symbols: Vec<Sym>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Market {
    pub seed: u64,
    pub exchanges: Vec<Ex>,
    /// Feeds end here even when more is asked for.
    #[serde(default)]
    pub cut: Option<u64>,
    /// Asset prices in multiples of this.
    #[serde(default)]
    pub price_style: u8,
}

pub fn base(sym: &str) -> &str {
    &sym[..sym.find('-').unwrap()]
}
pub fn quote(sym: &str) -> &str {
    &sym[sym.find('-').unwrap() + 1..]
}
fn fl(v: f64) -> String {
    // Shortest form that reads back exactly.
    let s = format!("{v:?}");
    s
}

impl Market {
    pub fn ex(&self, name: &str) -> Option<&Ex> {
        self.exchanges.iter().find(|e| e.name == name)
    }
    pub fn sym(&self, ex: &str, s: &str) -> Option<&Sym> {
        self.ex(ex)?.symbols.iter().find(|x| x.name == s)
    }

    pub fn candles(&self, ex: &str, sym: &Sym, iv: u64, start: u64, end: u64, version: u64) -> Vec<Candle> {
        let key = hstr(hstr(mix(self.seed, version), ex), &sym.name);
        let key = mix(mix(key, iv), start);
        let mut r = Rng::new(key, 1);
        let mut g = Rng::new(key, 2);
        let mut t = if iv == WEEK { floor_time(start, WEEK) } else { start / iv * iv };
        if t < start {
            t += iv;
        }
        let end = self.cut.map_or(end, |c| c.min(end));
        let q = |x: f64| (x / sym.grid).round().max(1.0) * sym.grid;
        let (lo, hi) = (sym.p0 / 32.0, sym.p0 * 16.0);
        let mut p = q(sym.p0);
        let mut out = vec![];
        let mut n = 0u64;
        let mut gap = 0u64;
        let mut drift = 0.0;
        let period = 8.0 + (r.f() * 60.0).floor();
        let phase = r.f() * 6.28;
        while t + iv <= end {
            let open = p;
            let z = r.g() * 1.7;
            let u = r.f();
            let w = r.f();
            let rel = t - start;
            let flat = sym.flats.iter().any(|(a, b)| rel >= *a && rel < *b);
            if !flat {
                let k = match sym.style {
                    0 => (sym.vol * z).exp(),
                    1 => (sym.vol * 1.5 * ((n as f64 / period * 6.28 + phase).cos()) + sym.vol * 0.4 * z).exp(),
                    2 => 1.0,
                    3 => if u < 0.04 { (z * sym.vol * 12.0).exp() } else { (z * sym.vol * 0.3).exp() },
                    4 => (sym.vol * 0.3 * w).exp(),
                    5 => if n % 2 == 0 { 1.0 + sym.vol * w } else { 1.0 / (1.0 + sym.vol * w) },
                    6 => {
                        if u < 0.02 {
                            drift = sym.vol * 0.8 * z;
                        }
                        (drift + sym.vol * 0.7 * z).exp()
                    }
                    7 => (-sym.vol * 0.3 * w).exp(),
                    _ => (sym.vol * z + if (n / 40) % 2 == 0 { sym.vol * 0.5 } else { -sym.vol * 0.5 }).exp(),
                };
                p = if sym.style == 2 { q(p + ((u * 5.0).floor() - 2.0) * sym.grid) } else { q(p * k) };
                p = q(p.clamp(lo, hi));
            }
            let (mut high, mut low) = (open.max(p), open.min(p));
            let vol;
            if flat {
                vol = 0.0;
            } else {
                high = q(high + (w * 3.0).floor() * sym.grid);
                low = q((low - (u * 3.0).floor() * sym.grid).max(sym.grid));
                low = low.min(open.min(p));
                // Now and then nothing is traded, whatever the quotes do.
                vol = if (w * 97.0).fract() < 0.04 { 0.0 } else { (w * 4000.0).floor() / 4.0 };
            }
            // Missing candles.
            let mut skip = rel < sym.late || sym.gaps.iter().any(|(a, b)| rel >= *a && rel < *b);
            if gap > 0 {
                gap -= 1;
                skip = true;
            } else if sym.gap_p > 0.0 && g.p(sym.gap_p) {
                gap = g.below(sym.gap_max.max(1));
                skip = true;
            }
            if !skip {
                out.push(Candle { time: t, open, high, low, close: p, volume: vol });
            }
            n += 1;
            t += iv;
        }
        out
    }

    /// Daily prices: the opening price of the first day and then the closing price of each day.
    pub fn prices(&self, ex: &str, asset: &str, start: u64, end: u64, version: u64) -> Vec<f64> {
        let days = (end.div_ceil(DAY) - start / DAY) as usize;
        if asset == "usdt" {
            return vec![1.0; days + 1];
        }
        let mut r = Rng::new(mix(hstr(hstr(mix(self.seed, version ^ 0x77), ex), asset), start), 3);
        let mut p = [64.0, 0.5, 2048.0, 1.0][r.below(4) as usize];
        let up = self.price_style == 1;
        (0..=days)
            .map(|_| {
                let v: f64 = p;
                let z = if up { r.f() * 0.1 } else if self.price_style == 2 { 0.0 } else { r.g() * 0.12 };
                p = ((p * f64::exp(z)) * 4096.0).round().clamp(1.0, 4096.0 * 1_048_576.0) / 4096.0;
                v
            })
            .collect()
    }

    pub fn candles_json(c: &[Candle]) -> String {
        let mut s = String::with_capacity(c.len() * 96 + 2);
        s.push('[');
        for (i, c) in c.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(
                s,
                "{{\"time\":{},\"open\":{},\"high\":{},\"low\":{},\"close\":{},\"volume\":{}}}",
                c.time, fl(c.open), fl(c.high), fl(c.low), fl(c.close), fl(c.volume)
            );
        }
        s.push(']');
        s
    }
    pub fn info_json(&self, ex: &Ex, version: u64) -> String {
        use serde_json::{json, Map, Value};
        let mut assets = Map::new();
        let mut fees = Map::new();
        let mut filters = Map::new();
        let mut borrow = Map::new();
        for s in &ex.symbols {
            let (b, q) = (base(&s.name), quote(&s.name));
            assets.insert(b.into(), json!({"precision": 8}));
            assets.insert(q.into(), json!({"precision": 8}));
            let (fe, fi, bo) = terms(s, version);
            fees.insert(s.name.clone(), json!(fe));
            filters.insert(s.name.clone(), json!(fi));
            let mut m = Map::new();
            m.insert(b.into(), json!({"interest_interval": bo.0, "interest_rate": bo.1, "limit": bo.2}));
            // Terms for coins which are never borrowed, better or worse.
            let mut r = Rng::new(hstr(hstr(self.seed, &ex.name), &s.name), 77);
            m.insert(q.into(), json!({"interest_interval": *r.pick(&[1000, 3_600_000, 86_400_000]), "interest_rate": *r.pick(&[0.0, 0.0, 0.25]), "limit": *r.pick(&[0.5, 1e6])}));
            borrow.insert(s.name.clone(), Value::Object(m));
        }
        assets.insert("btc".into(), json!({"precision": 8}));
        json!({"assets": assets, "fees": fees, "filters": filters, "borrow_info": borrow}).to_string()
    }
    pub fn prices_json(&self, ex: &str, assets: &[String], start: u64, end: u64, version: u64) -> String {
        let m: BTreeMap<_, _> = assets.iter().map(|a| (a.clone(), self.prices(ex, a, start, end, version))).collect();
        serde_json::to_string(&m).unwrap()
    }
}

/// The trading terms in force at the given data version.
pub fn terms(s: &Sym, version: u64) -> (Fees, Filters, (u64, f64, f64)) {
    let mut f = s.fees;
    if version % 2 == 1 {
        f.taker = if f.taker == 0.0 { 0.002 } else { f.taker * 2.0 };
    }
    let (mut l, mut b) = (s.filters, s.borrow);
    if version % 2 == 1 {
        l.size.step = if l.size.step == 0.0 { 0.0625 } else { l.size.step * 2.0 };
        b.1 = if b.1 == 0.0 { 0.001 } else { b.1 * 2.0 };
        b.2 /= 2.0;
    }
    (f, l, b)
}
