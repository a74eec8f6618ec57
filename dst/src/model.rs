//! Executable reference model of a backtest: indicators, strategies, exits, order sizing, statistics.
//!
//! Written from the documented rules. Where the outcome hangs on a comparison of derived quantities
//! that are equal up to rounding noise, the place is recorded as a tie so that the comparison
//! against the real system does not judge what floating point leaves open.
use crate::market::{Candle, Fees, Filters};
use serde_json::Value;
use std::cmp::Ordering;
use std::collections::{HashMap, VecDeque};

pub const DAY: u64 = 86_400_000;
pub const WEEK: u64 = 604_800_000;
pub const MONTH: u64 = 2_629_746_000;
const YEAR: f64 = 31_556_952_000.0;
const SQRT_365: f64 = 19.104_973_174_542_8;
const EPS: f64 = 1e-11;

/// What is known of the run so far: which candle is being processed and the ties met.
#[derive(Default)]
pub struct Cx {
    pub i: usize,
    pub ties: Vec<usize>,
    pub force: HashMap<usize, Ordering>,
}
impl Cx {
    /// Compares derived quantities of the given magnitude.
    pub fn cmp(&mut self, a: f64, b: f64, scale: f64) -> Option<Ordering> {
        if !a.is_finite() || !b.is_finite() {
            return a.partial_cmp(&b);
        }
        if (a - b).abs() <= EPS * scale.abs().max(a.abs()).max(b.abs()) {
            let n = self.ties.len();
            self.ties.push(self.i);
            if let Some(o) = self.force.get(&n) {
                return Some(*o);
            }
        }
        a.partial_cmp(&b)
    }
    /// The same where, if `exact`, equality is not a matter of rounding.
    fn cmpx(&mut self, a: f64, b: f64, s: f64, exact: bool) -> Option<Ordering> {
        if exact && a == b {
            return Some(Ordering::Equal);
        }
        self.cmp(a, b, s)
    }
    fn gex(&mut self, a: f64, b: f64, s: f64, exact: bool) -> bool {
        exact && a == b || self.ge(a, b, s)
    }
    fn lex(&mut self, a: f64, b: f64, s: f64, exact: bool) -> bool {
        exact && a == b || self.le(a, b, s)
    }
    fn gt(&mut self, a: f64, b: f64, s: f64) -> bool {
        self.cmp(a, b, s) == Some(Ordering::Greater)
    }
    fn lt(&mut self, a: f64, b: f64, s: f64) -> bool {
        self.cmp(a, b, s) == Some(Ordering::Less)
    }
    fn ge(&mut self, a: f64, b: f64, s: f64) -> bool {
        matches!(self.cmp(a, b, s), Some(Ordering::Greater | Ordering::Equal))
    }
    fn le(&mut self, a: f64, b: f64, s: f64) -> bool {
        matches!(self.cmp(a, b, s), Some(Ordering::Less | Ordering::Equal))
    }
}

/// Has so few digits that sums and products with another such number are exact.
fn few(x: f64) -> bool {
    x == 0.0 || x.is_finite() && (x.to_bits() | 1 << 52).trailing_zeros() >= 29
}

// ------------------------------------------------------------------------------ calendar
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
/// Start of the period of the given length that contains `t`.
pub fn floor_time(t: u64, iv: u64) -> u64 {
    if iv == MONTH {
        let days = (t / DAY) as i64;
        let (_, _, d) = civil(days);
        return (days - (d as i64 - 1)) as u64 * DAY;
    }
    if iv == WEEK {
        let off = 4 * DAY; // the first Monday of the epoch is day 4
        return (t - off) / WEEK * WEEK + off;
    }
    t / iv * iv
}

// ------------------------------------------------------------------------------ moving averages
pub enum Ma {
    Sma(Sma),
    Ema(Ema),
    Ema2(Ema2),
    Smma(Smma),
    Dema(Dema),
    Alma(Alma),
    Kama(Kama),
}
pub struct Sma {
    w: VecDeque<f64>,
    p: usize,
    sum: f64,
    t: usize,
    v: f64,
}
impl Sma {
    fn new(p: usize) -> Self {
        Sma { w: VecDeque::new(), p, sum: 0.0, t: 0, v: 0.0 }
    }
    fn update(&mut self, x: f64) {
        self.t += 1;
        let last = if self.w.len() == self.p { self.w.pop_front().unwrap() } else { 0.0 };
        self.w.push_back(x);
        self.sum = self.sum - last + x;
        self.v = self.sum / self.p as f64;
    }
}
pub struct Ema {
    a: f64,
    p: usize,
    t: usize,
    v: f64,
}
impl Ema {
    fn new(p: usize, smoothing: Option<f64>) -> Self {
        Ema { a: smoothing.unwrap_or(2.0 / (p as f64 + 1.0)), p, t: 0, v: 0.0 }
    }
    fn update(&mut self, x: f64) {
        self.t += 1;
        self.v = if self.t == 1 || self.p == 1 { x } else { (x - self.v) * self.a + self.v };
    }
    fn mature(&self) -> bool {
        self.t >= self.p
    }
}
pub struct Ema2 {
    a: f64,
    p: usize,
    t: usize,
    sma: Sma,
    v: f64,
}
impl Ema2 {
    fn update(&mut self, x: f64) {
        self.t += 1;
        if self.t <= self.p {
            self.sma.update(x);
        }
        if self.t == self.p {
            self.v = self.sma.v;
        } else if self.t > self.p {
            self.v = (x - self.v) * self.a + self.v;
        }
    }
}
pub struct Smma {
    p: usize,
    t: usize,
    sma: Sma,
    v: f64,
}
impl Smma {
    fn new(p: usize) -> Self {
        Smma { p, t: 0, sma: Sma::new(p), v: 0.0 }
    }
    fn update(&mut self, x: f64) {
        self.t += 1;
        if self.t <= self.p {
            self.sma.update(x);
        }
        if self.t == self.p {
            self.v = self.sma.v;
        } else if self.t > self.p {
            let w = self.p as f64;
            self.v = (self.v * (w - 1.0) + x) / w;
        }
    }
}
pub struct Dema {
    p: usize,
    t: usize,
    e1: Ema,
    e2: Ema,
    v: f64,
}
impl Dema {
    fn update(&mut self, x: f64) {
        self.t += 1;
        self.e1.update(x);
        if self.t <= self.p {
            self.e2.update(x);
        }
        if self.t >= self.p {
            let v = self.e1.v;
            self.e2.update(v);
            if self.t >= 2 * self.p - 1 {
                self.v = self.e1.v * 2.0 - self.e2.v;
            }
        }
    }
}
pub struct Alma {
    p: usize,
    t: usize,
    m: f64,
    s: f64,
    w: Vec<f64>,
    d: VecDeque<f64>,
    v: f64,
}
impl Alma {
    fn new(p: usize, offset: f64, sigma: Option<u64>) -> Self {
        let sigma = sigma.map(|s| s as f64).unwrap_or((p as f64 / 1.5).floor());
        let m = (offset * (p as f64 - 1.0)).floor();
        Alma { p, t: 0, m, s: p as f64 / sigma, w: vec![], d: VecDeque::new(), v: 0.0 }
    }
    fn weights(&self) -> Vec<f64> {
        let (m, s) = (self.m, self.s);
        let tmp: Vec<f64> = (0..self.p).map(|i| (-(i as f64 - m) * (i as f64 - m) / (2.0 * s * s)).exp()).collect();
        let sw: f64 = tmp.iter().sum();
        tmp.iter().map(|v| v / sw).collect()
    }
    fn update(&mut self, x: f64) {
        self.t += 1;
        self.d.push_back(x);
        if self.d.len() > self.p {
            self.d.pop_front();
        }
        if self.t >= self.p {
            if self.w.is_empty() {
                self.w = self.weights();
            }
            self.v = self.d.iter().zip(&self.w).map(|(p, w)| p * w).sum();
        }
    }
}
pub struct Kama {
    p: usize,
    t: usize,
    prices: VecDeque<f64>,
    diffs: VecDeque<f64>,
    v: f64,
}
impl Kama {
    fn update(&mut self, x: f64) {
        self.t += 1;
        if let Some(l) = self.prices.back() {
            let d = (x - l).abs();
            self.diffs.push_back(d);
            if self.diffs.len() > self.p {
                self.diffs.pop_front();
            }
        }
        if self.t == self.p {
            self.v = x;
        } else if self.t > self.p {
            let s: f64 = self.diffs.iter().sum();
            let er = if s == 0.0 { 1.0 } else { (x - self.prices[0]).abs() / s };
            let (f, l) = (2.0 / 3.0, 2.0 / 31.0);
            let sc = f64::powf(er * (f - l) + l, 2.0);
            self.v += sc * (x - self.v);
        }
        self.prices.push_back(x);
        if self.prices.len() > self.p {
            self.prices.pop_front();
        }
    }
}
impl Ma {
    pub fn new(v: &Value) -> Ma {
        let p = v["period"].as_u64().unwrap() as usize;
        match v["type"].as_str().unwrap() {
            "Sma" => Ma::Sma(Sma::new(p)),
            "Ema" => Ma::Ema(Ema::new(p, v["smoothing"].as_f64())),
            "Ema2" => Ma::Ema2(Ema2 { a: 2.0 / (p as f64 + 1.0), p, t: 0, sma: Sma::new(p), v: 0.0 }),
            "Smma" => Ma::Smma(Smma::new(p)),
            "Dema" => Ma::Dema(Dema { p, t: 0, e1: Ema::new(p, Option::None), e2: Ema::new(p, Option::None), v: 0.0 }),
            "Alma" => Ma::Alma(Alma::new(p, v["offset"].as_f64().unwrap(), v["sigma"].as_u64())),
            "Kama" => Ma::Kama(Kama { p, t: 0, prices: VecDeque::new(), diffs: VecDeque::new(), v: 0.0 }),
            o => panic!("moving average {o}"),
        }
    }
    pub fn update(&mut self, x: f64) {
        match self {
            Ma::Sma(m) => m.update(x),
            Ma::Ema(m) => m.update(x),
            Ma::Ema2(m) => m.update(x),
            Ma::Smma(m) => m.update(x),
            Ma::Dema(m) => m.update(x),
            Ma::Alma(m) => m.update(x),
            Ma::Kama(m) => m.update(x),
        }
    }
    /// Whether the value is free of rounding.
    fn exact(&self) -> bool {
        match self {
            Ma::Sma(m) => m.p.is_power_of_two() && few(m.v),
            Ma::Ema(m) => m.a == 1.0 && few(m.v),
            Ma::Smma(m) => m.p == 1 && few(m.v),
            _ => false,
        }
    }
    pub fn v(&self) -> f64 {
        match self {
            Ma::Sma(m) => m.v,
            Ma::Ema(m) => m.v,
            Ma::Ema2(m) => m.v,
            Ma::Smma(m) => m.v,
            Ma::Dema(m) => m.v,
            Ma::Alma(m) => m.v,
            Ma::Kama(m) => m.v,
        }
    }
    fn t(&self) -> usize {
        match self {
            Ma::Sma(m) => m.t,
            Ma::Ema(m) => m.t,
            Ma::Ema2(m) => m.t,
            Ma::Smma(m) => m.t,
            Ma::Dema(m) => m.t,
            Ma::Alma(m) => m.t,
            Ma::Kama(m) => m.t,
        }
    }
    pub fn maturity(&self) -> usize {
        match self {
            Ma::Sma(m) => m.p,
            Ma::Ema(m) => m.p,
            Ma::Ema2(m) => m.p,
            Ma::Smma(m) => m.p + 1,
            Ma::Dema(m) => 2 * m.p - 1,
            Ma::Alma(m) => m.p,
            Ma::Kama(m) => m.p + 1,
        }
    }
    pub fn mature(&self) -> bool {
        self.t() >= self.maturity()
    }
}

// ------------------------------------------------------------------------------ oscillators
pub struct Rsi {
    p: usize,
    t: usize,
    up: Smma,
    down: Smma,
    last: f64,
    v: f64,
    hi: f64,
    lo: f64,
}
pub struct Stoch {
    kp: usize,
    t: usize,
    t1: usize,
    t2: usize,
    t3: usize,
    h: VecDeque<f64>,
    l: VecDeque<f64>,
    ks: Sma,
    ds: Sma,
    k: f64,
    hi: f64,
    lo: f64,
}
pub enum Osc {
    Rsi(Rsi),
    Stoch(Stoch),
}
impl Osc {
    pub fn new(v: &Value, kind: &str) -> Osc {
        let u = |k: &str| v[k].as_u64().unwrap() as usize;
        let hi = v["up_threshold"].as_f64().unwrap();
        let lo = v["down_threshold"].as_f64().unwrap();
        match kind {
            "Rsi" => {
                let p = u("period");
                Osc::Rsi(Rsi { p, t: 0, up: Smma::new(p), down: Smma::new(p), last: 0.0, v: 0.0, hi, lo })
            }
            _ => {
                let (kp, ks, ds) = (u("k_period"), u("k_sma_period"), u("d_sma_period"));
                Osc::Stoch(Stoch {
                    kp,
                    t: 0,
                    t1: kp,
                    t2: kp + ks - 1,
                    t3: kp + ks - 1 + ds - 1,
                    h: VecDeque::new(),
                    l: VecDeque::new(),
                    ks: Sma::new(ks),
                    ds: Sma::new(ds),
                    k: 0.0,
                    hi,
                    lo,
                })
            }
        }
    }
    pub fn update(&mut self, c: &Candle) {
        match self {
            Osc::Rsi(r) => {
                r.t += 1;
                if r.t > 1 {
                    let d = c.close - r.last;
                    let (up, down) = if d > 0.0 { (d, 0.0) } else if d < 0.0 { (0.0, r.last - c.close) } else { (0.0, 0.0) };
                    r.up.update(up);
                    r.down.update(down);
                    if r.t > r.p {
                        r.v = if r.down.v == 0.0 {
                            if r.up.v != 0.0 { 100.0 } else { 0.0 }
                        } else {
                            100.0 - (100.0 / (1.0 + r.up.v / r.down.v))
                        };
                    }
                }
                r.last = c.close;
            }
            Osc::Stoch(s) => {
                s.t += 1;
                s.h.push_back(c.high);
                s.l.push_back(c.low);
                if s.h.len() > s.kp {
                    s.h.pop_front();
                    s.l.pop_front();
                }
                if s.t >= s.t1 {
                    let mh = s.h.iter().cloned().fold(f64::MIN, f64::max);
                    let ml = s.l.iter().cloned().fold(f64::MAX, f64::min);
                    let f = if mh == ml { 0.0 } else { 100.0 * (c.close - ml) / (mh - ml) };
                    s.ks.update(f);
                    if s.t >= s.t2 {
                        let v = s.ks.v;
                        s.ds.update(v);
                    }
                    if s.t >= s.t3 {
                        s.k = s.ks.v;
                    }
                }
            }
        }
    }
    pub fn maturity(&self) -> usize {
        match self {
            Osc::Rsi(r) => r.p + 1,
            Osc::Stoch(s) => s.t3,
        }
    }
    pub fn mature(&self) -> bool {
        match self {
            Osc::Rsi(r) => r.t >= r.p + 1,
            Osc::Stoch(s) => s.t >= s.t3,
        }
    }
    fn val(&self) -> f64 {
        match self {
            Osc::Rsi(r) => r.v,
            Osc::Stoch(s) => s.k,
        }
    }
    /// Whether the value is free of rounding.
    fn exact(&self) -> bool {
        match self {
            Osc::Rsi(r) => r.up.v == 0.0 || r.down.v == 0.0,
            Osc::Stoch(s) => s.ks.p == 1 && few(s.k / 100.0),
        }
    }
    fn th(&self) -> (f64, f64) {
        match self {
            Osc::Rsi(r) => (r.hi, r.lo),
            Osc::Stoch(s) => (s.hi, s.lo),
        }
    }
    fn overbought(&self, cx: &mut Cx) -> bool {
        self.mature() && cx.gex(self.val(), self.th().0, 100.0, self.exact())
    }
    fn oversold(&self, cx: &mut Cx) -> bool {
        self.mature() && !cx.gex(self.val(), self.th().1, 100.0, self.exact())
    }
}

// ------------------------------------------------------------------------------ strategies
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Adv {
    None,
    Long,
    Short,
    Liq,
}
use Adv::*;

struct MidTrend {
    ignore: bool,
    first: Option<Adv>,
    passed: bool,
}
impl MidTrend {
    fn update(&mut self, v: Adv) -> Adv {
        if !self.ignore || self.passed {
            return v;
        }
        match self.first {
            Option::None => {
                self.first = Some(v);
                None
            }
            Some(f) if f != v => {
                self.passed = true;
                v
            }
            _ => None,
        }
    }
}
struct Persist {
    level: u64,
    age: u64,
    cand: Adv,
}
impl Persist {
    fn update(&mut self, v: Adv) -> Adv {
        if self.level == 0 {
            return v;
        }
        if v != self.cand {
            self.cand = v;
            self.age = 0;
        }
        let r = if self.age >= self.level { v } else { None };
        self.age += 1;
        r
    }
}
fn combine(a: Adv, b: Adv) -> Adv {
    if a == None || b == None {
        None
    } else if a == b {
        a
    } else {
        Liq
    }
}

pub enum Rule {
    DoubleMA { s: Ma, l: Ma },
    DoubleMA2 { s: Ma, l: Ma, neg: f64, pos: f64 },
    DoubleMAStoch { dma: Box<Strat>, st: Osc },
    FourWeek { period: usize, ma: Ma, prices: VecDeque<f64>, t: usize, t1: usize },
    Macd { s: Ema, l: Ema, g: Ema, mat: usize, v: f64 },
    SingleMA { ma: Ma, prev: f64, t: usize },
    TripleMA { s: Ma, m: Ma, l: Ma },
    SigOsc { sig: Box<Strat>, osc: Osc, enforce: bool, mid: MidT, per: PerT },
    Sig { sig: Box<Strat>, mid: MidT, per: PerT, buf: Buffer },
}
pub struct MidT(MidTrend, usize);
pub struct PerT(Persist, usize);

pub struct Buffer {
    iv: u64,
    bi: u64,
    on: bool,
    cur: Option<Candle>,
    /// Set when the feed leaves out so much that two coarse candles would end at once.
    pub overrun: bool,
    /// Coarse candles handed on so far.
    pub emitted: usize,
}
impl Buffer {
    pub fn new(iv: u64, bi: Option<u64>) -> Self {
        let bi = bi.unwrap_or(iv);
        Buffer { iv, bi, on: bi > iv, cur: Option::None, overrun: false, emitted: 0 }
    }
    pub fn push(&mut self, c: &Candle) -> Option<Candle> {
        if !self.on {
            self.emitted += 1;
            return Some(*c);
        }
        let b = floor_time(c.time, self.bi);
        let mut out = Option::None;
        match &mut self.cur {
            Some(k) if k.time == b => {
                k.high = k.high.max(c.high);
                k.low = k.low.min(c.low);
                k.close = c.close;
                k.volume += c.volume;
            }
            _ => {
                out = self.cur.take();
                self.cur = Some(Candle { time: b, ..*c });
            }
        }
        if floor_time(c.time + self.iv, self.bi) != b {
            if out.is_some() {
                self.overrun = true;
            } else {
                out = self.cur.take();
            }
        }
        if out.is_some() {
            self.emitted += 1;
        }
        out
    }
}

pub struct Strat {
    r: Rule,
    pub advice: Adv,
}
impl Strat {
    pub fn new(v: &Value, interval: u64) -> Strat {
        let u = |k: &str| v[k].as_u64().unwrap() as usize;
        let f = |k: &str| v[k].as_f64().unwrap();
        let mid = || {
            let p = v["mid_trend_policy"].as_str().unwrap();
            MidT(MidTrend { ignore: p == "Ignore", first: Option::None, passed: false }, if p == "Current" { 1 } else { 2 })
        };
        let per = || {
            let l = v["persistence"].as_u64().unwrap_or(0);
            PerT(Persist { level: l, age: 0, cand: None }, l as usize + 1)
        };
        let r = match v["type"].as_str().unwrap() {
            "DoubleMA" => Rule::DoubleMA { s: Ma::new(&v["mas"][0]), l: Ma::new(&v["mas"][1]) },
            "DoubleMA2" => Rule::DoubleMA2 {
                s: Ma::new(&v["mas"][0]),
                l: Ma::new(&v["mas"][1]),
                neg: f("neg_threshold"),
                pos: f("pos_threshold"),
            },
            "DoubleMAStoch" => {
                let mut d = v["double_ma"].clone();
                d["type"] = "DoubleMA".into();
                Rule::DoubleMAStoch { dma: Box::new(Strat::new(&d, interval)), st: Osc::new(&v["stoch"], "Stoch") }
            }
            "FourWeekRule" => {
                let ma = Ma::new(&v["ma"]);
                let p = u("period");
                let t1 = (p + 1).max(ma.maturity());
                Rule::FourWeek { period: p, ma, prices: VecDeque::new(), t: 0, t1 }
            }
            "Macd" => {
                let s = v["periods"][0].as_u64().unwrap() as usize;
                let l = v["periods"][1].as_u64().unwrap() as usize;
                let g = u("signal_period");
                let (a, b) = if s == 12 && l == 26 { (Some(0.15), Some(0.075)) } else { (Option::None, Option::None) };
                Rule::Macd { s: Ema::new(s, a), l: Ema::new(l, b), g: Ema::new(g, Option::None), mat: s.max(l) + g - 1, v: 0.0 }
            }
            "SingleMA" => Rule::SingleMA { ma: Ma::new(&v["ma"]), prev: 0.0, t: 0 },
            "TripleMA" => {
                Rule::TripleMA { s: Ma::new(&v["mas"][0]), m: Ma::new(&v["mas"][1]), l: Ma::new(&v["mas"][2]) }
            }
            "SigOsc" => Rule::SigOsc {
                sig: Box::new(Strat::new(&v["sig"], interval)),
                osc: Osc::new(&v["osc"], v["osc"]["type"].as_str().unwrap()),
                enforce: v["osc_filter"] == "Enforce",
                mid: mid(),
                per: per(),
            },
            "Sig" => Rule::Sig {
                sig: Box::new(Strat::new(&v["sig"], interval)),
                mid: mid(),
                per: per(),
                buf: Buffer::new(interval, v["buffer_interval"].as_u64()),
            },
            o => panic!("strategy {o}"),
        };
        Strat { r, advice: None }
    }
    /// Number of (coarse) candles before which no advice may come.
    pub fn maturity(&self) -> usize {
        match &self.r {
            Rule::DoubleMA { s, l } | Rule::DoubleMA2 { s, l, .. } => s.maturity().max(l.maturity()),
            Rule::DoubleMAStoch { dma, st } => dma.maturity().max(st.maturity()),
            Rule::FourWeek { t1, .. } => *t1,
            Rule::Macd { mat, .. } => *mat,
            Rule::SingleMA { ma, .. } => ma.maturity() + 1,
            Rule::TripleMA { s, m, l } => s.maturity().max(m.maturity()).max(l.maturity()),
            Rule::SigOsc { sig, osc, .. } => sig.maturity().max(osc.maturity()),
            Rule::Sig { sig, .. } => sig.maturity(),
        }
    }
    /// The same including the persistence filter, which withholds the advice that long.
    pub fn warmup(&self) -> usize {
        match &self.r {
            Rule::SigOsc { mid, per, .. } | Rule::Sig { mid, per, .. } => self.maturity() + (if mid.0.ignore { mid.1 } else { 1 }).max(per.1) - 1,
            _ => self.maturity(),
        }
    }
    fn mature(&self) -> bool {
        match &self.r {
            Rule::DoubleMA { s, l } | Rule::DoubleMA2 { s, l, .. } => s.mature() && l.mature(),
            Rule::DoubleMAStoch { dma, st } => dma.mature() && st.mature(),
            Rule::FourWeek { t, t1, .. } => t >= t1,
            Rule::Macd { g, .. } => g.mature(),
            Rule::SingleMA { ma, t, .. } => *t >= ma.maturity() + 1,
            Rule::TripleMA { s, m, l } => s.mature() && m.mature() && l.mature(),
            _ => true,
        }
    }
    pub fn buffer(&self) -> Option<&Buffer> {
        match &self.r {
            Rule::Sig { buf, .. } => Some(buf),
            _ => Option::None,
        }
    }
    pub fn update(&mut self, c: &Candle, cx: &mut Cx) {
        let x = c.close;
        let prev = self.advice;
        match &mut self.r {
            Rule::DoubleMA { s, l } => {
                s.update(x);
                l.update(x);
                if s.mature() && l.mature() {
                    match cx.cmpx(s.v(), l.v(), x, s.exact() && l.exact()) {
                        Some(Ordering::Greater) => self.advice = Long,
                        Some(Ordering::Less) => self.advice = Short,
                        _ => {}
                    }
                }
            }
            Rule::DoubleMA2 { s, l, neg, pos } => {
                s.update(x);
                l.update(x);
                if s.mature() && l.mature() {
                    let d = 100.0 * (s.v() - l.v()) / ((s.v() + l.v()) / 2.0);
                    if cx.gt(d, *pos, 100.0) {
                        self.advice = Long;
                    } else if cx.lt(d, *neg, 100.0) {
                        self.advice = Short;
                    }
                }
            }
            Rule::DoubleMAStoch { dma, st } => {
                dma.update(c, cx);
                st.update(c);
                if dma.mature() && st.mature() {
                    let m = dma.advice;
                    if (self.advice == Long && (m == Short || st.overbought(cx)))
                        || (self.advice == Short && (m == Long || st.oversold(cx)))
                    {
                        self.advice = Liq;
                    }
                    if self.advice != Long && self.advice != Short {
                        if m == Long && !cx.gex(st.val(), 50.0, 100.0, st.exact()) {
                            self.advice = Long;
                        } else if m == Short && cx.gex(st.val(), 50.0, 100.0, st.exact()) {
                            self.advice = Short;
                        }
                    }
                }
            }
            Rule::FourWeek { period, ma, prices, t, t1 } => {
                *t += 1;
                ma.update(x);
                if t >= t1 {
                    let hi = prices.iter().cloned().fold(f64::MIN, f64::max);
                    let lo = prices.iter().cloned().fold(f64::MAX, f64::min);
                    if x >= hi {
                        self.advice = Long;
                    } else if x <= lo {
                        self.advice = Short;
                    } else if (prev == Long && cx.lex(x, ma.v(), x, ma.exact())) || (prev == Short && cx.gex(x, ma.v(), x, ma.exact())) {
                        self.advice = Liq;
                    }
                }
                prices.push_back(x);
                if prices.len() > *period {
                    prices.pop_front();
                }
            }
            Rule::Macd { s, l, g, v, .. } => {
                s.update(x);
                l.update(x);
                if s.mature() && l.mature() {
                    *v = s.v - l.v;
                    g.update(*v);
                }
                if g.mature() {
                    self.advice = if cx.gt(*v, g.v, x) { Long } else { Short };
                }
            }
            Rule::SingleMA { ma, prev, t } => {
                *t += 1;
                ma.update(x);
                if *t >= ma.maturity() + 1 {
                    let a = cx.cmpx(x, ma.v(), x, ma.exact());
                    let b = cx.cmpx(ma.v(), *prev, x, ma.exact());
                    if a == Some(Ordering::Greater) && b == Some(Ordering::Greater) {
                        self.advice = Long;
                    } else if a == Some(Ordering::Less) && b == Some(Ordering::Less) {
                        self.advice = Short;
                    }
                }
                if ma.mature() {
                    *prev = ma.v();
                }
            }
            Rule::TripleMA { s, m, l } => {
                s.update(x);
                m.update(x);
                l.update(x);
                if s.mature() && m.mature() && l.mature() {
                    let sm = cx.cmpx(s.v(), m.v(), x, s.exact() && m.exact());
                    let ml = cx.cmpx(m.v(), l.v(), x, m.exact() && l.exact());
                    let sl = cx.cmpx(s.v(), l.v(), x, s.exact() && l.exact());
                    const G: Option<Ordering> = Some(Ordering::Greater);
                    const L: Option<Ordering> = Some(Ordering::Less);
                    if sm == G && ml == G {
                        self.advice = Long;
                    } else if sm == L && ml == L {
                        self.advice = Short;
                    } else if (prev == Short && sm == G && sl == G) || (prev == Long && sm == L && sl == L) {
                        self.advice = Liq;
                    }
                }
            }
            Rule::SigOsc { sig, osc, enforce, mid, per } => {
                sig.update(c, cx);
                osc.update(c);
                if sig.mature() && osc.mature() {
                    let a = match (sig.advice, *enforce) {
                        (Long, true) => if osc.oversold(cx) { Long } else { Liq },
                        (Short, true) => if osc.overbought(cx) { Short } else { Liq },
                        (Long, false) => if osc.overbought(cx) { Liq } else { Long },
                        (Short, false) => if osc.oversold(cx) { Liq } else { Short },
                        (o, _) => o,
                    };
                    self.advice = combine(mid.0.update(a), per.0.update(a));
                }
            }
            Rule::Sig { sig, mid, per, buf } => {
                if let Some(k) = buf.push(c) {
                    sig.update(&k, cx);
                    if sig.mature() {
                        self.advice = combine(mid.0.update(sig.advice), per.0.update(sig.advice));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------ exits
pub enum Stop {
    Noop,
    Basic { up: f64, down: f64 },
    Trail { up: f64, down: f64 },
    Both(Box<Stop>, Box<Stop>),
    Legacy { th: f64, trail: bool },
}
impl Stop {
    pub fn new(v: &Value) -> Stop {
        let f = |k: &str| v[k].as_f64().unwrap();
        match v["type"].as_str().unwrap() {
            "Noop" => Stop::Noop,
            "Basic" => Stop::Basic { up: f("up_threshold"), down: f("down_threshold") },
            "Trailing" => Stop::Trail { up: f("up_threshold"), down: f("down_threshold") },
            "BasicPlusTrailing" => {
                let g = |k: &str, l: &str| v[k][l].as_f64().unwrap();
                Stop::Both(
                    Box::new(Stop::Basic { up: g("basic", "up_threshold"), down: g("basic", "down_threshold") }),
                    Box::new(Stop::Trail { up: g("trailing", "up_threshold"), down: g("trailing", "down_threshold") }),
                )
            }
            "Legacy" => Stop::Legacy { th: f("threshold"), trail: v["trail"].as_bool().unwrap() },
            o => panic!("stop loss {o}"),
        }
    }
    /// `open` is the close at opening, `hi` and `lo` the extreme closes since then.
    fn hit(&self, long: bool, close: f64, open: f64, hi: f64, lo: f64, cx: &mut Cx) -> bool {
        match self {
            Stop::Noop => false,
            Stop::Basic { up, down } => below_or_above(long, close, open, *up, *down, cx),
            Stop::Trail { up, down } => below_or_above(long, close, if long { hi } else { lo }, *up, *down, cx),
            Stop::Both(a, b) => a.hit(long, close, open, hi, lo, cx) | b.hit(long, close, open, hi, lo, cx),
            Stop::Legacy { th, trail } => {
                let base = match (*trail, long) {
                    (false, _) => open,
                    (true, true) => hi,
                    (true, false) => lo,
                };
                *th > 0.0 && below_or_above(long, close, base, *th, *th, cx)
            }
        }
    }
}
/// Whether the price has fallen by `up` (long) or risen by `down` (short) from the base.
fn below_or_above(long: bool, close: f64, base: f64, up: f64, down: f64, cx: &mut Cx) -> bool {
    let f = if long { 1.0 - up } else { 1.0 + down };
    let exact = few(close) && few(base) && few(f);
    if long { cx.lex(close, base * f, close, exact) } else { cx.gex(close, base * f, close, exact) }
}
struct Adx {
    p: usize,
    t: usize,
    per: f64,
    up: f64,
    down: f64,
    pv: f64,
    mv: f64,
    ph: f64,
    pl: f64,
    smma: Smma,
    dx: f64,
    v: f64,
}
impl Adx {
    fn update(&mut self, h: f64, l: f64, cx: &mut Cx) {
        self.t += 1;
        let mut up = h - self.ph;
        let mut down = self.pl - l;
        if up < 0.0 {
            up = 0.0;
        } else if up > down {
            down = 0.0;
        }
        if down < 0.0 {
            down = 0.0;
        } else if down > up {
            up = 0.0;
        }
        if self.t >= 2 && self.t < self.p + 1 {
            self.up += up;
            self.down += down;
        }
        if self.t == self.p {
            self.pv = self.up;
            self.mv = self.down;
        } else if self.t > self.p {
            self.up = self.up * self.per + up;
            self.down = self.down * self.per + down;
            self.pv = self.up;
            self.mv = self.down;
        }
        self.ph = h;
        self.pl = l;
        if self.t >= self.p {
            let sum = self.pv + self.mv;
            self.dx = if sum == 0.0 { 0.0 } else { (self.pv - self.mv).abs() / sum * 100.0 };
            // Whether a difference this small is one decides what the average sees.
            if self.dx != 0.0 && self.dx < 1e-9 && cx.cmp(self.pv, self.mv, 0.0) == Some(Ordering::Equal) {
                self.dx = 0.0;
            }
        }
        self.v = if self.dx == 0.0 {
            0.0
        } else {
            let d = self.dx;
            self.smma.update(d);
            self.smma.v
        };
    }
}
pub struct Trend {
    u: (f64, f64),
    d: (f64, f64),
    lock: bool,
    easing: String,
    adx: Adx,
    fu: f64,
    fd: f64,
}
pub enum Take {
    Noop,
    Basic { up: f64, down: f64 },
    Legacy { th: f64 },
    Trending(Trend),
}
impl Take {
    pub fn new(v: &Value) -> Take {
        let f = |k: &str| v[k].as_f64().unwrap();
        match v["type"].as_str().unwrap() {
            "Noop" => Take::Noop,
            "Basic" => Take::Basic { up: f("up_threshold"), down: f("down_threshold") },
            "Legacy" => Take::Legacy { th: f("threshold") },
            "Trending" => {
                let p = v["period"].as_u64().unwrap() as usize;
                let pr = |k: &str| (v[k][0].as_f64().unwrap(), v[k][1].as_f64().unwrap());
                Take::Trending(Trend {
                    u: pr("up_thresholds"),
                    d: pr("down_thresholds"),
                    lock: v["lock_threshold"].as_bool().unwrap(),
                    easing: v["easing"].as_str().unwrap().into(),
                    adx: Adx {
                        p,
                        t: 0,
                        per: (p as f64 - 1.0) / p as f64,
                        up: 0.0,
                        down: 0.0,
                        pv: 0.0,
                        mv: 0.0,
                        ph: 0.0,
                        pl: 0.0,
                        smma: Smma::new(p),
                        dx: 0.0,
                        v: 0.0,
                    },
                    fu: 0.0,
                    fd: 0.0,
                })
            }
            o => panic!("take profit {o}"),
        }
    }
    fn update(&mut self, c: &Candle, cx: &mut Cx) {
        if let Take::Trending(t) = self {
            t.adx.update(c.high, c.low, cx);
            if !t.lock {
                t.set();
            }
        }
    }
    fn clear(&mut self) {
        if let Take::Trending(t) = self {
            if t.lock {
                t.set();
            }
        }
    }
    fn hit(&self, long: bool, close: f64, open: f64, cx: &mut Cx) -> bool {
        let s = close;
        match self {
            Take::Noop => false,
            Take::Basic { up, down } => below_or_above(!long, close, open, *down, *up, cx),
            Take::Legacy { th } => *th > 0.0 && below_or_above(!long, close, open, *th, *th, cx),
            Take::Trending(t) => {
                let f = if long { t.fu } else { t.fd };
                if f.is_nan() {
                    cx.ties.push(cx.i);
                    return false;
                }
                if long { cx.ge(close, open * f, s) } else { cx.le(close, open * f, s) }
            }
        }
    }
}
impl Trend {
    fn set(&mut self) {
        let p = ease(self.adx.v / 100.0, &self.easing);
        let lerp = |a: f64, b: f64| p * a + (1.0 - p) * b;
        self.fu = 1.0 + lerp(self.u.0, self.u.1);
        self.fd = 1.0 - lerp(self.d.0, self.d.1);
    }
}

pub const EASINGS: [&str; 31] = [
    "Linear", "QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn", "QuartOut", "QuartInout",
    "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut", "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn",
    "ExpoOut", "ExpoInout", "ElasticIn", "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn",
    "BounceOut", "BounceInout",
];
pub fn ease(t: f64, name: &str) -> f64 {
    use std::f64::consts::{FRAC_PI_2, PI};
    match name {
        "Linear" => t,
        "QuadIn" => t * t,
        "QuadOut" => -t * (t - 2.0),
        "QuadInout" => if t < 0.5 { 2.0 * t * t } else { (-2.0 * t * t) + (4.0 * t) - 1.0 },
        "CubicIn" => t * t * t,
        "CubicOut" => { let f = t - 1.0; f * f * f + 1.0 }
        "CubicInout" => if t < 0.5 { 4.0 * t * t * t } else { let f = 2.0 * t - 2.0; 0.5 * f * f * f + 1.0 },
        "QuartIn" => t * t * t * t,
        "QuartOut" => { let f = t - 1.0; f * f * f * (1.0 - t) + 1.0 }
        "QuartInout" => if t < 0.5 { 8.0 * t * t * t * t } else { let f = t - 1.0; -8.0 * f * f * f * f + 1.0 },
        "QuintIn" => t * t * t * t * t,
        "QuintOut" => { let f = t - 1.0; f * f * f * f * f + 1.0 }
        "QuintInout" => if t < 0.5 { 16.0 * t * t * t * t * t } else { let f = 2.0 * t - 2.0; 0.5 * f * f * f * f * f + 1.0 },
        "SineIn" => ((t - 1.0) * FRAC_PI_2).sin() + 1.0,
        "SineOut" => (t * FRAC_PI_2).sin(),
        "SineInout" => 0.5 * (1.0 - (t * PI).cos()),
        "CircIn" => 1.0 - (1.0 - t * t).sqrt(),
        "CircOut" => ((2.0 - t) * t).sqrt(),
        "CircInout" => if t < 0.5 { 0.5 * (1.0 - (1.0 - 4.0 * t * t).sqrt()) } else { 0.5 * ((-(2.0 * t - 3.0) * (2.0 * t - 1.0)).sqrt() + 1.0) },
        "ExpoIn" => if t == 0.0 { 0.0 } else { 2f64.powf(10.0 * (t - 1.0)) },
        "ExpoOut" => if t == 1.0 { 1.0 } else { 1.0 - 2f64.powf(-10.0 * t) },
        "ExpoInout" => if t == 0.0 { 0.0 } else if t == 1.0 { 1.0 } else if t < 0.5 { 0.5 * 2f64.powf(20.0 * t - 10.0) } else { -0.5 * 2f64.powf(-20.0 * t + 10.0) + 1.0 },
        "ElasticIn" => (13.0 * FRAC_PI_2 * t).sin() * 2f64.powf(10.0 * (t - 1.0)),
        "ElasticOut" => (-13.0 * FRAC_PI_2 * (t + 1.0)).sin() * 2f64.powf(-10.0 * t) + 1.0,
        "ElasticInout" => if t < 0.5 {
            0.5 * (13.0 * FRAC_PI_2 * 2.0 * t).sin() * 2f64.powf(10.0 * (2.0 * t - 1.0))
        } else {
            0.5 * ((-13.0 * FRAC_PI_2 * 2.0 * t).sin() * 2f64.powf(-10.0 * (2.0 * t - 1.0)) + 2.0)
        },
        "BackIn" => t * t * t - t * (t * PI).sin(),
        "BackOut" => { let f = 1.0 - t; 1.0 - f * f * f + f * (f * PI).sin() }
        "BackInout" => if t < 0.5 {
            let f = 2.0 * t;
            0.5 * (f * f * f - f * (f * PI).sin())
        } else {
            let f = 2.0 - 2.0 * t;
            0.5 * (1.0 - (f * f * f - f * (f * PI).sin())) + 0.5
        },
        "BounceIn" => 1.0 - bounce(1.0 - t),
        "BounceOut" => bounce(t),
        "BounceInout" => if t < 0.5 { 0.5 * (1.0 - bounce(1.0 - t * 2.0)) } else { 0.5 * bounce(t * 2.0 - 1.0) + 0.5 },
        o => panic!("easing {o}"),
    }
}
fn bounce(t: f64) -> f64 {
    if t < 4.0 / 11.0 {
        121.0 / 16.0 * t * t
    } else if t < 8.0 / 11.0 {
        363.0 / 40.0 * t * t - 99.0 / 10.0 * t + 17.0 / 5.0
    } else if t < 9.0 / 10.0 {
        4356.0 / 361.0 * t * t - 35442.0 / 1805.0 * t + 16061.0 / 1805.0
    } else {
        54.0 / 5.0 * t * t - 513.0 / 25.0 * t + 268.0 / 25.0
    }
}

// ------------------------------------------------------------------------------ trading
#[derive(Clone, Debug)]
pub struct Pos {
    pub long: bool,
    pub open_i: usize,
    pub close_i: usize,
    pub open_time: u64,
    pub close_time: u64,
    pub cost: f64,
    pub gain: f64,
    pub base_gain: f64,
    pub base_cost: f64,
    pub reason: &'static str,
    /// Permitted deviation of cost and gain, from roundings that hang on rounding noise.
    pub tol: f64,
    pub borrowed: f64,
}
#[derive(Debug, Default)]
pub struct Out {
    pub pos: Vec<Pos>,
    pub start: u64,
    pub end: u64,
    /// Candle at which trading stopped because the balance buys nothing any more.
    pub stopped: Option<usize>,
    pub ties: Vec<usize>,
    /// Candle at which the feed left out too much for the coarse candles.
    pub overrun: Option<usize>,
    /// Candle number (from 0) at which a position may open at the earliest.
    pub warm: Option<usize>,
    pub coarse: usize,
}
struct Soft {
    tol: f64,
}
fn near_int(x: f64) -> bool {
    (x - x.round()).abs() <= 1e-9 * x.abs().max(1.0)
}
fn near_half(x: f64) -> bool {
    let f = x - x.floor();
    (f - 0.5).abs() <= 1e-9 * x.abs().max(1.0)
}
fn round_down(v: f64, p: u32, s: &mut Soft, unit: f64) -> f64 {
    let k = 10f64.powi(p as i32);
    if near_int(v * k) {
        s.tol += unit / k;
    }
    (v * k).floor() / k
}
fn round_half_up(v: f64, p: u32, s: &mut Soft, unit: f64) -> f64 {
    let k = 10f64.powi(p as i32);
    if near_half(v * k) {
        s.tol += unit / k;
    }
    (v * k).round() / k
}
fn size_down(f: &Filters, mut v: f64, s: &mut Soft, price: f64, cx: &mut Cx) -> f64 {
    if cx.lt(v, f.size.min, v) {
        return 0.0;
    }
    if f.size.max > 0.0 {
        v = v.min(f.size.max);
    }
    if f.size.step > 0.0 {
        if near_int(v / f.size.step) {
            s.tol += f.size.step * price;
        }
        v = (v / f.size.step).floor() * f.size.step;
    }
    v
}

pub struct Input<'a> {
    pub candles: &'a [Candle],
    pub fees: &'a Fees,
    pub filters: &'a Filters,
    pub borrow: (u64, f64, f64), // interest interval, rate, limit
    pub quote: f64,
}

pub fn trade(params: &Value, inp: &Input, force: HashMap<usize, Ordering>) -> Out {
    let iv = params["trader"]["interval"].as_u64().unwrap();
    let mut cx = Cx { force, ..Default::default() };
    let mut out = Out::default();
    let n = inp.candles.len();
    (out.start, out.end) = if n == 0 { (0, 0) } else { (inp.candles[0].time, inp.candles[n - 1].time + iv) };
    let mut strat = Strat::new(&params["strategy"], iv);
    let stop = Stop::new(&params["stop_loss"]);
    let mut take = Take::new(&params["take_profit"]);
    let mat = strat.warmup();
    let mut prev = None;
    let mut quote = inp.quote;
    let mut soft = Soft { tol: 0.0 };
    struct Open {
        long: bool,
        i: usize,
        time: u64,
        cost: f64,   // committed
        size: f64,   // bought, or borrowed
        fee: f64,    // in base (long) or quote (short)
        quote: f64,
        tol: f64,
    }
    let mut open: Option<Open> = Option::None;
    let (mut at, mut hi, mut lo) = (0.0, 0.0, f64::MAX);
    let mut last: Option<usize> = Option::None;
    let f = inp.filters;
    let taker = inp.fees.taker;

    #[allow(unused_assignments)]
    macro_rules! close {
        ($i:expr, $reason:expr) => {{
            let c = &inp.candles[$i];
            let (price, time) = (c.close, c.time + iv);
            let o = open.take().unwrap();
            let p = if o.long {
                let size = size_down(f, o.size - o.fee, &mut soft, price, &mut cx);
                let q = round_down(price * size, f.quote_precision, &mut soft, 1.0);
                let fee = round_half_up(q * taker, f.quote_precision, &mut soft, 1.0);
                quote += q - fee;
                Pos { long: true, open_i: o.i, close_i: $i, open_time: o.time, close_time: time, cost: o.cost, gain: q - fee,
                    base_gain: o.size - o.fee, base_cost: size, reason: $reason, tol: soft.tol.max(o.tol), borrowed: 0.0 }
            } else {
                let (ii, rate, _) = inp.borrow;
                let periods = (time - o.time).div_ceil(ii);
                let interest = round_half_up(o.size * periods as f64 * rate, f.base_precision, &mut soft, price);
                let mut size = o.size + interest;
                let fee = round_half_up(size * taker, f.base_precision, &mut soft, price);
                size += fee;
                let q = round_down(price * size, f.quote_precision, &mut soft, 1.0);
                quote -= q;
                Pos { long: false, open_i: o.i, close_i: $i, open_time: o.time, close_time: time, cost: o.cost,
                    gain: o.quote - o.fee + o.cost - q, base_gain: o.size, base_cost: o.size, reason: $reason, tol: soft.tol.max(o.tol), borrowed: o.size }
            };
            soft.tol *= 1.5;
            out.pos.push(p);
        }};
    }

    for (i, c) in inp.candles.iter().enumerate() {
        cx.i = i;
        take.update(c, &mut cx);
        strat.update(c, &mut cx);
        if let Some(b) = strat.buffer() {
            if b.overrun && out.overrun.is_none() {
                out.overrun = Some(i);
            }
            out.coarse = b.emitted;
            if b.emitted >= mat && out.warm.is_none() {
                out.warm = Some(i);
            }
        } else if i + 1 >= mat && out.warm.is_none() {
            out.warm = Some(i);
        }
        let a = strat.advice;
        let advice = if a == None || a == prev {
            None
        } else {
            prev = a;
            a
        };
        hi = f64::max(hi, c.close);
        lo = f64::min(lo, c.close);
        if let Some(o) = &open {
            let against = if o.long { Short } else { Long };
            if advice == against || advice == Liq {
                close!(i, "Strategy");
            } else if stop.hit(o.long, c.close, at, hi, lo, &mut cx) {
                close!(i, "StopLoss");
            } else if take.hit(o.long, c.close, at, &mut cx) {
                close!(i, "TakeProfit");
            }
        }
        if open.is_none() {
            if advice == Long || advice == Short {
                let price = c.close;
                let size = size_down(f, quote / price, &mut soft, price, &mut cx);
                if size == 0.0 {
                    out.stopped = Some(i);
                    break;
                }
                let time = c.time + iv;
                if advice == Long {
                    let q = round_down(price * size, f.quote_precision, &mut soft, 1.0);
                    let fee = round_half_up(size * taker, f.base_precision, &mut soft, price);
                    quote -= q;
                    open = Some(Open { long: true, i, time, cost: q, size, fee, quote: q, tol: soft.tol });
                } else {
                    let borrowed = f64::min(size * 1.0, inp.borrow.2);
                    let q = round_down(price * borrowed, f.quote_precision, &mut soft, 1.0);
                    let fee = round_half_up(q * taker, f.quote_precision, &mut soft, 1.0);
                    open = Some(Open { long: false, i, time, cost: quote, size: borrowed, fee, quote: q, tol: soft.tol });
                    quote += q - fee;
                }
            }
            at = c.close;
            hi = c.close;
            lo = c.close;
            take.clear();
        }
        last = Some(i);
    }
    if let (Some(l), true) = (last, open.is_some()) {
        close!(l, "Cancelled");
    }
    out.ties = cx.ties;
    out
}

// ------------------------------------------------------------------------------ statistics
pub fn annualized(duration: u64, v: f64) -> f64 {
    let n = duration as f64 / YEAR;
    if n == 0.0 {
        return 0.0;
    }
    let r = (1.0 + v).powf(1.0 / n) - 1.0;
    if r.is_nan() { 0.0 } else { r }
}

#[derive(Debug, Clone, Copy)]
pub struct Ratios {
    pub ret: f64,
    pub sharpe: f64,
    pub sortino: f64,
    /// A ratio's denominator is zero up to rounding noise, or the value of the holdings is.
    pub soft: bool,
    /// What rounding may make of each of them.
    pub tol: [f64; 3],
}
/// Ratios from the daily value of the holdings. `shift` is the index, in the price table, of the day of the first candle.
pub fn ratios(out: &Out, quote: f64, base_prices: &[f64], quote_prices: &[f64], shift: usize) -> Option<Ratios> {
    let (s, e) = (out.start / DAY * DAY, out.end / DAY * DAY);
    let len = ((e - s) / DAY) as usize;
    if base_prices.len() < shift + len + 1 || quote_prices.len() < shift + len + 1 {
        return Option::None;
    }
    let mut soft = false;
    let (mut b, mut q) = (0.0, quote);
    let mut perf = vec![q * quote_prices[shift]];
    let mut rel = vec![1.0]; // by how much cancellation amplifies rounding
    for d in 0..len {
        let day = s + d as u64 * DAY;
        for p in &out.pos {
            if p.open_time / DAY * DAY == day {
                q -= p.cost;
                b += p.base_gain;
            }
            if p.close_time / DAY * DAY == day {
                b -= p.base_cost;
                q += p.gain;
            }
        }
        let v: f64 = b * base_prices[shift + d + 1] + q * quote_prices[shift + d + 1];
        let scale = (b * base_prices[shift + d + 1]).abs() + (q * quote_prices[shift + d + 1]).abs();
        if v.abs() <= 1e-6 * scale.max(quote * quote_prices[shift]) {
            soft = true;
        }
        perf.push(v);
        rel.push(scale / v.abs());
    }
    let g: Vec<f64> = perf.windows(2).map(|w| (w[1] / w[0]).ln()).collect();
    let mean = g.iter().sum::<f64>() / g.len() as f64;
    let ret = 365.0 * mean;
    let std = |x: &[f64]| {
        let m = x.iter().sum::<f64>() / x.len() as f64;
        (x.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / x.len() as f64).sqrt()
    };
    let tol = [0.0; 3];
    if g.is_empty() || ret.is_nan() {
        return Some(Ratios { ret: 0.0, sharpe: 0.0, sortino: 0.0, soft, tol });
    }
    if !ret.is_finite() {
        return Some(Ratios { ret: 0.0, sharpe: 0.0, sortino: 0.0, soft: true, tol });
    }
    let noise = (0..g.len()).map(|i| 1e-15 * (2.0 + rel[i] + rel[i + 1] + (perf[i] / perf[i + 1]).abs() + g[i].abs())).sum::<f64>() / g.len() as f64;
    let vol = std(&g);
    let neg: Vec<f64> = g.iter().cloned().filter(|v| *v < 0.0).collect();
    let big = g.iter().fold(0f64, |a, v| a.max(v.abs()));
    let down = if neg.is_empty() { 0.0 } else { std(&neg) };
    // Rounding noise must not decide whether a risk is zero.
    let tiny = 1e-12 + 1e-9 * big;
    if vol < tiny && ret.abs() > 0.0 || (!neg.is_empty() && down < tiny) || g.iter().any(|v| *v != 0.0 && v.abs() < 1e-13) {
        soft = true;
    }
    if ret != 0.0 && ret.abs() < 1e-10 {
        soft = true;
    }
    let div = |r: f64, d: f64| if r == 0.0 || d == 0.0 { 0.0 } else { r / d };
    let (sharpe, sortino) = (div(ret, SQRT_365 * vol), div(ret, SQRT_365 * down));
    let t = 365.0 * noise;
    let of = |x: f64, d: f64| if d == 0.0 { 0.0 } else { t / (SQRT_365 * d) + x.abs() * noise * 10.0 / d };
    Some(Ratios { ret, sharpe, sortino, soft, tol: [t, of(sharpe, vol), of(sortino, down)] })
}
