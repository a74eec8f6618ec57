//! The other end of the simulated network: callers, the data service, and the faults.
use crate::case::*;
use crate::market::Market;
use crate::proc::{Msg, Opts, Proc};
use crate::rng::{hstr, mix, Rng};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Pending,
    Replied,
    /// The connection ended without a complete reply.
    Dropped,
    Abandoned,
    /// The process died meanwhile.
    Killed,
}
#[derive(Clone, Debug)]
pub struct ReqOut {
    pub end: End,
    pub status: u16,
    pub body: Vec<u8>,
    pub sent: bool,
    pub sent_at: u64,
    pub done_at: u64,
    /// Bytes received after the complete reply, on a connection with no further request.
    pub extra: usize,
    /// Data version in force when it was sent.
    pub version: u64,
    pub malformed: bool,
}
impl ReqOut {
    pub fn json(&self) -> Option<Value> {
        serde_json::from_slice(&self.body).ok()
    }
    pub fn ok(&self) -> bool {
        self.end == End::Replied && self.status == 200
    }
}
#[derive(Clone, Debug)]
pub struct Fetch {
    pub path: String,
    pub body: Value,
    pub at: u64,
    pub inc: u64,
    /// The reply was delivered whole, unmodified.
    pub clean: bool,
    /// Fault applied, as index into the run's list.
    pub fault: Option<usize>,
    pub conn: u64,
    /// What the reply says, if it is delivered whole (kept for the probe only).
    pub text: Option<String>,
    pub status: u16,
}
#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub reqs: Vec<ReqOut>,
    pub fetches: Vec<Fetch>,
    pub stats: Vec<Vec<u64>>,
    pub edges: Vec<u8>,
    pub logs: Vec<u8>,
    pub sched: Vec<Vec<u8>>,
    pub counts: BTreeMap<String, u64>,
    /// Threads, descriptors and bytes held after each wave.
    pub samples: Vec<Vec<u64>>,
    pub vtime: u64,
    /// How it ended: 0 orderly, 3 decision limit, 4 work limit, 5 program exited, 6 program vanished, 7 stuck.
    pub exit: u64,
    pub hash: u64,
}
impl RunOut {
    pub fn n(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
}

#[derive(Debug)]
enum Ev {
    Wave,
    Send(usize),
    Bytes(u64, Vec<u8>),
    Fin(u64),
    Reset(u64),
    Read(u64, u64),
    Up(u64),
    Refused(u64, u64),
    Abandon(usize),
    Env(usize),
    Restart,
    Linger,
    Sample(bool),
    /// The caller of request i, who has got his reply, goes away.
    Leave(u64, usize),
    Horizon,
    Poll,
}
#[derive(Default)]
struct Up {
    buf: Vec<u8>,
    up: bool,
    fin: bool,
    /// Time up to which replies on this connection are already scheduled.
    busy: u64,
    v6: bool,
    pending: usize,
}
#[derive(Default)]
struct Cl {
    buf: Vec<u8>,
    queue: Vec<usize>,
    slow: u64,
    closed: bool,
    busy: u64,
}

pub struct World<'a> {
    run: &'a Run,
    now: u64,
    q: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    up: HashMap<u64, Up>,
    cl: HashMap<u64, Cl>,
    keep: HashMap<u64, u64>,
    next_cl: u64,
    wave: usize,
    acts: Vec<u8>,
    pub out: RunOut,
    alive: bool,
    seen: HashMap<u64, u64>,
    /// Faults that have struck.
    spent: HashSet<usize>,
    finished: bool,
    /// The next wave is due at once.
    turning: bool,
    lingering: bool,
    max_conn: u64,
    kill: Option<u64>,
    deadline: u64,
    refuse: Vec<(u64, u64)>,
    nov6: Option<u64>,
    inc: u64,
    skew: i64,
    want: HashSet<usize>,
}

pub fn http_reply(status: u16, body: &str, close: bool) -> Vec<u8> {
    let reason = match status {
        200 => "OK",
        404 => "Not Found",
        _ => "Status",
    };
    format!(
        "HTTP/1.1 {status} {reason}\r\ncontent-type: application/json\r\n{}content-length: {}\r\n\r\n{body}",
        if close { "connection: close\r\n" } else { "" },
        body.len()
    )
    .into_bytes()
}
fn chunked(status: u16, body: &str, close: bool, r: &mut Rng) -> Vec<u8> {
    let end = if close { "connection: close\r\n" } else { "" };
    let mut v = format!("HTTP/1.1 {status} OK\r\ncontent-type: application/json\r\n{end}transfer-encoding: chunked\r\n\r\n").into_bytes();
    let b = body.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = (1 + r.skew(b.len() as u64)).min((b.len() - i) as u64).max(1) as usize;
        v.extend(format!("{n:x}\r\n").bytes());
        v.extend(&b[i..i + n]);
        v.extend(b"\r\n");
        i += n;
    }
    v.extend(b"0\r\n\r\n");
    v
}
/// An unusual way to say the same.
fn dressed(status: u16, text: &str, close: bool, chunk: bool, r: &mut Rng) -> Vec<u8> {
    let text = match serde_json::from_str::<Value>(text) {
        Ok(mut v) => {
            if r.p(0.5) {
                crate::spell::adorn(r, &mut v);
            }
            if r.p(0.7) {
                crate::spell::json(r, &v)
            } else {
                v.to_string()
            }
        }
        Err(_) => text.to_string(),
    };
    let mut head: Vec<String> = vec![];
    if r.p(0.8) {
        let t = *r.pick(&["application/json", "application/json; charset=utf-8", "text/plain", "APPLICATION/JSON", "application/problem+json"]);
        head.push(format!("content-type: {t}"));
    }
    for (k, x) in [("server", "nginx".to_string()), ("date", "Thu, 19 Nov 2026 05:46:22 GMT".into()), ("x-trace", "0123456789abcdef".repeat(1 + r.skew(200) as usize)), ("set-cookie", "session=1; path=/".into()), ("retry-after", "120".into()), ("cache-control", "max-age=3600, public".into()), ("etag", "\"1\"".into()), ("vary", "*".into())] {
        if r.p(0.25) {
            head.push(format!("{k}: {x}"));
        }
    }
    if close {
        head.push("connection: close".into());
    }
    let bytes = if chunk {
        head.push("transfer-encoding: chunked".into());
        let all = chunked(status, &text, close, r);
        all[find(&all, b"\r\n\r\n").unwrap() + 4..].to_vec()
    } else {
        // (Without a length, the end of the connection is the end of the reply.)
        if !close || r.p(0.5) {
            head.push(format!("content-length: {}", text.len()));
        }
        text.into_bytes()
    };
    r.shuffle(&mut head);
    if r.p(0.4) {
        for h in &mut head {
            let (k, x) = h.split_once(':').unwrap();
            let k: Vec<String> = k.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
            *h = format!("{}:{}", k.join("-"), x.trim());
        }
    }
    let mut v = format!("HTTP/1.1 {status} {}\r\n{}\r\n\r\n", *r.pick(&["OK", "", "Whatever it is"]), head.join("\r\n")).into_bytes();
    v.extend(bytes);
    v
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
/// A complete message at the start of the buffer: (start line, body, total length).
fn http_parse(b: &[u8]) -> Result<Option<(String, Vec<u8>, usize)>, ()> {
    let Some(h) = find(&b[..b.len().min(65_536)], b"\r\n\r\n") else { return Ok(None) };
    let head = String::from_utf8_lossy(&b[..h]).to_string();
    let mut lines = head.lines();
    let first = lines.next().unwrap_or("").to_string();
    let mut len = None;
    let mut chunks = false;
    for l in lines {
        let (k, v) = l.split_once(':').ok_or(())?;
        if k.eq_ignore_ascii_case("content-length") {
            len = Some(v.trim().parse::<usize>().map_err(|_| ())?);
        }
        if k.eq_ignore_ascii_case("transfer-encoding") && v.trim().eq_ignore_ascii_case("chunked") {
            chunks = true;
        }
    }
    let mut p = h + 4;
    if chunks {
        let mut body = vec![];
        loop {
            let Some(e) = find(&b[p..], b"\r\n") else { return Ok(None) };
            let n = usize::from_str_radix(std::str::from_utf8(&b[p..p + e]).map_err(|_| ())?.trim(), 16).map_err(|_| ())?;
            p += e + 2;
            if b.len() < p + n + 2 {
                return Ok(None);
            }
            body.extend(&b[p..p + n]);
            p += n + 2;
            if n == 0 {
                return Ok(Some((first, body, p)));
            }
        }
    }
    let n = len.unwrap_or(0);
    if b.len() < p + n {
        return Ok(None);
    }
    Ok(Some((first, b[p..p + n].to_vec(), p + n)))
}

/// What the data service holds for a fetch: status and body.
pub fn data_reply(m: &Market, path: &str, b: &Value, version: u64) -> (u16, String) {
    let none = || (404, "{\"message\":\"not found\"}".to_string());
    let s = |k: &str| b[k].as_str().unwrap_or("").to_string();
    let u = |k: &str| b[k].as_u64().unwrap_or(0);
    let Some(ex) = m.ex(&s("exchange")) else { return none() };
    match path {
        "/exchange_info" => (200, m.info_json(ex, version)),
        "/candles" | "/candles_fill_missing_with_none" => {
            let Some(sym) = ex.symbols.iter().find(|x| x.name == s("symbol")) else { return none() };
            let (iv, start, end) = (u("interval"), u("start"), u("end"));
            let lib = ex.name.starts_with("lib");
            if iv == 0 || !lib && b["type_"] != "regular" || end < start {
                return none();
            }
            let version = if lib { hstr(version, b["type_"].as_str().unwrap_or("")) } else { version };
            let c = m.candles(&ex.name, sym, iv, start, end, version);
            if path == "/candles" {
                (200, Market::candles_json(&c))
            } else {
                let mut out = vec![];
                let mut it = c.iter().peekable();
                let mut t = start;
                while t + iv <= end {
                    if it.peek().map(|c| c.time) == Some(t) {
                        out.push(Market::candles_json(&[*it.next().unwrap()]).trim_matches(|c| c == '[' || c == ']').to_string());
                    } else {
                        out.push("null".into());
                    }
                    t += iv;
                }
                (200, format!("[{}]", out.join(",")))
            }
        }
        "/prices" => {
            let lib = ex.name.starts_with("lib");
            if !lib && (u("interval") != 86_400_000 || s("target_asset") != "usdt") {
                return none();
            }
            let version = if lib { hstr(mix(version, u("interval")), &s("target_asset")) } else { version };
            let Some(a) = b["assets"].as_array() else { return none() };
            let a: Vec<String> = a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
            (200, m.prices_json(&ex.name, &a, u("start"), u("end"), version))
        }
        "/candle_intervals" => {
            let mut r = Rng::new(hstr(m.seed, &ex.name), 9);
            let mut l: Vec<u64> = [1, 60_000, 300_000, 3_600_000, 86_400_000, 604_800_000, 2_629_746_000, u64::MAX].into_iter().filter(|_| r.p(0.6)).collect();
            r.shuffle(&mut l);
            (200, serde_json::to_string(&l).unwrap())
        }
        _ => none(),
    }
}
/// The JSON text with one of its numbers replaced (0 null, 1 a text) or, in an object, left out (2), or
/// with one of the lists and objects within replaced by null (3). Without any, it is cut short.
pub fn damaged(text: &str, k: u64, how: u8) -> String {
    fn count(v: &Value, whole: bool) -> u64 {
        match v {
            Value::Number(_) => !whole as u64,
            Value::Array(l) => whole as u64 + l.iter().map(|x| count(x, whole)).sum::<u64>(),
            Value::Object(o) => whole as u64 + o.values().map(|x| count(x, whole)).sum::<u64>(),
            _ => 0,
        }
    }
    fn spoil(v: &mut Value, k: &mut u64, how: u8) -> bool {
        if v.is_number() != (how == 3) && !v.is_null() && !v.is_string() && !v.is_boolean() {
            *k = k.wrapping_sub(1);
            if *k == u64::MAX {
                *v = if how == 1 { Value::String(v.to_string()) } else { Value::Null };
                return true;
            }
        }
        match v {
            Value::Array(l) => l.iter_mut().any(|x| spoil(x, k, how)),
            Value::Object(o) => {
                let hit = o.iter_mut().find_map(|(key, x)| {
                    let leaf = x.is_number();
                    spoil(x, k, how).then(|| (key.clone(), leaf))
                });
                if let (Some((key, true)), 2) = (&hit, how) {
                    o.remove(key);
                }
                hit.is_some()
            }
            _ => false,
        }
    }
    let Ok(mut v) = serde_json::from_str::<Value>(text) else { return "{".into() };
    // The whole itself stays.
    let root = (how == 3) as u64;
    let n = count(&v, how == 3) - root;
    if n == 0 {
        return text[..text.len() - 1].into();
    }
    spoil(&mut v, &mut (k % n + root), how);
    v.to_string()
}
/// The body of a request, with what it takes from earlier replies.
pub fn body_of(q: &Req, outs: &[ReqOut]) -> Value {
    let mut b = q.body.clone();
    if let Some(k) = q.seed_from {
        b["seed"] = outs[k].json().map_or(Value::Null, |j| j["seed"].clone());
    }
    if let Some((k, g, h)) = q.chrom_from {
        if let Some(j) = outs[k].json() {
            if let Some(gs) = j["generations"].as_array().filter(|g| !g.is_empty()) {
                if let Some(hs) = gs[g % gs.len()]["hall_of_fame"].as_array().filter(|h| !h.is_empty()) {
                    b["trading"] = hs[h % hs.len()]["individual"]["chromosome"].clone();
                }
            }
        }
    }
    b
}
pub fn matches(f: &Fault, path: &str, b: &Value) -> bool {
    b["exchange"] == f.ex.as_str()
        && f.path == path
        && f.sym.as_ref().map_or(true, |s| b["symbol"] == s.as_str())
        && f.iv.map_or(true, |i| b["interval"] == i)
}
pub fn status_message(ex: &str, path: &str, code: u16) -> String {
    // Short or long, plain or in any script, with whatever JSON, URLs and formats give a meaning to.
    const TAILS: [&str; 8] = ["because \"nobody\" said so. ", "zażółć gęślą jaźń ", "取引所は閉まっています。", "a\\b\tc\nd\r", "{} %s {0} &amp; <b> ", "🙂🙃", "\u{1}\u{7f}\u{feff}\u{2028}", "retry later, "];
    let mut r = Rng::new(hstr(hstr(17, ex), path), code as u64);
    let mut m = format!("no {path} for {ex} today");
    if r.p(0.7) {
        m.push_str(": ");
        let most = if r.p(0.3) { 5000 } else { 300 };
        let upto = r.skew(most) as usize;
        while m.len() < upto {
            m.push_str(TAILS[if r.p(0.8) { r.below(8) as usize } else { 7 }]);
        }
        m.push('.');
    }
    m
}

impl<'a> World<'a> {
    pub fn new(run: &'a Run) -> Self {
        let outs = run
            .reqs
            .iter()
            .map(|_| ReqOut { end: End::Pending, status: 0, body: vec![], sent: false, sent_at: 0, done_at: 0, extra: 0, version: 0, malformed: false })
            .collect();
        World {
            run,
            now: 0,
            q: BTreeMap::new(),
            seq: 0,
            up: HashMap::new(),
            cl: HashMap::new(),
            keep: HashMap::new(),
            next_cl: 1,
            wave: 0,
            acts: vec![],
            out: RunOut { reqs: outs, ..Default::default() },
            alive: false,
            seen: HashMap::new(),
            spent: HashSet::new(),
            finished: false,
            turning: false,
            lingering: false,
            max_conn: 0,
            kill: None,
            deadline: run.horizon,
            refuse: vec![],
            nov6: None,
            inc: 0,
            skew: 0,
            want: HashSet::new(),
        }
    }
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t.max(self.now), self.seq), e);
    }
    fn act(&mut self, t: u64, conn: u64, arg: u64, b: &[u8]) {
        for v in [t, conn, arg, b.len() as u64] {
            self.acts.extend(v.to_le_bytes());
        }
        self.acts.extend(b);
    }
    fn version(&self) -> u64 {
        self.run.version + if self.run.versioned { self.wave as u64 } else { 0 }
    }
    /// Sends bytes in random pieces; the time of the last one.
    fn pieces(&mut self, conn: u64, t0: u64, b: &[u8], n: u64, gap: u64, r: &mut Rng) -> u64 {
        let n = (1 + r.below(n.max(1))).min(b.len() as u64).max(1);
        let mut cuts: Vec<usize> = (1..n).map(|_| r.below(b.len() as u64) as usize).collect();
        cuts.push(b.len());
        cuts.sort();
        let (mut a, mut t) = (0, t0);
        for c in cuts {
            if c > a {
                self.at(t, Ev::Bytes(conn, b[a..c].to_vec()));
                a = c;
                t += if gap > 0 { r.skew(gap) } else { 0 };
            }
        }
        t
    }

    // -------------------------------------------------------------------- data service
    fn up_data(&mut self, conn: u64, b: Vec<u8>) {
        let Some(u) = self.up.get_mut(&conn) else { return };
        u.buf.extend(b);
        if u.fin {
            self.out.n("late request on closed connection");
            self.at(self.now + 10_000, Ev::Reset(conn));
            return;
        }
        loop {
            let u = self.up.get_mut(&conn).unwrap();
            match http_parse(&u.buf) {
                Ok(Some((line, body, n))) => {
                    u.buf.drain(..n);
                    self.serve(conn, &line, &body);
                }
                Ok(None) => break,
                Err(()) => {
                    self.out.n("malformed request to the data service");
                    break;
                }
            }
        }
    }
    fn serve(&mut self, conn: u64, line: &str, body: &[u8]) {
        let path = line.split(' ').nth(1).unwrap_or("").to_string();
        let post = line.starts_with("POST ");
        let b: Value = serde_json::from_slice(body).unwrap_or(Value::Null);
        let (mut status, mut text) = if post { data_reply(&self.run.market, &path, &b, self.version()) } else { (405, "{}".into()) };
        let key = hstr(hstr(self.run.net.seed, &path), &b.to_string());
        let occ = self.seen.entry(key).or_default();
        *occ += 1;
        let mut r = Rng::new(key, *occ);
        let spent = &self.spent;
        let fault = self.run.faults.iter().enumerate().position(|(i, f)| f.waves.map_or(true, |(a, z)| (a..=z).contains(&self.wave)) && matches(f, &path, &b) && !(f.once && spent.contains(&i)));
        self.spent.extend(fault);
        let net = &self.run.net;
        let mut t = self.now + 20_000 + if net.lat > 0 { r.skew(net.lat) } else { 0 };
        let busy = self.up[&conn].busy;
        t = t.max(busy);
        let close = r.p(net.close);
        let mut chunk = r.p(net.chunked);
        let mut cut: Option<(f64, bool)> = None; // share, reset
        let mut garbage = false;
        if let Some(i) = fault {
            let f = &self.run.faults[i];
            let name = match &f.kind {
                FKind::Status(c, k) => {
                    status = *c;
                    text = match k {
                        0 => serde_json::json!({"message": status_message(&f.ex, &path, *c)}).to_string(),
                        1 => String::new(),
                        2 => "Bad gateway, sorry.".into(),
                        4 => text,
                        5 => if path.contains("candle") { "[]".into() } else { "{}".into() },
                        _ => "{\"error\":[1,2]}".into(),
                    };
                    "error status"
                }
                FKind::ResetBefore => {
                    cut = Some((0.0, true));
                    "reset before reply"
                }
                FKind::CloseBefore => {
                    cut = Some((0.0, false));
                    "close before reply"
                }
                FKind::ResetMid(x) => {
                    cut = Some((*x, true));
                    "reset in reply"
                }
                FKind::FinMid(x, ch) => {
                    cut = Some((*x, false));
                    chunk = *ch;
                    "short reply"
                }
                FKind::TruncJson(x) => {
                    let n = ((text.len() as f64 * x) as usize).min(text.len() - 1);
                    text.truncate(n);
                    "cut JSON"
                }
                FKind::BadJson(k) => {
                    text = ["{}", "[]", "null", "[1,2]", "{\"a\":{}}", "[null]", "\"x\"", "[{\"time\":1}]"][*k as usize % 8].into();
                    "wrong JSON"
                }
                FKind::Garbage => {
                    garbage = true;
                    "garbage"
                }
                FKind::Stall(n) => {
                    t += n;
                    "stall"
                }
                FKind::Missing(k) => {
                    let mut v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                    if let Some((at, k)) = k.rsplit_once('/') {
                        v.pointer_mut(&format!("/{at}")).and_then(|v| v.as_object_mut()).and_then(|o| o.remove(k));
                    } else if let Some(o) = v.as_object_mut() {
                        o.remove(k);
                        for (_, x) in o.iter_mut() {
                            if let Some(o) = x.as_object_mut() {
                                o.remove(k);
                            }
                        }
                    }
                    text = v.to_string();
                    "missing entry"
                }
                FKind::Damage(k, how) => {
                    text = damaged(&text, *k, *how);
                    "damaged JSON"
                }
                FKind::ShortPrices(n, asset) => {
                    let mut v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
                    for (a, l) in v.as_object_mut().into_iter().flatten() {
                        if asset.as_ref().map_or(true, |x| x == a) {
                            if let Some(l) = l.as_array_mut() {
                                l.truncate(*n);
                            }
                        }
                    }
                    text = v.to_string();
                    "short price list"
                }
            };
            self.out.n(name);
        }
        let clean = fault.map_or(true, |i| matches!(self.run.faults[i].kind, FKind::Stall(_)));
        self.out.fetches.push(Fetch { path: path.clone(), body: b, at: self.now, inc: self.inc, clean: clean && status == 200, fault, conn, text: if self.run.prog == 1 && cut.is_none() && !garbage { Some(text.clone()) } else { None }, status });
        let net = self.run.net.clone();
        let plain = clean || matches!(self.run.faults[fault.unwrap()].kind, FKind::Status(_, 0));
        let mut bytes = if garbage {
            b"\x16\x03\x01 not http at all\r\n\r\n{}".to_vec()
        } else if plain && r.p(net.dress) {
            self.out.n("unusual reply");
            dressed(status, &text, close, chunk, &mut r)
        } else if chunk {
            chunked(status, &text, close, &mut r)
        } else {
            http_reply(status, &text, close)
        };
        if let Some((x, reset)) = cut {
            let n = ((bytes.len() as f64 * x) as usize).min(bytes.len() - 1);
            bytes.truncate(n);
            let e = if bytes.is_empty() { t } else { self.pieces(conn, t, &bytes, net.frag, net.gap, &mut r) };
            self.at(e + 1000, if reset { Ev::Reset(conn) } else { Ev::Fin(conn) });
            if !reset {
                if let Some(u) = self.up.get_mut(&conn) {
                    u.fin = true;
                }
            }
            return;
        }
        let e = self.pieces(conn, t, &bytes, net.frag, net.gap, &mut r);
        if let Some(u) = self.up.get_mut(&conn) {
            u.busy = e + 1;
        }
        if close || garbage {
            self.at(e + 1000, Ev::Fin(conn));
            if let Some(u) = self.up.get_mut(&conn) {
                u.fin = true;
            }
        }
    }
    fn connect(&mut self, conn: u64, a: u64) {
        self.max_conn = self.max_conn.max(conn);
        let (port, v6) = (a & 0xffff, a >> 20 == 1);
        self.up.insert(conn, Up { v6, ..Default::default() });
        let mut r = Rng::new(self.run.net.seed ^ 0xc0, conn);
        if port != 3030 {
            self.out.n("connection to a wrong port");
            self.at(self.now + 1000, Ev::Refused(conn, 111));
            return;
        }
        if v6 {
            if let Some(d) = self.nov6 {
                self.out.n("IPv6 refused");
                self.at(self.now + d, Ev::Refused(conn, 111));
                return;
            }
        }
        if self.refuse.iter().any(|(a, b)| self.now >= *a && self.now < *b) {
            self.out.n("connection refused");
            let e = [111, 110, 113][r.below(3) as usize];
            let d = if e == 110 { 50 * MS } else { 30_000 };
            self.at(self.now + d, Ev::Refused(conn, e));
            return;
        }
        let d = 10_000 + if self.run.net.lat > 0 { r.skew(self.run.net.lat / 4) } else { 0 };
        self.at(self.now + d, Ev::Up(conn));
    }

    // -------------------------------------------------------------------- callers
    fn request_bytes(&self, i: usize) -> Vec<u8> {
        let q = &self.run.reqs[i];
        let m = if q.method.is_empty() { "POST" } else { &q.method };
        if q.spell > 0 && !q.body.is_null() {
            let mut r = Rng::new(q.spell, 0x5be11);
            let body = match &q.raw {
                Some(s) => s.clone(),
                None => crate::spell::json(&mut r, &body_of(q, &self.out.reqs)),
            };
            return crate::spell::http(&mut r, m, &q.path, &body);
        }
        let body = match &q.raw {
            Some(s) => s.clone(),
            None if q.body.is_null() => String::new(),
            None => body_of(q, &self.out.reqs).to_string(),
        };
        format!(
            "{m} {} HTTP/1.1\r\nhost: localhost:4040\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{body}",
            q.path,
            body.len()
        )
        .into_bytes()
    }
    fn send(&mut self, i: usize) {
        let q = &self.run.reqs[i];
        if !self.alive {
            // The port is closed: the caller tries again.
            self.at(self.now + 50 * MS, Ev::Send(i));
            return;
        }
        let mut conn = q.keep.and_then(|g| self.keep.get(&g).copied()).filter(|c| self.cl.get(c).map_or(false, |c| !c.closed));
        if let Some(c) = conn {
            // One after the other unless pipelined.
            let busy = self.cl[&c].queue.iter().any(|j| self.out.reqs[*j].end == End::Pending);
            if busy && !q.pipeline {
                self.at(self.now + MS, Ev::Send(i));
                return;
            }
        }
        if conn.is_none() {
            let c = self.next_cl;
            self.next_cl += 2;
            self.act(4, c, (q.slow > 0) as u64, &[]);
            self.cl.insert(c, Cl { slow: q.slow, ..Default::default() });
            if q.slow > 0 {
                self.at(self.now + MS, Ev::Read(c, q.slow));
            }
            if let Some(g) = q.keep {
                self.keep.insert(g, c);
            }
            conn = Some(c);
        }
        let conn = conn.unwrap();
        let mut b = self.request_bytes(i);
        if let Some(x) = q.part {
            let n = ((b.len() as f64 * x) as usize).min(b.len() - 1);
            b.truncate(n);
        }
        let o = &mut self.out.reqs[i];
        o.sent = true;
        o.sent_at = self.now;
        o.version = self.run.version + if self.run.versioned { self.wave as u64 } else { 0 };
        let cl = self.cl.get_mut(&conn).unwrap();
        cl.queue.push(i);
        let t0 = self.now.max(cl.busy);
        let mut r = Rng::new(self.run.net.seed ^ 0xc1, i as u64);
        let (frag, fgap, abandon) = (q.frag, q.fgap, q.abandon);
        let e = if b.is_empty() { t0 } else { self.pieces(conn, t0, &b, frag, fgap, &mut r) };
        self.cl.get_mut(&conn).unwrap().busy = e + 1;
        if let Some(a) = abandon {
            self.at(self.now + a, Ev::Abandon(i));
        }
    }
    fn cl_data(&mut self, conn: u64, b: Vec<u8>) {
        let Some(c) = self.cl.get_mut(&conn) else { return };
        c.buf.extend(b);
        loop {
            let c = self.cl.get_mut(&conn).unwrap();
            if c.buf.is_empty() {
                return;
            }
            let Some(i) = c.queue.iter().copied().find(|i| self.out.reqs[*i].end == End::Pending) else {
                let n = c.buf.len();
                if std::env::var("DST_DEBUG").is_ok() {
                    eprintln!("extra: {}", String::from_utf8_lossy(&c.buf));
                }
                c.buf.clear();
                if let Some(i) = c.queue.last() {
                    self.out.reqs[*i].extra += n;
                }
                return;
            };
            match http_parse(&c.buf) {
                Ok(Some((line, body, n))) => {
                    c.buf.drain(..n);
                    let status = line.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
                    let o = &mut self.out.reqs[i];
                    o.status = status;
                    o.body = body;
                    if status >= 100 && status < 200 {
                        continue;
                    }
                    o.malformed = !line.starts_with("HTTP/1.1 ");
                    o.end = End::Replied;
                    o.done_at = self.now;
                    if self.run.sample {
                        self.at(self.now + MS, Ev::Leave(conn, i));
                    }
                    self.progress();
                }
                Ok(None) => return,
                Err(()) => {
                    let o = &mut self.out.reqs[i];
                    o.malformed = true;
                    o.end = End::Dropped;
                    o.done_at = self.now;
                    self.progress();
                    return;
                }
            }
        }
    }
    fn cl_gone(&mut self, conn: u64, how: End) {
        let Some(c) = self.cl.get_mut(&conn) else { return };
        c.closed = true;
        for i in c.queue.clone() {
            let o = &mut self.out.reqs[i];
            if o.end == End::Pending {
                o.end = how;
                o.done_at = self.now;
            }
        }
        self.progress();
    }
    /// Starts the next wave, or ends the run, once nothing is awaited any more.
    fn progress(&mut self) {
        if self.finished || self.lingering || self.turning || self.want.iter().any(|i| self.out.reqs[*i].end == End::Pending) {
            return;
        }
        let last = self.run.reqs.iter().map(|r| r.wave).max().unwrap_or(0);
        if self.run.sample {
            // Longer than any connection or thread is kept idle, and any stall lasts.
            self.turning = true;
            self.want.clear();
            let t = self.now + 250 * SEC;
            self.deadline = self.deadline.max(t + self.run.horizon);
            self.at(t, Ev::Sample(self.wave < last));
            self.wave += 1;
        } else if self.wave < last {
            self.wave += 1;
            self.turning = true;
            self.want.clear();
            self.at(self.now, Ev::Wave);
        } else {
            self.lingering = true;
            self.at(self.now + 20 * MS, Ev::Linger);
        }
    }
    fn wave_start(&mut self) {
        let w = self.wave;
        self.turning = false;
        let mut last = self.now;
        for i in 0..self.run.reqs.len() {
            let q = &self.run.reqs[i];
            if q.wave == w {
                self.want.insert(i);
                last = last.max(self.now + q.at);
                let t = self.now + q.at;
                self.at(t, Ev::Send(i));
            }
        }
        self.deadline = self.deadline.max(last + self.run.horizon);
        if self.want.is_empty() {
            self.progress();
        }
    }

    // -------------------------------------------------------------------- events
    fn fire(&mut self, e: Ev) {
        match e {
            Ev::Wave => self.wave_start(),
            Ev::Send(i) => self.send(i),
            Ev::Bytes(c, b) => {
                if self.up.get(&c).map_or(false, |u| u.up) || self.cl.get(&c).map_or(false, |x| !x.closed) {
                    self.act(1, c, 0, &b);
                }
            }
            Ev::Fin(c) => {
                if self.up.contains_key(&c) {
                    self.up.get_mut(&c).unwrap().fin = true;
                    self.act(2, c, 0, &[]);
                }
            }
            Ev::Reset(c) => {
                if self.up.remove(&c).is_some() {
                    self.act(3, c, 0, &[]);
                }
            }
            Ev::Read(c, n) => {
                if self.cl.get(&c).map_or(false, |x| !x.closed) {
                    self.act(10, c, n, &[]);
                    self.out.n("slow read");
                    self.at(self.now + MS, Ev::Read(c, n));
                }
            }
            Ev::Up(c) => {
                if let Some(u) = self.up.get_mut(&c) {
                    u.up = true;
                    self.act(5, c, 0, &[]);
                }
            }
            Ev::Refused(c, e) => {
                if self.up.remove(&c).is_some() {
                    self.act(6, c, e, &[]);
                }
            }
            Ev::Abandon(i) => {
                if self.out.reqs[i].end == End::Pending {
                    if let Some(c) = self.cl.iter().find(|(_, c)| !c.closed && c.queue.contains(&i)).map(|(c, _)| *c) {
                        self.out.n(if self.run.reqs[i].part.is_some() { "caller left mid-request" } else { "caller left" });
                        if self.run.reqs[i].fin {
                            self.act(2, c, 0, &[]);
                        } else {
                            self.act(3, c, 0, &[]);
                        }
                        self.cl_gone(c, End::Abandoned);
                    }
                }
            }
            Ev::Env(i) => match self.run.env[i].clone() {
                Env::Refuse(..) | Env::NoV6(_) => {}
                Env::Dns(_, n) => {
                    self.out.n("lookup failures armed");
                    self.act(13, 0, n, &[]);
                }
                Env::Accept(_, e, n) => {
                    for _ in 0..n {
                        self.act(12, 0, e, &[]);
                    }
                }
                Env::Clock(_, d) => {
                    self.out.n("clock jump");
                    self.skew += d;
                    self.act(8, 0, d as u64, &[]);
                }
                Env::Out(_, fd, m) => {
                    self.out.n("output fault armed");
                    self.act(9, fd, m as u64, &[]);
                }
                Env::Kill(_, down) => {
                    if self.alive {
                        self.out.n("process killed");
                        self.kill = Some(down);
                        self.act(7, 0, 0, &[]);
                    }
                }
                Env::IdleClose(_) => {
                    let now = self.now;
                    let mut v: Vec<u64> = self.up.iter().filter(|(_, u)| u.up && !u.fin && u.busy <= now && u.buf.is_empty()).map(|(c, _)| *c).collect();
                    v.sort();
                    for c in v {
                        self.out.n("idle connection closed");
                        self.up.get_mut(&c).unwrap().fin = true;
                        self.act(2, c, 0, &[]);
                    }
                }
                Env::ResetAll(_) => {
                    let mut v: Vec<u64> = self.up.iter().filter(|(_, u)| u.up).map(|(c, _)| *c).collect();
                    v.sort();
                    for c in v {
                        self.out.n("connection broken");
                        self.up.remove(&c);
                        self.act(3, c, 0, &[]);
                    }
                }
            },
            Ev::Restart => {}
            Ev::Linger => self.finished = true,
            Ev::Leave(c, i) => {
                if self.cl.get(&c).map_or(false, |x| !x.closed) {
                    self.act(if i % 2 == 0 { 2 } else { 3 }, c, 0, &[]);
                    self.cl.get_mut(&c).unwrap().closed = true;
                }
            }
            Ev::Sample(more) => {
                self.act(14, 0, 0, &[]);
                if more {
                    self.at(self.now, Ev::Wave);
                } else {
                    self.lingering = true;
                    self.at(self.now + 20 * MS, Ev::Linger);
                }
            }
            Ev::Horizon => {
                if self.now >= self.deadline {
                    self.finished = true;
                    self.out.n("horizon reached");
                } else {
                    let d = self.deadline;
                    self.at(d, Ev::Horizon);
                }
            }
            Ev::Poll => {}
        }
    }
    fn env_time(e: &Env) -> u64 {
        match e {
            Env::Refuse(a, _) => *a,
            Env::Dns(a, _) | Env::Accept(a, ..) | Env::Clock(a, _) | Env::Out(a, ..) | Env::Kill(a, _) | Env::IdleClose(a) | Env::ResetAll(a) => *a,
            Env::NoV6(_) => 0,
        }
    }
    fn started(&mut self) {
        self.alive = true;
        if self.inc == 0 {
            self.at(self.now, Ev::Wave);
            for i in 0..self.run.env.len() {
                let t = Self::env_time(&self.run.env[i]);
                let t = self.now + t;
                self.deadline = self.deadline.max(t + self.run.horizon);
                match self.run.env[i] {
                    Env::Refuse(_, b) => self.deadline = self.deadline.max(self.now + b + self.run.horizon),
                    Env::Kill(_, d) => self.deadline = self.deadline.max(t + d + self.run.horizon),
                    _ => {}
                }
                if self.run.prog == 0 || !matches!(self.run.env[i], Env::Kill(..)) {
                    self.at(t, Ev::Env(i));
                }
            }
            for e in &self.run.env {
                match e {
                    Env::Refuse(a, b) => self.refuse.push((self.now + a, self.now + b)),
                    Env::NoV6(d) => self.nov6 = Some(*d),
                    _ => {}
                }
            }
            let d = self.deadline;
            self.at(d, Ev::Horizon);
        }
    }
    fn step(&mut self, t: u64) {
        self.now = self.now.max(t);
        self.acts.clear();
        while let Some((k, _)) = self.q.first_key_value() {
            if k.0 > self.now || self.finished || self.kill.is_some() {
                break;
            }
            let (_, e) = self.q.pop_first().unwrap();
            self.fire(e);
        }
        let next = self.q.first_key_value().map_or(u64::MAX, |(k, _)| k.0);
        let fin = self.finished as u64;
        self.act(0, fin, next, &[]);
    }

    pub fn exec(mut self, exe: &str, core: usize, record: bool, replay: Option<&[Vec<u8>]>, args: &[String]) -> RunOut {
        let mut start = 0;
        loop {
            let inc = self.inc;
            let mut p = Proc::start(
                &self.run.sim,
                &Opts {
                    exe,
                    core,
                    record,
                    replay: replay.map(|r| r.get(inc as usize).map_or(&[][..], |v| &v[..])),
                    start,
                    skew: self.skew,
                    conn0: self.max_conn + 2,
                    incarnation: inc,
                    args: args.to_vec(),
                    exact: self.run.sample,
                },
            );
            let exit;
            if self.run.prog == 1 {
                self.started();
                // The probe has no callers: it ends by itself.
                self.q.retain(|_, e| !matches!(e, Ev::Wave));
            }
            loop {
                match p.next() {
                    Msg::Connect(c, a) => self.connect(c, a),
                    Msg::Data(c, b) => {
                        if c % 2 == 0 {
                            self.up_data(c, b)
                        } else {
                            self.cl_data(c, b)
                        }
                    }
                    Msg::Close(c) => {
                        if c % 2 == 0 {
                            self.up.remove(&c);
                        } else {
                            self.cl_gone(c, End::Dropped);
                        }
                    }
                    Msg::Shut(c) => {
                        if c % 2 == 1 {
                            self.cl_gone(c, End::Dropped);
                        }
                    }
                    Msg::Step(t, _) => {
                        self.step(t);
                        p.send(&self.acts);
                    }
                    Msg::Log(_, b) => {
                        if self.out.logs.len() < 4000 || self.run.prog == 1 {
                            self.out.logs.extend_from_slice(&b);
                        }
                    }
                    Msg::Listen => self.started(),
                    Msg::Sample(s) => self.out.samples.push(s),
                    Msg::Exit(code, st, edges) => {
                        exit = code;
                        self.now = self.now.max(st[1]);
                        self.out.hash = mix(self.out.hash, st[13]);
                        self.out.stats.push(st);
                        if self.out.edges.len() < edges.len() {
                            self.out.edges.resize(edges.len(), 0);
                        }
                        for (a, b) in self.out.edges.iter_mut().zip(&edges) {
                            *a |= b;
                        }
                        break;
                    }
                    Msg::Gone => {
                        exit = 6;
                        break;
                    }
                    Msg::Stuck => {
                        exit = 7;
                        break;
                    }
                }
            }
            let (rec, st) = p.end();
            if let Some(r) = rec {
                self.out.sched.push(r);
            }
            if exit == 6 && matches!(st, Some(96 | 97)) {
                self.out.n("simulator error");
                self.out.exit = 8;
                break;
            }
            if exit == 9 && self.kill.is_some() {
                // Only what the kernel and the callers know survives; connections are gone.
                let down = self.kill.take().unwrap();
                self.alive = false;
                self.up.clear();
                let mut cs: Vec<u64> = self.cl.keys().copied().collect();
                cs.sort();
                for c in cs {
                    self.cl_gone(c, End::Killed);
                }
                self.q.retain(|_, e| !matches!(e, Ev::Bytes(..) | Ev::Fin(_) | Ev::Reset(_) | Ev::Up(_) | Ev::Refused(..) | Ev::Read(..)));
                start = self.now + down;
                self.now = start;
                self.inc += 1;
                if self.finished {
                    self.out.exit = 0;
                    break;
                }
                continue;
            }
            self.out.exit = exit;
            if exit == 6 || exit == 5 {
                let mut cs: Vec<u64> = self.cl.keys().copied().collect();
                cs.sort();
                for c in cs {
                    self.cl_gone(c, End::Dropped);
                }
            }
            break;
        }
        self.out.vtime = self.now;
        for o in &self.out.reqs {
            let mut h = hstr(self.out.hash, &format!("{:?} {} {} {}", o.end, o.status, o.extra, o.done_at));
            for b in &o.body {
                h = h.rotate_left(5) ^ (*b as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            }
            self.out.hash = mix(h, 1);
        }
        self.out
    }
}

pub fn run(r: &Run, core: usize, record: bool, replay: Option<&[Vec<u8>]>) -> RunOut {
    let exe = if r.prog == 1 { crate::paths::probe() } else { crate::paths::server() };
    let args: Vec<String> = if r.prog == 1 { vec![serde_json::to_string(&r.reqs.iter().map(|q| q.body.clone()).collect::<Vec<_>>()).unwrap()] } else { vec![] };
    World::new(r).exec(&exe, core, record, replay, &args)
}
