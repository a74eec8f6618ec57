//! Other ways of writing the same request, and requests nobody can read.
use crate::rng::Rng;
use serde_json::{json, Value};

const UNITS: [(&str, u64); 8] = [("y", 31_556_952_000), ("M", 2_629_746_000), ("w", 604_800_000), ("d", 86_400_000), ("h", 3_600_000), ("m", 60_000), ("s", 1000), ("ms", 1)];

/// An interval as text: groups of any units, in any order, that add up to it.
pub fn interval(r: &mut Rng, v: u64) -> String {
    if r.p(0.4) {
        // The coarsest unit that fits a whole number of times.
        let (u, f) = UNITS.iter().find(|(_, f)| v % f == 0 && v >= *f).copied().unwrap_or(("ms", 1));
        return format!("{}{u}", v / f);
    }
    let mut rest = v;
    let mut g = vec![];
    for (u, f) in UNITS {
        if rest >= f && (f == 1 || r.p(0.5)) {
            let most = rest / f;
            let n = if f == 1 { rest } else if r.p(0.5) { most } else { r.below(most + 1) };
            g.push(if r.p(0.1) { format!("0{n}{u}") } else { format!("{n}{u}") });
            rest -= n * f;
        }
    }
    if g.is_empty() {
        g.push("0ms".into());
    }
    if r.p(0.3) {
        r.shuffle(&mut g);
    }
    g.concat()
}
/// Year, month, day of a day since the epoch.
fn civil(day: i64) -> (i64, u64, u64) {
    let z = day + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + (m <= 2) as i64, m as u64, d as u64)
}
/// A time as text: a date if it is one's beginning, or date and time of any zone.
pub fn timestamp(r: &mut Rng, v: u64) -> String {
    let zone = if r.p(0.5) { 0 } else { *r.pick(&[60i64, -300, 330, 840, -720, 1, -1]) };
    let t = v as i64 + zone * 60_000;
    let (y, m, d) = civil(t.div_euclid(86_400_000));
    let ms = t.rem_euclid(86_400_000);
    if zone == 0 && ms == 0 && r.p(0.5) {
        return format!("{y:04}-{m:02}-{d:02}");
    }
    let (s, f) = (ms / 1000, ms % 1000);
    let frac = if f == 0 && r.p(0.7) {
        String::new()
    } else if f % 100 == 0 && r.p(0.5) {
        format!(".{}", f / 100)
    } else {
        format!(".{f:03}{}", *r.pick(&["", "", "000", "000000"]))
    };
    let z = if zone == 0 && r.p(0.7) { "Z".to_string() } else { format!("{}{:02}:{:02}", if zone < 0 { '-' } else { '+' }, zone.abs() / 60, zone.abs() % 60) };
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{frac}{z}", s / 3600, s / 60 % 60, s % 60)
}
fn space(r: &mut Rng, p: f64, o: &mut String) {
    if r.p(p) {
        o.push_str(*r.pick(&[" ", "  ", "\n", "\t", "\r\n"]));
    }
}
fn text(r: &mut Rng, p: f64, s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 || c.is_ascii() && r.p(p) => o.push_str(&if r.p(0.5) { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) }),
            c => o.push(c),
        }
    }
    o.push('"');
}
/// Adds what a reader of market data has no use for.
pub fn adorn(r: &mut Rng, v: &mut Value) {
    const KNOWN: [&str; 8] = ["time", "taker", "precision", "interest_rate", "step", "base_precision", "borrow_info", "message"];
    match v {
        Value::Array(l) => l.iter_mut().for_each(|x| adorn(r, x)),
        Value::Object(o) => {
            o.values_mut().for_each(|x| adorn(r, x));
            // (Other objects are tables, where every entry has its meaning.)
            if KNOWN.iter().any(|k| o.contains_key(*k)) && r.p(0.5) {
                let (k, x) = r.pick(&[("closed", json!(true)), ("note", Value::Null), ("code", json!(-1121)), ("more", json!({"price": [1, {"time": "x"}]})), ("", json!("")), ("Time", json!("noon")), ("ignore", json!(1.5e300))]).clone();
                o.insert(k.into(), x);
            }
        }
        _ => {}
    }
}
/// The same JSON, written in another way.
pub fn json(r: &mut Rng, v: &Value) -> String {
    let mut o = String::new();
    let (ws, esc) = (*r.pick(&[0.0, 0.0, 0.1, 0.5]), *r.pick(&[0.0, 0.0, 0.05]));
    space(r, ws, &mut o);
    if r.p(0.06) {
        // Much ado.
        let n = *r.pick(&[3_000, 20_000, 70_000, 300_000]);
        o.extend(std::iter::repeat(*r.pick(&[' ', '\n'])).take(n));
    }
    write(r, v, "", ws, esc, &mut o);
    space(r, ws, &mut o);
    o
}
fn write(r: &mut Rng, v: &Value, key: &str, ws: f64, esc: f64, o: &mut String) {
    match v {
        Value::Object(m) => {
            let mut l: Vec<_> = m.iter().collect();
            if r.p(0.7) {
                r.shuffle(&mut l);
            }
            // Optional fields that say nothing may be left out.
            l.retain(|(k, x)| !(x.is_null() && ["seed", "sigma", "smoothing", "buffer_interval"].contains(&k.as_str()) && r.p(0.5)));
            o.push('{');
            for (i, (k, x)) in l.into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                space(r, ws, o);
                text(r, esc, k, o);
                space(r, ws, o);
                o.push(':');
                space(r, ws, o);
                write(r, x, k, ws, esc, o);
                space(r, ws, o);
            }
            o.push('}');
        }
        Value::Array(l) => {
            o.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                space(r, ws, o);
                write(r, x, key, ws, esc, o);
                space(r, ws, o);
            }
            o.push(']');
        }
        Value::String(s) => text(r, esc, s, o),
        Value::Number(n) => match (n.as_u64(), key) {
            (Some(u), "interval" | "intervals" | "buffer_interval") if r.p(0.6) => {
                let s = interval(r, u);
                text(r, esc, &s, o)
            }
            (Some(u), "start" | "end") if r.p(0.6) => {
                let s = timestamp(r, u);
                text(r, esc, &s, o)
            }
            (Some(u), _) => o.push_str(&u.to_string()),
            _ => {
                let x = n.as_f64().unwrap();
                // (Longer ones may be read one bit apart in another spelling.)
                let short = n.to_string().bytes().filter(u8::is_ascii_digit).count() <= 15;
                o.push_str(&match if short { r.below(4) } else { 3 } {
                    0 => format!("{x:e}"),
                    1 if x == x.trunc() && x.abs() < 1e15 => format!("{x:.0}"),
                    2 => format!("{x:e}").replace('e', "E+").replace("E+-", "E-0"),
                    _ => n.to_string(),
                })
            }
        },
        x => o.push_str(&x.to_string()),
    }
}
/// Headers in another case and order, the body in chunks.
pub fn http(r: &mut Rng, method: &str, path: &str, body: &str) -> Vec<u8> {
    let mut h = vec![
        "host: localhost:4040".to_string(),
        r.pick(&["content-type: application/json", "Content-Type:application/json", "CONTENT-TYPE: application/json; charset=utf-8"]).to_string(),
    ];
    for x in ["accept: */*", "User-Agent: tester/1.0 (x)", "X-Long: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "cookie: a=b; c=d", "accept-encoding: gzip, br"] {
        if r.p(0.2) {
            h.push(x.into());
        }
    }
    let chunks = r.p(0.3);
    h.push(if chunks { "Transfer-Encoding: chunked".into() } else { format!("{}{}", r.pick(&["content-length: ", "Content-Length:"]), body.len()) });
    r.shuffle(&mut h);
    let q = if r.p(0.1) { "?x=1" } else { "" };
    let mut b = format!("{method} {path}{q} HTTP/1.1\r\n{}\r\n\r\n", h.join("\r\n")).into_bytes();
    if !chunks {
        b.extend(body.as_bytes());
        return b;
    }
    let mut rest = body.as_bytes();
    while !rest.is_empty() {
        let n = (r.range(1, rest.len() as u64) as usize).min(rest.len());
        b.extend(format!("{n:x}\r\n").as_bytes());
        b.extend(&rest[..n]);
        b.extend(b"\r\n");
        rest = &rest[n..];
    }
    b.extend(b"0\r\n\r\n");
    b
}
/// All fields below: where, the name, whether it may not be left out.
fn places(v: &Value, at: &str, open: bool, l: &mut Vec<(String, String, bool)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                // In a search everything but these may be left open.
                let must = if open { k == "intervals" || k == "type" } else { !["sigma", "smoothing", "buffer_interval"].contains(&k.as_str()) && !(k == "persistence" && v["type"] == "Sig") };
                l.push((at.into(), k.clone(), must));
                places(x, &format!("{at}/{k}"), open, l);
            }
        }
        Value::Array(m) => {
            for (i, x) in m.iter().enumerate() {
                places(x, &format!("{at}/{i}"), open, l);
            }
        }
        _ => {}
    }
}
/// A body that is not a request, made from one.
pub fn unreadable(r: &mut Rng, b: &Value) -> String {
    let mut v = b.clone();
    let opt = v.get("context").is_some();
    match r.below(13) {
        10 | 11 => {
            // Something deeper down is missing or of another type.
            let part = if opt { "context" } else { "trading" };
            let mut l = vec![];
            places(&v[part], &format!("/{part}"), opt, &mut l);
            r.shuffle(&mut l);
            let (at, k, must) = l.pop().unwrap();
            let o = v.pointer_mut(&at).unwrap();
            if must && r.p(0.6) {
                o.as_object_mut().unwrap().remove(&k);
            } else {
                let x = &o[&k];
                let l = match x {
                    // (Numbers are understood as positions in the list of types, and lists as structures.)
                    Value::String(_) if k == "type" => vec![json!("?"), json!(""), json!([]), json!({})],
                    Value::Object(_) if opt => vec![json!(1), json!("x"), json!(true)],
                    Value::Number(_) => vec![json!("many"), json!([1]), json!({}), json!(true)],
                    Value::String(_) => vec![json!(1), json!([]), json!({}), json!("?"), json!("")],
                    Value::Bool(_) => vec![json!(1), json!("true"), json!([])],
                    Value::Array(_) => vec![json!(1), json!("x"), json!({"a":1}), json!([{}])],
                    Value::Object(_) => vec![json!(1), json!("x"), json!([])],
                    Value::Null => vec![json!({}), json!([])],
                };
                o[&k] = r.pick(&l).clone();
            }
            v.to_string()
        }
        0 => {
            let s = v.to_string();
            s[..(s.len() as f64 * *r.pick(&[0.0, 0.2, 0.7, 0.999])) as usize].to_string()
        }
        // (Of anything after a complete request the server's framework takes no notice.)
        1 => format!("{}{v}", r.pick(&["}", "x", ",", "{}", "null "])),
        2 => {
            let mut l: Vec<String> = v.as_object().unwrap().keys().filter(|k| *k != "seed").cloned().collect();
            r.shuffle(&mut l);
            v.as_object_mut().unwrap().remove(&l[0]);
            v.to_string()
        }
        3 => {
            let k = *r.pick(&["exchange", "start", "end", "quote"]);
            v[k] = r.pick(&[json!([]), json!({}), json!(true), json!(-1.5), Value::Null]).clone();
            if k == "quote" && v[k].is_number() {
                v[k] = json!("much");
            }
            v.to_string()
        }
        4 => r.pick(&["[]", "null", "0", "\"x\"", "{\"\\ud800\":1}", "{'a':1}", "{\"a\":NaN}"]).to_string(),
        5 if opt => {
            let k = *r.pick(&["evaluation_statistic", "evaluation_aggregation"]);
            v[k] = r.pick(&[json!("Cubic"), json!("profit"), json!(0), json!("")]).clone();
            v.to_string()
        }
        5 => {
            v["trading"][*r.pick(&["strategy", "stop_loss", "take_profit"])]["type"] = r.pick(&[json!("Nope"), json!(""), json!("sma"), json!(7)]).clone();
            v.to_string()
        }
        6 | 7 => {
            let t = r.pick(&["", "h", "hour", "1x", "5", "1h?", "h1", "-1h", "1.5h", "1H", "99999999999999999999h", "99999999999y", "1h1", "1hh", "x1h", "1h,1m", "1d-1h", "0x1h"]);
            if opt {
                v["context"]["trader"]["intervals"] = json!([*t]);
            } else {
                v["trading"]["trader"]["interval"] = json!(*t);
            }
            v.to_string()
        }
        _ => {
            let t = r.pick(&[
                "", "2020-13-01", "2020-02-30", "2021-02-29", "2020-00-10", "2020-1-1", "today", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:00", "2020-01-01 ", "1960-01-01", "1969-12-31T23:59:59Z",
                "20200101", "01-01-2020", "2020-01-01x", "1577836800000", "2020-01-01T00:00:00+25:00", "-2020-01-01",
            ]);
            v[*r.pick(&["start", "end"])] = json!(*t);
            v.to_string()
        }
    }
}
