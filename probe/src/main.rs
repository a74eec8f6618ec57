//! Calls the data-service client as its argument says and writes down what every call returns.
//!
//! Argument: a JSON list of calls `{"op","g","args","after","cut"}`. Calls of a group `g` run
//! concurrently on one shared client; groups follow one another.
use futures::future::join_all;
use juno::clients::juno_core::{Client, Error, GetExchangeInfo, ListCandles, MapAssetPrices};
use juno::{CandleType, Interval, Timestamp};
use serde_json::{json, Value};
use std::io::Write;
use std::time::Duration;

fn told<T: serde::Serialize>(r: Result<T, Error>) -> Value {
    match r {
        Ok(x) => json!({ "ok": x }),
        Err(e) => match &e {
            Error::Api { status, url, message } => {
                json!({"err": "api", "status": status.as_u16(), "url": url.as_str(), "message": message, "text": e.to_string()})
            }
            Error::Request(r) => json!({"err": "request", "status": r.status().map(|s| s.as_u16()), "text": e.to_string()}),
        },
    }
}

async fn call(c: &Client, q: &Value) -> Value {
    let a = &q["args"];
    let s = |k: &str| a[k].as_str().unwrap();
    let u = |k: &str| a[k].as_u64().unwrap();
    let candles = || ListCandles {
        exchange: s("exchange"),
        symbol: s("symbol"),
        interval: Interval(u("interval")),
        start: Timestamp(u("start")),
        end: Timestamp(u("end")),
        type_: if s("type_") == "regular" { CandleType::Regular } else { CandleType::HeikinAshi },
    };
    match q["op"].as_str().unwrap() {
        "exchange_info" => told(c.get_exchange_info(GetExchangeInfo { exchange: s("exchange") }).await),
        "candles" => told(c.list_candles(candles()).await),
        "candles_fill_missing_with_none" => told(c.list_candles_fill_missing_with_none(candles()).await),
        "candle_intervals" => told(c.list_candle_intervals(GetExchangeInfo { exchange: s("exchange") }).await),
        _ => {
            let assets: Vec<&str> = a["assets"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            told(
                c.map_asset_prices(MapAssetPrices {
                    exchange: s("exchange"),
                    assets: &assets,
                    interval: Interval(u("interval")),
                    start: Timestamp(u("start")),
                    end: Timestamp(u("end")),
                    target_asset: s("target_asset"),
                })
                .await,
            )
        }
    }
}

#[tokio::main]
async fn main() {
    let calls: Vec<Value> = serde_json::from_str(&std::env::args().nth(1).unwrap()).unwrap();
    let c = Client::new("http://localhost:3030");
    let last = calls.iter().map(|q| q["g"].as_u64().unwrap()).max().unwrap_or(0);
    for g in 0..=last {
        join_all(calls.iter().enumerate().filter(|(_, q)| q["g"] == g).map(|(i, q)| {
            let c = &c;
            async move {
                tokio::time::sleep(Duration::from_nanos(q["after"].as_u64().unwrap_or(0))).await;
                let r = match q["cut"].as_u64() {
                    Some(n) => tokio::time::timeout(Duration::from_nanos(n), call(c, q)).await.unwrap_or(json!({"cut": true})),
                    None => call(c, q).await,
                };
                // The simulator keeps 2000 bytes of a write.
                let mut e = std::io::stderr().lock();
                for c in format!("RESULT {i} {r}\n").as_bytes().chunks(1500) {
                    e.write_all(c).unwrap();
                }
            }
        }))
        .await;
    }
}
