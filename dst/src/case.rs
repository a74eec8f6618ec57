//! A simulated run, completely described: the machine, the data, the traffic, the network and the faults.
use crate::market::Market;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// The machine under the program.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Sim {
    pub ncpu: u64,
    pub rayon: u64,
    pub tick: u64,
    pub bbns: u64,
    pub policy: u64,
    pub pswitch: u64,
    pub bbmean: u64,
    pub pjump: u64,
    pub jumpmax: u64,
    pub pspur: u64,
    pub peintr: u64,
    pub maxev: u64,
    pub happy: u64,
    pub sndbuf: u64,
    pub pctdepth: u64,
    pub pctlen: u64,
    pub sseed: u64,
    pub hseed: u64,
    pub mseed: u64,
    pub rtbase: u64,
    pub maxdec: u64,
    pub maxbb: u64,
    /// How much is logged, see `proc::LEVELS`.
    pub log: u64,
}
impl Default for Sim {
    fn default() -> Self {
        Sim {
            ncpu: 2,
            rayon: 0,
            tick: 500,
            bbns: 5,
            policy: 0,
            pswitch: 0,
            bbmean: 0,
            pjump: 0,
            jumpmax: 1,
            pspur: 0,
            peintr: 0,
            maxev: 0,
            happy: 0,
            sndbuf: 0,
            pctdepth: 3,
            pctlen: 20_000,
            log: 0,
            sseed: 1,
            hseed: 1,
            mseed: 1,
            rtbase: 1_700_000_000 * SEC,
            maxdec: 3_000_000,
            maxbb: 3_000_000_000,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Req {
    pub wave: usize,
    /// ns after the start of the wave.
    pub at: u64,
    pub path: String,
    pub method: String,
    pub body: Value,
    /// Sent in place of the body.
    pub raw: Option<String>,
    /// Requests with the same number share a connection, one after the other.
    pub keep: Option<u64>,
    /// On a shared connection: sent without awaiting the previous reply.
    pub pipeline: bool,
    /// The request is sent in this many pieces ...
    pub frag: u64,
    /// ... this many ns apart.
    pub fgap: u64,
    /// The caller goes away this long after having started to send.
    pub abandon: Option<u64>,
    /// Only this share of the request is ever sent.
    pub part: Option<f64>,
    /// The caller reads this many bytes at a time, every ms.
    pub slow: u64,
    /// The caller shuts its sending side instead of breaking the connection when it goes away.
    pub fin: bool,
    /// The seed reported in the reply to that earlier request is put in.
    pub seed_from: Option<usize>,
    /// A backtest of the individual (generation, place) found in the reply to that earlier request.
    pub chrom_from: Option<(usize, usize, usize)>,
    /// Written in the way of that number (0: plainly).
    pub spell: u64,
    /// Nobody can read it: it is to be refused.
    pub refuse: bool,
    /// Not a valid request, or one that may fail: how it is answered is not judged.
    pub odd: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FKind {
    /// Error status; what the body holds: 0 {"message"}, 1 empty, 2 text, 3 other JSON, 4 the proper
    /// reply, 5 an empty list or object.
    Status(u16, u8),
    /// Connection broken on arrival of the request.
    ResetBefore,
    /// Connection closed on arrival of the request.
    CloseBefore,
    /// Broken after this share of the reply.
    ResetMid(f64),
    /// Closed after this share of the reply; the reply is chunked or has a length.
    FinMid(f64, bool),
    /// Well-framed reply whose JSON is cut off at this share.
    TruncJson(f64),
    /// Well-framed reply with JSON of another shape.
    BadJson(u8),
    /// Not HTTP.
    Garbage,
    /// The reply comes this much later.
    Stall(u64),
    /// Everything of the reply but one entry (a symbol's or an asset's, or the one at a/b/c).
    Missing(String),
    /// One number of the proper reply (drawn by the first) is 0 null, 1 text, 2 absent (in an object); 3: one of
    /// its lists or objects is null.
    Damage(u64, u8),
    /// Only the first so many prices of every asset, or of the given one.
    ShortPrices(usize, Option<String>),
}

/// Strikes every fetch that matches, or only the first, or those of some waves (first and last).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub ex: String,
    pub path: String,
    pub sym: Option<String>,
    pub iv: Option<u64>,
    pub kind: FKind,
    #[serde(default)]
    pub once: bool,
    #[serde(default)]
    pub waves: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Env {
    /// The data service refuses connections between the two times (absolute).
    Refuse(u64, u64),
    /// The next n name lookups fail.
    Dns(u64, u64),
    /// The next accepts fail (errno).
    Accept(u64, u64, u64),
    /// The wall clock jumps.
    Clock(u64, i64),
    /// Writing to descriptor fd: errno > 0, -1 short, -2 interrupted, 0 fine.
    Out(u64, u64, i64),
    /// The process dies and is started again this much later.
    Kill(u64, u64),
    /// The data service closes all its idle connections.
    IdleClose(u64),
    /// The data service does not listen on IPv6: attempts there are refused after this long.
    NoV6(u64),
    /// Every connection to the data service is broken.
    ResetAll(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Net {
    pub seed: u64,
    /// Longest latency of the data service, ns.
    pub lat: u64,
    /// Most pieces a reply is sent in.
    pub frag: u64,
    /// Longest pause between pieces, ns.
    pub gap: u64,
    /// Share of replies after which the data service closes the connection.
    pub close: f64,
    /// Share of chunked replies.
    pub chunked: f64,
    /// Share of replies written in an unusual way.
    pub dress: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Run {
    pub sim: Sim,
    pub market: Market,
    pub reqs: Vec<Req>,
    #[serde(default)]
    pub net: Net,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub env: Vec<Env>,
    /// The data changes with each wave of requests.
    #[serde(default)]
    pub versioned: bool,
    /// The version of the data in the first wave.
    #[serde(default)]
    pub version: u64,
    /// Virtual time given to the requests once the last disturbance is over.
    pub horizon: u64,
    /// Between waves all is quiet for minutes, then what the server holds is counted.
    #[serde(default)]
    pub sample: bool,
    /// What runs: 0 the server, 1 the client-library probe.
    #[serde(default)]
    pub prog: u8,
}

/// A self-contained test case: the runs and the property whose check it belongs to.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub property: String,
    pub kind: String,
    pub runs: Vec<Run>,
    #[serde(default)]
    pub note: Value,
}
