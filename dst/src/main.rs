#![allow(dead_code)]
mod case;
mod cases;
mod check;
mod gen;
mod judge;
mod market;
mod minimise;
mod model;
mod oracle;
mod paths;
mod probe;
mod proc;
mod rng;
mod spell;
mod world;

fn main() {
    proc::raise_fds();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().expect("a number"));
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or("quick".into());
            let o = check::Opts {
                prop: a[1].clone(),
                seed: num("--seed", 1),
                secs: num("--secs", if tier == "quick" { 40 } else { 600 }),
                max: num("--cases", u64::MAX / 2),
                first: num("--first", 0),
                workers: num("--workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
                tier,
            };
            check::check(&o)
        }
        Some("replay") => match check::replay(&a[1], 0) {
            Ok((Some(v), same)) => {
                println!("{}", v.what);
                println!("{}", if same { "the run is the recorded one, step by step" } else { "the run differs from the recorded one" });
                println!("VIOLATION property={} replay={}", v.prop, a[1]);
                1
            }
            Ok((None, _)) => {
                println!("no violation");
                0
            }
            Err(e) => {
                eprintln!("{e}");
                2
            }
        },
        Some("case") => {
            let c = cases::gen(&a[1], num("--seed", 1), num("--first", 0), false);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            for (k, o) in check::execute(&c, 0, false, None).iter().enumerate() {
                println!("run {k}: exit {} at {} ms, hash {:016x}, {:?}", o.exit, o.vtime / 1_000_000, o.hash, o.counts);
                for (i, q) in o.reqs.iter().enumerate() {
                    println!("  {i} {:?} {} {}", q.end, q.status, String::from_utf8_lossy(&q.body).chars().take(300).collect::<String>());
                }
                println!("{}", String::from_utf8_lossy(&o.logs));
            }
            0
        }
        _ => {
            eprintln!("dst check ID [--tier quick|thorough] [--seed N] [--secs S] [--cases N] [--first N] | dst replay FILE | dst case ID --first N");
            2
        }
    };
    std::process::exit(code);
}
