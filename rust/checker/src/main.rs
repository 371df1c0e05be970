//! Exhaustive checks of the Rust half of /repo against the reference machine.
//! usage: checker CHECK SPACE [key=value ...]      -> one JSON object on stdout
mod refm;
mod space;
mod stats;
mod runs;
mod trace;
#[cfg(feature = "parts")]
mod refine;
#[cfg(feature = "rules")]
mod rules;
#[cfg(feature = "macros")]
mod macros;
#[cfg(feature = "tapes")]
mod tapes;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opts: HashMap<String, String> = args[3..]
        .iter()
        .map(|a| {
            let (k, v) = a.split_once('=').unwrap();
            (k.to_owned(), v.to_owned())
        })
        .collect();
    std::panic::set_hook(Box::new(|_| {}));
    let stats: &'static stats::Stats = Box::leak(Box::new(stats::Stats::new()));
    let o = Opts(opts);
    stats.watch(o.num("watch", 100));
    match args[1].as_str() {
        "size" => {
            #[cfg(feature = "parts")]
            stats.count("parts");
            #[cfg(feature = "tapes")]
            stats.count("tapes");
            #[cfg(feature = "rules")]
            stats.count("rules");
            #[cfg(feature = "macros")]
            stats.count("macros");
            #[cfg(feature = "inner")]
            stats.count("inner");
            space::each(&args[2], &|_| stats.ran(0, 0));
        }
        "quick" => runs::quick(&args[2], &o, stats),
        "prover" => runs::prover(&args[2], &o, stats),
        "reason" => runs::reason(&args[2], &o, stats),
        #[cfg(feature = "parts")]
        "refine" => refine::refine(&args[2], &o, stats),
        #[cfg(feature = "rules")]
        "rules" => rules::rules(&o, stats),
        #[cfg(feature = "macros")]
        "macros" => macros::steps(&args[2], &o, stats),
        #[cfg(all(feature = "macros", feature = "inner"))]
        "infrul" => macros::infrul(&args[2], &o, stats),
        #[cfg(feature = "tapes")]
        "tape" => tapes::walk(&o, stats),
        #[cfg(feature = "tapes")]
        "offsets" => tapes::offsets(&o, stats),
        "all" => {
            trace::all(&args[2]);
            return;
        }
        "list" => {
            trace::list(&args[2], &o);
            return;
        }
        "trace" => trace::trace(&o, stats),
        "rec" => runs::rec(&args[2], &o, stats),
        other => panic!("unknown check {other}"),
    }
    println!("{}", stats.report());
}

pub struct Opts(HashMap<String, String>);

impl Opts {
    pub fn num(&self, key: &str, default: u64) -> u64 {
        self.0.get(key).map_or(default, |v| v.parse().unwrap())
    }
    pub fn list(&self, key: &str, default: &str) -> Vec<u64> {
        self.0
            .get(key)
            .map_or(default, |v| v.as_str())
            .split(',')
            .filter(|v| !v.is_empty())
            .map(|v| v.parse().unwrap())
            .collect()
    }
}
