//! harness MODULE NAME LIMIT SECONDS [CHOICES]: run a contract harness on the
//! real dependencies, for every choice of the bounded value sets (or replay the
//! given choices).  Prints one JSON line.
use explore::*;
use std::time::Duration;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (limit, secs): (usize, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let from: Vec<usize> =
        a.get(5).map(|c| c.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let (_, hs) = HARNESSES.iter().find(|(m, _)| *m == a[1]).expect("module");
    for (n, f) in hs.iter().filter(|(n, _)| *n == a[2]) {
        let o = explore_for(limit, Duration::from_secs(secs), &from, random(n), || {
            f();
            Ok(())
        });
        println!(
            "{}",
            serde_json::json!({"name": format!("{}::{n}", a[1]), "runs": o.runs, "pruned": o.pruned, "complete": o.complete,
                "failure": o.failure.map(|(e, l, c)| serde_json::json!({"error": e, "log": l, "choices": c})), "samples": o.samples})
        );
    }
}

/// Harnesses named rand_* are sampled from VERIF_SEED.
fn random(n: &str) -> Option<u64> {
    n.contains("rand_").then(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1))
}
