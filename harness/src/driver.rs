//! Runs the executable contract of one property over its generated cases.
use crate::gen;
use crate::gen::*;
use std::sync::atomic::{AtomicU64, Ordering};

static TICK: AtomicU64 = AtomicU64::new(0);

pub type Check = fn(&mut Rng, u64) -> R;
pub fn run(table_of: fn(&str) -> Option<(Check, u64, u64)>) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let mut seed = 1u64; let mut tier = "quick".to_string(); let mut only: Option<u64> = None; let mut cases: Option<u64> = None; let mut secs = 1e9;
    let mut max_fail = 20usize;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--seed" => { seed = a[i + 1].parse().unwrap(); i += 2; }
            "--tier" => { tier = a[i + 1].clone(); i += 2; }
            "--case" => { only = Some(a[i + 1].parse().unwrap()); i += 2; }
            "--cases" => { cases = Some(a[i + 1].parse().unwrap()); i += 2; }
            "--seconds" => { secs = a[i + 1].parse().unwrap(); i += 2; }
            "--max-fail" => { max_fail = a[i + 1].parse().unwrap(); i += 2; }
            _ => { eprintln!("bad arg {}", a[i]); std::process::exit(2); }
        }
    }
    let Some((check, q, t)) = table_of(&prop) else { println!("@@RESULT {{\"error\":\"unknown property\"}}"); std::process::exit(2); };
    let total = cases.unwrap_or(if tier == "quick" { q } else { t });
    std::panic::set_hook(Box::new(|_| {}));
    // watchdog: a single case that takes more than 100 s is reported as a hang
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let mut last = u64::MAX; let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.load(Ordering::Relaxed);
            if now != last { last = now; since = std::time::Instant::now(); }
            else if since.elapsed().as_secs() > 100 {
                let o = serde_json::json!({"property": p2, "cases": now, "failures": [{"case": now.wrapping_sub(1), "seed": seed, "clause": "terminates", "detail": "the case did not finish within 100 s"}], "cover": {}});
                println!("\n@@RESULT {}", o);
                let _ = std::fs::remove_dir_all(gen::scratch());
                std::process::exit(1);
            }
        }
    });
    let start = std::time::Instant::now();
    let mut failures = vec![]; let mut done = 0u64; let mut nfail = 0u64;
    let range = match only { Some(c) => c..c + 1, None => 0..total };
    let h = prop.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    for c in range {
        TICK.store(c + 1, Ordering::Relaxed);
        let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ h ^ c.wrapping_mul(0x9E3779B97F4A7C15));
        let res = match catch(|| check(&mut r, c)) {
            Ok(x) => x,
            Err(m) => fail("no-panic", format!("the library panicked: {m}")),
        };
        done += 1;
        if let Err(f) = res {
            nfail += 1;
            if failures.len() < max_fail { failures.push(serde_json::json!({"case": c, "seed": seed, "clause": f.clause, "detail": f.detail})); }
        }
        if start.elapsed().as_secs_f64() > secs { break; }
    }
    let _ = std::fs::remove_dir_all(gen::scratch());
    let cover = COVER.with(|c| c.borrow().clone());
    let o = serde_json::json!({"property": prop, "tier": tier, "seed": seed, "cases": done, "failed_cases": nfail, "failures": failures, "cover": cover, "seconds": start.elapsed().as_secs_f64()});
    println!("\n@@RESULT {}", o);
    std::process::exit(if nfail > 0 { 1 } else { 0 });
}
