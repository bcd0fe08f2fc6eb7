//! Concrete search against the real crate: looks for a failing input for one property.
mod pure;
mod rng;
mod scene;
mod trees;
use rng::Rng;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn guarded<F: FnOnce() -> trees::R>(f: F) -> trees::R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

/// One case: (description, non-trivial, result)
fn case(prop: &str, seed: u64, i: u64, shrink: bool) -> (String, bool, trees::R) {
    let mut r = Rng::new(seed, prop, i);
    if let Some(mut s) = trees::gen(prop, &mut r, i) {
        let mut res = guarded(|| trees::check(prop, &s));
        if res.is_err() && shrink {
            // drop data and queries, in halves first and one at a time in the end, while the failure stays
            let end = Instant::now() + Duration::from_secs(10);
            let mut step = (s.data.len() / 2).max(1);
            loop {
                let mut again = false;
                let mut j = 0;
                while j < s.data.len() && Instant::now() < end {
                    let mut t = s.clone();
                    t.data.drain(j..(j + step).min(s.data.len()));
                    let x = guarded(|| trees::check(prop, &t));
                    if x.is_err() {
                        s = t;
                        res = x;
                        again = true;
                    } else {
                        j += step;
                    }
                }
                for j in (0..s.queries.len()).rev() {
                    let mut t = s.clone();
                    t.queries.remove(j);
                    let x = guarded(|| trees::check(prop, &t));
                    if x.is_err() {
                        s = t;
                        res = x;
                        again = true;
                    }
                }
                if Instant::now() >= end || (step == 1 && !again) {
                    break;
                }
                step = (step / 2).max(1);
            }
        }
        let nt = s.data.len() > lim_mc(&s);
        (format!("{s:?}"), nt, res)
    } else {
        let i = pure::gen(prop, &mut r);
        let res = guarded(|| pure::check(prop, &i));
        (format!("{:?}", (&i.num, &i.a, &i.b)), true, res)
    }
}
fn lim_mc(s: &scene::Scene) -> usize {
    if s.default_limits {
        4
    } else {
        s.max_children
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("QT_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let go = move || -> i32 {
        match a[1].as_str() {
            // run PROP SEED BUDGET_MS MAX_CASES PROGRESS_FILE
            "run" => {
                let (prop, seed) = (a[2].as_str(), a[3].parse::<u64>().unwrap());
                let (budget, max) = (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
                let pf = std::fs::File::create(&a[6]).unwrap();
                let t0 = Instant::now();
                let (mut n, mut nt) = (0u64, 0u64);
                let mut samples: Vec<String> = vec![];
                while n < max && t0.elapsed() < Duration::from_millis(budget) {
                    pf.write_at(&n.to_le_bytes(), 0).unwrap();
                    let (d, t, res) = case(prop, seed, n, false);
                    n += 1;
                    if t {
                        nt += 1;
                        if samples.len() < 3 {
                            samples.push(d.chars().take(700).collect());
                        }
                    }
                    if res.is_err() {
                        let (d, _, res) = case(prop, seed, n - 1, true);
                        println!("FAIL case={} cases={} nontrivial={}", n - 1, n, nt);
                        println!("WHY {}", res.err().unwrap_or_else(|| "did not fail when repeated".into()));
                        println!("INPUT {}", d);
                        return 1;
                    }
                }
                println!("OK cases={n} nontrivial={nt}");
                for s in samples {
                    println!("SAMPLE {s}");
                }
                0
            }
            // show PROP SEED CASE: repeat one case
            "show" => {
                let (d, _, res) = case(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a.len() <= 5);
                println!("INPUT {d}");
                match res {
                    Ok(()) => {
                        println!("HOLDS");
                        0
                    }
                    Err(e) => {
                        println!("FAILS {e}");
                        1
                    }
                }
            }
            // input PROP SEED CASE: print the input without running it (for hangs and crashes)
            "input" => {
                let mut r = Rng::new(a[3].parse().unwrap(), &a[2], a[4].parse().unwrap());
                match trees::gen(&a[2], &mut r, a[4].parse().unwrap()) {
                    Some(s) => println!("{s:?}"),
                    None => {
                        let i = pure::gen(&a[2], &mut r);
                        println!("{:?}", (&i.num, &i.a, &i.b))
                    }
                }
                0
            }
            _ => 2,
        }
    };
    // deep trees recurse; give them room so that only runaway recursion overflows
    let rc = std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap_or(3);
    std::io::stdout().flush().ok();
    std::process::exit(rc);
}
