//! harness run PROPERTY SEED MILLISECONDS    searches for a failing input
//! harness replay SUITE SEED                 runs one case again
mod gen;
mod refdns;
mod suites;
mod util;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<(&'static str, u64)> = Mutex::new(("", 0));
static PANIC: Mutex<String> = Mutex::new(String::new());

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn one(s: &suites::Suite, seed: u64, ctx: &mut suites::Ctx) -> Result<(), String> {
    *CURRENT.lock().unwrap() = (s.name, seed);
    TICK.fetch_add(1, Ordering::Relaxed);
    let mut g = util::Rng::new(seed);
    match catch_unwind(AssertUnwindSafe(|| (s.f)(&mut g, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.lock().unwrap())),
    }
}

fn fail(name: &str, seed: u64, msg: &str) -> ! {
    let mut m: String = msg.chars().take(6000).collect();
    if m.len() < msg.len() {
        m += "...";
    }
    println!("{{\"fail\":{{\"suite\":{},\"seed\":{},\"message\":{}}}}}", js(name), seed, js(&m));
    std::process::exit(1);
}

fn main() {
    std::panic::set_hook(Box::new(|i| *PANIC.lock().unwrap() = i.to_string()));
    let a: Vec<String> = std::env::args().collect();
    // A case that does not end is a failure too
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            let (name, seed) = *CURRENT.lock().unwrap();
            let once = suites::all().iter().any(|s| s.name == name && s.once);
            if t != last {
                last = t;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(if once { 150 } else { 20 }) && t != 0 {
                fail(name, seed, "the case does not terminate");
            }
        }
    });
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let seed: u64 = a[3].parse().unwrap();
            for s in suites::all() {
                if s.name == a[2] {
                    let mut c = Default::default();
                    match one(&s, seed, &mut c) {
                        Ok(()) => println!("{{\"ok\":true}}"),
                        Err(m) => fail(s.name, seed, &m),
                    }
                    return;
                }
            }
            eprintln!("no such suite");
            std::process::exit(2);
        }
        Some("run") => {
            let (prop, seed, ms): (&str, u64, u64) = (&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut out = vec![];
            let list: Vec<_> = suites::all().into_iter().filter(|s| s.prop == prop).collect();
            let n = list.iter().filter(|s| !s.once).count().max(1) as u64;
            let mut known = std::collections::BTreeSet::new();
            for s in list {
                let mut c = suites::Ctx::default();
                if s.once {
                    if let Err(m) = one(&s, 0, &mut c) {
                        fail(s.name, 0, &m);
                    }
                } else {
                    let t = Instant::now();
                    let mut i = 0u64;
                    while t.elapsed() < Duration::from_millis(ms / n) {
                        let sd = seed.wrapping_mul(1_000_003).wrapping_add(i);
                        if let Err(m) = one(&s, sd, &mut c) {
                            fail(s.name, sd, &m);
                        }
                        i += 1;
                    }
                }
                known.extend(c.known.iter().filter(|k| k.starts_with(prop)).cloned());
                let smp: Vec<String> = c.samples.iter().map(|x| js(x)).collect();
                out.push(format!(
                    "{{\"suite\":{},\"exhaustive\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}]}}",
                    js(s.name), s.once, c.evals, c.distinct.len(), smp.join(",")
                ));
            }
            let k: Vec<String> = known.iter().map(|x| js(x)).collect();
            println!("{{\"suites\":[{}],\"known\":[{}]}}", out.join(","), k.join(","));
        }
        _ => std::process::exit(2),
    }
}
