mod core;
mod gram;
mod props;

use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static DONE: AtomicU64 = AtomicU64::new(0);

fn run_case(f: props::Prop, src: &mut Src) -> Res {
    if let Ok(mut c) = CURRENT.lock() {
        c.0 += 1;
        c.1.clear();
        c.2.clear();
    }
    DONE.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {}", m))
        }
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static SAVED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// The code under test may print; keep that out of the report.
fn quiet() {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            SAVED.store(dup(1), Ordering::Relaxed);
            dup2(f.as_raw_fd(), 1);
        }
    }
}
fn loud() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let fd = SAVED.swap(-1, Ordering::Relaxed);
    if fd >= 0 {
        unsafe {
            dup2(fd, 1);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(path: &str, id: &str, name: &str, profile: u32, choices: &[u32], desc: &str, why: &str) {
    let body = format!(
        "{{\n \"property\": {},\n \"kind\": \"concrete-input\",\n \"case\": {},\n \"profile\": {},\n \"choices\": {:?},\n \"input\": {},\n \"failure\": {}\n}}\n",
        esc(id), esc(name), profile, choices, esc(desc), esc(why)
    );
    let _ = std::fs::write(path, body);
    loud();
    println!("INPUT {}", desc);
    println!("FAILURE {}", why);
}

fn shrink(f: props::Prop, profile: u32, mut best: Vec<u32>) -> (Vec<u32>, String, String) {
    let t0 = Instant::now();
    let run = |c: &Vec<u32>| -> Option<(Vec<u32>, String, String)> {
        let mut src = Src::fixed(c.clone(), profile);
        match run_case(f, &mut src) {
            Err(why) => {
                let d = CURRENT.lock().unwrap().2.clone();
                Some((src.record.iter().map(|x| x.0).collect(), d, why))
            }
            _ => None,
        }
    };
    let mut cur = match run(&best) {
        Some(x) => x,
        None => return (best, String::new(), "not reproducible".into()),
    };
    loop {
        let mut improved = false;
        best = cur.0.clone();
        let mut w = best.len();
        while w > 0 {
            let mut i = 0;
            while i + w <= cur.0.len() {
                if t0.elapsed() > Duration::from_secs(15) {
                    return cur;
                }
                let mut c = cur.0.clone();
                c.drain(i..i + w);
                match run(&c) {
                    Some(x) if x.0.len() < cur.0.len() => {
                        cur = x;
                        improved = true;
                    }
                    _ => i += 1,
                }
            }
            w /= 2;
        }
        let mut i = 0;
        while i < cur.0.len() {
            if cur.0[i] > 0 {
                for v in [0, cur.0[i] / 2, cur.0[i] - 1] {
                    if t0.elapsed() > Duration::from_secs(15) {
                        return cur;
                    }
                    let mut c = cur.0.clone();
                    if v >= c[i] {
                        continue;
                    }
                    c[i] = v;
                    if let Some(x) = run(&c) {
                        if x.0.len() < cur.0.len() || (x.0.len() == cur.0.len() && x.0 < cur.0) {
                            cur = x;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return cur;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 6 && a[1] == "--replay" {
        // contract-harness --replay <property> <name> <profile> <choices separated by commas>
        std::panic::set_hook(Box::new(|_| {}));
        let f = props::find(&a[2]).and_then(|l| l.into_iter().find(|x| x.0 == a[3])).expect("property").1;
        let ch: Vec<u32> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
        let mut src = Src::fixed(ch, a[4].parse().unwrap());
        quiet();
        let r = run_case(f, &mut src);
        loud();
        match r {
            Ok(_) => println!("PASS"),
            Err(e) => {
                println!("INPUT {}\nFAILURE {}", CURRENT.lock().unwrap().2, e);
                std::process::exit(1);
            }
        }
        return;
    }
    if a.len() < 5 {
        eprintln!("usage: contract-harness <property> <seconds> <seed> <replay-out> [random-only]");
        std::process::exit(2);
    }
    let id = a[1].clone();
    let secs: f64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let out = a[4].clone();
    let random_only = a.len() > 5;
    let mut seen: std::collections::HashSet<u64> = Default::default();
    let mut samples: Vec<String> = vec![];
    let list = match props::find(&id) {
        Some(l) => l,
        None => {
            eprintln!("no such property {}", id);
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|_| {}));

    if id == "G22" {
        quiet();
    }
    // Watchdog: a case which never ends, or which eats memory, is itself a failure.
    {
        let (id, out) = (id.clone(), out.clone());
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let d = DONE.load(Ordering::Relaxed);
                if d != last.0 {
                    last = (d, Instant::now());
                }
                let rss = std::fs::read_to_string("/proc/self/statm")
                    .ok()
                    .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                    .unwrap_or(0)
                    * 4096;
                let stuck = last.1.elapsed() > Duration::from_secs(40);
                if stuck || rss > 6 << 30 {
                    let c = CURRENT.lock().unwrap();
                    write_replay(&out, &id, "", 9, &c.1, &c.2, if stuck {
                        "did not terminate within 40 s"
                    } else {
                        "memory use grew without bound"
                    });
                    std::process::exit(1);
                }
            }
        });
    }

    let (mut total, mut discarded, mut exhaustive, mut complete) = (0u64, 0u64, 0u64, true);
    let n = list.len() as f64;
    for (k, (name, f)) in list.iter().enumerate() {
        let budget = Duration::from_secs_f64(secs / n);
        let t0 = Instant::now();
        let fail = |profile: u32, src: &Src, why: String| -> ! {
            let desc = CURRENT.lock().unwrap().2.clone();
            let ch: Vec<u32> = src.record.iter().map(|x| x.0).collect();
            let (c2, d2, w2) = shrink(*f, profile, ch.clone());
            if w2 == "not reproducible" {
                write_replay(&out, &id, name, profile, &ch, &desc, &format!("[{}] {}", name, why));
            } else {
                write_replay(&out, &id, name, profile, &c2, &d2, &format!("[{}] {}", name, w2));
            }
            std::process::exit(1);
        };
        // Exhaustive part (small profile), for at most half of the time.
        let mut prefix: Vec<u32> = vec![];
        while !random_only {
            let mut src = Src::fixed(prefix.clone(), 0);
            match run_case(*f, &mut src) {
                Ok(Outcome::Ok) => exhaustive += 1,
                Ok(Outcome::Discard) => discarded += 1,
                Err(why) => fail(0, &src, why),
            }
            let mut rec = src.record;
            while let Some(&(v, b)) = rec.last() {
                if v + 1 < b {
                    break;
                }
                rec.pop();
            }
            match rec.last_mut() {
                None => break,
                Some(x) => x.0 += 1,
            }
            prefix = rec.iter().map(|x| x.0).collect();
            if t0.elapsed() > budget / 2 {
                complete = false;
                break;
            }
        }
        let mut i = 0u64;
        while t0.elapsed() < budget {
            let mut src = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(i * 7919 + k as u64), 1);
            i += 1;
            match run_case(*f, &mut src) {
                Ok(Outcome::Ok) => {
                    total += 1;
                    if seen.len() < 3_000_000 {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        (k, src.record.iter().map(|x| x.0).collect::<Vec<_>>()).hash(&mut h);
                        seen.insert(h.finish());
                    }
                    if i == 40 || i == 900 {
                        samples.push(format!("[{}] {}", name, CURRENT.lock().unwrap().2));
                    }
                }
                Ok(Outcome::Discard) => discarded += 1,
                Err(why) => fail(1, &src, why),
            }
        }
    }
    loud();
    println!(
        "STATS {{\"exhaustive_cases\": {}, \"exhaustive_complete\": {}, \"random_cases\": {}, \"random_distinct\": {}, \"discarded\": {}, \"samples\": [{}]}}",
        exhaustive, complete && !random_only, total, seen.len(), discarded, samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
    );
}
