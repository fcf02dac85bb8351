// `search` looks for a failing case, `run` replays one.
use crate::rng::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Case = Vec<String>;
pub trait Prop: Sync + Send {
    /// hand-picked cases, always tried first
    fn fixed(&self) -> Vec<Case> {
        vec![]
    }
    fn gen(&self, r: &mut Rng) -> Case;
    /// Ok(non-trivial?) or what went wrong
    fn run(&self, c: &Case) -> Result<bool, String>;
}

/// what a call did: returned or aborted
pub fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn judge(p: &dyn Prop, c: &Case) -> Result<bool, String> {
    match call(|| p.run(c)) {
        Some(r) => r,
        None => Err("the harness aborted on this case".into()),
    }
}

pub fn main(prop: impl Fn(&str) -> Option<Box<dyn Prop>>) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(2).cloned().unwrap_or_default();
    let p: Arc<Box<dyn Prop>> = match prop(&id) {
        Some(p) => Arc::new(p),
        None => {
            eprintln!("no harness for {}", id);
            std::process::exit(3)
        }
    };
    match a[1].as_str() {
        "run" => {
            let t = std::fs::read_to_string(&a[3]).expect("case file");
            let c: Case = t
                .lines()
                .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
                .map(|l| l.to_string())
                .collect();
            match judge(&**p, &c) {
                Ok(_) => println!("holds"),
                Err(e) => {
                    eprintln!("fails: {}", e);
                    std::process::exit(1)
                }
            }
        }
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let max: u64 = a[5].parse().unwrap();
            let out = a[6].clone();
            search(p, &id, seed, secs, max, &out);
        }
        _ => std::process::exit(3),
    }
}

fn search(p: Arc<Box<dyn Prop>>, id: &str, seed: u64, secs: f64, max: u64, out: &str) {
    let threads = 6usize;
    let start = Instant::now();
    let done = Arc::new(AtomicBool::new(false));
    let total = Arc::new(AtomicU64::new(0));
    let nontrivial: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let bad: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let current: Vec<Arc<Mutex<Option<(Instant, Case)>>>> =
        (0..threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let running = Arc::new(AtomicU64::new(threads as u64));
    for t in 0..threads {
        let (p, done, total, nontrivial, samples, bad, cur, running) = (
            p.clone(),
            done.clone(),
            total.clone(),
            nontrivial.clone(),
            samples.clone(),
            bad.clone(),
            current[t].clone(),
            running.clone(),
        );
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut r = Rng(seed.wrapping_mul(0x1234567).wrapping_add(t as u64 * 7919));
                let mut fixed: Vec<Case> = p.fixed().into_iter().skip(t).step_by(threads).collect();
                fixed.reverse();
                while !done.load(Ordering::Relaxed)
                    && start.elapsed().as_secs_f64() < secs
                    && total.load(Ordering::Relaxed) < max
                {
                    let c = fixed.pop().unwrap_or_else(|| p.gen(&mut r));
                    *cur.lock().unwrap() = Some((Instant::now(), c.clone()));
                    let v = judge(&**p, &c);
                    *cur.lock().unwrap() = None;
                    let n = total.fetch_add(1, Ordering::Relaxed);
                    match v {
                        Ok(true) => {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            c.hash(&mut h);
                            let mut s = nontrivial.lock().unwrap();
                            if s.len() < 5_000_000 {
                                s.insert(h.finish());
                            }
                            if n % 97 == 0 {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 5 {
                                    s.push(c.join("; ").chars().take(300).collect());
                                }
                            }
                        }
                        Ok(false) => {}
                        Err(e) => {
                            let mut b = bad.lock().unwrap();
                            if b.is_none() {
                                *b = Some((c, e));
                            }
                            done.store(true, Ordering::Relaxed);
                        }
                    }
                }
                running.fetch_sub(1, Ordering::Relaxed);
            })
            .unwrap();
    }
    // watchdog: a case that does not end is a failure of its own
    while running.load(Ordering::Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for c in &current {
            if let Some((s, case)) = &*c.lock().unwrap() {
                if s.elapsed().as_secs() >= 20 {
                    let mut b = bad.lock().unwrap();
                    if b.is_none() {
                        *b = Some((case.clone(), "does not terminate (20 s)".into()));
                    }
                    done.store(true, Ordering::Relaxed);
                    running.store(0, Ordering::Relaxed);
                }
            }
        }
        if done.load(Ordering::Relaxed) {
            break;
        }
    }
    let b = bad.lock().unwrap().clone();
    let q = |s: &str| format!("{:?}", s);
    let ss: Vec<String> = samples.lock().unwrap().iter().map(|s| q(s)).collect();
    let stat = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"found\": {}, \"what\": {}}}",
        total.load(Ordering::Relaxed),
        nontrivial.lock().unwrap().len(),
        ss.join(", "),
        b.is_some(),
        q(b.as_ref().map(|x| x.1.as_str()).unwrap_or(""))
    );
    // the code under test prints on stdout
    std::fs::write(format!("{}.stats", out), &stat).expect("write stats");
    if let Some((c, e)) = b {
        let t = format!(
            "# property {}: {}\n# replay: hmmcl-replay run {} <this file>\n{}\n",
            id,
            e.replace('\n', " "),
            id,
            c.join("\n")
        );
        std::fs::write(out, t).expect("write replay");
        std::process::exit(1);
    }
    std::process::exit(0);
}
