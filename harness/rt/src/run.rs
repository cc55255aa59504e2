//! Runs the monitors of one mode over the schemas of this program.
use crate::sup::*;
use fbm::Schema;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($key:expr, $($t:tt)*) => { return Err($crate::run::Viol { key: $key.to_string(), msg: format!($($t)*) }) };
}

/// Something is wrong with the harness itself
#[macro_export]
macro_rules! harness {
    ($($t:tt)*) => { return Err($crate::run::Viol { key: "harness".to_string(), msg: format!($($t)*) }) };
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Remembers what was executed
    pub fn seen<T: Hash + ?Sized>(&mut self, x: &T) {
        if self.distinct.len() < 3_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 300 {
                let mut n = 300;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
}

pub struct Ctx {
    pub api: Vec<SchemaApi>,
    pub schemas: Vec<Schema>,
    pub st: Stats,
    pub thorough: bool,
    pub builder: Option<planus::Builder>,
}

pub type Case = fn(&mut Ctx, usize, Rng) -> Res;

pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn cpu() -> Duration {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // SAFETY: CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    Duration::new(t.s as u64, t.n as u32)
}

pub fn main(api: Vec<SchemaApi>, profile: &str, seed: u64) {
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].clone();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(10.0);
    let min: u64 = get("--min").map(|x| x.parse().unwrap()).unwrap_or(0);
    let max: u64 = get("--max").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
    let only: Option<(usize, u64)> = get("--only").map(|x| {
        let (k, i) = x.split_once(',').unwrap();
        (k.parse().unwrap(), i.parse().unwrap())
    });
    let cur = get("--cur").map(|x| std::fs::File::create(x).unwrap());
    let thorough = a.iter().any(|x| x == "--thorough");
    let watchdog: u64 = get("--watchdog").map(|x| x.parse().unwrap()).unwrap_or(25);
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{loc}: {msg}"));
        if QUIET.with(|q| q.get()) == 0 {
            default_hook(info);
        }
    }));
    let schemas: Vec<Schema> = api.iter().map(|x| fbm::gen::profile(profile, seed, x.k)).collect();
    let case = crate::modes::mode(&mode);
    if watchdog > 0 {
        let mode = mode.clone();
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Duration::ZERO);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                if p != last.0 {
                    last = (p, cpu());
                } else if cpu().saturating_sub(last.1) > Duration::from_secs(watchdog) {
                    println!(
                        "VIOL {{\"key\":\"hang\",\"mode\":{},\"k\":{},\"i\":{},\"msg\":\"one case used more than {watchdog} s of processor time\"}}",
                        json_str(&mode),
                        p >> 40,
                        p & 0xff_ffff_ffff
                    );
                    std::process::exit(1);
                }
            }
        });
    }
    let h = std::thread::Builder::new().stack_size(if cfg!(miri) { 16 << 20 } else { 1 << 30 }).spawn(move || {
        let mut ctx = Ctx { api, schemas, st: Stats::default(), thorough, builder: None };
        let start = Instant::now();
        let mut viols = 0;
        let mut harness = 0;
        let mut cases = 0u64;
        let mut mhash = 0u64;
        for c in mode.bytes() {
            mhash = mhash * 131 + c as u64;
        }
        'all: for i in 0..max {
            if ctx.api.is_empty() {
                break;
            }
            for si in 0..ctx.api.len() {
                let k = ctx.api[si].k;
                if let Some((ok, oi)) = only {
                    if k != ok || i != oi {
                        continue;
                    }
                }
                if i >= min && only.is_none() && start.elapsed().as_secs_f64() > secs {
                    break 'all;
                }
                PROGRESS.store((k as u64) << 40 | i, Ordering::Relaxed);
                if let Some(f) = &cur {
                    let _ = f.write_all_at(format!("{mode} {k},{i}            \n").as_bytes(), 0);
                }
                let rng = Rng::derive(seed, &[mhash, k as u64, i]);
                cases += 1;
                let r = quiet(|| case(&mut ctx, si, rng));
                let v = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(v)) => v,
                    Err(p) => {
                        ctx.builder = None;
                        let file = p.split(':').next().unwrap_or("").to_string();
                        let ours = file.contains("harness/") || file.ends_with("sup.rs") || file.ends_with("/run.rs") || file.ends_with("modes.rs") || file.ends_with("fbm/src")
                            || file.contains("/fbm/")
                            || file.rsplit('/').next().is_some_and(|f| f.starts_with('a') && f[1..].trim_end_matches(".rs").bytes().all(|c| c.is_ascii_digit()));
                        Viol { key: if ours { "harness".into() } else { "panic".into() }, msg: p }
                    }
                };
                println!(
                    "VIOL {{\"key\":{},\"mode\":{},\"k\":{k},\"i\":{i},\"msg\":{}}}",
                    json_str(&v.key),
                    json_str(&mode),
                    json_str(&v.msg)
                );
                if v.key == "harness" {
                    harness += 1;
                } else {
                    viols += 1;
                }
                if viols >= 3 || harness >= 3 {
                    break 'all;
                }
            }
            if let Some((_, oi)) = only {
                if i >= oi {
                    break;
                }
            }
        }
        ctx.st.add("cases", cases);
        ctx.st.add("schemas", ctx.api.len() as u64);
        let c: Vec<String> = ctx.st.counts.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
        println!(
            "STATS {{\"counts\":{{{}}},\"distinct\":{},\"samples\":[{}]}}",
            c.join(","),
            ctx.st.distinct.len(),
            ctx.st.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
        );
    });
    if h.unwrap().join().is_err() {
        std::process::exit(3);
    }
}
