//! Runs the cases of one mode in one worker.
use fbm::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($key:expr, $($t:tt)*) => { return Err($crate::run::Viol { key: $key.to_string(), msg: format!($($t)*) }) };
}
#[macro_export]
macro_rules! harness {
    ($($t:tt)*) => { return Err($crate::run::Viol { key: "harness".to_string(), msg: format!($($t)*) }) };
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn seen<T: Hash + ?Sized>(&mut self, x: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(cut(&f(), 300));
        }
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut n = n;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}...", &s[..n])
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

fn cpu() -> Duration {
    let mut t = [0i64; 2];
    // SAFETY: CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    Duration::new(t[0] as u64, t[1] as u32)
}

/// Standard error of this process goes to a file that can be read back
pub struct Capture {
    file: std::fs::File,
    fd: i32,
    old: i32,
}
impl Capture {
    pub fn new() -> Self {
        use std::os::fd::FromRawFd;
        // SAFETY: fresh descriptors
        unsafe {
            let fd = memfd_create(c"stderr".as_ptr(), 0);
            assert!(fd >= 0);
            let old = dup(2);
            dup2(fd, 2);
            Capture { file: std::fs::File::from_raw_fd(fd), fd, old }
        }
    }
    pub fn clear(&mut self) {
        // SAFETY: our descriptor
        unsafe {
            ftruncate(self.fd, 0);
            lseek(self.fd, 0, 0);
        }
    }
    pub fn take(&mut self) -> String {
        let n = self.file.metadata().unwrap().len() as usize;
        let mut b = vec![0; n];
        self.file.read_exact_at(&mut b, 0).unwrap();
        self.clear();
        String::from_utf8_lossy(&b).into_owned()
    }
    pub fn restore(&self) {
        // SAFETY: our descriptors
        unsafe { dup2(self.old, 2) };
    }
}

pub struct Ctx {
    pub st: Stats,
    pub thorough: bool,
    pub seed: u64,
    pub dir: PathBuf,
    pub cap: Capture,
    pub k: usize,
    pub i: u64,
    pub args: Vec<String>,
}

thread_local! {
    pub static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// The call, or the message of its panic
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub type Case = fn(&mut Ctx, Rng) -> Res;

pub fn main(modes: &[(&str, Case)]) {
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].clone();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(10.0);
    let min: u64 = get("--min").map(|x| x.parse().unwrap()).unwrap_or(0);
    let max: u64 = get("--max").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
    let seed: u64 = get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let only: Option<(usize, u64)> = get("--only").map(|x| {
        let (k, i) = x.split_once(',').unwrap();
        (k.parse().unwrap(), i.parse().unwrap())
    });
    let k: usize = only.map(|x| x.0).or(get("--worker").map(|x| x.parse().unwrap())).unwrap_or(0);
    let dir = PathBuf::from(get("--dir").expect("--dir"));
    let cur = get("--cur").map(|x| std::fs::File::create(x).unwrap());
    let thorough = a.iter().any(|x| x == "--thorough");
    let watchdog: u64 = get("--watchdog").map(|x| x.parse().unwrap()).unwrap_or(20);
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{loc}: {msg}"));
        if !QUIET.with(|q| q.get()) {
            default_hook(info);
        }
    }));
    let case = modes.iter().find(|m| m.0 == mode).unwrap_or_else(|| panic!("unknown mode {mode}")).1;
    std::thread::spawn({
        let mode = mode.clone();
        move || {
            let mut last = (u64::MAX, Duration::ZERO);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                if p != last.0 {
                    last = (p, cpu());
                } else if cpu().saturating_sub(last.1) > Duration::from_secs(watchdog) {
                    println!(
                        "VIOL {{\"key\":\"hang\",\"mode\":{},\"k\":{k},\"i\":{p},\"msg\":\"one case used more than {watchdog} s of processor time\"}}",
                        json_str(&mode),
                    );
                    std::process::exit(1);
                }
            }
        }
    });
    // As much stack as the main thread of a program has
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        std::fs::create_dir_all(&dir).unwrap();
        let mut ctx = Ctx { st: Stats::default(), thorough, seed, dir, cap: Capture::new(), k, i: 0, args: a };
        let start = Instant::now();
        let (mut viols, mut harness) = (0, 0);
        let mut cases = 0u64;
        let mut mhash = 0u64;
        for c in mode.bytes() {
            mhash = mhash.wrapping_mul(131).wrapping_add(c as u64);
        }
        let first = only.map(|x| x.1).unwrap_or(0);
        for i in first..max {
            if only.is_some() && i > first {
                break;
            }
            if i >= min && only.is_none() && start.elapsed().as_secs_f64() > secs {
                break;
            }
            PROGRESS.store(i, Ordering::Relaxed);
            if let Some(f) = &cur {
                let _ = f.write_all_at(format!("{mode} {k},{i}            \n").as_bytes(), 0);
            }
            ctx.i = i;
            ctx.cap.clear();
            let rng = Rng::derive(seed, &[mhash, k as u64, i]);
            cases += 1;
            let v = match quiet(|| case(&mut ctx, rng)) {
                Ok(Ok(())) => continue,
                Ok(Err(v)) => v,
                Err(p) => {
                    let file = p.split(':').next().unwrap_or("").to_string();
                    let ours = !file.contains("planus-") && (file.starts_with("src/") || file.contains("harness/") || file.contains("/fbm/"));
                    Viol { key: if ours { "harness".into() } else { "panic".into() }, msg: p }
                }
            };
            println!(
                "VIOL {{\"key\":{},\"mode\":{},\"k\":{k},\"i\":{i},\"msg\":{}}}",
                json_str(&v.key),
                json_str(&mode),
                json_str(&v.msg)
            );
            if v.key == "harness" {
                harness += 1;
            } else {
                viols += 1;
            }
            if viols >= 3 || harness >= 3 {
                break;
            }
        }
        ctx.cap.restore();
        ctx.st.add("cases", cases);
        let c: Vec<String> = ctx.st.counts.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
        println!(
            "STATS {{\"counts\":{{{}}},\"distinct\":{},\"samples\":[{}]}}",
            c.join(","),
            ctx.st.distinct.len(),
            ctx.st.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
        );
    });
    if h.unwrap().join().is_err() {
        std::process::exit(3);
    }
}
