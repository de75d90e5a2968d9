//! Case runner: deterministic cases, panics turned into failures, crash-safe "current case" marks.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn f01(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn f(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * self.f01()
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// A value whose bit length is uniform.
    pub fn logu32(&mut self) -> u32 {
        let bits = self.range(0, 32);
        if bits == 0 {
            0
        } else {
            self.u32() >> (32 - bits)
        }
    }
    pub fn logu64(&mut self) -> u64 {
        let bits = self.range(0, 64);
        if bits == 0 {
            0
        } else {
            self.u64() >> (64 - bits)
        }
    }
}
pub fn hash(data: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for d in data {
        h ^= *d;
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for d in data {
        h ^= *d as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h ^ data.len() as u64
}
pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    /// Description of the input of this case.
    pub input: String,
    /// Identifies the case among all others.
    pub key: u64,
    pub nontrivial: bool,
    pub digest: u64,
}
pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Cx) -> R;
pub struct Kind {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}
pub fn seed_of(seed: u64, kind: &str, idx: u64) -> u64 {
    hash(&[seed, hash_bytes(kind.as_bytes()), idx, 77])
}
pub struct Failure {
    pub kind: &'static str,
    pub idx: u64,
    pub msg: String,
    pub input: String,
}
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub keys: HashSet<u64>,
    pub samples: Vec<String>,
    pub digests: Vec<(u64, u64)>,
}
pub static STOP: AtomicBool = AtomicBool::new(false);

pub fn run_case(kind: &Kind, seed: u64, idx: u64, thorough: bool) -> (Cx, R) {
    let mut cx = Cx {
        rng: Rng::new(seed_of(seed, kind.name, idx)),
        idx,
        thorough,
        input: String::new(),
        key: 0,
        nontrivial: true,
        digest: 0,
    };
    let res = catch_unwind(AssertUnwindSafe(|| (kind.f)(&mut cx)));
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            let msg = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = LAST_PANIC.lock().unwrap().clone();
            Err(format!("the code panicked: {msg} ({loc})"))
        }
    };
    (cx, res)
}
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Marks {
    pub file: std::fs::File,
    pub started: Vec<AtomicU64>,
}
impl Marks {
    pub fn set(&self, thread: usize, kind: u64, idx: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&kind.to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.file.write_at(&b, thread as u64 * 16);
        self.started[thread].store(now_ms(), Ordering::Relaxed);
    }
}
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn run_all(
    kinds: &[Kind],
    seed: u64,
    thorough: bool,
    secs: f64,
    threads: usize,
    mark_path: &str,
    scale: f64,
) -> (Stats, Option<Failure>, Vec<(String, u64)>) {
    let marks = Marks {
        file: std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(mark_path).unwrap(),
        started: (0..threads).map(|_| AtomicU64::new(0)).collect(),
    };
    let stats = Mutex::new(Stats::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let start = std::time::Instant::now();
    let mut per_kind = Vec::new();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        // Watchdog: a case that does not end is a failure too.
        let marks = &marks;
        let done = &done;
        let watchdog = s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for (t, st) in marks.started.iter().enumerate() {
                    let st = st.load(Ordering::Relaxed);
                    if st != 0 && now_ms().saturating_sub(st) > 60_000 {
                        eprintln!("HANG thread {t}");
                        std::process::exit(97);
                    }
                }
            }
        });
        let share: f64 = kinds.iter().map(|_| 1.0).sum();
        for (k, kind) in kinds.iter().enumerate() {
            let total = ((if thorough { kind.thorough } else { kind.quick }) as f64 * scale).ceil() as u64;
            let next = AtomicU64::new(0);
            let done_count = AtomicU64::new(0);
            // every kind gets at least its share of the time
            let limit = secs * (k as f64 + 1.0) / share;
            std::thread::scope(|s2| {
                for t in 0..threads {
                    let (next, done_count, stats, failure) = (&next, &done_count, &stats, &failure);
                    s2.spawn(move || {
                        let mut local = Stats::default();
                        loop {
                            if STOP.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > limit {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= total {
                                break;
                            }
                            marks.set(t, k as u64, idx);
                            let (cx, res) = run_case(kind, seed, idx, thorough);
                            marks.started[t].store(0, Ordering::Relaxed);
                            done_count.fetch_add(1, Ordering::Relaxed);
                            local.evaluations += 1;
                            if cx.nontrivial {
                                local.keys.insert(hash(&[cx.key, k as u64]));
                                if local.samples.is_empty() && !cx.input.is_empty() {
                                    local.samples.push(format!("{}#{}: {}", kind.name, idx, clip(&cx.input, 400)));
                                }
                            }
                            if cx.digest != 0 {
                                local.digests.push((idx, cx.digest));
                            }
                            if let Err(msg) = res {
                                STOP.store(true, Ordering::Relaxed);
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |f| f.idx > idx) {
                                    *f = Some(Failure { kind: kind.name, idx, msg, input: cx.input });
                                }
                                break;
                            }
                        }
                        let mut st = stats.lock().unwrap();
                        st.evaluations += local.evaluations;
                        st.keys.extend(local.keys);
                        if st.samples.iter().filter(|x| x.starts_with(kind.name)).count() == 0 {
                            st.samples.extend(local.samples);
                        }
                        st.digests.extend(local.digests);
                    });
                }
            });
            per_kind.push((kind.name.to_string(), done_count.load(Ordering::Relaxed)));
            if STOP.load(Ordering::Relaxed) {
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
        let _ = watchdog.join();
    });
    let mut stats = stats.into_inner().unwrap();
    stats.digests.sort();
    (stats, failure.into_inner().unwrap(), per_kind)
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
