//! Counting, violation records, watchdog.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::collections::HashSet;

pub static OPS: AtomicU64 = AtomicU64::new(0);
static IN_OP: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub traces: u64,
    pub cases: u64,
    pub violations: u64,
    pub records: Vec<String>,
    pub samples: Vec<String>,
    pub outcomes: HashSet<u64>,
    seen: HashSet<u64>,
    per_case: u64,
    pub counters: std::collections::BTreeMap<String, u64>,
    out: String,
}

pub fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(x) ^ c.len() as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
                self.0 ^= self.0 >> 32;
            }
        }
    }
    let mut h = F(0x1234_5678_9abc_def1);
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn begin_case(&mut self, name: &str) {
        self.seen.clear();
        self.per_case = 0;
        self.cases += 1;
        *CUR.lock().unwrap() = name.to_string();
    }
    /// true when this input of the current case is new
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, t: &T) -> bool {
        let new = self.seen.insert(hash64(t));
        if new { self.states += 1; }
        new
    }
    pub fn trace(&mut self) { self.traces += 1; }
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.into()).or_default() += n; }
    pub fn outcome<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 1_000_000 { self.outcomes.insert(hash64(t)); }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 { let s = f(); self.samples.push(s); }
    }
    pub fn violation(&mut self, case: &str, mode: &str, input: String, expected: String, got: String) {
        self.violations += 1;
        self.per_case += 1;
        if self.per_case <= 2 && self.records.len() < 40 {
            self.records.push(format!("{{\"case\":{},\"mode\":{},\"input\":{},\"expected\":{},\"got\":{}}}", esc(case), esc(mode), esc(&input), esc(&expected), esc(&got)));
        }
    }
    pub fn finish(self) {
        let mut s = format!("{{\"cases\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"violations\":{},\"distinct_outcomes\":{},",
            self.cases, self.states, OPS.load(Relaxed), self.traces, self.violations, self.outcomes.len());
        s += &format!("\"counters\":{{{}}},", self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        s += &format!("\"records\":[{}],\"samples\":[{}]}}", self.records.join(","), self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        let out = if self.out.is_empty() { std::env::var("MC_OUT").unwrap_or_default() } else { self.out.clone() };
        if out.is_empty() { println!("{s}") } else { std::fs::write(out, s).unwrap() }
    }
}

/// Run one real operation: counted, panics caught, watched.
pub fn op<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    OPS.fetch_add(1, Relaxed);
    IN_OP.store(1, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_OP.store(0, Relaxed);
    r.map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}

/// An operation that makes no progress for 20 seconds is reported as a hang and ends the process.
pub fn init() {
    std::panic::set_hook(Box::new(|i| if IN_OP.load(Relaxed) == 0 { eprintln!("outside an operation: {i}") }));
    std::thread::spawn(|| {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let n = OPS.load(Relaxed);
            if IN_OP.load(Relaxed) == 1 && n == last { same += 1 } else { same = 0 }
            last = n;
            if same >= 10 {
                let case = CUR.lock().unwrap().clone();
                let s = format!("{{\"cases\":1,\"states\":1,\"transitions\":{n},\"traces\":0,\"violations\":1,\"distinct_outcomes\":0,\"counters\":{{}},\"records\":[{{\"case\":{},\"mode\":\"hang\",\"input\":\"operation {n}\",\"expected\":\"termination\",\"got\":\"no progress for 20 s\"}}],\"samples\":[]}}", esc(&case));
                let out = std::env::var("MC_OUT").unwrap_or_default();
                if out.is_empty() { println!("{s}") } else { std::fs::write(out, s).unwrap() }
                std::process::exit(0);
            }
        }
    });
}
