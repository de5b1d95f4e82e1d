//! Deterministic case runner: every case has its own generator seeded from (seed, case index), so
//! a failing case is re-run alone with --case N.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(s: u64) -> Self {
        let r = Rng(std::cell::Cell::new(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03));
        r.u();
        r.u();
        r
    }
    pub fn u(&self) -> u64 {
        // splitmix64
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    pub fn range(&self, a: i64, b: i64) -> i64 {
        a + (self.u() % (b - a + 1) as u64) as i64
    }
    pub fn bool(&self) -> bool {
        self.u() & 1 == 1
    }
    pub fn unit(&self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

struct Shared {
    desc: String,
    started: Option<Instant>,
    limit: f64,
}

pub struct Ctx {
    pub seed: u64,
    pub suite_salt: u64,
    end: Instant,
    only: Option<u64>,
    idx: u64,
    pub cases: u64,
    pub cover: BTreeMap<String, u64>,
    shared: Arc<Mutex<Shared>>,
    begun: Instant,
    seen: std::collections::HashSet<u64>,
    samples: Vec<String>,
    trace: Option<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fail(kind: &str, case: u64, seed: u64, what: &str, input: &str) {
    println!(
        "FAIL {{\"kind\":{},\"case\":{},\"seed\":{},\"what\":{},\"input\":{}}}",
        jstr(kind),
        case,
        seed,
        jstr(what),
        jstr(input)
    );
    if std::env::var("REPLAY_KEEP").is_ok() && kind != "hang" {
        return;
    }
    std::process::exit(1)
}

impl Ctx {
    pub fn new(seed: u64, secs: f64, only: Option<u64>) -> Self {
        if only.is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let shared = Arc::new(Mutex::new(Shared { desc: String::new(), started: None, limit: 20.0 }));
        let s2 = shared.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let g = s2.lock().unwrap();
            if let Some(t) = g.started {
                if t.elapsed().as_secs_f64() > g.limit {
                    let (what, input) = (format!("no answer within {} s", g.limit), g.desc.clone());
                    fail("hang", 0, seed, &what, &input);
                }
            }
        });
        Ctx {
            seed,
            suite_salt: 0,
            end: Instant::now() + Duration::from_secs_f64(secs),
            only,
            idx: 0,
            cases: 0,
            cover: BTreeMap::new(),
            shared,
            begun: Instant::now(),
            seen: Default::default(),
            samples: Vec::new(),
            trace: std::env::var("REPLAY_TRACE").ok(),
        }
    }
    pub fn time_left(&self) -> bool {
        match self.only {
            Some(o) => self.idx <= o,
            None => Instant::now() < self.end,
        }
    }
    pub fn frac_used(&self) -> f64 {
        let tot = (self.end - self.begun).as_secs_f64();
        self.begun.elapsed().as_secs_f64() / tot.max(1e-9)
    }
    pub fn hit(&mut self, k: &str) {
        *self.cover.entry(k.to_string()).or_insert(0) += 1;
    }
    /// Generate an input with the case's own generator, describe it, run the contract on it.
    pub fn case<I>(
        &mut self,
        gen: impl FnOnce(&Rng) -> I,
        show: impl FnOnce(&I) -> String,
        check: impl FnOnce(&I, &mut BTreeMap<String, u64>) -> Result<(), String>,
    ) {
        let idx = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if o != idx {
                return;
            }
        }
        let rng = Rng::new(self.seed ^ (idx.wrapping_mul(0xA24BAED4963EE407)) ^ self.suite_salt);
        let input = gen(&rng);
        let desc = show(&input);
        {
            let mut g = self.shared.lock().unwrap();
            g.desc = desc.clone();
            g.started = Some(Instant::now());
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, format!("{idx}\n{desc}"));
        }
        let triv = self.cover.get("trivial").copied();
        let cover = &mut self.cover;
        let r = catch_unwind(AssertUnwindSafe(|| check(&input, cover)));
        self.shared.lock().unwrap().started = None;
        self.cases += 1;
        if self.cover.get("trivial").copied() == triv && self.seen.len() < 4_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.seen.insert(h.finish()) && self.seen.len().is_power_of_two() && self.samples.len() < 3 && desc.len() < 1500 {
                self.samples.push(desc.clone());
            }
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(what)) => fail("wrong", idx, self.seed, &what, &desc),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                fail("panic", idx, self.seed, &format!("panicked: {msg}"), &desc)
            }
        }
    }
    pub fn finish(self) {
        let cov: Vec<String> = self.cover.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        println!(
            "OK {{\"cases\":{},\"distinct\":{},\"samples\":[{}],\"seed\":{},\"wall_s\":{:.2},\"cover\":{{{}}}}}",
            self.cases,
            self.seen.len(),
            self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            self.seed,
            self.begun.elapsed().as_secs_f64(),
            cov.join(",")
        );
    }
}
