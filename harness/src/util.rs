//! Trace writing, seeded randomness, and running code under test so that a panic is data.
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use rand::rngs::StdRng;
pub use rand::{Rng, SeedableRng};

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}

/// Runs `f`; `None` if it panicked. A panic of the code under test is an observation, not an error.
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(was));
    r
}

/// One ndjson trace, split into files of about `per_file` records at scenario boundaries.
pub struct Trace {
    dir: String,
    stem: String,
    per_file: usize,
    in_file: usize,
    pub files: Vec<String>,
    pub records: usize,
    pub scenarios: usize,
    out: Option<std::io::BufWriter<std::fs::File>>,
}

impl Trace {
    pub fn new(dir: &str, stem: &str, per_file: usize) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        Trace { dir: dir.into(), stem: stem.into(), per_file, in_file: 0, files: vec![], records: 0, scenarios: 0, out: None }
    }
    /// Start of a scenario: the only place where a new file may begin.
    pub fn scenario(&mut self) {
        self.scenarios += 1;
        if self.out.is_none() || self.in_file >= self.per_file {
            self.finish();
            let name = format!("{}/{}_{:03}.ndjson", self.dir, self.stem, self.files.len());
            self.out = Some(std::io::BufWriter::new(std::fs::File::create(&name).unwrap()));
            self.files.push(name);
            self.in_file = 0;
        }
    }
    pub fn emit(&mut self, v: Value) {
        ALIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let o = self.out.as_mut().expect("scenario() first");
        serde_json::to_writer(&mut *o, &v).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
        self.in_file += 1;
        self.records += 1;
    }
    pub fn finish(&mut self) {
        if let Some(mut o) = self.out.take() {
            o.flush().unwrap();
        }
    }
    pub fn summary(&mut self) -> Value {
        self.finish();
        json!({"files": self.files, "records": self.records, "scenarios": self.scenarios})
    }
}

pub fn pick<'a, T>(r: &mut StdRng, xs: &'a [T]) -> &'a T {
    &xs[r.gen_range(0..xs.len())]
}

/// Weighted choice of an index.
pub fn weighted(r: &mut StdRng, ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut k = r.gen_range(0..total);
    for (i, w) in ws.iter().enumerate() {
        if k < *w {
            return i;
        }
        k -= w;
    }
    ws.len() - 1
}


pub static ALIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Ends the process with code 97 when no record was written for `secs` seconds: a call that does not return.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(secs));
            let now = ALIVE.load(std::sync::atomic::Ordering::Relaxed);
            if now == last { eprintln!("watchdog: no progress"); std::process::exit(97); }
            last = now;
        }
    });
}

/// Like `guard`, but reports the panic on stderr.
pub fn guard_loud<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }

/// What a driver is asked for: `<exe> <property> <seed> <quick|thorough> <outdir> [cases]`.
pub struct Ctx { pub prop: String, pub seed: u64, pub thorough: bool, pub k: usize, pub out: String, pub cases: Option<String> }
impl Ctx {
    pub fn rng(&self) -> StdRng { StdRng::seed_from_u64(self.seed.wrapping_mul(1_000_003) ^ self.prop.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))) }
    /// The cases that the specification made up.
    pub fn cases(&self) -> Vec<Value> {
        self.cases.iter().flat_map(|f| std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect::<Vec<_>>()).collect()
    }
    pub fn trace(&self, per_file: usize) -> Trace { Trace::new(&self.out, &self.prop, if self.thorough { per_file * 2 } else { per_file }) }
}
pub fn driver_main(f: impl FnOnce(&str, &Ctx) -> Value) {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[3] == "thorough";
    let c = Ctx { prop: a[1].clone(), seed: a[2].parse().unwrap(), thorough, k: if thorough { 10 } else { 1 }, out: a[4].clone(), cases: a.get(5).cloned() };
    install_panic_hook();
    watchdog(60);
    println!("{}", f(&a[1], &c));
}
