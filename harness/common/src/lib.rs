//! Shared pieces of the conformance drivers.
use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Ends the process (exit 97) when one case takes more than `secs` seconds.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut n = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                n += 1
            } else {
                n = 0;
                last = now
            }
            if n >= secs {
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                println!("AT {}", c.replace('\n', " "));
                let _ = std::io::stdout().flush();
                std::process::exit(97);
            }
        }
    });
}

/// Announce the case about to run (for the watchdog and for crash reports).
pub fn at(case: impl FnOnce() -> String) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    if let Ok(mut c) = CURRENT.lock() {
        *c = case();
    }
}

/// Run `f`; a panic in the code under test is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn lines(path: &str) -> impl Iterator<Item = Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| {
        eprintln!("cannot open {path}: {e}");
        std::process::exit(3)
    });
    BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| {
        serde_json::from_str(&l).unwrap_or_else(|e| {
            eprintln!("bad vector: {e}: {l}");
            std::process::exit(3)
        })
    })
}

pub struct Out(BufWriter<std::fs::File>);
impl Out {
    pub fn new(path: &str) -> Self {
        Out(BufWriter::new(std::fs::File::create(path).unwrap_or_else(|e| {
            eprintln!("cannot create {path}: {e}");
            std::process::exit(3)
        })))
    }
    pub fn put(&mut self, v: Value) {
        writeln!(self.0, "{v}").unwrap();
    }
}

static NBAD: AtomicU64 = AtomicU64::new(0);
pub fn bad(what: impl AsRef<str>, case: Value) {
    let n = NBAD.fetch_add(1, Ordering::Relaxed);
    if n < 60 {
        println!("BAD {}", serde_json::json!({"what": what.as_ref(), "case": case}));
    }
}
pub fn out(v: Value) {
    println!("OUT {v}");
}
pub fn bads() -> u64 {
    NBAD.load(Ordering::Relaxed)
}

/// The characters standing for the classes of spec/Text.tla.
pub fn concretise(tokens: &Value, variant: usize) -> String {
    tokens.as_array().unwrap().iter().map(|t| conc(t.as_str().unwrap(), variant)).collect()
}
pub fn conc(t: &str, variant: usize) -> String {
    let v = |a: &[&str]| a[variant % a.len()].to_string();
    match t {
        "e2" => v(&["é", "ß", "Ж"]),
        "e3" => v(&["€", "日", "\u{FEFF}"]),
        "e4" => v(&["🌍", "𝒳", "🦀"]),
        "nl" => "\n".into(),
        "cr" => "\r".into(),
        x => x.to_string(),
    }
}
pub fn abstracts(s: &str) -> Value {
    Value::Array(
        s.chars()
            .map(|c| {
                Value::String(match c {
                    '\n' => "nl".into(),
                    '\r' => "cr".into(),
                    c if c.len_utf8() == 2 => "e2".into(),
                    c if c.len_utf8() == 3 => "e3".into(),
                    c if c.len_utf8() == 4 => "e4".into(),
                    c => c.to_string(),
                })
            })
            .collect(),
    )
}
