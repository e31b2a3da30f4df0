//! Shared plumbing: seeded randomness, trace output, panic capture, a watchdog.
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::Value;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub rest: Vec<String>,
}

impl Args {
    pub fn rng(&self, salt: u64) -> SmallRng {
        SmallRng::seed_from_u64(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt)
    }
    /// quick value or thorough value
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
    /// The programs TLC enumerated for this run, one JSON value per line.
    pub fn programs(&self) -> Vec<Value> {
        std::fs::read_to_string(self.out.join("programs.ndjson")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
    }
    pub fn scratch(&self, name: &str) -> PathBuf {
        let d = self.out.join("scratch");
        std::fs::create_dir_all(&d).unwrap();
        d.join(name)
    }
}

/// Trace writer. `begin` records the case about to run in a side file, so that a crash or a hang of the
/// code under test can be attributed to it.
pub struct Out {
    w: BufWriter<File>,
    cur: PathBuf,
    pub n: usize,
}

impl Out {
    pub fn new(a: &Args, name: &str) -> Out {
        let p = a.out.join(format!("{}.ndjson", name));
        Out {
            w: BufWriter::new(File::create(&p).unwrap()),
            cur: a.out.join("current.json"),
            n: 0,
        }
    }
    pub fn begin(&self, v: &Value) {
        let tmp = self.cur.with_extension("tmp");
        std::fs::write(&tmp, v.to_string()).unwrap();
        std::fs::rename(&tmp, &self.cur).unwrap();
        BEAT.fetch_add(1, Ordering::SeqCst);
    }
    pub fn emit(&mut self, v: &Value) {
        writeln!(self.w, "{}", v).unwrap();
        self.n += 1;
    }
}

impl Drop for Out {
    fn drop(&mut self) {
        let _ = self.w.flush();
        let _ = std::fs::remove_file(&self.cur);
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Ends the process with code 77 when no case has started for `secs`.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::SeqCst);
            if b == last {
                idle += 1;
            } else {
                idle = 0;
                last = b;
            }
            if idle > secs {
                eprintln!("WATCHDOG: no progress for {} s", secs);
                std::process::exit(77);
            }
        }
    });
}

pub fn beat() {
    BEAT.fetch_add(1, Ordering::SeqCst);
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        eprintln!("[panic] {}", m);
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = m;
        }
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .lock()
            .map(|g| g.clone())
            .unwrap_or_default()
            .chars()
            .take(300)
            .collect()
    })
}

/// The integer m whose root (over the unit q) is the distance d, or -1 if there is none.
pub fn as_sq(d: f32, q: i64) -> i64 {
    let x = (d as f64) * (q as f64);
    let m = (x * x).round();
    if m.is_finite() && (m.sqrt() - x).abs() <= 1e-5 * (1.0 + x.abs()) && m < 1e9 {
        m as i64
    } else {
        -1
    }
}
