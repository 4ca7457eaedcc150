use crate::json::J;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Runs `f`; a panic of the code under test is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(path: &str) -> Self {
        let _ = TRACE.set(path.to_string());
        Out {
            w: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).expect("create output")),
            n: 0,
        }
    }
    pub fn line(&mut self, j: J) {
        let mut s = String::new();
        j.write(&mut s);
        s.push('\n');
        self.w.write_all(s.as_bytes()).unwrap();
        self.n += 1;
    }
    pub fn done(mut self) {
        self.w.flush().unwrap();
    }
}

/// Run-length encoding of (index, outcome) pairs in index order: [lo, hi, outcome].
#[derive(Default)]
pub struct Runs(pub Vec<(usize, usize, String)>);
impl Runs {
    pub fn add(&mut self, i: usize, o: String) {
        if let Some(l) = self.0.last_mut() {
            if l.1 + 1 == i && l.2 == o {
                l.1 = i;
                return;
            }
        }
        self.0.push((i, i, o));
    }
    pub fn json(&self) -> J {
        J::A(self
            .0
            .iter()
            .map(|(a, b, o)| J::obj([("lo", J::I(*a as i64)), ("hi", J::I(*b as i64)), ("o", J::s(o.clone()))]))
            .collect())
    }
}

static TRACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// The code under test refused a legal value without which the case cannot be executed.
pub fn legal<T>(x: Option<T>, what: &str, value: &[u8]) -> T {
    match x {
        Some(v) => v,
        None => {
            let _ = std::fs::write(format!("{}.refused", TRACE.get().map(|x| x.as_str()).unwrap_or("none")), format!("{what}: {value:?}"));
            std::process::exit(0);
        }
    }
}

/// What is being executed, for the watchdog: code under test that does not return is reported, not waited for.
type Now = std::collections::HashMap<std::thread::ThreadId, (std::time::Instant, String)>;
static CURRENT: std::sync::Mutex<Option<Now>> = std::sync::Mutex::new(None);
pub fn begin(what: String) {
    CURRENT.lock().unwrap().get_or_insert_default().insert(std::thread::current().id(), (std::time::Instant::now(), what));
}
pub fn end() {
    CURRENT.lock().unwrap().get_or_insert_default().remove(&std::thread::current().id());
}
pub fn watchdog(trace: &str, limit: u64) {
    let trace = trace.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let c = CURRENT.lock().unwrap().clone();
        for (t, w) in c.unwrap_or_default().into_values() {
            if t.elapsed().as_secs() >= limit {
                let _ = std::fs::write(format!("{trace}.hang"), w);
                std::process::exit(0);
            }
        }
    });
}

/// `f` of all items on several threads, results in the order of the items.
pub fn parallel<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<(usize, R)>> = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8.min(items.len()) {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(x) = items.get(i) else { break };
                    let r = f(x);
                    end();
                    out.lock().unwrap().push((i, r));
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
