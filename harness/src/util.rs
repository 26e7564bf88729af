//! Small utilities: PRNG, scratch directories, case runner, JSON.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn from_str(s: &str, seed: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x1000_0000_01b3);
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// an unsigned value of interesting magnitude
    pub fn magnitude(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => {
                let b = 1u64 << self.below(64);
                b.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            2 => {
                let k = self.range(1, 8);
                let m = if k == 8 { u64::MAX } else { (1u64 << (8 * k)) - 1 };
                m.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            3 => u64::MAX - self.below(3),
            4 => self.next() >> self.below(64),
            _ => self.below(1000),
        }
    }
}

pub fn compressible(r: &mut Rng, n: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..5).map(|i| vec![b'a' + i as u8; 1 + i]).collect();
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        let i = r.usize(5);
        v.extend_from_slice(&words[i]);
    }
    v.truncate(n);
    v
}

// ---------------------------------------------------------------- scratch
static SCRATCH_N: AtomicUsize = AtomicUsize::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = scratch_base();
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let p = base.join(format!("jbkv-{}-{}-{}", std::process::id(), n, tag));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn utf8(&self, name: &str) -> jubako::Utf8PathBuf {
        jubako::Utf8PathBuf::from_path_buf(self.path(name)).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch_base() -> PathBuf {
    match std::env::var_os("JBKV_SCRATCH") {
        Some(p) => PathBuf::from(p),
        None => std::env::temp_dir(),
    }
}

// ---------------------------------------------------------------- cases
/// Ok(marks): the case held; the marks describe which non-trivial situations it exercised.
pub type CaseResult = Result<Vec<String>, String>;
pub type CaseFn = Box<dyn FnOnce() -> CaseResult + Send>;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    cases: Vec<(String, CaseFn)>,
    pub threads: usize,
    pub limit: Duration,
    /// stop starting new cases after this much time (the remaining ones are reported as skipped)
    pub budget: Duration,
    seen: BTreeSet<String>,
}

pub struct Report {
    pub evaluations: u64,
    pub skipped: u64,
    pub marks: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub wall: f64,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, only: Option<String>) -> Self {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            only,
            cases: vec![],
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
            limit: Duration::from_secs(60),
            budget: Duration::from_secs(if thorough { 600 } else { 150 }),
            seen: BTreeSet::new(),
        }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn rng(&self, id: &str) -> Rng {
        Rng::from_str(id, self.seed)
    }
    pub fn case<F>(&mut self, id: impl Into<String>, f: F)
    where
        F: FnOnce() -> CaseResult + Send + 'static,
    {
        let id = id.into();
        if let Some(o) = &self.only {
            if *o != id {
                return;
            }
        }
        assert!(self.seen.insert(id.clone()), "duplicate case id {id}");
        self.cases.push((id, Box::new(f)));
    }
    pub fn run(self) -> Report {
        let start = Instant::now();
        let total = self.cases.len();
        let queue: Mutex<std::collections::VecDeque<(String, CaseFn)>> = Mutex::new(self.cases.into());
        let queue = Arc::new(queue);
        let rep = Arc::new(Mutex::new(Report {
            evaluations: 0,
            skipped: 0,
            marks: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            wall: 0.0,
        }));
        let running: Arc<Mutex<BTreeMap<usize, (String, Instant)>>> = Default::default();
        let done = Arc::new(AtomicUsize::new(0));
        let nthreads = self.threads.min(total.max(1));
        for t in 0..nthreads {
            let (queue, rep, running, done) =
                (queue.clone(), rep.clone(), running.clone(), done.clone());
            let budget = self.budget;
            std::thread::Builder::new()
                .name(format!("case-{t}"))
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        let next = queue.lock().unwrap().pop_front();
                        let Some((id, f)) = next else { break };
                        if start.elapsed() > budget {
                            rep.lock().unwrap().skipped += 1;
                            continue;
                        }
                        running.lock().unwrap().insert(t, (id.clone(), Instant::now()));
                        progress('S', &id);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                        progress('E', &id);
                        running.lock().unwrap().remove(&t);
                        let mut rep = rep.lock().unwrap();
                        rep.evaluations += 1;
                        match r {
                            Ok(Ok(marks)) => {
                                if rep.samples.len() < 12 && rep.evaluations % 7 == 1 {
                                    let s = format!("{id} [{}]", marks.join(","));
                                    rep.samples.push(s);
                                }
                                for m in marks {
                                    *rep.marks.entry(m).or_insert(0) += 1;
                                }
                            }
                            Ok(Err(e)) => rep.violations.push((id, e)),
                            Err(p) => rep.violations.push((id, format!("panic: {}", panic_msg(&p)))),
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        loop {
            if done.load(Ordering::SeqCst) == nthreads {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            let hung: Vec<String> = running
                .lock()
                .unwrap()
                .values()
                .filter(|(_, s)| s.elapsed() > self.limit)
                .map(|(i, _)| i.clone())
                .collect();
            if !hung.is_empty() {
                let mut r = rep.lock().unwrap();
                for h in hung {
                    r.violations.push((h, format!("no answer after {:?}", self.limit)));
                }
                break;
            }
        }
        let mut out = Report {
            evaluations: 0,
            skipped: 0,
            marks: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            wall: 0.0,
        };
        std::mem::swap(&mut out, &mut *rep.lock().unwrap());
        out.wall = start.elapsed().as_secs_f64();
        out.violations.sort();
        out
    }
}

/// Tells which cases are running to whoever looks after a crash of this process.
fn progress(what: char, id: &str) {
    use std::io::Write;
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = FILE.get_or_init(|| {
        let p = std::env::var_os("JBKV_PROGRESS")?;
        std::fs::OpenOptions::new().create(true).append(true).open(p).ok()
    });
    if let Some(mut f) = f.as_ref() {
        let _ = f.write_all(format!("{what} {id}\n").as_bytes());
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run f, turning a panic into Err("panic: ..").
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", panic_msg(&p))),
    }
}

pub fn s<E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> String + '_ {
    move |e| format!("{what}: {e}")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn short(b: &[u8]) -> String {
    let mut o: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() > 24 {
        o.push_str("..");
    }
    format!("{}B:{}", b.len(), o)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    format!("lengths {} vs {}, first difference at {}", a.len(), b.len(), n)
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_file() {
            std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
        }
    }
}
