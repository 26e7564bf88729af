//! C08: the created container does not depend on the schedule of workers and writer.
use crate::model::*;
use crate::util::*;
use crate::{decode, gen};
use jubako as jbk;
use jubako::Pack as _;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    static FORCED_CPUS: Cell<usize> = const { Cell::new(0) };
}
/// What std::thread::available_parallelism asks: lets a case choose the number of workers.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    size: libc::size_t,
    mask: *mut libc::cpu_set_t,
) -> libc::c_int {
    let n = FORCED_CPUS.try_with(|c| c.get()).unwrap_or(0);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, mask);
        return if r < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(mask as *mut u8, 0, size);
    for i in 0..n {
        libc::CPU_SET(i, &mut *mask);
    }
    0
}
pub fn with_cpus<T>(n: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FORCED_CPUS.with(|c| c.set(0));
        }
    }
    let _r = Reset;
    FORCED_CPUS.with(|c| c.set(n));
    f()
}

/// Seeded delays at the worker / writer steps.
pub struct Perturb {
    seed: u64,
    style: u64,
    max_us: u64,
    pub written: AtomicU64,
    pub handled: AtomicU64,
    order: std::sync::Mutex<Vec<u32>>,
    n: AtomicU64,
}
impl Perturb {
    pub fn new(seed: u64, style: u64, max_us: u64) -> Self {
        Perturb {
            seed,
            style,
            max_us,
            written: AtomicU64::new(0),
            handled: AtomicU64::new(0),
            order: Default::default(),
            n: AtomicU64::new(0),
        }
    }
    fn nap(&self, event: u64, idx: u32) {
        let k = self.n.fetch_add(1, Ordering::Relaxed);
        let mut r = Rng::new(self.seed ^ (event << 32) ^ ((idx as u64) << 8));
        let d = match self.style {
            // every step
            0 => r.below(self.max_us),
            // early clusters last
            1 => self.max_us / (1 + idx as u64),
            // one slow cluster
            2 if event == 1 && idx as u64 % 7 == self.seed % 7 => self.max_us * 4,
            // slow writer
            3 if event == 2 => r.below(self.max_us),
            // slow producer: empty queues
            4 if event == 0 => self.max_us,
            // by history
            5 => Rng::new(self.seed ^ k).below(self.max_us),
            // slow workers: full queues
            6 if event == 1 => self.max_us,
            _ => 0,
        };
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d));
        }
    }
}
impl jbk::creator::Progress for Perturb {
    fn new_cluster(&self, i: u32, _c: bool) {
        self.nap(0, i)
    }
    fn handle_cluster(&self, i: u32, c: bool) {
        self.handled.fetch_add(1, Ordering::Relaxed);
        self.nap(if c { 1 } else { 3 }, i)
    }
    fn handle_cluster_written(&self, i: u32) {
        self.written.fetch_add(1, Ordering::Relaxed);
        self.order.lock().unwrap().push(i);
        self.nap(2, i)
    }
}

#[derive(Clone)]
struct Plan {
    comp: Comp,
    cpus: usize,
    style: u64,
    seed: u64,
    /// full clusters of 4095 blobs, per kind
    comp_clusters: usize,
    raw_clusters: usize,
    /// contents bigger than a cluster
    big: usize,
    interleave: bool,
    max_us: u64,
}

fn content(seed: u64, i: usize) -> Vec<u8> {
    let mut v = format!("{seed:x}-{i}").into_bytes();
    v.truncate(2 + (i * 7) % 12);
    v
}

fn run(p: Plan) -> CaseResult {
    let sc = Scratch::new("c08");
    let out = sc.utf8("p.jbkc");
    let mut contents: Vec<ContentSpec> = vec![];
    let mut r = Rng::new(p.seed);
    let (nc, nr) = (p.comp_clusters * 4095, p.raw_clusters * 4095);
    let (mut c, mut w) = (0, 0);
    while c + w < nc + nr {
        let comp_now = if p.interleave {
            c * nr.max(1) <= w * nc.max(1) && c < nc || w >= nr
        } else {
            c < nc
        };
        let i = contents.len();
        let h = if comp_now {
            c += 1;
            Hint::Yes
        } else {
            w += 1;
            Hint::No
        };
        contents.push(ContentSpec::new(content(p.seed, i), h));
    }
    for k in 0..p.big {
        let n = (4 << 20) + 1 + r.usize(1000);
        let at = r.usize(contents.len() + 1);
        let mut b = compressible(&mut r, n);
        b[0] = k as u8;
        contents.insert(at, ContentSpec::new(b, Hint::Yes));
    }
    for _ in 0..r.usize(30) {
        let h = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
        let mut c = gen::gen_content(&mut r, 3000);
        c.hint = h;
        c.src = Src::Mem;
        contents.push(c);
    }
    let progress = Arc::new(Perturb::new(p.seed, p.style, p.max_us));
    let (_, addr) = with_cpus(p.cpus, || {
        create_content_pack(&contents, p.comp, 1, &out, &sc.0, progress.clone())
    })?;
    // read back
    let pack = jbk::reader::ContentPack::new(reader_of(out.as_std_path())?).map_err(s("open"))?;
    if !pack.check().map_err(s("check"))? {
        return Err("the pack does not verify".into());
    }
    if pack.get_content_count().into_u32() as usize != contents.len() {
        return Err("content count".into());
    }
    for (i, (c, a)) in contents.iter().zip(&addr).enumerate() {
        let r = pack
            .get_content(a.1.into())
            .map_err(|e| format!("content {i} at {}: {e}", a.1))?
            .ok_or_else(|| format!("content {i} at {} absent", a.1))?;
        let b = region_bytes(&r).map_err(|e| format!("content {i}: {e}"))?;
        if b != **c.bytes {
            return Err(format!(
                "content {i} at {} reads {} instead of {}",
                a.1,
                short(&b),
                short(&c.bytes)
            ));
        }
    }
    // second opinion
    let data = std::fs::read(out.as_std_path()).map_err(s("read"))?;
    let d = decode::content(&data)?;
    for (i, (c, a)) in contents.iter().zip(&addr).enumerate() {
        if d.get(a.1 as usize)? != c.bytes.as_slice() {
            return Err(format!("content {i} at {}: decoded bytes differ", a.1));
        }
    }
    let order = progress.order.lock().unwrap().clone();
    let n = d.clusters.len() as u64;
    if progress.written.load(Ordering::SeqCst) != n {
        return Err(format!("{n} clusters, {} written", progress.written.load(Ordering::SeqCst)));
    }
    let sorted = order.windows(2).all(|w| w[0] < w[1]);
    Ok(vec![
        format!("workers:{}", (p.cpus.max(2)) - 1),
        format!("style:{}", p.style),
        format!("comp:{}", p.comp.tag()),
        if sorted { "written-in-order" } else { "written-out-of-order" }.into(),
        format!("queue:{}", if p.comp_clusters > 2 * (p.cpus.max(2) - 1) { "over-limit" } else { "under-limit" }),
    ])
}

pub fn cases(ctx: &mut Ctx) {
    ctx.limit = Duration::from_secs(60);
    let n = ctx.n(110, 1200);
    for k in 0..n {
        let id = format!("sched-{k}");
        let mut r = ctx.rng(&id);
        let comp = [Comp::Lz4(1), Comp::Zstd(1), Comp::Lzma(0), Comp::Lz4(1), Comp::None][k % 5];
        let cpus = 2 + k % 15; // 1..15 workers
        let p = Plan {
            comp,
            cpus,
            style: (k / 5) as u64 % 7,
            seed: r.next(),
            comp_clusters: match k % 3 {
                0 => r.range(1, 4) as usize,
                1 => r.range(5, 9) as usize,
                _ => (2 * (cpus - 1) + 1 + r.usize(4)).min(if comp == Comp::Lzma(0) { 10 } else { 24 }),
            },
            raw_clusters: r.usize(4),
            big: if comp == Comp::Lzma(0) { 0 } else { r.usize(3) },
            interleave: r.bool(),
            max_us: 3000,
        };
        ctx.case(id, move || run(p));
    }
    // a step which takes long on the scale of any time-out: a producer, a worker or a writer that stalls
    for (style, wait) in [(6, 700), (6, 2500), (2, 600), (3, 1500), (4, 700), (4, 2500), (1, 2500)] {
        for cpus in [2, 5] {
            let id = format!("stall-{style}-{wait}-{cpus}");
            let mut r = ctx.rng(&id);
            let p = Plan {
                comp: Comp::Lz4(1),
                cpus,
                style,
                seed: r.next(),
                comp_clusters: if cpus == 2 { 4 } else { 3 },
                raw_clusters: 1,
                big: 1,
                interleave: r.bool(),
                max_us: wait * 1000,
            };
            ctx.case(id, move || run(p));
        }
    }
}
