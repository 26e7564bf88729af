//! C09: creation is all-or-nothing at the destination. A forked child creates the container and is
//! killed (or gets I/O errors) at a chosen point; the destination is judged afterwards.
use crate::model::*;
use crate::util::*;
use crate::view::*;
use jubako as jbk;
use std::io::{BufRead as _, Write as _};
use std::os::unix::process::CommandExt as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

static COUNTDOWN: AtomicI64 = AtomicI64::new(-1);
static ACTION: AtomicU8 = AtomicU8::new(0);

unsafe fn raw_write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
/// Every write of this process: the k-th one after arming meets the fault.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if ACTION.load(Ordering::Relaxed) == 0 || fd <= 2 {
        return raw_write(fd, buf, n);
    }
    let k = COUNTDOWN.fetch_sub(1, Ordering::SeqCst);
    let act = ACTION.load(Ordering::SeqCst);
    if k > 0 || (k < 0 && act != b'p') {
        return raw_write(fd, buf, n);
    }
    let set = |e: i32| *libc::__errno_location() = e;
    match act {
        b'c' => libc::_exit(99),
        b'h' => {
            raw_write(fd, buf, n / 2);
            libc::_exit(99)
        }
        b'a' => {
            raw_write(fd, buf, n);
            libc::_exit(99)
        }
        b'e' => {
            set(libc::EIO);
            -1
        }
        b'i' => {
            set(libc::EINTR);
            -1
        }
        b's' => raw_write(fd, buf, n.div_ceil(2)),
        _ => {
            set(libc::ENOSPC);
            -1
        }
    }
}

// ---- other file system calls (rename, link, unlink, truncate, in-kernel copies): trapped by a seccomp
// filter and performed by the handler, so that the k-th one can meet a fault.
const MAGIC: u64 = 0x6a62_6b76;
static TRAP_COUNT: AtomicI64 = AtomicI64::new(-1);
static TRAP_ACTION: AtomicU8 = AtomicU8::new(0);

unsafe extern "C" fn on_sigsys(_s: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    let _ = info;
    let nr = g[libc::REG_RAX as usize];
    let a = |r: i32| g[r as usize];
    let act = TRAP_ACTION.load(Ordering::SeqCst);
    let hit = act != 0 && TRAP_COUNT.fetch_sub(1, Ordering::SeqCst) == 0;
    if hit && act == b'c' {
        libc::_exit(99);
    }
    if hit && act == b'e' {
        g[libc::REG_RAX as usize] = -(libc::EIO as i64);
        return;
    }
    // the sixth argument tells the filter to let it pass; sendfile, copy_file_range with 6 arguments
    // are refused instead, the callers fall back to read and write
    if nr == libc::SYS_copy_file_range || nr == libc::SYS_sendfile {
        g[libc::REG_RAX as usize] = -(libc::ENOSYS as i64);
        return;
    }
    let r = libc::syscall(
        nr,
        a(libc::REG_RDI),
        a(libc::REG_RSI),
        a(libc::REG_RDX),
        a(libc::REG_R10),
        a(libc::REG_R8),
        MAGIC,
    );
    let r = if r < 0 { -(*libc::__errno_location() as i64) } else { r as i64 };
    if hit && act == b'a' {
        libc::_exit(99);
    }
    g[libc::REG_RAX as usize] = r;
}

unsafe fn install_trap() -> bool {
    let nrs = [
        libc::SYS_rename,
        libc::SYS_renameat,
        libc::SYS_renameat2,
        libc::SYS_link,
        libc::SYS_linkat,
        libc::SYS_unlink,
        libc::SYS_unlinkat,
        libc::SYS_ftruncate,
        libc::SYS_copy_file_range,
        libc::SYS_sendfile,
    ];
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_sigsys as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
    if libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()) != 0 {
        return false;
    }
    let f = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
    let (ld, jeq, ret) = (
        libc::BPF_LD | libc::BPF_W | libc::BPF_ABS,
        libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K,
        libc::BPF_RET | libc::BPF_K,
    );
    let n = nrs.len();
    let mut prog = vec![
        f(ld, 0, 0, 16 + 8 * 5),
        f(jeq, n as u8 + 1, 0, MAGIC as u32), // -> allow
        f(ld, 0, 0, 0),
    ];
    for (i, nr) in nrs.iter().enumerate() {
        prog.push(f(jeq, (n - i) as u8, 0, *nr as u32)); // -> trap
    }
    prog.push(f(ret, 0, 0, libc::SECCOMP_RET_ALLOW));
    prog.push(f(ret, 0, 0, libc::SECCOMP_RET_TRAP));
    let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
        && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &p as *const _) == 0
}

fn spec_for(comp: Comp) -> ContainerSpec {
    let mut r = Rng::new(9 + comp.byte() as u64);
    let mut spec = crate::gen::small_container(&mut r, comp);
    // keep it small
    spec.contents[0] = ContentSpec::new(compressible(&mut r, 200), Hint::Yes);
    spec
}
fn extra_for(comp: Comp, x: bool) -> Vec<Vec<ContentSpec>> {
    let mut r = Rng::new(90 + comp.byte() as u64);
    if x {
        extra_contents(&mut r)
    } else {
        vec![]
    }
}
fn parse_cfg(comp: &str, mode: &str, x: &str) -> (Comp, Mode, bool) {
    (
        Comp::fast().into_iter().find(|c| c.tag() == comp).unwrap(),
        [Mode::One, Mode::Two, Mode::Sep]
            .into_iter()
            .find(|m| format!("{m:?}") == mode)
            .unwrap(),
        x == "x",
    )
}

/// jbkv c09-zygote COMP MODE X DIR INPUTS : single threaded; forks one creation per line of stdin.
pub fn zygote(a: &[String]) -> ! {
    let (comp, mode, x) = parse_cfg(&a[0], &a[1], &a[2]);
    let (dir, inputs) = (PathBuf::from(&a[3]), PathBuf::from(&a[4]));
    let spec = spec_for(comp);
    let extra = extra_for(comp, x);
    let mut lines = std::io::stdin().lock().lines();
    let out = std::io::stdout();
    while let Some(Ok(l)) = lines.next() {
        let (kind, rest) = l.split_at(1);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &no);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let act = *rest.as_bytes().last().unwrap();
                let n: i64 = rest[..rest.len() - 1].parse().unwrap();
                match kind {
                    "L" => {
                        libc::signal(
                            libc::SIGXFSZ,
                            if act == b'e' { libc::SIG_IGN } else { libc::SIG_DFL },
                        );
                        let lim = libc::rlimit { rlim_cur: n as u64, rlim_max: n as u64 };
                        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
                    }
                    "T" => {
                        TRAP_COUNT.store(n, Ordering::SeqCst);
                        if !install_trap() {
                            libc::_exit(98);
                        }
                        TRAP_ACTION.store(act, Ordering::SeqCst);
                    }
                    _ => {
                        COUNTDOWN.store(n, Ordering::SeqCst);
                        ACTION.store(act, Ordering::SeqCst);
                    }
                }
            }
            let r = guarded(|| create(&spec, mode, &extra, &dir, &inputs).map(|_| ()));
            let left = if kind == "T" { &TRAP_COUNT } else { &COUNTDOWN }.load(Ordering::SeqCst);
            ACTION.store(0, Ordering::SeqCst);
            TRAP_ACTION.store(0, Ordering::SeqCst);
            // 10: created without meeting the fault
            unsafe {
                libc::_exit(match r {
                    Ok(()) if kind != "L" && left >= 0 => 10,
                    Ok(()) => 11,
                    Err(_) => 12,
                })
            }
        }
        let start = Instant::now();
        let mut st = 0;
        let ans = loop {
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            if r == pid {
                break if libc::WIFSIGNALED(st) {
                    format!("signal {}", libc::WTERMSIG(st))
                } else {
                    format!("exit {}", libc::WEXITSTATUS(st))
                };
            }
            if start.elapsed() > Duration::from_secs(15) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                break "hung".into();
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        let mut o = out.lock();
        writeln!(o, "{ans}").unwrap();
        o.flush().unwrap();
    }
    std::process::exit(0)
}

fn create(
    spec: &ContainerSpec,
    mode: Mode,
    extra: &[Vec<ContentSpec>],
    dir: &Path,
    inputs: &Path,
) -> Result<(Created, Vec<Vec<(u16, u32)>>), String> {
    let d = jbk::Utf8PathBuf::from_path_buf(dir.to_path_buf()).unwrap();
    let ex = extra
        .iter()
        .enumerate()
        .map(|(i, c)| (d.join(format!("extra{i}.jbkc")), 2 + i as u16, c.clone()))
        .collect();
    create_basic_extra(spec, mode, &d.join("c.jbk"), inputs, Arc::new(()), ex)
}

#[derive(Clone)]
struct Cfg {
    comp: Comp,
    mode: Mode,
    x: bool,
    pre: bool,
}
impl Cfg {
    fn tag(&self) -> String {
        format!(
            "{}-{:?}{}{}",
            self.comp.tag(),
            self.mode,
            if self.x { "-x" } else { "" },
            if self.pre { "-pre" } else { "" }
        )
    }
}

struct Zygote {
    ch: std::process::Child,
    inp: std::process::ChildStdin,
    out: std::io::BufReader<std::process::ChildStdout>,
    sc: Scratch,
}
impl Zygote {
    fn new(c: &Cfg) -> Result<Zygote, String> {
        let sc = Scratch::new("c09");
        for d in ["run", "inputs"] {
            std::fs::create_dir_all(sc.path(d)).map_err(s("dir"))?;
        }
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.arg("c09-zygote")
            .args([c.comp.tag(), &format!("{:?}", c.mode), if c.x { "x" } else { "-" }])
            .arg(sc.path("run"))
            .arg(sc.path("inputs"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut ch = cmd.spawn().map_err(s("spawn"))?;
        let inp = ch.stdin.take().unwrap();
        let out = std::io::BufReader::new(ch.stdout.take().unwrap());
        Ok(Zygote { ch, inp, out, sc })
    }
    fn ask(&mut self, point: &str) -> Result<String, String> {
        writeln!(self.inp, "{point}").map_err(s("zygote"))?;
        self.inp.flush().map_err(s("zygote"))?;
        let mut l = String::new();
        self.out.read_line(&mut l).map_err(s("zygote"))?;
        if l.is_empty() {
            return Err("zygote died".into());
        }
        Ok(l.trim().into())
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

/// The destination after a creation that ended as `how`.
fn judge(c: &Cfg, dir: &Path, old: &[(String, Vec<u8>)], im: &Image, how: &str) -> Result<&'static str, String> {
    let entry = dir.join("c.jbk");
    let finished = how == "exit 10" || how == "exit 11";
    let now = match std::fs::read(&entry) {
        Ok(b) => b,
        Err(_) if !entry.exists() => {
            if c.pre {
                return Err("the previous file at the destination is gone".into());
            }
            if finished {
                return Err("creation succeeded but nothing is at the destination".into());
            }
            return Ok("absent");
        }
        Err(x) => return Err(format!("destination unreadable: {x}")),
    };
    if let Some((_, b)) = old.iter().find(|o| o.0 == "c.jbk") {
        if *b == now {
            if finished {
                return Err("creation succeeded but the previous file is still at the destination".into());
            }
            return Ok("previous");
        }
    }
    // a new file: it must be complete, as must everything it refers to
    (|| {
        let o = observe(im, dir);
        for (k, v) in &o {
            match v {
                Ok(v) => {
                    if k.starts_with("check:") && v != "true" {
                        return Err(format!("{k} is {v}"));
                    }
                    if v.starts_with("missing") || (v == "absent" && k.starts_with("s:content")) {
                        return Err(format!("{k}: {v}"));
                    }
                }
                Err(x) if k != "s:index:past" => return Err(format!("{k}: {x}")),
                _ => {}
            }
        }
        let k = jbk::reader::Container::new(&entry).map_err(s("open"))?;
        for (a, b) in &im.contents {
            match read_content(&k, *a)? {
                Some(Some(g)) if g == ***b => {}
                _ => return Err(format!("content {a:?} is not what was written")),
            }
        }
        let rd = read_indexes(&im.spec.dir, &k)?;
        for (i, sp) in rd.iter().zip(&im.spec.dir.indexes) {
            if i.count != sp.count {
                return Err("index count".into());
            }
        }
        Ok(())
    })()
    .map_err(|m| format!("the destination holds an incomplete container: {m}"))?;
    Ok("complete")
}

fn run_points(c: &Cfg, points: &[String]) -> CaseResult {
    let spec = spec_for(c.comp);
    let extra = extra_for(c.comp, c.x);
    let mut im = Image::create(&spec, c.mode, &extra, "c09")?;
    // what is there before
    let old: Vec<(String, Vec<u8>)> = if c.pre { im.files.clone() } else { vec![] };
    for f in im.files.iter_mut() {
        f.1.clear();
    }
    let mut z = Zygote::new(c)?;
    let dir = z.sc.path("run");
    let mut marks = std::collections::BTreeSet::new();
    for p in points {
        for e in std::fs::read_dir(&dir).map_err(s("ls"))? {
            let _ = std::fs::remove_file(e.map_err(s("ls"))?.path());
        }
        for (n, b) in &old {
            std::fs::write(dir.join(n), b).map_err(s("old"))?;
        }
        let how = z.ask(p)?;
        if how == "exit 98" {
            marks.insert("no-seccomp".to_string());
            continue;
        }
        if p.starts_with('T') && how == "exit 99" {
            marks.insert("crash-at-rename-like-call".to_string());
        }
        let v = judge(c, &dir, &old, &im, &how)
            .map_err(|m| format!("{} fault {p} (creation ended: {how}): {m}", c.tag()))?;
        let k = match how.as_str() {
            "exit 99" => "crash",
            "exit 12" => "error",
            "exit 10" | "exit 11" => "success",
            "hung" => "hung",
            _ => "signal",
        };
        marks.insert(format!("{k}->{v}"));
        if !c.pre && how != "hung" && p.starts_with('W') && k == "success" && v != "complete" {
            return Err("success without a container".into());
        }
    }
    Ok(marks.into_iter().collect())
}

pub fn cases(ctx: &mut Ctx) {
    ctx.limit = Duration::from_secs(240);
    let mut cfgs = vec![];
    for comp in [Comp::Lz4(1), Comp::None, Comp::Zstd(1), Comp::Lzma(0)] {
        for mode in [Mode::One, Mode::Two, Mode::Sep] {
            for x in [false, true] {
                for pre in [false, true] {
                    cfgs.push(Cfg { comp, mode, x, pre });
                }
            }
        }
    }
    for (ci, c) in cfgs.into_iter().enumerate() {
        let main = c.comp == Comp::Lz4(1);
        if !ctx.thorough && !main && (ci % 5 != 0) {
            continue;
        }
        // the number of writes and the sizes: measured with a fault that never comes
        let probe = (|| -> Result<(usize, usize, usize), String> {
            let mut z = Zygote::new(&c)?;
            let how = z.ask("W1000000c")?;
            if how != "exit 10" {
                return Err(format!("plain creation ended: {how}"));
            }
            let mut m = 0;
            for e in std::fs::read_dir(z.sc.path("run")).map_err(s("ls"))? {
                m = m.max(e.map_err(s("ls"))?.metadata().map_err(s("stat"))?.len() as usize);
            }
            let mut count = |k: &str| -> Result<usize, String> {
                let (mut lo, mut hi) = (0usize, 4096usize);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    // is there a mid-th call?
                    if z.ask(&format!("{k}{mid}c"))? == "exit 99" {
                        lo = mid + 1
                    } else {
                        hi = mid
                    }
                }
                Ok(lo)
            };
            let w = count("W")?;
            // "exit 98" when the sandbox refuses the filter
            let t = count("T")?;
            Ok((w, t, m))
        })();
        let (writes, traps, size) = match probe {
            Ok(x) => x,
            Err(m) => {
                ctx.case(format!("probe-{}", c.tag()), move || Err(m));
                continue;
            }
        };
        let mut pts = vec![];
        for k in 0..writes + 2 {
            for a in ["c", "h", "a", "e", "p", "s", "i"] {
                pts.push(format!("W{k}{a}"));
            }
        }
        for k in 0..traps + 1 {
            for a in ["c", "a", "e"] {
                pts.push(format!("T{k}{a}"));
            }
        }
        // byte offsets: exhaustive when thorough
        let stride = if ctx.thorough { 1 } else { 23 };
        let off = (ctx.seed as usize + ci) % stride;
        for n in (0..=size + 1).filter(|n| n % stride == off || *n + 70 > size && n % 3 == 0) {
            pts.push(format!("L{n}k"));
            pts.push(format!("L{n}e"));
        }
        for (i, ch) in pts.chunks(80).enumerate() {
            let (c, ch) = (c.clone(), ch.to_vec());
            ctx.case(format!("{}-{i}", c.tag()), move || run_points(&c, &ch));
        }
    }
}
