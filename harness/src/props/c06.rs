//! C06: reading a damaged file returns a value or an error. Every damage is read in a child process
//! (debug-assertion and optimised builds), with a panic hook seeing the panics of every thread.
use crate::model::*;
use crate::util::*;
use crate::view::*;
use std::io::{BufRead as _, Write as _};
use std::os::unix::process::{CommandExt as _, ExitStatusExt as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

fn comp_of(t: &str) -> Option<Comp> {
    Comp::fast().into_iter().find(|c| c.tag() == t)
}
fn mode_of(t: &str) -> Option<Mode> {
    [Mode::One, Mode::Two, Mode::Sep].into_iter().find(|m| format!("{m:?}") == t)
}

/// The image called `tag` ("small:lz4:One" or "medium:zstd:Sep"), created from scratch.
pub fn image_of(tag: &str, seed: u64) -> Result<Image, String> {
    let p: Vec<&str> = tag.split(':').collect();
    let (comp, mode) = (comp_of(p[1]).ok_or("comp")?, mode_of(p[2]).ok_or("mode")?);
    if p[0] == "medium" {
        medium_image(seed, comp, mode)
    } else {
        let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(comp.byte() as u64));
        let spec = crate::gen::small_container(&mut r, comp);
        let ex = extra_contents(&mut r);
        Image::create(&spec, mode, &ex, tag)
    }
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// jbkv c06-child TAG SEED IMAGE_DIR LIST : read every damage of the list.
pub fn child(args: &[String]) -> ! {
    let (tag, seed, dir, list) = (&args[0], args[1].parse::<u64>().unwrap(), &args[2], &args[3]);
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{msg} at {loc}"));
    }));
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let no = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &no);
    }
    let mut im = image_of(tag, seed).expect("image");
    im.load(&Path::new(dir).join("img")).expect("load");
    let sc = PathBuf::from(dir).join("work");
    std::fs::create_dir_all(&sc).unwrap();
    let sub = Scratch(sc.join(std::process::id().to_string()));
    std::fs::create_dir_all(&sub.0).unwrap();
    let mut b = Bench::new(&im, &sub.0);
    let out = std::io::stdout();
    for (n, line) in std::fs::read_to_string(list).unwrap().lines().enumerate() {
        let d = Damage::parse(line).expect("damage");
        b.set(&d);
        {
            let mut o = out.lock();
            writeln!(o, "S {n}").unwrap();
            o.flush().unwrap();
        }
        let obs = observe(&im, &sub.0);
        let errs = obs.values().filter(|v| v.is_err()).count();
        let p: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()));
        let mut o = out.lock();
        match p.first() {
            None => writeln!(o, "E {n} {errs}").unwrap(),
            Some(m) => writeln!(o, "P {n} {}", m.replace('\n', " ")).unwrap(),
        }
        o.flush().unwrap();
    }
    std::thread::sleep(Duration::from_millis(20));
    let p: Vec<String> = std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    if let Some(m) = p.first() {
        println!("L {}", m.replace('\n', " "));
    }
    println!("DONE");
    drop(sub);
    std::process::exit(0)
}

/// Run a list of damages in a child; Err((damage, what)) for the first misbehaviour.
fn run_list(bin: &Path, tag: &str, seed: u64, dir: &Path, list: &[Damage]) -> Result<(u64, u64), String> {
    let lf = dir.join(format!("list-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::write(&lf, list.iter().map(|d| d.show() + "\n").collect::<String>()).map_err(s("list"))?;
    let mut cmd = Command::new(bin);
    cmd.arg("c06-child")
        .args([tag, &seed.to_string()])
        .arg(dir)
        .arg(&lf)
        .env("JBKV_SCRATCH", dir.join("work"))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null());
    unsafe {
        // die with the parent
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().map_err(s("spawn"))?;
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let t = std::thread::spawn(move || {
        for l in std::io::BufReader::new(so).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut cur: Option<usize> = None;
    let (mut ok, mut errs) = (0u64, 0u64);
    let mut verdict: Result<(), String> = Ok(());
    let mut done = false;
    loop {
        match rx.recv_timeout(Duration::from_secs(25)) {
            Ok(l) => {
                let p: Vec<&str> = l.splitn(3, ' ').collect();
                match p[0] {
                    "S" => cur = p[1].parse().ok(),
                    "E" => {
                        ok += 1;
                        errs += (p[2] != "0") as u64;
                    }
                    "P" => {
                        let n: usize = p[1].parse().unwrap();
                        verdict = Err(format!("{}: panic: {}", list[n].show(), p[2]));
                        break;
                    }
                    "L" => {
                        verdict = Err(format!("{}: late panic: {}", list.last().unwrap().show(), &l[2..]));
                        break;
                    }
                    "DONE" => {
                        done = true;
                    }
                    _ => {}
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                verdict = Err(format!(
                    "{}: no answer after 25 s",
                    cur.map_or("start".into(), |c| list[c].show())
                ));
                break;
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    if verdict.is_err() {
        let _ = ch.kill();
    }
    let st = ch.wait().map_err(s("wait"))?;
    let _ = t.join();
    verdict?;
    if !done || !st.success() {
        return Err(format!(
            "{}: the process ended ({}{})",
            cur.map_or("start".into(), |c| list[c].show()),
            st.signal().map_or(String::new(), |x| format!("signal {x} ")),
            st
        ));
    }
    Ok((ok, errs))
}

pub fn profiles() -> Vec<(&'static str, PathBuf)> {
    let mut v = vec![("debug", std::env::current_exe().unwrap())];
    if let Some(p) = std::env::var_os("JBKV_RELEASE_BIN") {
        v.push(("release", p.into()));
    }
    v
}

fn list_for(im: &Image, kind: &str, f: usize, lo: usize, hi: usize, thorough: bool) -> Vec<Damage> {
    let mut v = vec![];
    for pos in lo..hi {
        match kind {
            "flip" => {
                let byte = im.files[f].1[pos];
                let mut masks = vec![1u8 << (pos % 8), 0xFF];
                if thorough {
                    masks = (0..8).map(|i| 1 << i).collect();
                    masks.extend([0xFF, 0x55, byte]);
                }
                for m in masks {
                    if m != 0 {
                        v.push(Damage(vec![Op::Xor(f, pos, m)]));
                    }
                }
            }
            _ => v.push(Damage(vec![Op::Trunc(f, pos)])),
        }
    }
    v
}

pub fn cases(ctx: &mut Ctx) {
    let seed = ctx.seed;
    ctx.limit = Duration::from_secs(300);
    let mut tags = vec![];
    for c in Comp::fast() {
        for m in [Mode::One, Mode::Two, Mode::Sep] {
            tags.push(format!("small:{}:{m:?}", c.tag()));
        }
    }
    let thorough = ctx.thorough;
    let holder: Arc<Scratch> = Arc::new(Scratch::new("c06"));
    let make = |tag: &str| -> Result<(Arc<Image>, PathBuf), String> {
        let im = image_of(tag, seed)?;
        let d = holder.path(&tag.replace(':', "-"));
        std::fs::create_dir_all(&d).map_err(s("dir"))?;
        std::fs::create_dir_all(d.join("img")).map_err(s("dir"))?;
        std::fs::create_dir_all(d.join("work")).map_err(s("dir"))?;
        im.write(&d.join("img"));
        Ok((Arc::new(im), d))
    };
    for tag in &tags {
        let (im, dir) = match make(tag) {
            Ok(x) => x,
            Err(m) => {
                ctx.case(format!("image-{tag}"), move || Err(m));
                continue;
            }
        };
        for (prof, bin) in profiles() {
            for kind in ["flip", "trunc"] {
                for f in 0..im.files.len() {
                    let n = im.files[f].1.len();
                    let step = 600;
                    for lo in (0..n).step_by(step) {
                        let (im, dir, tag, bin, holder) =
                            (im.clone(), dir.clone(), tag.clone(), bin.clone(), holder.clone());
                        ctx.case(format!("{kind}-{prof}-{tag}-{f}-{lo}"), move || {
                            let _h = holder;
                            let l = list_for(&im, kind, f, lo, (lo + step).min(n), thorough);
                            let (ok, errs) = run_list(&bin, &tag, seed, &dir, &l)?;
                            Ok(vec![
                                format!("{kind}-{prof}:{tag}"),
                                if errs > 0 { "some-errors".into() } else { "no-error".into() },
                                format!("all-answered:{}", ok == l.len() as u64),
                            ])
                        });
                    }
                }
            }
            for k in 0..ctx.n(1, 12) {
                let id = format!("range-{prof}-{tag}-{k}");
                let mut r = ctx.rng(&id);
                let (im, dir, tag, bin, holder) =
                    (im.clone(), dir.clone(), tag.clone(), bin.clone(), holder.clone());
                ctx.case(id, move || {
                    let _h = holder;
                    let mut l: Vec<Damage> = (0..300)
                        .map(|_| super::c05::random_damage(&mut r, &im, false))
                        .collect();
                    for f in 0..im.files.len() {
                        for n in [0usize, 1, 3, 4, 8, 59, 60, 63, 64, 65, 127, 128, 129, 200, 5000] {
                            l.push(Damage(vec![Op::Garbage(f, n, r.next())]));
                        }
                        // zeroed prefixes and suffixes
                        let n = im.files[f].1.len();
                        for cut in [1usize, 4, 8, 64, 128, 200] {
                            l.push(Damage(vec![Op::Fill(f, 0, cut, 0)]));
                            l.push(Damage(vec![Op::Fill(f, n.saturating_sub(cut), cut, 0)]));
                        }
                        for m in [1usize, 63, 64, 65, 4096] {
                            l.push(Damage(vec![Op::Append(f, m, r.next())]));
                        }
                    }
                    run_list(&bin, &tag, seed, &dir, &l)?;
                    Ok(vec![format!("range-{prof}:{tag}")])
                });
            }
        }
    }
    for comp in Comp::fast() {
        let tag = format!("medium:{}:{}", comp.tag(), if comp == Comp::None { "Sep" } else { "One" });
        let (im, dir) = match make(&tag) {
            Ok(x) => x,
            Err(m) => {
                ctx.case(format!("image-{tag}"), move || Err(m));
                continue;
            }
        };
        for (prof, bin) in profiles() {
            for k in 0..ctx.n(2, 20) {
                let id = format!("medium-{prof}-{tag}-{k}");
                let mut r = ctx.rng(&id);
                let (im, dir, tag, bin, holder) =
                    (im.clone(), dir.clone(), tag.clone(), bin.clone(), holder.clone());
                ctx.case(id, move || {
                    let _h = holder;
                    let l: Vec<Damage> = (0..150)
                        .map(|_| super::c05::random_damage(&mut r, &im, false))
                        .collect();
                    run_list(&bin, &tag, seed, &dir, &l)?;
                    Ok(vec![format!("medium-{prof}:{tag}")])
                });
            }
        }
    }
}
