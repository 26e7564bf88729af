//! C07: concurrent readers of one container.
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader;
use std::io::Read as _;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

/// The bytes of content i: derivable without storing them.
fn small(seed: u64, i: usize) -> Vec<u8> {
    let n = 30 + (i * 13) % 60;
    let mut r = Rng::new(seed ^ ((i as u64) << 20));
    if i % 3 == 0 {
        r.bytes(n)
    } else {
        compressible(&mut r, n)
    }
}
fn big(seed: u64, i: usize) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0xB16 ^ ((i as u64) << 40));
    let n = (4 << 20) + r.usize(3 << 20);
    let mut v = Vec::with_capacity(n + 64);
    // compressible, but every 64 byte line is different
    let mut l = 0u64;
    while v.len() < n {
        v.extend_from_slice(&l.to_le_bytes());
        v.extend_from_slice(&(l ^ seed).to_le_bytes());
        v.extend_from_slice(&[b'x'; 48]);
        l += 1;
    }
    v.truncate(n);
    v
}

struct Fixture {
    path: std::path::PathBuf,
    contents: Arc<dyn Fn(usize) -> Arc<Vec<u8>> + Send + Sync>,
    addr: Vec<u32>,
    _sc: Scratch,
}

fn fixture(kind: &str, comp: Comp, seed: u64) -> Result<Fixture, String> {
    let sc = Scratch::new("c07");
    let out = sc.utf8("p.jbkc");
    let contents: Vec<ContentSpec> = match kind {
        // more clusters than cache slots (40)
        "many" => (0..46 * 4095).map(|i| ContentSpec::new(small(seed, i), Hint::Yes)).collect(),
        // more clusters decoding at once than pool threads (8), each in many chunks
        "big" => (0..14).map(|i| ContentSpec::new(big(seed, i), Hint::Yes)).collect(),
        // raw and compressed, a few contents per cluster, all sizes around the chunk size
        _ => (0..300)
            .map(|i| {
                let mut r = Rng::new(seed + i);
                let n = *r.pick(&[0usize, 1, 100, 4095, 4096, 4097, 8192, 20_000, 60_000]);
                let b = if r.bool() { r.bytes(n) } else { compressible(&mut r, n) };
                ContentSpec::new(b, if i % 4 == 0 { Hint::No } else { Hint::Yes })
            })
            .collect(),
    };
    let (_, a) = create_content_pack(&contents, comp, 1, &out, &sc.0, Arc::new(()))?;
    let all: Vec<Arc<Vec<u8>>> = contents.into_iter().map(|c| c.bytes).collect();
    Ok(Fixture {
        path: out.as_std_path().into(),
        contents: Arc::new(move |i| all[i].clone()),
        addr: a.iter().map(|a| a.1).collect(),
        _sc: sc,
    })
}

/// One read of content i, in one of the ways offered by the API.
fn read_one(p: &reader::ContentPack, fx: &Fixture, i: usize, r: &mut Rng, kept: &mut Vec<(usize, reader::ByteRegion)>) -> Result<(), String> {
    let want = (fx.contents)(i);
    let reg = p
        .get_content(fx.addr[i].into())
        .map_err(|e| format!("content {i}: {e}"))?
        .ok_or_else(|| format!("content {i} absent"))?;
    check_region(&reg, &want, i, r)?;
    if kept.len() < 60 && r.chance(1, 4) {
        kept.push((i, reg));
    } else if !kept.is_empty() && r.chance(1, 4) {
        // a region obtained long ago, its cluster may have left the cache
        let k = r.usize(kept.len());
        let (j, reg) = kept.swap_remove(k);
        check_region(&reg, &(fx.contents)(j), j, r)?;
    }
    Ok(())
}

fn check_region(reg: &reader::ByteRegion, want: &[u8], i: usize, r: &mut Rng) -> Result<(), String> {
    let n = want.len();
    if reg.size().into_u64() != n as u64 {
        return Err(format!("content {i}: size {} instead of {n}", reg.size().into_u64()));
    }
    match r.below(4) {
        0 => {
            // partial slice
            let a = r.usize(n + 1);
            let l = r.usize((n - a).min(10_000) + 1);
            let g = reg
                .get_slice((a as u64).into(), l)
                .map_err(|e| format!("content {i} [{a}..+{l}]: {e}"))?;
            if g[..] != want[a..a + l] {
                return Err(format!("content {i} [{a}..+{l}]: {}", first_diff(&g, &want[a..a + l])));
            }
        }
        1 => {
            // the end first
            let l = n.min(1 + r.usize(16));
            let g = reg
                .get_slice(((n - l) as u64).into(), l)
                .map_err(|e| format!("content {i} tail {l}: {e}"))?;
            if g[..] != want[n - l..] {
                return Err(format!("content {i} tail {l} differs"));
            }
        }
        2 => {
            // stream in steps
            let mut st = reg.stream();
            let mut at = 0;
            let step = 1 + r.usize(20_000);
            let mut buf = vec![0u8; step];
            let stop = if r.bool() { n } else { r.usize(n + 1) };
            while at < stop {
                let k = st.read(&mut buf).map_err(|e| format!("content {i} stream at {at}: {e}"))?;
                if k == 0 {
                    return Err(format!("content {i}: stream ends at {at} of {n}"));
                }
                if at + k > n || buf[..k] != want[at..at + k] {
                    return Err(format!("content {i}: stream differs at {at}"));
                }
                at += k;
            }
        }
        _ => {
            let a = r.usize(n + 1);
            let l = r.usize((n - a).min(9000) + 1);
            let cut = reg.cut((a as u64).into(), (l as u64).into());
            let mut v = vec![];
            cut.stream().read_to_end(&mut v).map_err(|e| format!("content {i} cut: {e}"))?;
            if v != want[a..a + l] {
                return Err(format!("content {i} cut [{a}..+{l}] differs"));
            }
        }
    }
    Ok(())
}

fn round(fx: &Fixture, seed: u64, threads: usize, ops: usize, style: u64) -> Result<(), String> {
    let p = Arc::new(reader::ContentPack::new(reader_of(&fx.path)?).map_err(s("open"))?);
    let n = fx.addr.len();
    let fail: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let bar = Barrier::new(threads);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (p, fail, stop, bar) = (p.clone(), &fail, &stop, &bar);
            sc.spawn(move || {
                let mut r = Rng::new(seed ^ ((t as u64) << 32));
                let mut common = Rng::new(seed);
                let mut kept = vec![];
                let r = guarded(|| {
                    bar.wait();
                    for k in 0..ops {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = match style {
                            // everybody on the same content at the same time
                            0 => common.usize(n),
                            // far apart: each op in another cluster
                            1 => (common.usize(n) + t * (n / threads) + k * 4097) % n,
                            // hot set
                            2 => (r.usize(8) * (n / 8).max(1)) % n,
                            // sequential scan, each thread from its own start
                            3 => (t * (n / threads) + k) % n,
                            _ => r.usize(n),
                        };
                        read_one(&p, fx, i, &mut r, &mut kept)?;
                    }
                    for (j, reg) in kept.drain(..) {
                        check_region(&reg, &(fx.contents)(j), j, &mut r)?;
                    }
                    Ok(())
                });
                if let Err(m) = r {
                    stop.store(true, Ordering::Relaxed);
                    fail.lock().unwrap().get_or_insert(m);
                }
            });
        }
    });
    match fail.into_inner().unwrap() {
        None => Ok(()),
        Some(m) => Err(format!("{threads} threads, style {style}: {m}")),
    }
}

pub fn cases(ctx: &mut Ctx) {
    ctx.limit = Duration::from_secs(if ctx.thorough { 300 } else { 90 });
    ctx.threads = 4; // each case has its own threads
    let rounds = ctx.n(6, 60);
    let rounds_many = ctx.n(4, 40);
    let seed = ctx.seed;
    for comp in [Comp::Zstd(1), Comp::Lz4(1), Comp::Lzma(0), Comp::None] {
        for kind in ["mixed", "big", "many"] {
            if comp == Comp::None && kind == "big" {
                continue;
            }
            if comp == Comp::Lzma(0) && kind == "big" && !ctx.thorough {
                continue;
            }
            let id = format!("{kind}-{}", comp.tag());
            let mut r = ctx.rng(&id);
            let n = if kind == "mixed" { rounds * 4 } else { rounds_many };
            ctx.case(id, move || {
                let fx = fixture(kind, comp, seed)?;
                for k in 0..n {
                    let threads = *r.pick(&[2usize, 3, 8, 16, 32]);
                    let ops = match kind {
                        "mixed" => 60,
                        "big" => 6,
                        _ => 120,
                    };
                    round(&fx, r.next(), threads, ops, k as u64 % 5)?;
                }
                Ok(vec![format!("{kind}:{}", comp.tag())])
            });
        }
    }
    // the whole container object shared between threads
    for comp in Comp::fast() {
        let id = format!("container-{}", comp.tag());
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let im = crate::view::medium_image(seed, comp, Mode::Two)?;
            let sc = Scratch::new("c07c");
            im.write(&sc.0);
            for _ in 0..30 {
                let c = Arc::new(reader::Container::new(im.entry_path(&sc.0)).map_err(s("open"))?);
                let sd = r.next();
                let fail: Mutex<Option<String>> = Mutex::new(None);
                std::thread::scope(|s| {
                    for t in 0..8u64 {
                        let (c, im, fail) = (c.clone(), &im, &fail);
                        s.spawn(move || {
                            let mut r = Rng::new(sd ^ t);
                            let res = guarded(|| {
                                for _ in 0..20 {
                                    let k = r.usize(im.contents.len());
                                    let (a, b) = &im.contents[k];
                                    match read_content(&c, *a)? {
                                        Some(Some(g)) if g == ***b => {}
                                        _ => return Err(format!("content {a:?} differs")),
                                    }
                                    let rd = read_indexes(&im.spec.dir, &c)?;
                                    if rd.len() != im.spec.dir.indexes.len() {
                                        return Err("indexes".into());
                                    }
                                    let _ = jbk::EntryIdx::from(0);
                                }
                                Ok(())
                            });
                            if let Err(m) = res {
                                fail.lock().unwrap().get_or_insert(m);
                            }
                        });
                    }
                });
                if let Some(m) = fail.into_inner().unwrap() {
                    return Err(m);
                }
            }
            Ok(vec![format!("container:{}", comp.tag())])
        });
    }
}
