//! C16: the hint decides how a content is stored; the deduplicating adder stores identical contents once.
use crate::decode;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::creator::{self, ContentAdder as _};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

struct Seen(Rc<Cell<u64>>);
impl creator::CacheProgress for Seen {
    fn cached_data(&self, _size: jbk::Size) {
        self.0.set(self.0.get() + 1)
    }
}

/// What the property says of each content, on the decoded pack.
fn stored_as_hinted(
    file: &[u8],
    contents: &[(ContentSpec, u32, Hint)],
    comp: Comp,
) -> Result<BTreeSet<String>, String> {
    let d = decode::content(file)?;
    let mut marks = BTreeSet::new();
    for (i, (c, id, hint)) in contents.iter().enumerate() {
        let (cl, _) = *d
            .infos
            .get(*id as usize)
            .ok_or_else(|| format!("content {i}: no content number {id}"))?;
        let got = d.get(*id as usize)?;
        if got != &c.bytes[..] {
            return Err(format!("content {i}: {}", first_diff(got, &c.bytes)));
        }
        let cluster = &d.clusters[cl];
        let what = format!("content {i} ({} bytes, hint {hint:?}, pack {})", c.bytes.len(), comp.tag());
        if comp == Comp::None || *hint == Hint::No {
            if cluster.comp != 0 {
                return Err(format!("{what} is in a cluster of compression {}", cluster.comp));
            }
            marks.insert(format!("raw-in-{}", comp.tag()));
        } else if *hint == Hint::Yes {
            if cluster.comp != comp.byte() {
                return Err(format!("{what} is in a cluster of compression {}", cluster.comp));
            }
            marks.insert(format!("compressed-in-{}", comp.tag()));
        } else {
            if cluster.comp != 0 && cluster.comp != comp.byte() {
                return Err(format!("{what} is in a cluster of compression {}", cluster.comp));
            }
            marks.insert(format!("detect-{}", cluster.comp == 0));
        }
        if cluster.comp == 0 {
            // verbatim, at its place in the file
            let (_, b) = d.infos[*id as usize];
            let at = cluster.stored_at + cluster.bounds[b];
            if file.get(at..at + c.bytes.len()) != Some(&c.bytes[..]) {
                return Err(format!("{what} is not verbatim at {at}"));
            }
        }
    }
    Ok(marks)
}

fn gen(r: &mut Rng, n: usize, max: usize, repeat: bool) -> Vec<ContentSpec> {
    let mut v: Vec<ContentSpec> = vec![];
    for _ in 0..n {
        let hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
        let src = *r.pick(&[Src::Mem, Src::Mem, Src::File, Src::FileRange]);
        let bytes = if repeat && !v.is_empty() && r.chance(2, 5) {
            let k = r.usize(v.len());
            let mut b = v[k].bytes.as_ref().clone();
            match r.below(5) {
                // nearly identical: not the same content
                0 if !b.is_empty() => {
                    let at = *r.pick(&[0, b.len() - 1, b.len() / 2]);
                    b[at] ^= 1 << r.below(8);
                }
                1 => b.push(0),
                _ => {}
            }
            b
        } else {
            let len = match r.below(6) {
                0 => r.usize(3),
                1 => max,
                2 => r.usize(300),
                _ => r.usize(max + 1),
            };
            match r.below(3) {
                0 => r.bytes(len),
                1 => vec![0; len],
                _ => compressible(r, len),
            }
        };
        let mut c = ContentSpec::new(bytes, hint);
        c.src = src;
        v.push(c);
    }
    v
}

fn plain(contents: Vec<ContentSpec>, comp: Comp) -> CaseResult {
    plain_with(contents, comp, Arc::new(()))
}

fn plain_with(contents: Vec<ContentSpec>, comp: Comp, progress: Arc<dyn creator::Progress>) -> CaseResult {
    let d = Scratch::new("c16");
    let p = d.utf8("p.jbkc");
    let (_, addr) = create_content_pack(&contents, comp, 1, &p, &d.0, progress)?;
    let file = std::fs::read(&p).map_err(s("read"))?;
    let l: Vec<_> = contents
        .into_iter()
        .zip(&addr)
        .map(|(c, a)| {
            let h = c.hint;
            (c, a.1, h)
        })
        .collect();
    let m = stored_as_hinted(&file, &l, comp)?;
    let mut m: Vec<String> = m.into_iter().collect();
    m.push(format!("plain/{}", comp.tag()));
    Ok(m)
}

fn dedup(contents: Vec<ContentSpec>, comp: Comp) -> CaseResult {
    let d = Scratch::new("c16d");
    let p = d.utf8("p.jbkc");
    let hits = Rc::new(Cell::new(0));
    let cp = creator::ContentPackCreator::new(
        &p,
        jbk::PackId::from(3),
        jbk::VendorId::from([1, 2, 3, 4]),
        Default::default(),
        comp.get(),
    )
    .map_err(s("ContentPackCreator"))?;
    let mut adder = creator::CachedContentAdder::new(cp, Rc::new(Seen(hits.clone())));
    let mut first: HashMap<Vec<u8>, (u32, Hint)> = HashMap::new();
    let mut l = vec![];
    let mut shared = 0;
    for (i, c) in contents.into_iter().enumerate() {
        let a = adder
            .add_content(c.reader(&d.0, i).map_err(s("input"))?, c.hint.get())
            .map_err(|e| format!("content {i}: {e}"))?;
        let id = a.content_id.into_u32();
        if a.pack_id.into_u16() != 3 {
            return Err(format!("content {i}: address in pack {:?}", a.pack_id));
        }
        if let Some((k, h)) = first.get(c.bytes.as_ref()) {
            if *k != id {
                return Err(format!(
                    "content {i} ({} bytes) has address {id}, the identical one added before has {k}",
                    c.bytes.len()
                ));
            }
            shared += 1;
            let h = *h;
            l.push((c, id, h));
        } else {
            if first.values().any(|(k, _)| *k == id) {
                return Err(format!("content {i} shares the address of a different content"));
            }
            first.insert(c.bytes.as_ref().clone(), (id, c.hint));
            let h = c.hint;
            l.push((c, id, h));
        }
    }
    if hits.get() != shared {
        return Err(format!("{} contents reported as cached, {shared} were", hits.get()));
    }
    let (f, _) = adder.into_inner().finalize().map_err(s("finalize"))?;
    drop(f);
    let file = std::fs::read(&p).map_err(s("read"))?;
    let dec = decode::content(&file)?;
    let blobs: usize = dec.clusters.iter().map(|c| c.bounds.len() - 1).sum();
    if dec.infos.len() != first.len() || blobs != first.len() {
        return Err(format!(
            "{} different contents stored as {} contents and {blobs} blobs",
            first.len(),
            dec.infos.len()
        ));
    }
    let m = stored_as_hinted(&file, &l, comp)?;
    let mut m: Vec<String> = m.into_iter().collect();
    m.push(format!("dedup/{}", comp.tag()));
    m.push(format!("shared>={}", [0, 1, 10].iter().filter(|x| shared >= **x).max().unwrap()));
    Ok(m)
}

pub fn cases(ctx: &mut Ctx) {
    let levels: Vec<Comp> = vec![
        Comp::None,
        Comp::Lz4(0),
        Comp::Lz4(9),
        Comp::Lzma(0),
        Comp::Lzma(5),
        Comp::Zstd(-5),
        Comp::Zstd(5),
    ];
    let n = ctx.n(24, 160);
    for comp in levels {
        for k in 0..n {
            for dd in [false, true] {
                let id = format!("{}/{comp:?}/{k}", if dd { "dedup" } else { "plain" });
                let mut r = ctx.rng(&id);
                ctx.case(id, move || {
                    let n = *r.pick(&[1, 2, 3, 8, 30, 60]);
                    let max = *r.pick(&[10, 1000, 5000, 20_000]);
                    let c = gen(&mut r, n, max, dd);
                    if dd {
                        dedup(c, comp)
                    } else {
                        plain(c, comp)
                    }
                });
            }
        }
    }
    // contents around and above the size of a cluster, several clusters of each kind
    let big = ctx.n(2, 12);
    for comp in Comp::fast() {
        for k in 0..big {
            for dd in [false, true] {
                let id = format!("big-{}/{comp:?}/{k}", if dd { "dedup" } else { "plain" });
                let mut r = ctx.rng(&id);
                ctx.case(id, move || {
                    let limit = 4 * 1024 * 1024;
                    let mut v = vec![];
                    let tile = r.bytes(50_000);
                    for i in 0..5 {
                        let len = *r.pick(&[limit - 1, limit, limit + 1, limit / 2, 1_500_000, 100]);
                        let mut b: Vec<u8> = tile.iter().copied().cycle().take(len).collect();
                        b[len / 2] ^= (i % 3) as u8;
                        let mut c = ContentSpec::new(b, *r.pick(&[Hint::Yes, Hint::No, Hint::Yes]));
                        c.src = *r.pick(&[Src::Mem, Src::File, Src::FileRange]);
                        let twin = ContentSpec {
                            src: *r.pick(&[Src::Mem, Src::File, Src::FileRange]),
                            hint: *r.pick(&[Hint::Yes, Hint::No]),
                            ..c.clone()
                        };
                        v.push(c);
                        if r.bool() {
                            v.push(ContentSpec::new(r.bytes(40), Hint::No));
                        }
                        if r.chance(2, 3) {
                            v.push(twin);
                        }
                    }
                    if dd {
                        dedup(v, comp)
                    } else {
                        plain(v, comp)
                    }
                });
            }
        }
    }
    // clusters closed because they hold as many blobs as they can
    for comp in Comp::fast() {
        let id = format!("many/{comp:?}");
        let mut r = ctx.rng(&id);
        let extra = ctx.n(300, 6000);
        ctx.case(id, move || {
            let v = (0..2 * 0xFFF + extra)
                .map(|i| {
                    ContentSpec::new(
                        (i as u32).to_le_bytes()[..r.usize(5)].to_vec(),
                        if i % 2 == 0 || r.chance(1, 20) { Hint::Yes } else { Hint::No },
                    )
                })
                .collect();
            plain(v, comp)
        });
    }
    // workers later than the producer: the queue to them is full for a while
    for comp in Comp::fast() {
        for cpus in [2, 4] {
            let id = format!("late-workers/{comp:?}/{cpus}");
            let mut r = ctx.rng(&id);
            ctx.case(id, move || {
                let v = (0..(2 * cpus + 4) * 0xFFF)
                    .map(|i| {
                        ContentSpec::new(
                            (i as u32).to_le_bytes()[..r.usize(5)].to_vec(),
                            if r.chance(39, 40) { Hint::Yes } else { Hint::No },
                        )
                    })
                    .collect();
                let p = super::c08::Perturb::new(1, 6, 150_000);
                super::c08::with_cpus(cpus, || plain_with(v, comp, Arc::new(p)))
            });
        }
    }
    // contents of the same length which differ at one place
    for (k, len) in [70usize, 4096, 65_536, 1 << 20, 4 << 20, (4 << 20) + 300, (8 << 20) + 1].into_iter().enumerate() {
        let id = format!("nearly/{len}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let base = r.bytes(len);
            let mut v = vec![];
            for at in [len, 0, 1, 31, 63, 64, 4095, len / 2, (1 << 20) + 1, 4 << 20, len - 1, len] {
                let mut b = base.clone();
                if at < len {
                    b[at] ^= 1;
                } else if at > len {
                    continue;
                }
                let mut c = ContentSpec::new(b, if r.bool() { Hint::Yes } else { Hint::No });
                c.src = *r.pick(&[Src::Mem, Src::File, Src::FileRange]);
                v.push(c);
            }
            let mut b = base.clone();
            b.truncate(len - 1);
            v.push(ContentSpec::new(b, Hint::No));
            let mut b = base;
            b.push(0);
            v.push(ContentSpec::new(b, Hint::Yes));
            dedup(v, [Comp::Lz4(1), Comp::None, Comp::Zstd(1)][k % 3])
        });
    }
}
