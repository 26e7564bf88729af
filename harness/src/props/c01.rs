//! C01: content round trip.
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use std::sync::Arc;

fn marks(contents: &[ContentSpec], comp: Comp) -> Vec<String> {
    let mut m = vec![format!("comp:{}", comp.tag())];
    for c in contents {
        m.push(format!("hint:{:?}", c.hint));
        m.push(format!("src:{:?}", c.src));
        m.push(format!("len<=2^{}", usize::BITS - c.bytes.len().leading_zeros()));
    }
    m.sort();
    m.dedup();
    m
}

/// The postcondition of C01 on one insertion sequence.
pub fn roundtrip(contents: &[ContentSpec], comp: Comp) -> CaseResult {
    let sc = Scratch::new("c01");
    let out = sc.utf8("pack.jbkc");
    let (_, addr) = create_content_pack(contents, comp, 1, &out, &sc.0, Arc::new(()))?;
    let pack = jbk::reader::ContentPack::new(reader_of(out.as_std_path())?).map_err(s("open pack"))?;
    if pack.get_content_count().into_u32() as usize != contents.len() {
        return Err(format!(
            "{} contents reported, {} inserted",
            pack.get_content_count().into_u32(),
            contents.len()
        ));
    }
    // read forward, then backward (other cache/plain states)
    for pass in 0..2 {
        let order: Vec<usize> = if pass == 0 {
            (0..contents.len()).collect()
        } else {
            (0..contents.len()).rev().collect()
        };
        for i in order {
            let a = addr[i];
            if a.0 != 1 {
                return Err(format!("content {i}: address names pack {}", a.0));
            }
            let r = pack
                .get_content(a.1.into())
                .map_err(s("get_content"))?
                .ok_or_else(|| format!("content {i} at {} absent", a.1))?;
            let b = region_bytes(&r).map_err(|e| format!("content {i}: {e}"))?;
            if b != **contents[i].bytes {
                return Err(format!(
                    "content {i} ({:?},{:?},{comp:?}) at {}: {}",
                    contents[i].hint,
                    contents[i].src,
                    a.1,
                    first_diff(&b, &contents[i].bytes)
                ));
            }
        }
    }
    let n = contents.len() as u32;
    for past in [n, n + 1, n + 4096, 0x00FF_FFFF, u32::MAX] {
        if past < n {
            continue;
        }
        match pack.get_content(past.into()) {
            Ok(None) => {}
            Ok(Some(r)) => {
                return Err(format!("address {past} past {n} contents answers {} bytes", r.size().into_u64()))
            }
            Err(e) => return Err(format!("address {past} past {n} contents: error {e}")),
        }
    }
    Ok(marks(contents, comp))
}

/// The same through the deduplicating adder: every insertion is readable, the pack counts what is in it.
pub fn roundtrip_dedup(contents: &[ContentSpec], comp: Comp) -> CaseResult {
    use jbk::creator::ContentAdder as _;
    let sc = Scratch::new("c01d");
    let out = sc.utf8("pack.jbkc");
    let cp = jbk::creator::ContentPackCreator::new(
        &out,
        jbk::PackId::from(1),
        jbk::VendorId::from([1, 2, 3, 4]),
        Default::default(),
        comp.get(),
    )
    .map_err(s("ContentPackCreator"))?;
    let mut adder = jbk::creator::CachedContentAdder::new(cp, std::rc::Rc::new(()));
    let mut addr = vec![];
    for (i, c) in contents.iter().enumerate() {
        let a = adder
            .add_content(c.reader(&sc.0, i).map_err(s("input"))?, c.hint.get())
            .map_err(|e| format!("content {i}: {e}"))?;
        addr.push(a.content_id);
    }
    adder.into_inner().finalize().map_err(s("finalize"))?;
    let pack = jbk::reader::ContentPack::new(reader_of(out.as_std_path())?).map_err(s("open pack"))?;
    let distinct: std::collections::HashSet<&Vec<u8>> = contents.iter().map(|c| c.bytes.as_ref()).collect();
    let n = pack.get_content_count().into_u32();
    if n as usize != distinct.len() {
        return Err(format!("{n} contents reported, {} different ones inserted", distinct.len()));
    }
    for (i, c) in contents.iter().enumerate().rev() {
        let r = pack
            .get_content(addr[i])
            .map_err(s("get_content"))?
            .ok_or_else(|| format!("content {i} at {} absent", addr[i]))?;
        let b = region_bytes(&r).map_err(|e| format!("content {i}: {e}"))?;
        if b != **c.bytes {
            return Err(format!("dedup: content {i}: {}", first_diff(&b, &c.bytes)));
        }
    }
    if pack.get_content(n.into()).map_err(s("past the end"))?.is_some() {
        return Err(format!("address {n} past {n} contents"));
    }
    let mut m = marks(contents, comp);
    m.push("dedup".into());
    Ok(m)
}

/// Distinct addresses for distinct insertions and end to end through the high level creator.
fn through_container(spec: &ContainerSpec) -> CaseResult {
    let sc = Scratch::new("c01c");
    let out = sc.utf8("c.jbk");
    let cr = create_basic(spec, Mode::One, &out, &sc.0, Arc::new(()))?;
    let c = jbk::reader::Container::new(&out).map_err(s("open"))?;
    check_contents(&c, &spec.contents, &cr.addresses)?;
    let n = spec.contents.len() as u32;
    for past in [n, n + 1, u32::MAX] {
        match read_content(&c, (1, past))? {
            Some(None) => {}
            x => return Err(format!("address {past} of {n}: {x:?}")),
        }
    }
    Ok(marks(&spec.contents, spec.comp))
}

/// More clusters than fit in small numbers: `clusters` raw clusters of 0xFFF tiny contents, read by
/// jumps of every power of two of clusters (numbers equal modulo any power of two meet in the caches).
fn many_clusters(clusters: u32, hint: Hint) -> CaseResult {
    let sc = Scratch::new("c01m");
    let out = sc.utf8("pack.jbkc");
    let mut cp = jbk::creator::ContentPackCreator::new(
        &out,
        jbk::PackId::from(1),
        jbk::VendorId::from([1, 2, 3, 4]),
        Default::default(),
        Comp::Zstd(1).get(),
    )
    .map_err(s("ContentPackCreator"))?;
    let bytes = |i: u32| {
        let mut b = (i.wrapping_mul(0x9E37_79B1)).to_le_bytes().to_vec();
        b.truncate(1 + (i as usize / 3) % 4);
        b
    };
    let n = clusters * 0xFFF;
    for i in 0..n {
        let r: Box<dyn jbk::creator::InputReader> = Box::new(std::io::Cursor::new(bytes(i)));
        let a = cp.add_content(r, hint.get()).map_err(s("add_content"))?;
        if a.content_id.into_u32() != i {
            return Err(format!("content {i} got the address {}", a.content_id.into_u32()));
        }
    }
    cp.finalize().map_err(s("finalize"))?;
    let pack = jbk::reader::ContentPack::new(reader_of(out.as_std_path())?).map_err(s("open pack"))?;
    if pack.get_content_count().into_u32() != n {
        return Err(format!("{} contents reported, {n} inserted", pack.get_content_count().into_u32()));
    }
    let read = |i: u32| -> Result<(), String> {
        let r = pack
            .get_content(i.into())
            .map_err(|e| format!("content {i} of {n}: {e}"))?
            .ok_or_else(|| format!("content {i} of {n} absent"))?;
        let b = region_bytes(&r).map_err(|e| format!("content {i} of {n}: {e}"))?;
        let want = bytes(i);
        if b != want {
            return Err(format!("content {i} of {n} (cluster {}): {}", i / 0xFFF, first_diff(&b, &want)));
        }
        Ok(())
    };
    // every cluster, at its first, its last and some other blob
    for c in 0..clusters {
        for k in [0, 0xFFE, c % 0xFFF] {
            read(c * 0xFFF + k)?;
        }
    }
    // pairs at a distance of a power of two
    let mut r = Rng::new(clusters as u64);
    for sh in 0..16 {
        let d = 1u32 << sh;
        if d >= clusters {
            break;
        }
        for _ in 0..12 {
            let c = r.below((clusters - d) as u64) as u32;
            let k = r.below(0xFFF) as u32;
            read(c * 0xFFF + k)?;
            read((c + d) * 0xFFF + k)?;
            read(c * 0xFFF + k)?;
        }
    }
    match pack.get_content(n.into()) {
        Ok(None) => {}
        x => return Err(format!("address {n} of {n} contents: {:?}", x.map(|o| o.is_some()))),
    }
    Ok(vec![format!("clusters:{clusters}"), format!("hint:{hint:?}")])
}

pub fn cases(ctx: &mut Ctx) {
    // more clusters than a byte counts
    for clusters in [260u32, 1030].into_iter().take(ctx.n(1, 2)) {
        ctx.case(format!("clusters-{clusters}"), move || many_clusters(clusters, Hint::No));
    }
    ctx.case("clusters-comp-70".to_string(), move || many_clusters(70, Hint::Yes));
    // every length in a range, incompressible and compressible, alone in its cluster
    for comp in Comp::fast() {
        let top = ctx.n(600, 1400);
        for lo in (0..top).step_by(25) {
            ctx.case(format!("len-{}-{lo}", comp.tag()), move || {
                let mut r = Rng::new(lo as u64);
                let mut m = vec![];
                for n in lo..lo + 25 {
                    for (k, b) in [r.bytes(n), compressible(&mut r, n)].into_iter().enumerate() {
                        m = roundtrip(&[ContentSpec::new(b, Hint::Yes)], comp)
                            .map_err(|e| format!("length {n} kind {k}: {e}"))?;
                    }
                }
                Ok(m)
            });
        }
        // lengths around the widths of the offsets
        for (i, n) in [65_500usize, 65_534, 65_535, 65_536, 65_537].into_iter().enumerate() {
            ctx.case(format!("w16-{}-{i}", comp.tag()), move || {
                let mut r = Rng::new(n as u64);
                for h in [Hint::Yes, Hint::No, Hint::Detect] {
                    let b = r.bytes(n);
                    roundtrip(&[ContentSpec::new(b, h)], comp)?;
                    let b = compressible(&mut r, n);
                    roundtrip(&[ContentSpec::new(b, h), ContentSpec::new(vec![1], h)], comp)?;
                }
                Ok(vec!["width-boundary".into()])
            });
        }
        for (i, n) in [(1usize << 22) - 1, 1 << 22, (1 << 22) + 1, (1 << 24) - 3, (1 << 24) + 1]
            .into_iter()
            .enumerate()
        {
            if !ctx.thorough && i >= 3 && comp != Comp::Lz4(1) {
                continue;
            }
            ctx.case(format!("big-{}-{i}", comp.tag()), move || {
                let mut r = Rng::new(n as u64);
                let incomp = r.bytes(n);
                let seq = [
                    ContentSpec::new(b"first".to_vec(), Hint::Yes),
                    ContentSpec::new(incomp, Hint::Yes),
                    ContentSpec::new(b"after".to_vec(), Hint::Yes),
                    ContentSpec::new(compressible(&mut r, n), Hint::Detect),
                    ContentSpec::new(compressible(&mut r, 70_000), Hint::No),
                ];
                roundtrip(&seq, comp).map(|mut m| {
                    m.push("cluster-size-boundary".into());
                    m
                })
            });
        }
        // blobs per cluster
        for n in [0usize, 1, 2, 4094, 4095, 4096, 4097, 8190, 8191] {
            ctx.case(format!("blobs-{}-{n}", comp.tag()), move || {
                let mut r = Rng::new(n as u64 * 3);
                let seq: Vec<_> = (0..n)
                    .map(|i| {
                        let l = if i % 3 == 0 { 0 } else { r.usize(9) };
                        ContentSpec::new(r.bytes(l), if i % 5 == 4 { Hint::No } else { Hint::Yes })
                    })
                    .collect();
                let mut m = roundtrip(&seq, comp)?;
                let seq: Vec<_> = (0..n)
                    .map(|i| ContentSpec::new((i as u32).to_le_bytes()[..1 + i % 4].to_vec(), Hint::No))
                    .collect();
                roundtrip(&seq, comp)?;
                let seq: Vec<_> = (0..n)
                    .map(|i| ContentSpec::new((i as u32).to_le_bytes()[..1 + i % 4].to_vec(), Hint::Yes))
                    .collect();
                roundtrip(&seq, comp)?;
                m.push(format!("blobs:{n}"));
                Ok(m)
            });
        }
    }
    // compression levels
    let mut levels = vec![];
    for l in [0u32, 1, 9, 12, 15] {
        levels.push(Comp::Lz4(l));
    }
    for l in 0..=9u32 {
        levels.push(Comp::Lzma(l));
    }
    for l in [-22, -7, -1, 0, 1, 3, 5, 10, 19, 22] {
        levels.push(Comp::Zstd(l));
    }
    for comp in levels {
        let heavy = matches!(comp, Comp::Lzma(_) | Comp::Zstd(_));
        let n = ctx.n(if heavy { 1 } else { 2 }, 6);
        for k in 0..n {
            ctx.case(format!("level-{comp:?}-{k}"), move || {
                let mut r = Rng::new(k as u64 + 17);
                let cap = if heavy { 6 } else { 20 };
                let seq: Vec<_> = (0..cap).map(|_| gen_content(&mut r, 20_000)).collect();
                roundtrip(&seq, comp).map(|mut m| {
                    m.push(format!("level:{comp:?}"));
                    m
                })
            });
        }
    }
    // random insertion sequences
    let n = ctx.n(160, 1500);
    for k in 0..n {
        let mut r = ctx.rng(&format!("seq-{k}"));
        ctx.case(format!("seq-{k}"), move || {
            let comp = *r.pick(&Comp::fast());
            let n = r.usize(60);
            let max = *r.pick(&[300usize, 5000, 40_000]);
            let seq: Vec<_> = (0..n).map(|_| gen_content(&mut r, max)).collect();
            roundtrip(&seq, comp)
        });
    }
    // through the deduplicating adder: twins, and contents which differ at one place
    for k in 0..ctx.n(24, 200) {
        let mut r = ctx.rng(&format!("dedup-{k}"));
        ctx.case(format!("dedup-{k}"), move || {
            let comp = *r.pick(&Comp::fast());
            let len = match k % 8 {
                0 => (4 << 20) + r.usize(200),
                1 => *r.pick(&[(4 << 20) - 1, 4 << 20, 2 << 20, (8 << 20) + 3, 1 << 20]),
                _ => *r.pick(&[0, 1, 31, 32, 64, 65, 1000, 4096, 8193, 70_000]),
            };
            let base = if r.bool() { r.bytes(len) } else { compressible(&mut r, len) };
            let mut seq = vec![];
            for i in 0..12 {
                let mut b = base.clone();
                if len > 0 {
                    match i {
                        1 => b[len - 1] ^= 1,
                        2 => b[0] ^= 0x80,
                        3 => b[len / 2] ^= 4,
                        4 => b.truncate(len - 1),
                        5 => b.push(0),
                        6 => b.reverse(),
                        7 => {
                            let at = r.usize(len);
                            b[at] ^= 1 << r.below(8)
                        }
                        _ => {}
                    }
                }
                let mut c = ContentSpec::new(b, *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]));
                c.src = *r.pick(&[Src::Mem, Src::File, Src::FileRange]);
                seq.push(c);
            }
            roundtrip_dedup(&seq, comp)
        });
    }
    let n = ctx.n(10, 60);
    for k in 0..n {
        let mut r = ctx.rng(&format!("multi-{k}"));
        ctx.case(format!("multi-{k}"), move || {
            // several 4 MiB clusters
            let comp = *r.pick(&[Comp::Lz4(1), Comp::Zstd(1), Comp::None]);
            let n = 3 + r.usize(8);
            let seq: Vec<_> = (0..n)
                .map(|_| {
                    let n = r.usize(2_500_000);
                    let b = if r.bool() { r.bytes(n) } else { compressible(&mut r, n) };
                    ContentSpec {
                        bytes: Arc::new(b),
                        hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]),
                        src: *r.pick(&[Src::Mem, Src::File, Src::FileRange]),
                    }
                })
                .collect();
            roundtrip(&seq, comp)
        });
    }
    for comp in Comp::fast() {
        for k in 0..ctx.n(6, 30) {
            let mut r = ctx.rng(&format!("container-{}-{k}", comp.tag()));
            ctx.case(format!("container-{}-{k}", comp.tag()), move || {
                let mut sp = small_container(&mut r, comp);
                let n = r.usize(40);
                sp.contents = (0..n).map(|_| gen_content(&mut r, 3000)).collect();
                through_container(&sp)
            });
        }
    }
}
