//! C04: creations verify; any alteration of checksummed bytes makes the checks fail.
use crate::util::*;
use crate::view::*;
use crate::{decode, model::*};
use jubako as jbk;
use jubako::Pack as _;
use std::sync::Arc;

/// Ranges of the file covered by the checksum of the pack (check block included), manifest locations excluded.
pub fn covered(file: &[u8], p: &decode::PackAt) -> Vec<(usize, usize)> {
    let d = &file[p.offset..p.offset + p.size];
    let check_pos = decode::le(&d[40..48]) as usize;
    let end = p.size - 64;
    let mut v = vec![];
    let mut at = 0;
    if p.kind == b'm' {
        let n = decode::le(&d[64..66]) as usize;
        for i in 0..n {
            let b = check_pos - 256 * (n - i);
            v.push((at, b + 38));
            at = b + 256;
        }
    }
    v.push((at, end));
    v.iter().map(|(a, b)| (a + p.offset, b + p.offset)).collect()
}

fn verdict(what: &str, r: Result<bool, String>) -> Result<(), String> {
    match r {
        Ok(true) => Err(format!("{what} says the damaged data is fine")),
        _ => Ok(()),
    }
}
fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

/// Every check that covers pack `p` of file `f`.
pub fn must_fail(b: &Bench, f: usize, p: &decode::PackAt) -> Result<(), String> {
    let file = b.dir.join(&b.im.files[f].0);
    verdict(
        "Container::check",
        guarded(|| jbk::reader::Container::new(b.entry()).map_err(e)?.check().map_err(e)),
    )?;
    verdict(
        "ContainerPack::check of the file",
        guarded(|| jbk::tools::open_pack(&file).map_err(e)?.check().map_err(e)),
    )?;
    verdict(
        "check of the pack",
        guarded(|| {
            let c = jbk::tools::open_pack(&file).map_err(e)?;
            let r = c
                .get_pack_reader(&uuid::Uuid::from_bytes(p.uuid))
                .ok_or("not found")?;
            match p.kind {
                b'm' => jbk::reader::ManifestPack::new(r).map_err(e)?.check().map_err(e),
                b'd' => jbk::reader::DirectoryPack::new(r).map_err(e)?.check().map_err(e),
                _ => jbk::reader::ContentPack::new(r).map_err(e)?.check().map_err(e),
            }
        }),
    )
}

pub fn cases(ctx: &mut Ctx) {
    let seed = ctx.seed;
    // pristine containers verify: generated ones, all packagings
    for i in 0..ctx.n(60, 600) {
        let id = format!("pristine-{i}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let comp = *r.pick(&Comp::fast());
            let mode = *r.pick(&[Mode::One, Mode::Two, Mode::Sep]);
            let mut spec = crate::gen::small_container(&mut r, comp);
            for _ in 0..r.usize(12) {
                let max = if r.chance(1, 6) { 60_000 } else { 3000 };
                spec.contents.push(crate::gen::gen_content(&mut r, max));
            }
            let ex = if r.bool() { extra_contents(&mut r) } else { vec![] };
            let im = Image::create(&spec, mode, &ex, "p")?;
            let sc = Scratch::new("c04p");
            baseline(&im, &sc.0)?;
            // each pack on its own
            for (f, p) in im.all_packs()? {
                let file = &im.files[f].1;
                let q = sc.path("one-pack");
                put(&q, &file[p.offset..p.offset + p.size]);
                match jbk::tools::open_pack(&q).map_err(e)?.check() {
                    Ok(true) => {}
                    x => return Err(format!("pristine pack of kind {}: {x:?}", p.kind as char)),
                }
            }
            Ok(vec![format!("pristine:{}:{mode:?}", comp.tag())])
        });
    }
    // every covered byte
    let imgs: Vec<Arc<Image>> = match images(seed, true) {
        Ok(v) => v.into_iter().map(Arc::new).collect(),
        Err(m) => {
            ctx.case("images", move || Err(m));
            return;
        }
    };
    for im in &imgs {
        let packs = match im.all_packs() {
            Ok(p) => p,
            Err(m) => {
                ctx.case(format!("packs-{}", im.tag), move || Err(m));
                continue;
            }
        };
        for (pi, (f, p)) in packs.into_iter().enumerate() {
            let ranges = covered(&im.files[f].1, &p);
            let all: Vec<usize> = ranges.iter().flat_map(|(a, b)| *a..*b).collect();
            for (ci, chunk) in all.chunks(400).enumerate() {
                let (im, p, chunk) = (im.clone(), p.clone(), chunk.to_vec());
                let masks: Vec<u8> =
                    if ctx.thorough { vec![0x01, 0x80, 0xFF, 0x10, 0x55] } else { vec![0x01, 0xFF] };
                ctx.case(format!("flip-{}-{pi}-{ci}", im.tag), move || {
                    let sc = Scratch::new("c04");
                    let mut b = Bench::new(&im, &sc.0);
                    for pos in chunk {
                        for m in &masks {
                            let d = Damage(vec![Op::Xor(f, pos, *m)]);
                            b.set(&d);
                            must_fail(&b, f, &p).map_err(|x| {
                                format!(
                                    "byte {pos} of {} (offset {} of the {} pack) xor {m:#x}: {x}",
                                    im.files[f].0,
                                    pos - p.offset,
                                    p.kind as char
                                )
                            })?;
                        }
                    }
                    Ok(vec![format!("flip:{}:{}", p.kind as char, im.tag)])
                });
            }
            // a block altered and its own CRC recomputed: the checksum of the pack sees it
            match decode::blocks_of(&im.files[f].1[p.offset..p.offset + p.size], p.kind) {
                Err(m) => ctx.case(format!("blocks-{}-{pi}", im.tag), move || Err(m)),
                Ok(blocks) => {
                    let thorough = ctx.thorough;
                    for (bi, (at, len)) in blocks.into_iter().enumerate() {
                        let (im, p) = (im.clone(), p.clone());
                        let mut r = ctx.rng(&format!("fixed-{}-{pi}-{bi}", im.tag));
                        let ranges = ranges.clone();
                        ctx.case(format!("fixed-{}-{pi}-{bi}", im.tag), move || {
                            let sc = Scratch::new("c04f");
                            let mut b = Bench::new(&im, &sc.0);
                            let check_pos = decode::le(&im.files[f].1[p.offset + 40..p.offset + 48]) as usize;
                            let masks: &[u8] = if thorough { &[0x01, 0x80, 0x24] } else { &[0x01] };
                            for k in 0..len {
                                let pos = p.offset + at + k;
                                // the locations may change, and a check block which says that there is no
                                // checksum is a forged one
                                if !ranges.iter().any(|(a, z)| (*a..*z).contains(&pos)) || at + k == check_pos {
                                    continue;
                                }
                                // a separate file with another identity is another pack: the container misses it
                                if at == 0 && (10..26).contains(&k) && im.files.len() > 1 {
                                    continue;
                                }
                                if !thorough && len > 80 && k > 3 && k + 9 < len && !r.chance(1, 4) {
                                    continue;
                                }
                                for m in masks {
                                    let d = Damage(vec![Op::Xor(f, pos, *m), Op::Fix(f, p.offset + at, len)]);
                                    b.set(&d);
                                    must_fail(&b, f, &p).map_err(|x| {
                                        format!(
                                            "{} (offset {} of the {} pack, CRC of the block at {at} recomputed): {x}",
                                            d.show(),
                                            at + k,
                                            p.kind as char
                                        )
                                    })?;
                                }
                            }
                            Ok(vec![format!("fixed:{}:{}", p.kind as char, im.tag)])
                        });
                    }
                }
            }
            // several bytes at once
            let id = format!("multi-{}-{pi}", im.tag);
            let mut r = ctx.rng(&id);
            let im = im.clone();
            let n = ctx.n(60, 2000);
            ctx.case(id, move || {
                let sc = Scratch::new("c04m");
                let mut b = Bench::new(&im, &sc.0);
                for _ in 0..n {
                    let mut ops = vec![];
                    match r.below(4) {
                        0 => {
                            for _ in 0..r.range(2, 6) {
                                ops.push(Op::Xor(f, *r.pick(&all), r.range(1, 255) as u8));
                            }
                        }
                        1 => {
                            let (a, z) = *r.pick(&ranges);
                            let at = r.range(a as u64, z as u64 - 1) as usize;
                            let l = r.usize(z - at) + 1;
                            ops.push(Op::Fill(f, at, l, *r.pick(&[0u8, 0xFF])));
                        }
                        2 => {
                            let (a, z) = *r.pick(&ranges);
                            let at = r.range(a as u64, z as u64 - 1) as usize;
                            let l = r.usize((z - at).min(64)) + 1;
                            ops.push(Op::Rand(f, at, l, r.next()));
                        }
                        _ => {
                            // two equal masks far apart (checksums that only add or xor do not see them)
                            let m = r.range(1, 255) as u8;
                            ops.push(Op::Xor(f, *r.pick(&all), m));
                            ops.push(Op::Xor(f, *r.pick(&all), m));
                        }
                    }
                    let d = Damage(ops);
                    if d.apply(&im).get(&f) == Some(&im.files[f].1) {
                        continue;
                    }
                    b.set(&d);
                    must_fail(&b, f, &p).map_err(|x| format!("{}: {x}", d.show()))?;
                }
                Ok(vec![format!("multi:{}:{}", p.kind as char, im.tag)])
            });
        }
    }
    // bigger packs: content far from both ends
    for comp in Comp::fast() {
        let id = format!("medium-{}", comp.tag());
        let mut r = ctx.rng(&id);
        let n = ctx.n(150, 3000);
        ctx.case(id, move || {
            let im = medium_image(seed, comp, *r.pick(&[Mode::One, Mode::Two, Mode::Sep]))?;
            let packs = im.all_packs()?;
            let sc = Scratch::new("c04b");
            let mut b = Bench::new(&im, &sc.0);
            for _ in 0..n {
                let (f, p) = r.pick(&packs).clone();
                let ranges = covered(&im.files[f].1, &p);
                let (a, z) = *r.pick(&ranges);
                let at = r.range(a as u64, z as u64 - 1) as usize;
                let d = Damage(vec![Op::Xor(f, at, r.range(1, 255) as u8)]);
                b.set(&d);
                must_fail(&b, f, &p)
                    .map_err(|x| format!("{} ({} pack at {}): {x}", d.show(), p.kind as char, p.offset))?;
            }
            Ok(vec![format!("medium:{}", comp.tag())])
        });
    }
}
