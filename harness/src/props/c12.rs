//! C12: rewriting a pack location changes only that location.
use super::c10::{gen_spec, make, reads_as_written};
use crate::decode;
use crate::model::*;
use crate::util::*;
use crate::view::*;
use jubako as jbk;
use jubako::Pack as _;
use std::path::Path;

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

fn gen_location(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 213,
        2 => 212,
        3 => r.usize(8),
        _ => r.usize(214),
    };
    let alphabet: Vec<char> = match r.below(5) {
        0 => "abcdefghij/._-".chars().collect(),
        1 => "é".chars().collect(),
        2 => "日本語a".chars().collect(),
        3 => "🦀x".chars().collect(),
        _ => "\0\u{1}\n \u{7f}ÿ".chars().collect(),
    };
    let mut o = String::new();
    loop {
        let c = *r.pick(&alphabet);
        if o.len() + c.len_utf8() > n {
            while o.len() < n {
                o.push('x');
            }
            return o;
        }
        o.push(c);
    }
}

struct Info {
    uuid: uuid::Uuid,
    kind: u8,
    loc: String,
    /// position of the pack info block in the file
    at: usize,
}

/// The pack infos according to the independent decoder.
fn infos(file: &[u8], start: usize) -> Result<Vec<Info>, String> {
    let d = &file[start..];
    let size = decode::le(&d[32..40]) as usize;
    let d = &d[..size];
    let m = decode::manifest(d)?;
    let cp = decode::le(&d[40..48]) as usize;
    let n = m.infos.len();
    Ok(m.infos
        .iter()
        .enumerate()
        .map(|(i, x)| Info {
            uuid: uuid::Uuid::from_bytes(x.uuid),
            kind: x.kind,
            loc: x.location.clone(),
            at: start + cp - 256 * (n - i),
        })
        .collect())
}

fn manifest_of(p: &Path) -> Result<jbk::reader::ManifestPack, String> {
    let c = jbk::tools::open_pack(p).map_err(e)?;
    jbk::reader::ManifestPack::new(c.get_manifest_pack_reader().map_err(e)?.ok_or("no manifest")?).map_err(e)
}

fn histories(mut r: Rng) -> CaseResult {
    let (spec, extra) = gen_spec(&mut r);
    let mode = *r.pick(&[Mode::One, Mode::Two, Mode::Sep]);
    let (im, h) = make(&spec, mode, &extra)?;
    let sc = Scratch::new("c12");
    im.write(&sc.0);
    let mut path = im.entry_path(&sc.0);
    let mut start = None;
    let mut marks = vec![format!("mode:{mode:?}")];
    // where the manifest is
    let mut file = im.files[im.entry].1.clone();
    for p in decode::packs_in(&file)? {
        if p.kind == b'm' {
            start = Some(p.offset);
        }
    }
    let mut start = start.ok_or("no manifest")?;
    match r.below(4) {
        0 => {
            // embedded behind a prefix
            let mut pre = b"prefix ".repeat(1 + r.usize(30));
            start += pre.len();
            pre.extend_from_slice(&file);
            file = pre;
            put(&path, &file);
            marks.push("embedded".into());
        }
        1 if im.files.len() > 1 => {
            // concatenated: the manifest at another offset
            let mut inn: Vec<_> = im.files.iter().map(|f| sc.path(&f.0)).collect();
            if r.bool() {
                inn.reverse();
            }
            let out = sc.utf8("all.jbk");
            jbk::tools::concat(&inn, &out).map_err(e)?;
            path = out.into_std_path_buf();
            file = std::fs::read(&path).map_err(e)?;
            start = decode::packs_in(&file)?
                .into_iter()
                .find(|p| p.kind == b'm')
                .ok_or("no manifest")?
                .offset;
            marks.push("concatenated".into());
        }
        _ => {}
    }
    let list = infos(&file, start)?;
    let self_contained = list.iter().all(|i| {
        decode::packs_in(&file[if file.starts_with(b"prefix") { file.len() - decode_container_size(&file) } else { 0 }..])
            .map_or(false, |ps| ps.iter().any(|p| p.uuid == *i.uuid.as_bytes()))
    });
    let free: Vec<Option<Vec<u8>>> = {
        let m = manifest_of(&path)?;
        list.iter()
            .map(|i| m.get_pack_free_data_uuid(i.uuid).map(|x| x.map(|b| b.to_vec())).map_err(e))
            .collect::<Result<_, _>>()?
    };
    let before: Vec<_> = {
        let m = manifest_of(&path)?;
        let mut v = vec![m.get_directory_pack_info().clone()];
        v.extend(m.get_pack_infos().iter().cloned());
        v
    };
    let mut locs: Vec<String> = list.iter().map(|i| i.loc.clone()).collect();
    for step in 0..r.range(1, 7) {
        let k = r.usize(list.len());
        let new = gen_location(&mut r);
        let what = format!("step {step}: pack {k} ({} bytes)", new.len());
        match r.below(8) {
            0 => {
                // a pack which is not in the manifest
                let u = uuid::Uuid::from_bytes(r.bytes(16).try_into().unwrap());
                match jbk::tools::set_location(&path, u, new.as_str().into()) {
                    Ok(None) => {}
                    Ok(Some(x)) => return Err(format!("unknown pack: answers {x:?}")),
                    Err(x) => return Err(format!("unknown pack: error {x}")),
                }
                if std::fs::read(&path).map_err(e)? != file {
                    return Err("naming a pack that is not listed changed the file".into());
                }
                marks.push("unknown-pack".into());
                continue;
            }
            1 => {
                // inadmissible
                let long = "l".repeat(214 + r.usize(60));
                if jbk::tools::set_location(&path, list[k].uuid, long.as_str().into()).is_ok() {
                    return Err(format!("a location of {} bytes is accepted", long.len()));
                }
                if std::fs::read(&path).map_err(e)? != file {
                    return Err("a refused location changed the file".into());
                }
                marks.push("too-long".into());
                continue;
            }
            _ => {}
        }
        match jbk::tools::set_location(&path, list[k].uuid, new.as_str().into()).map_err(|x| format!("{what}: {x}"))? {
            None => return Err(format!("{what}: pack not found")),
            Some((kind, old)) => {
                if old.as_str() != locs[k] {
                    return Err(format!("{what}: old location {old:?} instead of {:?}", locs[k]));
                }
                let kb = match kind {
                    k if format!("{k:?}") == "Content" => b'c',
                    k if format!("{k:?}") == "Directory" => b'd',
                    _ => b'?',
                };
                if kb != list[k].kind {
                    return Err(format!("{what}: kind {kind:?}"));
                }
            }
        }
        locs[k] = new.clone();
        marks.push(format!("len<=2^{}", usize::BITS - new.len().leading_zeros()));
        // bytes
        let now = std::fs::read(&path).map_err(e)?;
        if now.len() != file.len() {
            return Err(format!("{what}: the file has another length"));
        }
        for (i, (a, b)) in file.iter().zip(&now).enumerate() {
            if a != b && !(list[k].at + 38..list[k].at + 256).contains(&i) {
                return Err(format!("{what}: byte {i} changed, outside the location of the pack"));
            }
        }
        file = now;
        // independent decoder
        let got = infos(&file, start).map_err(|m| format!("{what}: {m}"))?;
        for (i, g) in got.iter().enumerate() {
            if g.uuid != list[i].uuid || g.loc != locs[i] {
                return Err(format!("{what}: location {i} is {:?} instead of {:?}", g.loc, locs[i]));
            }
        }
        // the library
        let m = manifest_of(&path).map_err(|x| format!("{what}: {x}"))?;
        if !m.check().map_err(|x| format!("{what}: check: {x}"))? {
            return Err(format!("{what}: the manifest does not verify any more"));
        }
        let mut infos_now = vec![m.get_directory_pack_info().clone()];
        infos_now.extend(m.get_pack_infos().iter().cloned());
        for (a, b) in before.iter().zip(&infos_now) {
            let mut want = a.clone();
            let i = list.iter().position(|x| x.uuid == a.uuid).ok_or("uuid")?;
            want.pack_location = locs[i].as_str().into();
            if want != *b {
                return Err(format!("{what}: description {b:?} instead of {want:?}"));
            }
        }
        for (i, f) in list.iter().zip(&free) {
            if m.get_pack_free_data_uuid(i.uuid).map_err(e)?.map(|b| b.to_vec()) != *f {
                return Err(format!("{what}: free data changed"));
            }
        }
        if self_contained {
            reads_as_written(&im, Some(&h), &path).map_err(|m| format!("{what}: {m}"))?;
            marks.push("content-read".into());
        }
    }
    // back to the original locations: everything reads again, wherever the packs are
    for (k, i) in list.iter().enumerate() {
        jbk::tools::set_location(&path, i.uuid, list[k].loc.as_str().into()).map_err(e)?;
    }
    reads_as_written(&im, Some(&h), &path).map_err(|m| format!("locations restored: {m}"))?;
    marks.sort();
    marks.dedup();
    Ok(marks)
}

fn decode_container_size(file: &[u8]) -> usize {
    let mut t: Vec<u8> = file[file.len() - 64..].to_vec();
    t.reverse();
    decode::le(&t[32..40]) as usize
}

/// Moving a pack and telling so: it is found at its new place.
fn moved(mut r: Rng) -> CaseResult {
    let (spec, extra) = gen_spec(&mut r);
    let mode = *r.pick(&[Mode::Two, Mode::Sep]);
    let (im, h) = make(&spec, mode, &extra)?;
    let sc = Scratch::new("c12m");
    im.write(&sc.0);
    let entry = im.entry_path(&sc.0);
    std::fs::create_dir_all(sc.path("sub/dîr")).map_err(e)?;
    let start = decode::packs_in(&im.files[im.entry].1)?
        .into_iter()
        .find(|p| p.kind == b'm')
        .ok_or("manifest")?
        .offset;
    for i in infos(&im.files[im.entry].1, start)? {
        if i.loc.is_empty() || r.chance(1, 3) {
            continue;
        }
        let new = format!("sub/dîr/{}-{}", r.next(), "y".repeat(r.usize(100)));
        std::fs::rename(sc.path(&i.loc), sc.path(&new)).map_err(e)?;
        jbk::tools::set_location(&entry, i.uuid, new.as_str().into()).map_err(e)?;
    }
    reads_as_written(&im, Some(&h), &entry).map_err(|m| format!("packs moved: {m}"))?;
    Ok(vec!["moved".into()])
}

/// A manifest of `n` packs whose identities are alike: they differ by one byte, one bit or the order of their halves.
fn alike(n: usize, mut r: Rng) -> CaseResult {
    let sc = Scratch::new("c12a");
    let base: [u8; 16] = r.bytes(16).try_into().unwrap();
    let mut uuids = vec![base];
    for i in 0..16 {
        let mut u = base;
        u[i] ^= 1 << r.below(8);
        uuids.push(u);
    }
    let mut u = base;
    u.rotate_left(8);
    uuids.push(u);
    let mut u = base;
    u.reverse();
    uuids.push(u);
    uuids.push([0; 16]);
    uuids.push([0xFF; 16]);
    while uuids.len() < n {
        let mut u = base;
        for _ in 0..r.range(1, 3) {
            u[r.usize(16)] = r.below(256) as u8;
        }
        if !uuids.contains(&u) {
            uuids.push(u);
        }
    }
    uuids.truncate(n);
    for i in (1..uuids.len()).rev() {
        uuids.swap(i, r.usize(i + 1));
    }
    let d = sc.path("d.jbkd");
    let (mut data, _) = create_directory_pack(&crate::gen::small_container(&mut r, Comp::None).dir, &d)?;
    let mut packs = vec![];
    let dir_at = r.usize(n);
    let mut kinds = vec![];
    for (i, u) in uuids.iter().enumerate() {
        let mut pd = if i == dir_at {
            data.uuid = uuid::Uuid::from_bytes(*u);
            packs.push((data, "d.jbkd".to_string()));
            kinds.push(b'd');
            // moved: the next directory pack is never used
            data = create_content_pack(&[], Comp::None, 0, &sc.utf8("unused"), &sc.0, std::sync::Arc::new(()))?.0;
            continue;
        } else {
            create_content_pack(&[], Comp::None, i as u16 + 1, &sc.utf8("c.jbkc"), &sc.0, std::sync::Arc::new(()))?.0
        };
        pd.uuid = uuid::Uuid::from_bytes(*u);
        pd.free_data = (i as u32).to_le_bytes()[..i % 4].to_vec();
        packs.push((pd, gen_location(&mut r)));
        kinds.push(b'c');
    }
    let _ = data;
    let mut locs: Vec<String> = packs.iter().map(|p| p.1.clone()).collect();
    let m = sc.path("m.jbkm");
    create_manifest(packs, &m, [7; 24])?;
    let mut file = std::fs::read(&m).map_err(e)?;
    let list = infos(&file, 0)?;
    for (i, x) in list.iter().enumerate() {
        if x.uuid.as_bytes() != &uuids[i] || x.loc != locs[i] || x.kind != kinds[i] {
            return Err(format!("pack {i} of {n} is not described as given"));
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.usize(i + 1));
    }
    order.truncate(40);
    for k in order {
        let new = gen_location(&mut r);
        match jbk::tools::set_location(&m, list[k].uuid, new.as_str().into()).map_err(|x| format!("pack {k} of {n}: {x}"))? {
            Some((_, old)) if old.as_str() == locs[k] => {}
            x => return Err(format!("pack {k} of {n}: answers {x:?}, it was at {:?}", locs[k])),
        }
        locs[k] = new;
        let now = std::fs::read(&m).map_err(e)?;
        if now.len() != file.len() {
            return Err(format!("pack {k} of {n}: the file has another length"));
        }
        for (i, (a, b)) in file.iter().zip(&now).enumerate() {
            if a != b && !(list[k].at + 38..list[k].at + 256).contains(&i) {
                return Err(format!("pack {k} of {n}: byte {i} changed, outside the location of the pack"));
            }
        }
        file = now;
        let got = manifest_of(&m)?;
        if !got.check().map_err(e)? {
            return Err(format!("pack {k} of {n}: the manifest does not verify any more"));
        }
        for (i, x) in list.iter().enumerate() {
            let l = if x.kind == b'd' {
                got.get_directory_pack_info().pack_location.clone()
            } else {
                let Some(p) = got.get_pack_infos().iter().find(|p| p.uuid == x.uuid) else {
                    return Err(format!("pack {i} of {n} is no longer described"));
                };
                p.pack_location.clone()
            };
            if l.as_str() != locs[i] {
                return Err(format!("pack {i} of {n}: location {l:?} instead of {:?} (pack {k} was moved)", locs[i]));
            }
        }
        // identities which are not listed
        let mut u = uuids[k];
        u[r.usize(16)] ^= 1 << r.below(8);
        if !uuids.contains(&u) {
            match jbk::tools::set_location(&m, uuid::Uuid::from_bytes(u), "nowhere".into()) {
                Ok(None) => {}
                x => return Err(format!("unknown pack: answers {x:?}")),
            }
            if std::fs::read(&m).map_err(e)? != file {
                return Err("naming a pack that is not listed changed the file".into());
            }
        }
    }
    Ok(vec![format!("alike<=2^{}", usize::BITS - n.leading_zeros())])
}

pub fn cases(ctx: &mut Ctx) {
    for (i, n) in [1usize, 2, 5, 18, 22, 22, 22, 22, 60, 130, 300].into_iter().enumerate() {
        let id = format!("alike-{i}-{n}");
        let r = ctx.rng(&id);
        ctx.case(id, move || alike(n, r));
    }
    for k in 0..ctx.n(300, 4000) {
        let id = format!("history-{k}");
        let r = ctx.rng(&id);
        ctx.case(id, move || histories(r));
        if k % 4 == 0 {
            let id = format!("moved-{k}");
            let r = ctx.rng(&id);
            ctx.case(id, move || moved(r));
        }
    }
    // every length
    for lo in (0..=213usize).step_by(18) {
        let id = format!("lengths-{lo}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let (spec, extra) = gen_spec(&mut r);
            let (im, _) = make(&spec, Mode::One, &extra)?;
            let sc = Scratch::new("c12l");
            im.write(&sc.0);
            let p = im.entry_path(&sc.0);
            let u = manifest_of(&p)?.get_directory_pack_info().uuid;
            for n in lo..(lo + 18).min(214) {
                for c in ['a', 'é'] {
                    let mut l: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
                    while l.len() < n {
                        l.push('z');
                    }
                    jbk::tools::set_location(&p, u, l.as_str().into()).map_err(|x| format!("{n} bytes: {x}"))?;
                    let m = manifest_of(&p)?;
                    if m.get_directory_pack_info().pack_location.as_str() != l {
                        return Err(format!("{n} bytes: another location is read back"));
                    }
                    if !m.check().map_err(e)? {
                        return Err(format!("{n} bytes: the manifest does not verify"));
                    }
                }
            }
            Ok(vec!["lengths".into()])
        });
    }
}
