//! C11: an unavailable pack is reported as missing, everything else still reads.
use super::c10::{gen_spec, make};
use crate::model::*;
use crate::util::*;
use crate::view::*;
use jubako as jbk;
use jubako::reader::MayMissPack;
use std::collections::BTreeSet;

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

fn judge(im: &Image, h: &Bounds, dir: &std::path::Path, missing: &BTreeSet<u16>, names: &[(u16, String, uuid::Uuid)]) -> Result<(), String> {
    let c = jbk::reader::Container::new(im.entry_path(dir)).map_err(s("open"))?;
    let rd = read_indexes(&im.spec.dir, &c)?;
    verify_directory(&im.spec.dir, h, &rd)?;
    for pass in 0..2 {
        for (a, b) in &im.contents {
            let addr = jbk::ContentAddress::new(a.0.into(), a.1.into());
            let got = c.get_bytes(addr).map_err(|x| format!("content {a:?}: error {x}"))?;
            match got {
                None => return Err(format!("content {a:?}: pack unknown")),
                Some(MayMissPack::MISSING(i)) => {
                    if !missing.contains(&a.0) {
                        return Err(format!("content {a:?}: reported missing but its pack is there"));
                    }
                    let (_, n, u) = names.iter().find(|x| x.0 == a.0).unwrap();
                    if i.uuid != *u
                        || i.pack_id.into_u16() != a.0
                        || i.pack_location.as_str() != n
                    {
                        return Err(format!("content {a:?}: missing, with the description of another pack {i:?}"));
                    }
                }
                Some(MayMissPack::FOUND(None)) => return Err(format!("content {a:?}: absent from its pack")),
                Some(MayMissPack::FOUND(Some(r))) => {
                    if missing.contains(&a.0) {
                        return Err(format!("content {a:?}: read although its pack is not there"));
                    }
                    let g = region_bytes(&r).map_err(|m| format!("content {a:?}: {m}"))?;
                    if g != ***b {
                        return Err(format!("content {a:?}: {}", first_diff(&g, b)));
                    }
                }
            }
        }
        for (id, n) in &im.packs {
            // past the end, and the pack itself
            match c.get_pack((*id).into()).map_err(|x| format!("pack {id}: {x}"))? {
                None => return Err(format!("pack {id}: unknown")),
                Some(MayMissPack::MISSING(_)) if missing.contains(id) => {}
                Some(MayMissPack::FOUND(p)) if !missing.contains(id) => {
                    if p.get_content_count().into_u32() != *n {
                        return Err(format!("pack {id}: content count"));
                    }
                }
                x => return Err(format!("pack {id}: {} although missing={missing:?}", if x.unwrap().get().is_some() { "found" } else { "missing" })),
            }
        }
        // ids that are not in the manifest
        for id in [0u16, 1, 2, 3, 4, 6, 8, 299, 301, 5000, u16::MAX] {
            if im.packs.iter().any(|p| p.0 == id) {
                continue;
            }
            match c.get_pack(id.into()).map_err(|x| format!("unknown pack {id}: {x}"))? {
                None => {}
                Some(_) => return Err(format!("pack {id} is not in the manifest but answers")),
            }
        }
        if pass == 0 {
            match c.check() {
                Ok(true) => {}
                x => return Err(format!("check with packs {missing:?} missing: {x:?}")),
            }
        }
    }
    // a damage in a pack that is present is still seen
    Ok(())
}

fn subsets(mut r: Rng) -> CaseResult {
    let (spec, mut extra) = gen_spec(&mut r);
    for x in &mut extra {
        if x.1.is_empty() {
            x.1.push(ContentSpec::new(b"at least one".to_vec(), Hint::No));
        }
    }
    if extra.is_empty() {
        extra.push((4, vec![ContentSpec::new(b"extra".to_vec(), Hint::Yes)]));
    }
    let mode = *r.pick(&[Mode::One, Mode::Two, Mode::Sep, Mode::Sep]);
    let (im, h) = make(&spec, mode, &extra)?;
    // a foreign container to take packs from
    let (other, _) = make(&spec, mode, &extra)?;
    let sc = Scratch::new("c11");
    im.write(&sc.0);
    let m = jbk::tools::open_pack(im.entry_path(&sc.0)).map_err(e)?;
    let m = jbk::reader::ManifestPack::new(m.get_manifest_pack_reader().map_err(e)?.ok_or("manifest")?).map_err(e)?;
    let names: Vec<(u16, String, uuid::Uuid)> = m
        .get_pack_infos()
        .iter()
        .map(|i| (i.pack_id.into_u16(), i.pack_location.as_str().to_string(), i.uuid))
        .collect();
    let movable: Vec<&(u16, String, uuid::Uuid)> = names.iter().filter(|n| !n.1.is_empty()).collect();
    if movable.is_empty() {
        return Err("no separate pack".into());
    }
    let mut marks = vec![format!("mode:{mode:?}")];
    for bits in 0..(1u32 << movable.len()) {
        for how in 0..5 {
            if bits == 0 && how != 0 {
                continue;
            }
            im.write(&sc.0);
            let mut missing = BTreeSet::new();
            for (i, n) in movable.iter().enumerate() {
                if bits >> i & 1 == 0 {
                    continue;
                }
                missing.insert(n.0);
                let p = sc.path(&n.1);
                std::fs::remove_file(&p).map_err(|x| format!("{p:?}: {x}"))?;
                match how {
                    0 => {}
                    1 => std::fs::create_dir(&p).map_err(e)?,
                    2 => {
                        // the corresponding pack of another container: same id, other identity
                        let f = other.files.iter().find(|f| f.0 == n.1).ok_or("other file")?;
                        put(&p, &f.1);
                    }
                    3 => {
                        // another kind of pack, the other container as a whole
                        put(&p, &other.files[other.entry].1);
                    }
                    _ => {
                        // a dangling link
                        std::os::unix::fs::symlink(sc.path("nowhere"), &p).map_err(e)?;
                    }
                }
            }
            judge(&im, &h, &sc.0, &missing, &names)
                .map_err(|m| format!("{mode:?}, packs {missing:?} unavailable ({}): {m}", ["removed", "directory", "other pack", "other container", "dangling link"][how]))?;
            marks.push(format!("missing{}:how{how}", missing.len()));
            for (i, n) in movable.iter().enumerate() {
                if bits >> i & 1 == 1 {
                    let p = sc.path(&n.1);
                    if p.is_dir() {
                        std::fs::remove_dir(&p).map_err(e)?;
                    } else if p.symlink_metadata().is_ok() {
                        std::fs::remove_file(&p).map_err(e)?;
                    }
                }
            }
        }
    }
    // two packs exchanged
    if movable.len() >= 2 {
        im.write(&sc.0);
        let (a, b) = (movable[0], movable[1]);
        let fa = im.files.iter().find(|f| f.0 == a.1).ok_or("file")?;
        let fb = im.files.iter().find(|f| f.0 == b.1).ok_or("file")?;
        put(&sc.path(&a.1), &fb.1);
        put(&sc.path(&b.1), &fa.1);
        let missing = [a.0, b.0].into_iter().collect();
        judge(&im, &h, &sc.0, &missing, &names).map_err(|m| format!("packs {} and {} exchanged: {m}", a.0, b.0))?;
        marks.push("exchanged".into());
    }
    // the check covers the packs which are present, also when an earlier one is missing
    im.write(&sc.0);
    if movable.len() >= 2 {
        for gone in 0..movable.len() {
            for hurt in 0..movable.len() {
                if gone == hurt {
                    continue;
                }
                im.write(&sc.0);
                std::fs::remove_file(sc.path(&movable[gone].1)).map_err(e)?;
                let f = im.files.iter().find(|f| f.0 == movable[hurt].1).ok_or("file")?;
                for p in crate::decode::packs_in(&f.1)? {
                    if p.kind != b'c' {
                        continue;
                    }
                    let mut b = f.1.clone();
                    b[p.offset + 128] ^= 0x40;
                    put(&sc.path(&f.0), &b);
                    let r = guarded(|| {
                        jbk::reader::Container::new(im.entry_path(&sc.0)).map_err(e)?.check().map_err(e)
                    });
                    if r == Ok(true) {
                        return Err(format!(
                            "pack {} is missing and pack {} damaged, but the check succeeds",
                            movable[gone].0, movable[hurt].0
                        ));
                    }
                }
            }
        }
        marks.push("missing-and-damaged".into());
    }
    marks.sort();
    marks.dedup();
    Ok(marks)
}

pub fn cases(ctx: &mut Ctx) {
    for k in 0..ctx.n(80, 1000) {
        let id = format!("subset-{k}");
        let r = ctx.rng(&id);
        ctx.case(id, move || subsets(r));
    }
}
