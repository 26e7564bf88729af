//! C14: the bytes written are the documented layout, and files written by the pinned version keep
//! their meaning.
use crate::decode;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use crate::view::Image;
use jubako as jbk;
use jubako::reader::{self, EntryTrait as _, Range as _};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// Everything the independent decoder says about the files, compared with what was written.
fn decoded_as_written(
    files: &[(String, Vec<u8>)],
    entry: usize,
    mode: Mode,
    spec: &ContainerSpec,
    handles: &Bounds,
    packs: &[(u16, Vec<((u16, u32), Arc<Vec<u8>>)>)],
) -> Result<BTreeSet<String>, String> {
    let mut marks = BTreeSet::new();
    let mut all: Vec<(usize, decode::PackAt)> = vec![];
    for (i, (n, b)) in files.iter().enumerate() {
        for p in decode::packs_in(b).map_err(|e| format!("{n}: {e}"))? {
            if p.offset == 0 && p.size != b.len() {
                return Err(format!("{n}: {} bytes, a pack of {}", b.len(), p.size));
            }
            all.push((i, p));
        }
    }
    let bytes = |f: usize, p: &decode::PackAt| files[f].1[p.offset..p.offset + p.size].to_vec();
    let manifests: Vec<_> = all.iter().filter(|(_, p)| p.kind == b'm').collect();
    let [(mf, mp)] = manifests[..] else {
        return Err(format!("{} manifests", manifests.len()));
    };
    if *mf != entry {
        return Err("the manifest is not in the main file".into());
    }
    let m = decode::manifest(&bytes(*mf, mp))?;
    if m.infos.len() != 1 + packs.len() || all.len() != 2 + packs.len() {
        return Err(format!(
            "{} pack infos, {} packs for {} content packs",
            m.infos.len(),
            all.len(),
            packs.len()
        ));
    }
    let nfiles = match mode {
        Mode::One => 1,
        Mode::Two => 2,
        Mode::Sep => 3,
    } + packs.len()
        - 1;
    if files.len() != nfiles {
        return Err(format!("{} files in mode {mode:?}", files.len()));
    }
    let vendor = |h: &decode::Header, what: &str| {
        if h.vendor != [1, 2, 3, 4] {
            Err(format!("{what}: vendor {:?}", h.vendor))
        } else {
            Ok(())
        }
    };
    vendor(&m.header, "manifest")?;
    let mut ids = BTreeSet::new();
    for info in &m.infos {
        let (f, p) = all
            .iter()
            .find(|(_, p)| p.uuid == info.uuid)
            .ok_or("a pack info without pack")?;
        if p.kind != info.kind || p.size != info.size {
            return Err(format!("pack info {info:?} of pack {p:?}"));
        }
        let data = bytes(*f, p);
        // inside the main file: no location
        if *f == entry {
            if !info.location.is_empty() {
                return Err(format!("location {:?} of a pack beside the manifest", info.location));
            }
        } else if info.location != files[*f].0 {
            return Err(format!("location {:?} of the pack in {:?}", info.location, files[*f].0));
        }
        match info.kind {
            b'd' => {
                let d = decode::directory(&data)?;
                vendor(&d.header, "directory")?;
                if d.indexes.len() != spec.dir.indexes.len() {
                    return Err(format!("{} indexes", d.indexes.len()));
                }
                if d.value_stores.len() != spec.dir.value_stores.len() {
                    return Err(format!("{} value stores", d.value_stores.len()));
                }
                let mut read = vec![];
                for (g, w) in d.indexes.iter().zip(&spec.dir.indexes) {
                    let want = decode::DIndexHeader {
                        name: w.name.clone(),
                        store: w.store,
                        count: w.count as usize,
                        offset: w.offset as usize,
                        free: w.free,
                        prop: w.prop,
                    };
                    if *g != want {
                        return Err(format!("index {g:?} instead of {want:?}"));
                    }
                    let st = &d.stores[g.store];
                    if st.entries.len() != spec.dir.stores[g.store].entries.len() {
                        return Err(format!("{} entries in store {}", st.entries.len(), g.store));
                    }
                    read.push(DIndex {
                        name: g.name.clone(),
                        count: g.count as u32,
                        entries: st.entries[g.offset..g.offset + g.count].to_vec(),
                    });
                }
                for (g, w) in d.stores.iter().zip(&spec.dir.stores) {
                    let names: Vec<_> = w.variants.iter().map(|v| v.0.to_string()).collect();
                    if g.variants != names {
                        return Err(format!("variants {:?} instead of {names:?}", g.variants));
                    }
                    for p in &g.props {
                        marks.insert(
                            match &p.kind {
                                decode::DKind::Int { signed, w, default } => {
                                    format!("int{w}s{}d{}", *signed as u8, default.is_some() as u8)
                                }
                                decode::DKind::Content { pw, cw, default } => {
                                    format!("content{pw}{cw}d{}", default.is_some() as u8)
                                }
                                decode::DKind::Array { lw, key, default, .. } => format!(
                                    "array{lw}k{}d{}",
                                    key.map_or(0, |k| k.0),
                                    default.is_some() as u8
                                ),
                                decode::DKind::Pad(_) => "pad".into(),
                                decode::DKind::Variant => "variant".into(),
                            },
                        );
                    }
                }
                verify_directory(&spec.dir, handles, &read)?;
                if info.id != 0 {
                    return Err(format!("directory pack of id {}", info.id));
                }
            }
            b'c' => {
                let c = decode::content(&data)?;
                vendor(&c.header, "content pack")?;
                let (_, want) = packs
                    .iter()
                    .find(|(id, _)| *id == info.id)
                    .ok_or_else(|| format!("content pack of id {}", info.id))?;
                if !ids.insert(info.id) {
                    return Err(format!("two packs of id {}", info.id));
                }
                if c.infos.len() != want.len() {
                    return Err(format!("{} contents instead of {}", c.infos.len(), want.len()));
                }
                for (a, b) in want {
                    let g = c.get(a.1 as usize)?;
                    if g != &b[..] {
                        return Err(format!("content {a:?}: {}", first_diff(g, b)));
                    }
                }
                for cl in &c.clusters {
                    if cl.comp != 0 && cl.comp != spec.comp.byte() {
                        return Err(format!("cluster of compression {}", cl.comp));
                    }
                    marks.insert(format!("cluster:{}:w{}", cl.comp, cl.offset_width));
                }
            }
            k => return Err(format!("pack info of kind {k}")),
        }
    }
    Ok(marks)
}

fn generated(spec: ContainerSpec, mode: Mode, extra: Vec<Vec<ContentSpec>>) -> CaseResult {
    let sc = Scratch::new("c14");
    let inp = Scratch::new("c14in");
    let out = sc.utf8("c.jbk");
    let ex = extra
        .iter()
        .enumerate()
        .map(|(i, c)| (sc.utf8(&format!("extra{i}.jbkc")), 2 + i as u16, c.clone()))
        .collect();
    let (cr, ea) = create_basic_extra(&spec, mode, &out, &inp.0, Arc::new(()), ex)?;
    let mut packs = vec![(
        1u16,
        cr.addresses
            .iter()
            .zip(&spec.contents)
            .map(|(a, c)| (*a, c.bytes.clone()))
            .collect::<Vec<_>>(),
    )];
    for (i, (addr, cs)) in ea.iter().zip(&extra).enumerate() {
        packs.push((
            2 + i as u16,
            addr.iter().zip(cs).map(|(a, c)| (*a, c.bytes.clone())).collect(),
        ));
    }
    let mut files = vec![];
    for e in std::fs::read_dir(&sc.0).map_err(s("read_dir"))? {
        let e = e.map_err(s("read_dir"))?;
        files.push((
            e.file_name().into_string().unwrap(),
            std::fs::read(e.path()).map_err(s("read"))?,
        ));
    }
    files.sort();
    let entry = files.iter().position(|f| f.0 == "c.jbk").ok_or("no c.jbk")?;
    let mut marks: Vec<String> =
        decoded_as_written(&files, entry, mode, &spec, &cr.handles, &packs)?.into_iter().collect();
    marks.push(format!("mode:{mode:?}"));
    marks.push(format!("comp:{}", spec.comp.tag()));
    Ok(marks)
}

fn gen_spec(r: &mut Rng, comp: Comp, big: bool) -> ContainerSpec {
    let n = r.usize(if big { 120 } else { 12 });
    let max = *r.pick(&[200, 5000, 70_000]);
    ContainerSpec {
        contents: (0..n).map(|_| gen_content(r, max)).collect(),
        comp,
        dir: gen_dir(
            r,
            &DirParams {
                max_entries: if big { 400 } else { 40 },
                sorted: true,
                refs: true,
                variants: true,
            },
        ),
    }
}

// ---------------------------------------------------------------- reference corpus
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2)
        .map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn digest(b: &[u8]) -> String {
    if b.len() <= 40 {
        format!("={}", hex(b))
    } else {
        format!("{}:{}", b.len(), blake3::hash(b).to_hex())
    }
}
fn show(v: &Val) -> String {
    match v {
        Val::U(v) => format!("U:{v}"),
        Val::S(v) => format!("S:{v}"),
        Val::A(v) => format!("A:{}", hex(v)),
        Val::C(p, c) => format!("C:{p}:{c}"),
        _ => panic!("references have no dump"),
    }
}

/// The logical content according to the independent decoder, in a text form.
fn dump(files: &[(String, Vec<u8>)]) -> Result<String, String> {
    let mut o = String::new();
    let mut all: Vec<(usize, decode::PackAt)> = vec![];
    for (i, (n, b)) in files.iter().enumerate() {
        for p in decode::packs_in(b).map_err(|e| format!("{n}: {e}"))? {
            all.push((i, p));
        }
    }
    let bytes = |f: usize, p: &decode::PackAt| files[f].1[p.offset..p.offset + p.size].to_vec();
    let (mf, mp) = all.iter().find(|(_, p)| p.kind == b'm').ok_or("no manifest")?;
    let m = decode::manifest(&bytes(*mf, mp))?;
    o += &format!("uuid {}\n", hex(&m.header.uuid));
    let mut infos = m.infos.clone();
    infos.sort_by_key(|i| i.id);
    for info in infos {
        let (f, p) = all.iter().find(|(_, p)| p.uuid == info.uuid).ok_or("pack")?;
        let data = bytes(*f, p);
        if info.kind == b'd' {
            let d = decode::directory(&data)?;
            for i in &d.indexes {
                o += &format!("index {} {} {}\n", hex(i.name.as_bytes()), i.store, i.count);
                for e in &d.stores[i.store].entries[i.offset..i.offset + i.count] {
                    o += &format!("entry {}", e.variant.map_or("-".into(), |v| v.to_string()));
                    for (n, v) in &e.vals {
                        o += &format!(" {n}={}", show(v));
                    }
                    o += "\n";
                }
            }
        } else {
            let c = decode::content(&data)?;
            o += &format!("pack {} {} {}\n", info.id, hex(&info.uuid), c.infos.len());
            for i in 0..c.infos.len() {
                o += &format!("content {} {i} {}\n", info.id, digest(c.get(i)?));
            }
        }
    }
    Ok(o)
}

/// The library reads what the dump says.
fn reads_as_dumped(main: &Path, dump: &str) -> Result<BTreeSet<String>, String> {
    use reader::MayMissPack;
    let c = reader::Container::new(main).map_err(s("Container::new"))?;
    let mut marks = BTreeSet::new();
    if !c.check().map_err(s("check"))? {
        return Err("check() says false".into());
    }
    let mut packs = 1;
    let mut current: Option<(reader::Index, reader::builder::AnyBuilder, u32)> = None;
    for (ln, l) in dump.lines().enumerate() {
        let f: Vec<&str> = l.split(' ').collect();
        let at = |e: String| format!("expectation line {}: {e}", ln + 1);
        match f[0] {
            "uuid" => {
                if c.uuid().as_bytes()[..] != unhex(f[1]) {
                    return Err(at(format!("uuid {}", c.uuid())));
                }
            }
            "pack" => {
                packs += 1;
                let id: u16 = f[1].parse().unwrap();
                match c.get_pack(id.into()).map_err(s("get_pack"))? {
                    Some(MayMissPack::FOUND(p)) => {
                        use jbk::Pack as _;
                        if p.uuid().as_bytes()[..] != unhex(f[2])
                            || p.get_content_count().into_u32() != f[3].parse::<u32>().unwrap()
                        {
                            return Err(at("another pack".into()));
                        }
                    }
                    _ => return Err(at("pack not found".into())),
                }
            }
            "content" => {
                let a = (f[1].parse().unwrap(), f[2].parse().unwrap());
                match read_content(&c, a).map_err(at)? {
                    Some(Some(b)) if digest(&b) == f[3] => {}
                    Some(Some(b)) => {
                        return Err(format!(
                            "content {a:?} reads {} where {} is expected",
                            digest(&b),
                            f[3]
                        ))
                    }
                    _ => return Err(format!("content {a:?} not found")),
                }
            }
            "index" => {
                if let Some((i, _, k)) = &current {
                    if i.count().into_u32() != *k {
                        return Err(at("the previous index has another count".into()));
                    }
                }
                let name = String::from_utf8(unhex(f[1])).unwrap();
                let i = c
                    .get_index_for_name(&name)
                    .map_err(s("index"))?
                    .ok_or_else(|| format!("index {name:?} not found"))?;
                if i.count().into_u32() != f[3].parse::<u32>().unwrap() {
                    return Err(at(format!("index {name:?} of {} entries", i.count().into_u32())));
                }
                let b = builder_for(&c, &i)?;
                current = Some((i, b, 0));
            }
            "entry" => {
                let (i, b, k) = current.as_mut().unwrap();
                let e = i
                    .get_entry(b, (*k).into())
                    .map_err(s("get_entry"))?
                    .ok_or_else(|| format!("expectation line {}: no entry {k}", ln + 1))?;
                *k += 1;
                let v = e
                    .get_variant_id()
                    .map_err(s("variant"))?
                    .map_or("-".to_string(), |v| v.into_u8().to_string());
                if v != f[1] {
                    return Err(format!("expectation line {}: variant {v}", ln + 1));
                }
                for p in &f[2..] {
                    let (n, w) = p.split_once('=').unwrap();
                    let kind = match &w[..1] {
                        "U" => Kind::U,
                        "S" => Kind::S,
                        "A" => Kind::A { fixed: 0, vs: 0 },
                        _ => Kind::C,
                    };
                    marks.insert(format!("corpus-{}", &w[..1]));
                    let g = e
                        .get_value(n)
                        .map_err(s("value"))?
                        .ok_or_else(|| format!("expectation line {}: no {n}", ln + 1))?;
                    let g = show(&val_of(&kind, &g)?);
                    if g != w {
                        return Err(format!("expectation line {}: {n} reads {g} for {w}", ln + 1));
                    }
                }
            }
            x => return Err(at(format!("keyword {x}"))),
        }
    }
    if c.pack_count().into_u16() != packs {
        return Err(format!("{} packs for {packs}", c.pack_count().into_u16()));
    }
    Ok(marks)
}

fn corpus_dir() -> PathBuf {
    PathBuf::from(std::env::var("JBKV_CORPUS").unwrap_or_else(|_| {
        concat!(env!("CARGO_MANIFEST_DIR"), "/corpus").to_string()
    }))
}

/// Run with the pinned version of the library only.
pub fn corpus_make(args: &[String]) {
    let out = PathBuf::from(&args[0]);
    std::fs::create_dir_all(&out).unwrap();
    decode::LEGACY.store(true, std::sync::atomic::Ordering::Relaxed);
    let levels = [
        Comp::None,
        Comp::Lz4(3),
        Comp::Lzma(2),
        Comp::Zstd(5),
    ];
    for comp in levels {
        for mode in [Mode::One, Mode::Two, Mode::Sep] {
            let mut kept = 0;
            for k in 0..200 {
                if kept == 3 {
                    break;
                }
                let id = format!("{}-{mode:?}-{k}", comp.tag());
                let mut r = Rng::from_str(&id, 20);
                let mut spec = if k == 0 {
                    small_container(&mut r, comp)
                } else {
                    gen_spec(&mut r, comp, false)
                };
                spec.contents.truncate(8);
                for c in &mut spec.contents {
                    if c.bytes.len() > 9000 {
                        c.bytes = Arc::new(c.bytes[..9000].to_vec());
                    }
                }
                let extra = if kept == 1 {
                    vec![vec![ContentSpec::new(r.bytes(70), Hint::No)]]
                } else {
                    vec![]
                };
                let run = guarded(|| -> Result<(Image, String), String> {
                    let im = Image::create(&spec, mode, &extra, "")?;
                    generated(spec.clone(), mode, extra.clone())?;
                    let du = dump(&im.files)?;
                    let sc = Scratch::new("corpus");
                    im.write(&sc.0);
                    let c = reader::Container::new(im.entry_path(&sc.0)).map_err(s("new"))?;
                    read_indexes(&spec.dir, &c)?;
                    if mode == Mode::One {
                        // the pinned version does not find the packs of other files
                        reads_as_dumped(&im.entry_path(&sc.0), &du)?;
                    }
                    Ok((im, du))
                });
                match run {
                    Err(e) => eprintln!("{id}: not kept: {e}"),
                    Ok((im, du)) => {
                        let total: usize = im.files.iter().map(|f| f.1.len()).sum();
                        if k != 0 && !(1500..60_000).contains(&total) {
                            continue;
                        }
                        kept += 1;
                        let d = out.join(&id);
                        std::fs::create_dir_all(&d).unwrap();
                        im.write(&d);
                        std::fs::write(d.join("expect.txt"), du).unwrap();
                        eprintln!("{id}: kept, {total} bytes");
                    }
                }
            }
        }
    }
}

fn corpus_case(dir: PathBuf) -> CaseResult {
    let sc = Scratch::new("corpus");
    copy_dir(&dir, &sc.0);
    let want = std::fs::read_to_string(dir.join("expect.txt")).map_err(s("expect.txt"))?;
    let marks = reads_as_dumped(&sc.0.join("c.jbk"), &want)?;
    let mut m: Vec<String> = marks.into_iter().collect();
    m.push("corpus".into());
    Ok(m)
}

pub fn cases(ctx: &mut Ctx) {
    let mut names: Vec<PathBuf> = std::fs::read_dir(corpus_dir())
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    names.sort();
    if names.len() < 20 {
        ctx.case("corpus/is-there", || Err("the reference corpus is not there".into()));
    }
    for n in names {
        let id = format!("corpus/{}", n.file_name().unwrap().to_string_lossy());
        ctx.case(id, move || corpus_case(n));
    }
    let n = ctx.n(30, 300);
    for comp in [
        Comp::None,
        Comp::Lz4(1),
        Comp::Lz4(12),
        Comp::Lzma(0),
        Comp::Lzma(6),
        Comp::Zstd(1),
        Comp::Zstd(-7),
        Comp::Zstd(12),
    ] {
        for mode in [Mode::One, Mode::Two, Mode::Sep] {
            for k in 0..n {
                let id = format!("written/{comp:?}/{mode:?}/{k}");
                let mut r = ctx.rng(&id);
                ctx.case(id, move || {
                    let spec = if k == 0 {
                        small_container(&mut r, comp)
                    } else {
                        gen_spec(&mut r, comp, k % 8 == 5)
                    };
                    let mut extra = vec![];
                    if k % 3 == 1 {
                        for _ in 0..1 + r.usize(2) {
                            extra.push((0..r.usize(6)).map(|_| gen_content(&mut r, 3000)).collect());
                        }
                    }
                    generated(spec, mode, extra)
                });
            }
        }
    }
}
