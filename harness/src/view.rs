//! Images (the files of one created container), damages to them, and everything the public API lets a
//! reader observe of a container.
use crate::decode;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{self, EntryTrait as _, Range as _};
use jubako::Pack as _;
use std::collections::BTreeMap;
use std::io::Read as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone)]
pub struct Image {
    pub files: Vec<(String, Vec<u8>)>,
    /// index in files
    pub entry: usize,
    pub spec: ContainerSpec,
    /// every content: address, bytes
    pub contents: Vec<((u16, u32), Arc<Vec<u8>>)>,
    /// (pack id, number of contents)
    pub packs: Vec<(u16, u32)>,
    pub tag: String,
}

impl Image {
    pub fn create(
        spec: &ContainerSpec,
        mode: Mode,
        extra: &[Vec<ContentSpec>],
        tag: &str,
    ) -> Result<Image, String> {
        let sc = Scratch::new("img");
        let inp = Scratch::new("imgin");
        let out = sc.utf8("c.jbk");
        let ex = extra
            .iter()
            .enumerate()
            .map(|(i, c)| (sc.utf8(&format!("extra{i}.jbkc")), 2 + i as u16, c.clone()))
            .collect();
        let (cr, ea) = create_basic_extra(spec, mode, &out, &inp.0, Arc::new(()), ex)?;
        let mut contents = vec![];
        for (a, c) in cr.addresses.iter().zip(&spec.contents) {
            contents.push((*a, c.bytes.clone()));
        }
        let mut packs = vec![(1, spec.contents.len() as u32)];
        for (i, (addr, cs)) in ea.iter().zip(extra).enumerate() {
            packs.push((2 + i as u16, cs.len() as u32));
            for (a, c) in addr.iter().zip(cs) {
                contents.push((*a, c.bytes.clone()));
            }
        }
        let mut im = Image {
            files: vec![],
            entry: 0,
            spec: spec.clone(),
            contents,
            packs,
            tag: tag.into(),
        };
        im.load(&sc.0)?;
        Ok(im)
    }
    pub fn load(&mut self, dir: &Path) -> Result<(), String> {
        self.load_as(dir, "c.jbk")
    }
    pub fn load_as(&mut self, dir: &Path, name: &str) -> Result<(), String> {
        let mut files = vec![];
        for e in std::fs::read_dir(dir).map_err(s("read_dir"))? {
            let e = e.map_err(s("read_dir"))?;
            let n = e.file_name().into_string().unwrap();
            files.push((n, std::fs::read(e.path()).map_err(s("read"))?));
        }
        files.sort();
        self.entry = files
            .iter()
            .position(|f| f.0 == name)
            .ok_or(format!("no {name} was created"))?;
        self.files = files;
        Ok(())
    }
    pub fn write(&self, dir: &Path) {
        for (n, b) in &self.files {
            put(&dir.join(n), b);
        }
    }
    pub fn entry_path(&self, dir: &Path) -> PathBuf {
        dir.join(&self.files[self.entry].0)
    }
    /// every pack (directory, content, manifest): file index, position in the file
    pub fn all_packs(&self) -> Result<Vec<(usize, decode::PackAt)>, String> {
        let mut v = vec![];
        for (i, (n, b)) in self.files.iter().enumerate() {
            for p in decode::packs_in(b).map_err(|e| format!("{n}: {e}"))? {
                v.push((i, p));
            }
        }
        Ok(v)
    }
}

/// Replace the file (new inode: old mappings stay valid).
pub fn put(p: &Path, b: &[u8]) {
    let tmp = p.with_extension("tmp-put");
    std::fs::write(&tmp, b).unwrap();
    std::fs::rename(&tmp, p).unwrap();
}

// ---------------------------------------------------------------- damages
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Xor(usize, usize, u8),
    Fill(usize, usize, usize, u8),
    Rand(usize, usize, usize, u64),
    Trunc(usize, usize),
    Append(usize, usize, u64),
    Garbage(usize, usize, u64),
    Copy(usize, usize, usize, usize),
    /// recompute the CRC of the block at a position, of a length
    Fix(usize, usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Damage(pub Vec<Op>);
impl Damage {
    pub fn show(&self) -> String {
        self.0
            .iter()
            .map(|o| match o {
                Op::Xor(f, p, m) => format!("x.{f}.{p}.{m}"),
                Op::Fill(f, p, l, b) => format!("f.{f}.{p}.{l}.{b}"),
                Op::Rand(f, p, l, s) => format!("r.{f}.{p}.{l}.{s}"),
                Op::Trunc(f, l) => format!("t.{f}.{l}"),
                Op::Append(f, l, s) => format!("a.{f}.{l}.{s}"),
                Op::Garbage(f, l, s) => format!("g.{f}.{l}.{s}"),
                Op::Copy(f, a, b, l) => format!("c.{f}.{a}.{b}.{l}"),
                Op::Fix(f, p, l) => format!("k.{f}.{p}.{l}"),
            })
            .collect::<Vec<_>>()
            .join("+")
    }
    pub fn parse(t: &str) -> Option<Damage> {
        let mut v = vec![];
        for o in t.split('+') {
            let p: Vec<&str> = o.split('.').collect();
            let n: Vec<u64> = p[1..].iter().filter_map(|x| x.parse().ok()).collect();
            let u = |i: usize| n.get(i).map(|x| *x as usize);
            v.push(match p[0] {
                "x" => Op::Xor(u(0)?, u(1)?, u(2)? as u8),
                "f" => Op::Fill(u(0)?, u(1)?, u(2)?, u(3)? as u8),
                "r" => Op::Rand(u(0)?, u(1)?, u(2)?, *n.get(3)?),
                "t" => Op::Trunc(u(0)?, u(1)?),
                "a" => Op::Append(u(0)?, u(1)?, *n.get(2)?),
                "g" => Op::Garbage(u(0)?, u(1)?, *n.get(2)?),
                "k" => Op::Fix(u(0)?, u(1)?, u(2)?),
                "c" => Op::Copy(u(0)?, u(1)?, u(2)?, u(3)?),
                _ => return None,
            });
        }
        Some(Damage(v))
    }
    /// Returns the touched files with their new contents.
    pub fn apply(&self, im: &Image) -> BTreeMap<usize, Vec<u8>> {
        let mut m: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for o in &self.0 {
            let f = match o {
                Op::Xor(f, ..)
                | Op::Fill(f, ..)
                | Op::Rand(f, ..)
                | Op::Trunc(f, ..)
                | Op::Append(f, ..)
                | Op::Garbage(f, ..)
                | Op::Copy(f, ..)
                | Op::Fix(f, ..) => *f,
            };
            let b = m.entry(f).or_insert_with(|| im.files[f].1.clone());
            let n = b.len();
            match o {
                Op::Xor(_, p, k) => {
                    if *p < n {
                        b[*p] ^= k
                    }
                }
                Op::Fill(_, p, l, v) => b[(*p).min(n)..(p + l).min(n)].fill(*v),
                Op::Rand(_, p, l, sd) => {
                    let (a, z) = ((*p).min(n), (p + l).min(n));
                    let r = Rng::new(*sd).bytes(z - a);
                    b[a..z].copy_from_slice(&r);
                }
                Op::Trunc(_, l) => b.truncate(*l),
                Op::Append(_, l, sd) => b.extend(Rng::new(*sd).bytes(*l)),
                Op::Garbage(_, l, sd) => *b = Rng::new(*sd).bytes(*l),
                Op::Fix(_, p, l) => {
                    if p + l + 4 <= n {
                        let c = crate::decode::crc(&b[*p..p + l]);
                        b[p + l..p + l + 4].copy_from_slice(&c.to_be_bytes());
                    }
                }
                Op::Copy(_, from, to, l) => {
                    if from + l <= n && to + l <= n {
                        b.copy_within(*from..*from + *l, *to)
                    }
                }
            }
        }
        m
    }
}

/// A directory holding the image, with one damage applied at a time.
pub struct Bench<'a> {
    pub im: &'a Image,
    pub dir: PathBuf,
    dirty: Vec<usize>,
}
impl<'a> Bench<'a> {
    pub fn new(im: &'a Image, dir: &Path) -> Self {
        im.write(dir);
        Bench {
            im,
            dir: dir.into(),
            dirty: vec![],
        }
    }
    pub fn set(&mut self, d: &Damage) {
        let m = d.apply(self.im);
        for f in std::mem::take(&mut self.dirty) {
            if !m.contains_key(&f) {
                put(&self.dir.join(&self.im.files[f].0), &self.im.files[f].1);
            }
        }
        for (f, b) in m {
            put(&self.dir.join(&self.im.files[f].0), &b);
            self.dirty.push(f);
        }
    }
    pub fn entry(&self) -> PathBuf {
        self.im.entry_path(&self.dir)
    }
}

// ---------------------------------------------------------------- observation
pub type Obs = BTreeMap<String, Result<String, String>>;

fn put_obs(o: &mut Obs, k: String, f: impl FnOnce() -> Result<String, String>) {
    let v = guarded(f);
    o.insert(k, v);
}
fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}
fn hash(b: &[u8]) -> String {
    let h = blake3::hash(b);
    format!("{}:{}", b.len(), &h.to_hex()[..16])
}

fn info(i: &reader::PackInfo) -> String {
    format!(
        "{} size={} id={} kind={:?} group={} location={:?}",
        i.uuid,
        i.pack_size.into_u64(),
        i.pack_id.into_u16(),
        i.pack_kind,
        i.pack_group,
        i.pack_location.as_str()
    )
}

/// Everything the reader says about structure ("s:"), raw contents ("raw:"), checks ("check:").
/// The keys accessed are a function of the image only.
pub fn observe(im: &Image, dir: &Path) -> Obs {
    let mut o = Obs::new();
    let entry = im.entry_path(dir);
    // ---- files as container packs and packs
    for (n, b) in &im.files {
        let p = dir.join(n);
        let _ = b;
        put_obs(&mut o, format!("check:file:{n}"), || {
            Ok(jbk::tools::open_pack(&p).map_err(e)?.check().map_err(e)?.to_string())
        });
        put_obs(&mut o, format!("s:packs:{n}"), || {
            let c = jbk::tools::open_pack(&p).map_err(e)?;
            let mut v: Vec<String> =
                c.iter().map(|(u, _)| format!("{u}")).collect();
            v.sort();
            Ok(format!("{} {}", c.pack_count().into_u16(), v.join(",")))
        });
    }
    // ---- manifest
    match guarded(|| {
        let c = jbk::tools::open_pack(&entry).map_err(e)?;
        let r = c.get_manifest_pack_reader().map_err(e)?.ok_or("no manifest")?;
        reader::ManifestPack::new(r).map_err(e)
    }) {
        Err(x) => {
            o.insert("s:manifest".into(), Err(x));
        }
        Ok(m) => {
            put_obs(&mut o, "s:manifest".into(), || {
                let mut v: Vec<String> = m.get_pack_infos().iter().map(info).collect();
                v.insert(0, info(m.get_directory_pack_info()));
                Ok(format!(
                    "{} max={} uuid={} kind={:?} vendor={:?} version={:?} size={} free={:?} {}",
                    m.pack_count().into_u16(),
                    m.max_id(),
                    m.uuid(),
                    m.kind(),
                    m.app_vendor_id(),
                    m.version(),
                    m.size().into_u64(),
                    m.get_free_data().as_ref() as &[u8],
                    v.join(";")
                ))
            });
            put_obs(&mut o, "check:manifest".into(), || Ok(m.check().map_err(e)?.to_string()));
            for id in 0..im.packs.len() as u16 + 2 {
                put_obs(&mut o, format!("s:mfree{id}"), || {
                    Ok(format!("{:?}", m.get_pack_free_data(id.into()).map_err(e)?))
                });
                put_obs(&mut o, format!("s:mci{id}"), || {
                    let i = if id == 0 {
                        Some(m.get_directory_pack_info())
                    } else {
                        m.get_content_pack_info(id.into())
                    };
                    match i {
                        None => Ok("none".into()),
                        Some(i) => {
                            let ci = m.get_pack_check_info(i.uuid).map_err(e)?;
                            Ok(format!("{:?}", ci.is_some()))
                        }
                    }
                });
            }
        }
    }
    // ---- container
    let c = match guarded(|| reader::Container::new(&entry).map_err(e)) {
        Err(x) => {
            o.insert("s:open".into(), Err(x));
            return o;
        }
        Ok(c) => c,
    };
    put_obs(&mut o, "s:open".into(), || {
        Ok(format!("{} {}", c.uuid(), c.pack_count().into_u16()))
    });
    put_obs(&mut o, "check:container".into(), || Ok(c.check().map_err(e)?.to_string()));
    put_obs(&mut o, "s:dir".into(), || {
        let d = c.get_directory_pack();
        Ok(format!("{} {:?} {}", d.uuid(), d.get_free_data(), d.size().into_u64()))
    });
    observe_dir(&mut o, &im.spec.dir, &c);
    observe_contents(&mut o, im, &c);
    o
}

fn observe_dir(o: &mut Obs, spec: &DirSpec, c: &reader::Container) {
    put_obs(o, "s:index:absent".into(), || {
        Ok(c.get_index_for_name("no such index").map_err(e)?.is_some().to_string())
    });
    put_obs(o, "s:index:past".into(), || {
        match c.get_directory_pack().get_index((spec.indexes.len() as u32).into()) {
            Ok(_) => Ok("an index past the last".into()),
            Err(x) => Err(x.to_string()),
        }
    });
    for (n, i) in spec.indexes.iter().enumerate() {
        for by_name in [true, false] {
            let k = format!("s:index{n}{}", if by_name { "n" } else { "#" });
            let idx = guarded(|| {
                if by_name {
                    c.get_index_for_name(&i.name).map_err(e)
                } else {
                    c.get_directory_pack().get_index((n as u32).into()).map(Some).map_err(e)
                }
            });
            let idx = match idx {
                Err(x) => {
                    o.insert(k, Err(x));
                    continue;
                }
                Ok(None) => {
                    o.insert(k, Ok("absent".into()));
                    continue;
                }
                Ok(Some(i)) => i,
            };
            put_obs(o, k.clone(), || {
                Ok(format!("{} {:?} {:?}", idx.count().into_u32(), idx.get_store_id(), idx.is_empty()))
            });
            if !by_name && n != 0 {
                continue;
            }
            let b = match guarded(|| builder_for(c, &idx)) {
                Err(x) => {
                    o.insert(format!("{k}:builder"), Err(x));
                    continue;
                }
                Ok(b) => b,
            };
            let st = &spec.stores[i.store];
            for ent in 0..i.count + 1 {
                match guarded(|| idx.get_entry(&b, ent.into()).map_err(e)) {
                    Err(x) => {
                        o.insert(format!("{k}:e{ent}"), Err(x));
                    }
                    Ok(None) => {
                        o.insert(format!("{k}:e{ent}"), Ok("absent".into()));
                    }
                    Ok(Some(en)) => {
                        let variant = guarded(|| {
                            en.get_variant_id().map(|v| v.map(|v| v.into_u8() as usize)).map_err(e)
                        });
                        o.insert(format!("{k}:e{ent}"), variant.clone().map(|v| format!("{v:?}")));
                        let mut props: Vec<&PropSpec> = st.common.iter().collect();
                        for v in &st.variants {
                            props.extend(v.1.iter());
                        }
                        for p in props {
                            put_obs(o, format!("{k}:e{ent}:{}", p.name), || {
                                match en.get_value(p.name).map_err(e)? {
                                    None => Ok("absent".into()),
                                    Some(v) => {
                                        // size of an array as well as its bytes
                                        let sz = match &v {
                                            reader::RawValue::Array(a) => format!("{:?}", a.size()),
                                            _ => String::new(),
                                        };
                                        Ok(match val_of(&p.kind, &v) {
                                            Ok(x) => format!("{x:?} {sz}"),
                                            Err(x) => {
                                                if matches!(v, reader::RawValue::Array(_)) {
                                                    return Err(x);
                                                }
                                                format!("{v:?}")
                                            }
                                        })
                                    }
                                }
                            });
                        }
                    }
                }
            }
        }
    }
}

pub fn observe_contents(o: &mut Obs, im: &Image, c: &reader::Container) {
    for (id, n) in &im.packs {
        let k = format!("s:pack{id}");
        match guarded(|| {
            match c.get_pack((*id).into()).map_err(e)? {
                None => Ok(None),
                Some(reader::MayMissPack::MISSING(i)) => Ok(Some(Err(info(&i)))),
                Some(reader::MayMissPack::FOUND(p)) => Ok(Some(Ok(p))),
            }
        }) {
            Err(x) => {
                o.insert(k, Err(x));
                continue;
            }
            Ok(None) => {
                o.insert(k, Ok("absent".into()));
                continue;
            }
            Ok(Some(Err(i))) => {
                o.insert(k, Ok(format!("missing {i}")));
                continue;
            }
            Ok(Some(Ok(p))) => {
                put_obs(o, k, || {
                    Ok(format!(
                        "{} count={} free={:?} size={}",
                        p.uuid(),
                        p.get_content_count().into_u32(),
                        p.get_free_data(),
                        p.size().into_u64()
                    ))
                });
                put_obs(o, format!("check:pack{id}"), || Ok(p.check().map_err(e)?.to_string()));
                put_obs(o, format!("s:pack{id}:past"), || {
                    Ok(p.get_content((*n).into()).map_err(e)?.is_some().to_string())
                });
            }
        }
    }
    for (a, _) in &im.contents {
        let k = format!("{}.{}", a.0, a.1);
        let addr = jbk::ContentAddress::new(a.0.into(), a.1.into());
        let r = match guarded(|| {
            Ok(match c.get_bytes(addr).map_err(e)? {
                None => Err("no pack"),
                Some(reader::MayMissPack::MISSING(_)) => Err("missing"),
                Some(reader::MayMissPack::FOUND(None)) => Err("absent"),
                Some(reader::MayMissPack::FOUND(Some(r))) => Ok(r),
            })
        }) {
            Err(x) => {
                o.insert(format!("s:content:{k}"), Err(x));
                continue;
            }
            Ok(Err(x)) => {
                o.insert(format!("s:content:{k}"), Ok(x.into()));
                continue;
            }
            Ok(Ok(r)) => r,
        };
        o.insert(format!("s:content:{k}"), Ok(r.size().into_u64().to_string()));
        put_obs(o, format!("raw:{k}:stream"), || {
            let mut v = vec![];
            r.stream().read_to_end(&mut v).map_err(e)?;
            Ok(hash(&v))
        });
        put_obs(o, format!("raw:{k}:slice"), || {
            let v = r
                .get_slice(jbk::Offset::zero(), r.size().into_u64() as usize)
                .map_err(e)?;
            Ok(hash(&v))
        });
    }
}

/// Baseline of a pristine image: everything must be Ok and correct.
pub fn baseline(im: &Image, dir: &Path) -> Result<Obs, String> {
    im.write(dir);
    let o = observe(im, dir);
    for (k, v) in &o {
        match v {
            Ok(v) => {
                if k.starts_with("check:") && v != "true" {
                    return Err(format!("pristine container: {k} = {v}"));
                }
            }
            Err(x) if k == "s:index:past" => {
                let _ = x;
            }
            Err(x) => return Err(format!("pristine container: {k}: error {x}")),
        }
    }
    for (a, b) in &im.contents {
        let k = format!("raw:{}.{}:stream", a.0, a.1);
        if o.get(&k) != Some(&Ok(hash(b))) {
            return Err(format!("pristine container: {k} = {:?}", o.get(&k)));
        }
    }
    Ok(o)
}

// ---------------------------------------------------------------- the images used by several drivers
pub fn extra_contents(r: &mut Rng) -> Vec<Vec<ContentSpec>> {
    vec![
        vec![
            ContentSpec::new(compressible(r, 200), Hint::Yes),
            ContentSpec::new(r.bytes(33), Hint::No),
        ],
        vec![ContentSpec::new(b"lonely".to_vec(), Hint::Detect)],
    ]
}
pub fn images(seed: u64, extra: bool) -> Result<Vec<Image>, String> {
    let mut v = vec![];
    for comp in Comp::fast() {
        for mode in [Mode::One, Mode::Two, Mode::Sep] {
            let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(comp.byte() as u64));
            let spec = small_container_for(&mut r, comp);
            let ex = if extra { extra_contents(&mut r) } else { vec![] };
            let tag = format!("{}-{mode:?}{}", comp.tag(), if extra { "-x" } else { "" });
            v.push(Image::create(&spec, mode, &ex, &tag)?);
        }
    }
    Ok(v)
}
fn small_container_for(r: &mut Rng, comp: Comp) -> ContainerSpec {
    crate::gen::small_container(r, comp)
}
/// Regions big enough to be mapped, several clusters of several chunks.
pub fn medium_image(seed: u64, comp: Comp, mode: Mode) -> Result<Image, String> {
    let mut r = Rng::new(seed.wrapping_mul(77).wrapping_add(comp.byte() as u64));
    let mut spec = crate::gen::small_container(&mut r, comp);
    for n in [9_000usize, 5_000, 20_000] {
        spec.contents.push(ContentSpec::new(compressible(&mut r, n), Hint::Yes));
        spec.contents.push(ContentSpec::new(r.bytes(n), Hint::No));
    }
    // a store of more than 4 KiB
    let p = |n: &str, k: Kind| PropSpec { name: intern(n), kind: k };
    spec.dir.stores.push(StoreSpec {
        common: vec![p("num", Kind::U), p("txt", Kind::A { fixed: 3, vs: 0 }), p("sg", Kind::S)],
        variants: vec![],
        sort: Some(vec![intern("num")]),
        entries: (0..400u64)
            .map(|i| EntrySpec {
                variant: None,
                vals: vec![
                    (intern("num"), Val::U(i * 7919 % 65_537)),
                    (intern("txt"), Val::A(format!("text of {}", i % 97).into_bytes())),
                    (intern("sg"), Val::S(-(i as i64) * 3)),
                ],
            })
            .collect(),
    });
    spec.dir.indexes.push(IndexSpec {
        name: "big".into(),
        store: 2,
        offset: 0,
        count: 400,
        prop: 0,
        free: [9; 4],
    });
    Image::create(&spec, mode, &[], &format!("medium-{}-{mode:?}", comp.tag()))
}
