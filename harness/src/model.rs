//! Logical description of what is written, writing it through the public creation API, and reading
//! it back through the public reading API.
use crate::util::*;
use jubako as jbk;
use jubako::creator::{self, schema};
use jubako::reader::{self, EntryTrait as _, Range as _};
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read, Seek};
use std::path::Path;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub type Name = &'static str;

pub fn intern(s: &str) -> Name {
    static TABLE: Mutex<Option<std::collections::HashSet<&'static str>>> = Mutex::new(None);
    let mut t = TABLE.lock().unwrap_or_else(|e| e.into_inner());
    let t = t.get_or_insert_with(Default::default);
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(l);
    l
}

// ------------------------------------------------------------------ directory model
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    U,
    S,
    A { fixed: usize, vs: usize },
    C,
}
#[derive(Clone, Debug)]
pub struct PropSpec {
    pub name: Name,
    pub kind: Kind,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    U(u64),
    S(i64),
    A(Vec<u8>),
    C(u16, u32),
    /// position of entry (store, entry number) at the end, as an unsigned property
    Ref(usize, usize),
    /// same, as a signed property
    SRef(usize, usize),
}
#[derive(Clone, Debug)]
pub struct EntrySpec {
    pub variant: Option<usize>,
    pub vals: Vec<(Name, Val)>,
}
#[derive(Clone, Debug)]
pub struct StoreSpec {
    pub common: Vec<PropSpec>,
    pub variants: Vec<(Name, Vec<PropSpec>)>,
    pub sort: Option<Vec<Name>>,
    pub entries: Vec<EntrySpec>,
}
#[derive(Clone, Debug)]
pub struct IndexSpec {
    pub name: String,
    pub store: usize,
    pub offset: u32,
    pub count: u32,
    pub prop: u8,
    pub free: [u8; 4],
}
#[derive(Clone, Debug, Default)]
pub struct DirSpec {
    /// true = indexed
    pub value_stores: Vec<bool>,
    pub stores: Vec<StoreSpec>,
    pub indexes: Vec<IndexSpec>,
    pub free: [u8; 24],
}

impl DirSpec {
    pub fn with_full_indexes(mut self) -> Self {
        for (i, s) in self.stores.iter().enumerate() {
            self.indexes.push(IndexSpec {
                name: format!("full{i}"),
                store: i,
                offset: 0,
                count: s.entries.len() as u32,
                prop: 0,
                free: [0; 4],
            });
        }
        self
    }
}

pub type Bounds = Vec<Vec<jbk::Bound<jbk::EntryIdx>>>;

fn to_property(p: &PropSpec, vs: &[creator::StoreHandle]) -> schema::Property<Name> {
    match &p.kind {
        Kind::U => schema::Property::new_uint(p.name),
        Kind::S => schema::Property::new_sint(p.name),
        Kind::C => schema::Property::new_content_address(p.name),
        Kind::A { fixed, vs: v } => schema::Property::new_array(*fixed, vs[*v].clone(), p.name),
    }
}

fn to_value(v: &Val, bounds: &Bounds) -> jbk::Value {
    match v {
        Val::U(v) => jbk::Value::Unsigned(*v),
        Val::S(v) => jbk::Value::Signed(*v),
        Val::A(b) => jbk::Value::Array(b.as_slice().into()),
        Val::C(p, c) => {
            jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into()))
        }
        Val::Ref(s, e) => jbk::Value::UnsignedWord(bounds[*s][*e].clone().into()),
        Val::SRef(s, e) => {
            let b = bounds[*s][*e].clone();
            let f: Box<dyn Fn() -> i64 + Sync + Send> =
                Box::new(move || b.get().into_u64() as i64);
            jbk::Value::SignedWord(f.into())
        }
    }
}

/// Add everything in `spec` to the directory pack creator. Returns the handles of the entries.
pub fn fill_directory(spec: &DirSpec, dp: &mut creator::DirectoryPackCreator) -> Bounds {
    let vs: Vec<creator::StoreHandle> = spec
        .value_stores
        .iter()
        .map(|i| {
            if *i {
                creator::ValueStore::new_indexed()
            } else {
                creator::ValueStore::new_plain(None)
            }
        })
        .collect();
    for v in &vs {
        dp.add_value_store(v.clone());
    }
    let vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>> = spec
        .stores
        .iter()
        .map(|s| s.entries.iter().map(|_| Default::default()).collect())
        .collect();
    let pre: Bounds = vows
        .iter()
        .map(|s| s.iter().map(|v| v.bind()).collect())
        .collect();
    let mut handles: Bounds = vec![];
    let mut idxs = vec![];
    for (st, vows) in spec.stores.iter().zip(vows) {
        let sch = schema::Schema::<Name, Name>::new(
            schema::CommonProperties::new(st.common.iter().map(|p| to_property(p, &vs)).collect()),
            st.variants
                .iter()
                .map(|(n, ps)| {
                    (
                        *n,
                        schema::VariantProperties::new(
                            ps.iter().map(|p| to_property(p, &vs)).collect(),
                        ),
                    )
                })
                .collect(),
            st.sort.clone(),
        );
        let mut store: Box<creator::EntryStore<Name, Name, creator::BasicEntry<Name, Name>>> =
            Box::new(creator::EntryStore::new(sch, None));
        let mut hs = vec![];
        for (e, vow) in st.entries.iter().zip(vows) {
            let values: HashMap<Name, jbk::Value> =
                e.vals.iter().map(|(n, v)| (*n, to_value(v, &pre))).collect();
            let be = creator::BasicEntry::new_from_schema_idx(
                &store.schema,
                vow,
                e.variant.map(|i| st.variants[i].0),
                values,
            );
            hs.push(store.add_entry(be));
        }
        handles.push(hs);
        idxs.push(dp.add_entry_store(store));
    }
    for i in &spec.indexes {
        dp.create_index(
            &i.name,
            i.free.into(),
            i.prop.into(),
            idxs[i.store],
            i.count.into(),
            jbk::EntryIdx::from(i.offset).into(),
        );
    }
    handles
}

pub struct DirFinalizer {
    pub spec: DirSpec,
    pub handles: Arc<Mutex<Bounds>>,
}
impl creator::EntryStoreTrait for DirFinalizer {
    fn finalize(self: Box<Self>, dp: &mut creator::DirectoryPackCreator) {
        let h = fill_directory(&self.spec, dp);
        *self.handles.lock().unwrap() = h;
    }
}

// ------------------------------------------------------------------ content model
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Yes,
    No,
    Detect,
}
impl Hint {
    pub fn get(self) -> creator::CompHint {
        match self {
            Hint::Yes => creator::CompHint::Yes,
            Hint::No => creator::CompHint::No,
            Hint::Detect => creator::CompHint::Detect,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src {
    Mem,
    File,
    FileRange,
}
#[derive(Clone, Debug)]
pub struct ContentSpec {
    pub bytes: Arc<Vec<u8>>,
    pub hint: Hint,
    pub src: Src,
}
impl ContentSpec {
    pub fn new(bytes: Vec<u8>, hint: Hint) -> Self {
        ContentSpec {
            bytes: Arc::new(bytes),
            hint,
            src: Src::Mem,
        }
    }
    pub fn reader(&self, dir: &Path, n: usize) -> std::io::Result<Box<dyn creator::InputReader>> {
        Ok(match self.src {
            Src::Mem => Box::new(Cursor::new(self.bytes.as_ref().clone())),
            Src::File => {
                let p = dir.join(format!("in-{n}"));
                std::fs::write(&p, self.bytes.as_slice())?;
                Box::new(creator_input_file(&p)?)
            }
            Src::FileRange => {
                let p = dir.join(format!("inr-{n}"));
                let mut d = vec![0xA5u8; [17, 18, 1, 0, 16, 4096, 20][n % 7]];
                let off = d.len() as u64;
                d.extend_from_slice(&self.bytes);
                if n % 3 != 2 {
                    d.extend_from_slice(b"trailing bytes that are not part of the content");
                }
                std::fs::write(&p, d)?;
                Box::new(input_range(&p, off, self.bytes.len() as u64)?)
            }
        })
    }
}
fn creator_input_file(p: &Path) -> std::io::Result<InputFile> {
    InputFile::open(p)
}
fn input_range(p: &Path, off: u64, len: u64) -> std::io::Result<InputFile> {
    InputFile::new_range(std::fs::File::open(p)?, off, Some(len))
}
pub use jbk_input::InputFile;
mod jbk_input {
    pub use jubako::creator::InputFile;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comp {
    None,
    Lz4(u32),
    Lzma(u32),
    Zstd(i32),
}
impl Comp {
    pub fn get(self) -> creator::Compression {
        match self {
            Comp::None => creator::Compression::None,
            Comp::Lz4(l) => creator::Compression::Lz4(deranged::RangedU32::new(l).unwrap()),
            Comp::Lzma(l) => creator::Compression::Lzma(deranged::RangedU32::new(l).unwrap()),
            Comp::Zstd(l) => creator::Compression::Zstd(deranged::RangedI32::new(l).unwrap()),
        }
    }
    pub fn byte(self) -> u8 {
        match self {
            Comp::None => 0,
            Comp::Lz4(_) => 1,
            Comp::Lzma(_) => 2,
            Comp::Zstd(_) => 3,
        }
    }
    pub fn fast() -> [Comp; 4] {
        [Comp::None, Comp::Lz4(1), Comp::Lzma(0), Comp::Zstd(1)]
    }
    pub fn tag(self) -> &'static str {
        match self {
            Comp::None => "none",
            Comp::Lz4(_) => "lz4",
            Comp::Lzma(_) => "lzma",
            Comp::Zstd(_) => "zstd",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    One,
    Two,
    Sep,
}
impl Mode {
    pub fn get(self) -> creator::ConcatMode {
        match self {
            Mode::One => creator::ConcatMode::OneFile,
            Mode::Two => creator::ConcatMode::TwoFiles,
            Mode::Sep => creator::ConcatMode::NoConcat,
        }
    }
}

#[derive(Clone, Debug)]
pub struct ContainerSpec {
    pub contents: Vec<ContentSpec>,
    pub comp: Comp,
    pub dir: DirSpec,
}

pub struct Created {
    pub addresses: Vec<(u16, u32)>,
    pub handles: Bounds,
}

/// Create with the high level creator.
pub fn create_basic(
    spec: &ContainerSpec,
    mode: Mode,
    out: &jbk::Utf8Path,
    scratch: &Path,
    progress: Arc<dyn creator::Progress>,
) -> Result<Created, String> {
    create_basic_extra(spec, mode, out, scratch, progress, vec![]).map(|(c, _)| c)
}

/// Same, with extra content packs: (file, pack id, contents).
pub fn create_basic_extra(
    spec: &ContainerSpec,
    mode: Mode,
    out: &jbk::Utf8Path,
    scratch: &Path,
    progress: Arc<dyn creator::Progress>,
    extra: Vec<(jbk::Utf8PathBuf, u16, Vec<ContentSpec>)>,
) -> Result<(Created, Vec<Vec<(u16, u32)>>), String> {
    let mut bc = creator::BasicCreator::new(
        out,
        mode.get(),
        jbk::VendorId::from([1, 2, 3, 4]),
        spec.comp.get(),
        progress,
    )
    .map_err(s("BasicCreator::new"))?;
    let mut addresses = vec![];
    for (i, c) in spec.contents.iter().enumerate() {
        let a = bc
            .add_content(c.reader(scratch, i).map_err(s("input"))?, c.hint.get())
            .map_err(s("add_content"))?;
        addresses.push((a.pack_id.into_u16(), a.content_id.into_u32()));
    }
    let mut extras = vec![];
    let mut extra_addr = vec![];
    for (n, (path, id, cs)) in extra.into_iter().enumerate() {
        let f = creator::AtomicOutFile::new(path).map_err(s("extra file"))?;
        let f: Box<dyn creator::PackRecipient> = f;
        let mut cp = creator::ContentPackCreator::<dyn creator::PackRecipient>::new_from_output(
            f,
            jbk::PackId::from(id),
            jbk::VendorId::from([1, 2, 3, 4]),
            Default::default(),
            spec.comp.get(),
        )
        .map_err(s("extra pack"))?;
        let mut v = vec![];
        for (i, c) in cs.iter().enumerate() {
            let a = cp
                .add_content(
                    c.reader(scratch, 10000 * (n + 1) + i).map_err(s("input"))?,
                    c.hint.get(),
                )
                .map_err(s("add_content"))?;
            v.push((a.pack_id.into_u16(), a.content_id.into_u32()));
        }
        extra_addr.push(v);
        extras.push(cp);
    }
    let handles = Arc::new(Mutex::new(vec![]));
    let fin = DirFinalizer {
        spec: spec.dir.clone(),
        handles: handles.clone(),
    };
    bc.finalize(Box::new(fin), extras).map_err(s("finalize"))?;
    let handles = std::mem::take(&mut *handles.lock().unwrap());
    Ok((Created { addresses, handles }, extra_addr))
}

/// Create only a content pack at `out` (a bare pack file).
pub fn create_content_pack(
    contents: &[ContentSpec],
    comp: Comp,
    pack_id: u16,
    out: &jbk::Utf8Path,
    scratch: &Path,
    progress: Arc<dyn creator::Progress>,
) -> Result<(creator::PackData, Vec<(u16, u32)>), String> {
    let mut cp = creator::ContentPackCreator::new_with_progress(
        out,
        jbk::PackId::from(pack_id),
        jbk::VendorId::from([1, 2, 3, 4]),
        Default::default(),
        comp.get(),
        progress,
    )
    .map_err(s("ContentPackCreator::new"))?;
    let mut v = vec![];
    for (i, c) in contents.iter().enumerate() {
        let a = cp
            .add_content(c.reader(scratch, i).map_err(s("input"))?, c.hint.get())
            .map_err(s("add_content"))?;
        v.push((a.pack_id.into_u16(), a.content_id.into_u32()));
    }
    let (file, data) = cp.finalize().map_err(s("finalize"))?;
    drop(file);
    Ok((data, v))
}

/// Create a directory pack in its own file.
pub fn create_directory_pack(
    spec: &DirSpec,
    out: &Path,
) -> Result<(creator::PackData, Bounds), String> {
    let mut dp = creator::DirectoryPackCreator::new(
        jbk::PackId::from(0),
        jbk::VendorId::from([1, 2, 3, 4]),
        spec.free.into(),
    );
    let handles = fill_directory(spec, &mut dp);
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(out)
        .map_err(s("open"))?;
    let data = dp
        .finalize()
        .map_err(s("directory finalize"))?
        .write(&mut f)
        .map_err(s("directory write"))?;
    Ok((data, handles))
}

pub fn create_manifest(
    packs: Vec<(creator::PackData, String)>,
    out: &Path,
    free: [u8; 24],
) -> Result<uuid::Uuid, String> {
    let mut m = creator::ManifestPackCreator::new(jbk::VendorId::from([1, 2, 3, 4]), free.into());
    for (d, loc) in packs {
        m.add_pack(d, loc);
    }
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(out)
        .map_err(s("open"))?;
    m.finalize(&mut f).map_err(s("manifest finalize"))
}

pub fn reader_of(path: &Path) -> Result<jbk::Reader, String> {
    Ok(jbk::FileSource::open(path).map_err(s("open"))?.into())
}

/// Locator with explicit readers only.
pub struct MapLocator(pub HashMap<uuid::Uuid, jbk::Reader>);
impl reader::PackLocatorTrait for MapLocator {
    fn locate(&self, uuid: uuid::Uuid, _h: &str) -> jbk::Result<Option<jbk::Reader>> {
        Ok(self.0.get(&uuid).cloned())
    }
}

/// A directory pack alone, opened as a container with a manifest beside it.
pub fn create_dir_only(spec: &DirSpec, dir: &Path) -> Result<(std::path::PathBuf, Bounds), String> {
    let d = dir.join("d.jbkd");
    let (data, handles) = create_directory_pack(spec, &d)?;
    let m = dir.join("m.jbk");
    create_manifest(vec![(data, "d.jbkd".into())], &m, [0; 24])?;
    Ok((m, handles))
}

// ------------------------------------------------------------------ reading back
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DEntry {
    pub variant: Option<usize>,
    pub vals: BTreeMap<String, Val>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DIndex {
    pub name: String,
    pub count: u32,
    pub entries: Vec<DEntry>,
}

pub fn val_of(kind: &Kind, v: &reader::RawValue) -> Result<Val, String> {
    use reader::RawValue as R;
    Ok(match (kind, v) {
        (Kind::U, R::U8(_) | R::U16(_) | R::U32(_) | R::U64(_)) => Val::U(v.as_unsigned()),
        (Kind::S, R::I8(_) | R::I16(_) | R::I32(_) | R::I64(_)) => Val::S(v.as_signed()),
        (Kind::A { .. }, R::Array(_)) => {
            let b = v.as_vec().map_err(s("as_vec"))?;
            // get() must agree
            match v.get().map_err(s("get"))? {
                jbk::Value::Array(g) if g.as_ref() == b.as_ref() as &[u8] => {}
                x => return Err(format!("RawValue::get {x:?} differs from as_vec")),
            }
            Val::A(b.to_vec())
        }
        (Kind::C, R::Content(c)) => Val::C(c.pack_id.into_u16(), c.content_id.into_u32()),
        _ => return Err(format!("value of another kind: {v:?}")),
    })
}

pub fn read_entry(
    st: &StoreSpec,
    e: &reader_entry::LazyEntryAlias,
) -> Result<DEntry, String> {
    let variant = e
        .get_variant_id()
        .map_err(s("variant id"))?
        .map(|v| v.into_u8() as usize);
    let mut vals = BTreeMap::new();
    let mut props: Vec<&PropSpec> = st.common.iter().collect();
    if let Some(v) = variant {
        let Some(var) = st.variants.get(v) else {
            return Err(format!("variant id {v} is not one that was declared"));
        };
        props.extend(var.1.iter());
    }
    for p in props {
        match e.get_value(p.name).map_err(s("value"))? {
            None => return Err(format!("property {} is absent", p.name)),
            Some(v) => {
                vals.insert(p.name.to_string(), val_of(&p.kind, &v)?);
            }
        }
    }
    Ok(DEntry { variant, vals })
}
pub mod reader_entry {
    pub type LazyEntryAlias =
        <jubako::reader::builder::AnyBuilder as jubako::reader::builder::BuilderTrait>::Entry;
}

/// Read every index of the spec.
pub fn read_indexes(spec: &DirSpec, c: &reader::Container) -> Result<Vec<DIndex>, String> {
    let mut out = vec![];
    for (n, i) in spec.indexes.iter().enumerate() {
        let idx = c
            .get_index_for_name(&i.name)
            .map_err(s("index by name"))?
            .ok_or_else(|| format!("index {:?} not found", i.name))?;
        let by_num = c
            .get_directory_pack()
            .get_index((n as u32).into())
            .map_err(s("index by number"))?;
        // with duplicated names get_index_for_name returns the first: compare only when unique
        let unique = spec.indexes.iter().filter(|o| o.name == i.name).count() == 1;
        let idx = if unique { idx } else { by_num };
        out.push(read_index(spec, i, c, &idx)?);
    }
    Ok(out)
}

pub fn builder_for(
    c: &reader::Container,
    idx: &reader::Index,
) -> Result<reader::builder::AnyBuilder, String> {
    reader::builder::AnyBuilder::new(
        idx.get_store(c.get_entry_storage()).map_err(s("get_store"))?,
        c.get_value_storage().as_ref(),
    )
    .map_err(s("AnyBuilder"))
}

fn read_index(
    spec: &DirSpec,
    i: &IndexSpec,
    c: &reader::Container,
    idx: &reader::Index,
) -> Result<DIndex, String> {
    let st = &spec.stores[i.store];
    let builder = builder_for(c, idx)?;
    let count = idx.count().into_u32();
    let mut entries = vec![];
    for k in 0..count {
        match idx.get_entry(&builder, k.into()).map_err(s("get_entry"))? {
            None => return Err(format!("index {:?}: entry {k} of {count} absent", i.name)),
            Some(e) => entries.push(read_entry(st, &e).map_err(|m| format!("entry {k}: {m}"))?),
        }
    }
    for past in [count, count + 1, count.saturating_add(1000), u32::MAX] {
        match idx.get_entry(&builder, past.into()) {
            Ok(None) => {}
            Ok(Some(_)) => {
                return Err(format!(
                    "index {:?} of {count} entries answers an entry at {past}",
                    i.name
                ))
            }
            Err(e) => return Err(format!("index {:?} entry {past}: {e}", i.name)),
        }
    }
    Ok(DIndex {
        name: i.name.clone(),
        count,
        entries,
    })
}

/// What entry `e` must read as, given final positions.
pub fn expected_entry(st: &StoreSpec, e: &EntrySpec, pos: &dyn Fn(usize, usize) -> u64) -> DEntry {
    let _ = st;
    DEntry {
        variant: e.variant,
        vals: e
            .vals
            .iter()
            .map(|(n, v)| {
                (
                    n.to_string(),
                    match v {
                        Val::Ref(s, k) => Val::U(pos(*s, *k)),
                        Val::SRef(s, k) => Val::S(pos(*s, *k) as i64),
                        v => v.clone(),
                    },
                )
            })
            .collect(),
    }
}

pub fn cmp_vals(a: &Val, b: &Val) -> std::cmp::Ordering {
    match (a, b) {
        (Val::U(a), Val::U(b)) => a.cmp(b),
        (Val::S(a), Val::S(b)) => a.cmp(b),
        (Val::A(a), Val::A(b)) => a.cmp(b),
        _ => panic!("keys of different kinds"),
    }
}

/// Compare what was read with what was written. `full{i}` indexes give the store order.
pub fn verify_directory(
    spec: &DirSpec,
    handles: &Bounds,
    read: &[DIndex],
) -> Result<(), String> {
    if read.len() != spec.indexes.len() {
        return Err(format!(
            "{} indexes read, {} written",
            read.len(),
            spec.indexes.len()
        ));
    }
    // positions claimed by the handles
    let pos: Vec<Vec<u64>> = handles
        .iter()
        .map(|h| h.iter().map(|b| b.get().into_u64()).collect())
        .collect();
    let posf = |s: usize, e: usize| pos[s][e];
    for (si, st) in spec.stores.iter().enumerate() {
        let n = st.entries.len();
        // permutation
        let mut seen = vec![usize::MAX; n];
        for (e, p) in pos[si].iter().enumerate() {
            let p = *p as usize;
            if p >= n || seen[p] != usize::MAX {
                return Err(format!(
                    "store {si}: handle of entry {e} says position {p} ({n} entries)"
                ));
            }
            seen[p] = e;
            if st.sort.is_none() && p != e {
                return Err(format!(
                    "store {si} is not sorted but entry {e} is at position {p}"
                ));
            }
        }
        // expected sequence
        let exp: Vec<DEntry> = seen
            .iter()
            .map(|e| expected_entry(st, &st.entries[*e], &posf))
            .collect();
        if let Some(keys) = &st.sort {
            for w in exp.windows(2) {
                let mut o = std::cmp::Ordering::Equal;
                for k in keys {
                    o = o.then_with(|| cmp_vals(&w[0].vals[*k], &w[1].vals[*k]));
                }
                if o.is_gt() {
                    return Err(format!(
                        "store {si}: entries out of order on {keys:?}: {:?} before {:?}",
                        w[0], w[1]
                    ));
                }
            }
        }
        for (ii, (isp, ird)) in spec.indexes.iter().zip(read).enumerate() {
            if isp.store != si {
                continue;
            }
            if ird.count != isp.count {
                return Err(format!(
                    "index {ii}: count {} instead of {}",
                    ird.count, isp.count
                ));
            }
            let a = isp.offset as usize;
            let want = &exp[a..a + isp.count as usize];
            for (k, (w, g)) in want.iter().zip(&ird.entries).enumerate() {
                if w != g {
                    return Err(format!(
                        "index {ii} entry {k}: read {g:?}, written {w:?}"
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn read_content(c: &reader::Container, a: (u16, u32)) -> Result<Option<Option<Vec<u8>>>, String> {
    let a = jbk::ContentAddress::new(a.0.into(), a.1.into());
    match c.get_bytes(a).map_err(s("get_bytes"))? {
        None => Ok(None),
        Some(reader::MayMissPack::MISSING(_)) => Err("pack missing".into()),
        Some(reader::MayMissPack::FOUND(None)) => Ok(Some(None)),
        Some(reader::MayMissPack::FOUND(Some(r))) => Ok(Some(Some(region_bytes(&r)?))),
    }
}

pub fn region_bytes(r: &reader::ByteRegion) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    r.stream().read_to_end(&mut v).map_err(s("stream"))?;
    if v.len() as u64 != r.size().into_u64() {
        return Err(format!("size() {} but {} bytes streamed", r.size().into_u64(), v.len()));
    }
    Ok(v)
}

pub fn check_contents(
    c: &reader::Container,
    contents: &[ContentSpec],
    addresses: &[(u16, u32)],
) -> Result<(), String> {
    for (i, (sp, a)) in contents.iter().zip(addresses).enumerate() {
        match read_content(c, *a).map_err(|e| format!("content {i} at {a:?}: {e}"))? {
            Some(Some(b)) if b == **sp.bytes => {}
            Some(Some(b)) => {
                return Err(format!(
                    "content {i} at {a:?} reads {} instead of {} ({})",
                    short(&b),
                    short(&sp.bytes),
                    first_diff(&b, &sp.bytes)
                ))
            }
            x => return Err(format!("content {i} at {a:?}: {:?}", x.is_some())),
        }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn rc_unit() -> Rc<dyn creator::CacheProgress> {
    Rc::new(())
}
#[allow(dead_code)]
pub fn rewind(f: &mut std::fs::File) {
    f.rewind().unwrap();
}
