//! Independent decoder of the on-disk format. Shares no code with the library: own CRC, own parsing,
//! decompression and blake3 straight from the third party crates.
use crate::model::{DEntry, Val};
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

pub fn crc32c(data: &[u8]) -> u32 {
    // poly 0x1EDC6F41, init FFFFFFFF, no reflection, no final xor
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c ^= (*b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 {
                (c << 1) ^ 0x1EDC_6F41
            } else {
                c << 1
            };
        }
    }
    c
}
/// table driven, same function
pub fn crc(data: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(|| {
        (0..256u32)
            .map(|i| {
                let mut c = i << 24;
                for _ in 0..8 {
                    c = if c & 0x8000_0000 != 0 {
                        (c << 1) ^ 0x1EDC_6F41
                    } else {
                        c << 1
                    };
                }
                c
            })
            .collect()
    });
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c = (c << 8) ^ t[((c >> 24) ^ *b as u32) as usize & 0xFF];
    }
    c
}

thread_local! {
    /// where the blocks with a CRC were found (address, length without the CRC)
    static BLOCKS: std::cell::RefCell<Option<Vec<(usize, usize)>>> = const { std::cell::RefCell::new(None) };
}
/// The blocks which have a CRC in the pack at the start of `d` (offset, length without the CRC).
pub fn blocks_of(d: &[u8], kind: u8) -> R<Vec<(usize, usize)>> {
    BLOCKS.with(|b| *b.borrow_mut() = Some(vec![]));
    let r = match kind {
        b'm' => manifest(d).map(|_| ()),
        b'd' => directory(d).map(|_| ()),
        _ => content(d).map(|_| ()),
    };
    let v = BLOCKS.with(|b| b.borrow_mut().take().unwrap());
    r?;
    let base = d.as_ptr() as usize;
    let mut v: Vec<_> = v
        .into_iter()
        .filter(|(a, l)| *a >= base && a + l <= base + d.len())
        .map(|(a, l)| (a - base, l))
        .collect();
    v.sort();
    v.dedup();
    Ok(v)
}

/// cut [off, off+len) plus its 4 bytes of CRC, verified
pub fn block<'a>(d: &'a [u8], off: usize, len: usize, what: &str) -> R<&'a [u8]> {
    if off.checked_add(len + 4).map_or(true, |e| e > d.len()) {
        return Err(format!("{what}: block {off}+{len} out of range ({})", d.len()));
    }
    let b = &d[off..off + len];
    let want = u32::from_be_bytes(d[off + len..off + len + 4].try_into().unwrap());
    if crc(b) != want {
        return Err(format!("{what}: CRC mismatch at {off}+{len}"));
    }
    BLOCKS.with(|v| {
        if let Some(v) = v.borrow_mut().as_mut() {
            v.push((b.as_ptr() as usize, len))
        }
    });
    Ok(b)
}
pub fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64)
}
pub fn sle(b: &[u8]) -> i64 {
    let v = le(b);
    let sh = 64 - 8 * b.len() as u32;
    ((v << sh) as i64) >> sh
}
pub fn sized_offset(v: u64) -> (usize, usize) {
    ((v >> 16) as usize, (v & 0xFFFF) as usize)
}

pub struct Cur<'a>(pub &'a [u8], pub usize);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.1 + n > self.0.len() {
            return Err("structure shorter than needed".into());
        }
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        Ok(s)
    }
    pub fn u(&mut self, n: usize) -> R<u64> {
        Ok(le(self.take(n)?))
    }
    pub fn pstr(&mut self) -> R<String> {
        let n = self.u(1)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn zeros(&mut self, n: usize, what: &str) -> R<()> {
        if self.take(n)?.iter().any(|b| *b != 0) {
            return Err(format!("{what}: reserved bytes are not zero"));
        }
        Ok(())
    }
    pub fn end(&self, what: &str) -> R<()> {
        if self.1 != self.0.len() {
            return Err(format!("{what}: {} bytes left over", self.0.len() - self.1));
        }
        Ok(())
    }
}

/// Decoding what the pinned version wrote (only to make the reference corpus).
pub static LEGACY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct Header {
    pub kind: u8,
    pub vendor: [u8; 4],
    pub uuid: [u8; 16],
    pub size: usize,
    pub check_pos: usize,
}

/// Header, mirrored tail, check block and its place, global checksum.
pub fn pack_header(d: &[u8], manifest_mask: Option<(usize, usize)>) -> R<Header> {
    let h = block(d, 0, 60, "pack header")?;
    let mut c = Cur(h, 0);
    if c.take(3)? != b"jbk" {
        return Err("magic".into());
    }
    let kind = c.u(1)? as u8;
    let vendor = c.take(4)?.try_into().unwrap();
    let (maj, min) = (c.u(1)?, c.u(1)?);
    if (maj, min) != (0, 2) {
        return Err(format!("version {maj}.{min}"));
    }
    let uuid: [u8; 16] = c.take(16)?.try_into().unwrap();
    if c.u(1)? != 0 {
        return Err("flags".into());
    }
    c.zeros(5, "pack header")?;
    let mut size = c.u(8)? as usize;
    let check_pos = c.u(8)? as usize;
    c.zeros(12, "pack header")?;
    if kind == b'C' && LEGACY.load(std::sync::atomic::Ordering::Relaxed) {
        // the pinned version forgot the check block in the declared size of a container
        size += 5;
    }
    if size > d.len() || size < 128 {
        return Err(format!("declared size {size} but {} bytes there", d.len()));
    }
    let d = &d[..size];
    let mut tail = d[size - 64..].to_vec();
    tail.reverse();
    if tail != d[..64] {
        return Err("pack tail is not the mirrored header".into());
    }
    let ck = *d.get(check_pos).ok_or("check position out of range")?;
    let len = match ck {
        0 => 1,
        1 => 33,
        k => return Err(format!("check kind {k}")),
    };
    let cb = block(d, check_pos, len, "check info")?;
    if check_pos + len + 4 + 64 != size {
        return Err(format!(
            "declared size {size} is not check position {check_pos} + check block {} + 64",
            len + 4
        ));
    }
    if ck == 1 {
        let mut data = d[..check_pos].to_vec();
        if let Some((first, n)) = manifest_mask {
            for i in 0..n {
                let o = first + 256 * i;
                for b in &mut data[o + 38..o + 256] {
                    *b = 0;
                }
            }
        }
        if blake3::hash(&data).as_bytes()[..] != cb[1..] {
            return Err("global checksum mismatch".into());
        }
    } else if kind != b'C' {
        return Err("pack without checksum".into());
    }
    Ok(Header {
        kind,
        vendor,
        uuid,
        size,
        check_pos,
    })
}

// ---------------------------------------------------------------- container
#[derive(Debug, Clone)]
pub struct PackAt {
    pub uuid: [u8; 16],
    pub offset: usize,
    pub size: usize,
    pub kind: u8,
}
pub fn kind_at(d: &[u8]) -> Option<u8> {
    if d.len() >= 64 && &d[..3] == b"jbk" {
        Some(d[3])
    } else {
        None
    }
}
/// All packs in a file (container or single pack starting at 0).
pub fn packs_in(d: &[u8]) -> R<Vec<PackAt>> {
    match kind_at(d) {
        Some(b'C') => {
            let h = pack_header(d, None).map_err(|e| format!("container: {e}"))?;
            if h.size != d.len() {
                return Err(format!(
                    "container: declared size {} but the file has {}",
                    h.size,
                    d.len()
                ));
            }
            let ch = block(d, 64, 60, "container header")?;
            let mut c = Cur(ch, 0);
            let pos = c.u(8)? as usize;
            let count = c.u(2)? as usize;
            c.zeros(26, "container header")?;
            c.take(24)?;
            let mut v = vec![];
            let mut expect = 128;
            for i in 0..count {
                let l = block(d, pos + 36 * i, 32, "pack locator")?;
                let (size, offset) = (le(&l[16..24]) as usize, le(&l[24..32]) as usize);
                if offset + size > pos {
                    return Err("pack overlaps the locators".into());
                }
                if offset != expect {
                    return Err(format!("pack {i} at {offset}, previous ended at {expect}"));
                }
                expect = offset + size;
                let kind = kind_at(&d[offset..offset + size]).ok_or("pack magic")?;
                v.push(PackAt {
                    uuid: l[..16].try_into().unwrap(),
                    offset,
                    size,
                    kind,
                });
            }
            if expect != pos || pos + 36 * count != h.check_pos {
                return Err("gaps in the container".into());
            }
            Ok(v)
        }
        Some(kind) => {
            let size = le(&d[32..40]) as usize;
            Ok(vec![PackAt {
                uuid: d[10..26].try_into().unwrap(),
                offset: 0,
                size,
                kind,
            }])
        }
        None => Err("not a jubako file".into()),
    }
}

// ---------------------------------------------------------------- manifest
#[derive(Debug, Clone, PartialEq)]
pub struct DPackInfo {
    pub uuid: [u8; 16],
    pub size: usize,
    pub id: u16,
    pub kind: u8,
    pub group: u8,
    pub location: String,
    pub free: Vec<u8>,
}
pub struct DManifest {
    pub header: Header,
    pub infos: Vec<DPackInfo>,
    pub free: [u8; 24],
}
pub fn manifest(d: &[u8]) -> R<DManifest> {
    if kind_at(d) != Some(b'm') {
        return Err("not a manifest".into());
    }
    let mh = block(d, 64, 60, "manifest header")?;
    let count = le(&mh[..2]) as usize;
    let vs = sized_offset(le(&mh[2..10]));
    if mh[10..36].iter().any(|b| *b != 0) {
        return Err("manifest header reserved".into());
    }
    let free: [u8; 24] = mh[36..60].try_into().unwrap();
    let check_pos = le(&d[40..48]) as usize;
    let first = check_pos
        .checked_sub(256 * count)
        .ok_or("check position too small")?;
    let header = pack_header(d, Some((first, count))).map_err(|e| format!("manifest: {e}"))?;
    let store = value_store(d, vs).map_err(|e| format!("manifest value store: {e}"))?;
    let mut infos = vec![];
    for i in 0..count {
        let b = block(d, first + 256 * i, 252, "pack info")?;
        let mut c = Cur(b, 0);
        let uuid = c.take(16)?.try_into().unwrap();
        let size = c.u(8)? as usize;
        let ci = sized_offset(c.u(8)?);
        let id = c.u(2)? as u16;
        let kind = c.u(1)? as u8;
        let group = c.u(1)? as u8;
        let fid = c.u(2)? as usize;
        let n = c.u(1)? as usize;
        if n > 213 {
            return Err("location length".into());
        }
        let location = String::from_utf8(c.take(n)?.to_vec()).map_err(|e| e.to_string())?;
        c.zeros(213 - n, "pack location padding")?;
        c.end("pack info")?;
        // check info of that pack
        let clen = ci.1.checked_sub(4).ok_or("check info size")?;
        let cb = block(d, ci.0, clen, "pack check info")?;
        if !(cb == [0] || (cb.len() == 33 && cb[0] == 1)) {
            return Err("check info of a pack".into());
        }
        let free = store.get(fid, None)?;
        infos.push(DPackInfo {
            uuid,
            size,
            id,
            kind,
            group,
            location,
            free,
        });
    }
    Ok(DManifest {
        header,
        infos,
        free,
    })
}

// ---------------------------------------------------------------- value stores
pub enum DStore {
    Plain(Vec<u8>),
    Indexed(Vec<Vec<u8>>),
}
impl DStore {
    pub fn get(&self, id: usize, size: Option<usize>) -> R<Vec<u8>> {
        match self {
            DStore::Plain(d) => {
                let size = size.ok_or("plain store needs a size")?;
                d.get(id..id + size)
                    .map(|x| x.to_vec())
                    .ok_or_else(|| format!("{id}+{size} outside a plain store of {}", d.len()))
            }
            DStore::Indexed(v) => {
                let x = v
                    .get(id)
                    .ok_or_else(|| format!("value {id} of {}", v.len()))?;
                if let Some(s) = size {
                    if x.len() != s {
                        return Err(format!("value of {} bytes where {s} are said", x.len()));
                    }
                }
                Ok(x.clone())
            }
        }
    }
}
pub fn value_store(d: &[u8], pos: (usize, usize)) -> R<DStore> {
    let tail = block(
        d,
        pos.0,
        pos.1,
        "value store tail",
    )?;
    let mut c = Cur(tail, 0);
    let (size, st) = match c.u(1)? {
        0 => {
            let size = c.u(8)? as usize;
            (size, None)
        }
        1 => {
            let n = c.u(8)? as usize;
            let w = c.u(1)? as usize;
            if !(1..=8).contains(&w) {
                return Err("offset width".into());
            }
            let size = c.u(w)? as usize;
            let mut offs = vec![0usize];
            for _ in 1..n {
                offs.push(c.u(w)? as usize);
            }
            offs.push(size);
            if n == 0 {
                offs = vec![0];
            }
            (size, Some(offs))
        }
        k => return Err(format!("value store kind {k}")),
    };
    c.end("value store tail")?;
    let start = pos
        .0
        .checked_sub(size + 4)
        .ok_or("value store data position")?;
    let data = block(d, start, size, "value store data")?;
    Ok(match st {
        None => DStore::Plain(data.to_vec()),
        Some(o) => DStore::Indexed(
            o.windows(2)
                .map(|w| {
                    data.get(w[0]..w[1])
                        .map(|x| x.to_vec())
                        .ok_or_else(|| "offsets not increasing".to_string())
                })
                .collect::<R<Vec<_>>>()?,
        ),
    })
}

// ---------------------------------------------------------------- directory
#[derive(Debug, Clone)]
pub enum DKind {
    Pad(usize),
    Content {
        pw: usize,
        cw: usize,
        default: Option<u64>,
    },
    Int {
        signed: bool,
        w: usize,
        default: Option<u64>,
    },
    Array {
        lw: usize,
        fixed: usize,
        key: Option<(usize, usize)>,
        default: Option<(usize, Vec<u8>, Option<u64>)>,
    },
    Variant,
}
#[derive(Debug, Clone)]
pub struct DProp {
    pub kind: DKind,
    pub name: String,
}
fn prop(c: &mut Cur) -> R<DProp> {
    let info = c.u(1)? as u8;
    let x = (info & 0x0F) as usize;
    let kind = match info >> 4 {
        0 => DKind::Pad(x + 1),
        1 => {
            let pw = ((x & 4) >> 2) + 1;
            let cw = (x & 3) + 1;
            let default = if x & 8 != 0 { Some(c.u(pw)?) } else { None };
            DKind::Content { pw, cw, default }
        }
        t @ (2 | 3) => {
            let w = (x & 7) + 1;
            let default = if x & 8 != 0 { Some(c.u(w)?) } else { None };
            DKind::Int {
                signed: t == 3,
                w,
                default,
            }
        }
        5 => {
            if x & 4 != 0 {
                return Err("array: reserved bit".into());
            }
            let lw = x & 3;
            let comp = c.u(1)? as usize;
            let fixed = comp & 31;
            let kw = comp >> 5;
            let key = if kw != 0 {
                Some((kw, c.u(1)? as usize))
            } else {
                None
            };
            let default = if x & 8 != 0 {
                let n = c.u(lw)? as usize;
                let b = c.take(fixed)?.to_vec();
                let k = if kw != 0 { Some(c.u(kw)?) } else { None };
                Some((n, b, k))
            } else {
                None
            };
            DKind::Array {
                lw,
                fixed,
                key,
                default,
            }
        }
        8 => DKind::Variant,
        t => return Err(format!("property type {t:x}")),
    };
    let name = if matches!(kind, DKind::Pad(_)) {
        String::new()
    } else {
        c.pstr()?
    };
    Ok(DProp { kind, name })
}
fn psize(k: &DKind) -> usize {
    match k {
        DKind::Pad(n) => *n,
        DKind::Content { pw, cw, default } => cw + if default.is_some() { 0 } else { *pw },
        DKind::Int { w, default, .. } => {
            if default.is_some() {
                0
            } else {
                *w
            }
        }
        DKind::Array {
            lw,
            fixed,
            key,
            default,
        } => {
            if default.is_some() {
                0
            } else {
                lw + fixed + key.map_or(0, |k| k.0)
            }
        }
        DKind::Variant => 1,
    }
}
fn read_prop(p: &DProp, c: &mut Cur, stores: &[DStore]) -> R<Option<Val>> {
    let err = |e: String| format!("property {}: {e}", p.name);
    Ok(Some(match &p.kind {
        DKind::Pad(n) => {
            c.zeros(*n, "padding")?;
            return Ok(None);
        }
        DKind::Variant => return Err("variant id in the middle".into()),
        DKind::Content { pw, cw, default } => {
            let p = match default {
                Some(d) => *d,
                None => c.u(*pw)?,
            };
            Val::C(p as u16, c.u(*cw)? as u32)
        }
        DKind::Int { signed, w, default } => {
            let raw: Vec<u8> = match default {
                Some(d) => d.to_le_bytes()[..*w].to_vec(),
                None => c.take(*w)?.to_vec(),
            };
            if *signed {
                Val::S(sle(&raw))
            } else {
                Val::U(le(&raw))
            }
        }
        DKind::Array {
            lw,
            fixed,
            key,
            default,
        } => {
            let (n, base, id) = match default {
                Some((n, b, k)) => (Some(*n), b.clone(), k.map(|k| k as usize)),
                None => {
                    let n = if *lw > 0 { Some(c.u(*lw)? as usize) } else { None };
                    let b = c.take(*fixed)?.to_vec();
                    let k = match key {
                        Some((kw, _)) => Some(c.u(*kw)? as usize),
                        None => None,
                    };
                    (n, b, k)
                }
            };
            let inline = n.map_or(*fixed, |n| n.min(*fixed));
            if base[inline..].iter().any(|b| *b != 0) {
                return Err(err("inline padding is not zero".into()));
            }
            let mut v = base[..inline].to_vec();
            if let (Some((_, si)), Some(id)) = (key, id) {
                let st = stores
                    .get(*si)
                    .ok_or_else(|| err(format!("value store {si} of {}", stores.len())))?;
                let rest = n.map(|n| n - inline);
                v.extend(st.get(id, rest).map_err(err)?);
            }
            Val::A(v)
        }
    }))
}

pub struct DEntryStore {
    pub entries: Vec<DEntry>,
    pub variants: Vec<String>,
    pub entry_size: usize,
    pub props: Vec<DProp>,
}
fn entry_store(d: &[u8], pos: (usize, usize), stores: &[DStore]) -> R<DEntryStore> {
    let tail = block(
        d,
        pos.0,
        pos.1,
        "entry store tail",
    )?;
    let mut c = Cur(tail, 0);
    if c.u(1)? != 0 {
        return Err("entry store kind".into());
    }
    let count = c.u(4)? as usize;
    if c.u(1)? != 0 {
        return Err("entry store flag".into());
    }
    let esize = c.u(2)? as usize;
    let nvar = c.u(1)? as usize;
    let nprop = c.u(1)? as usize;
    let mut props = vec![];
    for _ in 0..nprop {
        props.push(prop(&mut c)?);
    }
    c.end("entry store tail")?;
    // common part, then variants, each starting with a variant id
    let first_var = props
        .iter()
        .position(|p| matches!(p.kind, DKind::Variant))
        .unwrap_or(props.len());
    let common = &props[..first_var];
    let mut variants: Vec<(&str, Vec<&DProp>)> = vec![];
    for p in &props[first_var..] {
        if matches!(p.kind, DKind::Variant) {
            variants.push((p.name.as_str(), vec![]));
        } else {
            variants.last_mut().unwrap().1.push(p);
        }
    }
    if variants.len() != nvar {
        return Err(format!("{nvar} variants said, {} defined", variants.len()));
    }
    let csize: usize = common.iter().map(|p| psize(&p.kind)).sum();
    if variants.is_empty() {
        if csize != esize {
            return Err(format!("entry size {esize}, properties take {csize}"));
        }
    }
    for v in &variants {
        let vs: usize = v.1.iter().map(|p| psize(&p.kind)).sum();
        if csize + 1 + vs != esize {
            return Err(format!(
                "entry size {esize}, variant {} takes {csize}+1+{vs}",
                v.0
            ));
        }
    }
    let start = pos
        .0
        .checked_sub(count * esize + 4)
        .ok_or("entry data position")?;
    let data = block(d, start, count * esize, "entry data")?;
    let mut entries = vec![];
    for i in 0..count {
        let mut c = Cur(&data[i * esize..(i + 1) * esize], 0);
        let mut vals = BTreeMap::new();
        for p in common {
            if let Some(v) = read_prop(p, &mut c, stores)? {
                vals.insert(p.name.clone(), v);
            }
        }
        let mut variant = None;
        if !variants.is_empty() {
            let v = c.u(1)? as usize;
            let def = variants.get(v).ok_or("variant id out of range")?;
            variant = Some(v);
            for p in &def.1 {
                if let Some(v) = read_prop(p, &mut c, stores)? {
                    vals.insert(p.name.clone(), v);
                }
            }
        }
        c.end("entry")?;
        entries.push(DEntry { variant, vals });
    }
    Ok(DEntryStore {
        entries,
        variants: variants.iter().map(|v| v.0.to_string()).collect(),
        entry_size: esize,
        props: props.clone(),
    })
}

#[derive(Debug, Clone, PartialEq)]
pub struct DIndexHeader {
    pub name: String,
    pub store: usize,
    pub count: usize,
    pub offset: usize,
    pub free: [u8; 4],
    pub prop: u8,
}
pub struct DDirectory {
    pub header: Header,
    pub free: [u8; 24],
    pub indexes: Vec<DIndexHeader>,
    pub stores: Vec<DEntryStore>,
    pub value_stores: Vec<DStore>,
}
fn table(d: &[u8], pos: usize, n: usize, w: usize, what: &str) -> R<Vec<u64>> {
    let b = block(d, pos, n * w, what)?;
    Ok(b.chunks(w).map(le).collect())
}
pub fn directory(d: &[u8]) -> R<DDirectory> {
    let header = pack_header(d, None).map_err(|e| format!("directory: {e}"))?;
    if header.kind != b'd' {
        return Err("not a directory pack".into());
    }
    let h = block(d, 64, 60, "directory header")?;
    let mut c = Cur(h, 0);
    let ipos = c.u(8)? as usize;
    let epos = c.u(8)? as usize;
    let vpos = c.u(8)? as usize;
    let ni = c.u(4)? as usize;
    let ne = c.u(4)? as usize;
    let nv = c.u(1)? as usize;
    c.zeros(3, "directory header")?;
    let free = c.take(24)?.try_into().unwrap();
    let mut value_stores = vec![];
    for o in table(d, vpos, nv, 8, "value store table")? {
        value_stores.push(value_store(d, sized_offset(o))?);
    }
    let mut stores = vec![];
    for o in table(d, epos, ne, 8, "entry store table")? {
        stores.push(entry_store(d, sized_offset(o), &value_stores)?);
    }
    let mut indexes = vec![];
    for o in table(d, ipos, ni, 8, "index table")? {
        let (off, size) = sized_offset(o);
        let b = block(d, off, size, "index")?;
        let mut c = Cur(b, 0);
        let store = c.u(4)? as usize;
        let count = c.u(4)? as usize;
        let offset = c.u(4)? as usize;
        let free = c.take(4)?.try_into().unwrap();
        let prop = c.u(1)? as u8;
        let name = c.pstr()?;
        c.end("index")?;
        indexes.push(DIndexHeader {
            name,
            store,
            count,
            offset,
            free,
            prop,
        });
    }
    Ok(DDirectory {
        header,
        free,
        indexes,
        stores,
        value_stores,
    })
}

// ---------------------------------------------------------------- content
#[derive(Debug, Clone)]
pub struct DCluster {
    pub comp: u8,
    pub offset_width: usize,
    pub raw_size: usize,
    pub data_size: usize,
    pub bounds: Vec<usize>,
    /// where the stored (maybe compressed) bytes are, in the pack
    pub stored_at: usize,
    pub data: Vec<u8>,
}
pub struct DContent {
    pub header: Header,
    pub free: [u8; 24],
    /// (cluster, blob)
    pub infos: Vec<(usize, usize)>,
    pub clusters: Vec<DCluster>,
}
impl DContent {
    pub fn get(&self, i: usize) -> R<&[u8]> {
        let (c, b) = *self
            .infos
            .get(i)
            .ok_or_else(|| format!("content {i} of {}", self.infos.len()))?;
        let cl = self
            .clusters
            .get(c)
            .ok_or_else(|| format!("content {i} in cluster {c}"))?;
        if b + 1 >= cl.bounds.len() {
            return Err(format!("content {i}: blob {b} of {}", cl.bounds.len() - 1));
        }
        cl.data
            .get(cl.bounds[b]..cl.bounds[b + 1])
            .ok_or_else(|| format!("content {i}: blob bounds"))
    }
}
pub fn decompress(comp: u8, raw: &[u8]) -> R<Vec<u8>> {
    use std::io::Read;
    let mut v = vec![];
    match comp {
        0 => v = raw.to_vec(),
        1 => {
            lz4::Decoder::new(raw)
                .and_then(|mut d| d.read_to_end(&mut v))
                .map_err(|e| format!("lz4: {e}"))?;
        }
        2 => {
            let mut d = xz2::read::XzDecoder::new_stream(
                raw,
                xz2::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| e.to_string())?,
            );
            d.read_to_end(&mut v).map_err(|e| format!("lzma: {e}"))?;
        }
        3 => {
            zstd::stream::read::Decoder::new(raw)
                .and_then(|mut d| d.read_to_end(&mut v))
                .map_err(|e| format!("zstd: {e}"))?;
        }
        c => return Err(format!("compression {c}")),
    }
    Ok(v)
}
pub fn content(d: &[u8]) -> R<DContent> {
    let header = pack_header(d, None).map_err(|e| format!("content pack: {e}"))?;
    if header.kind != b'c' {
        return Err("not a content pack".into());
    }
    let h = block(d, 64, 60, "content pack header")?;
    let mut c = Cur(h, 0);
    let ipos = c.u(8)? as usize;
    let cpos = c.u(8)? as usize;
    let ni = c.u(4)? as usize;
    let nc = c.u(4)? as usize;
    c.zeros(12, "content pack header")?;
    let free = c.take(24)?.try_into().unwrap();
    let infos = table(d, ipos, ni, 4, "content table")?
        .into_iter()
        .map(|v| ((v >> 12) as usize, (v & 0xFFF) as usize))
        .collect();
    let mut clusters = vec![];
    for (n, o) in table(d, cpos, nc, 8, "cluster table")?.into_iter().enumerate() {
        let (off, size) = sized_offset(o);
        let b = block(d, off, size, &format!("cluster tail {n}"))?;
        let mut c = Cur(b, 0);
        let comp = c.u(1)? as u8;
        let w = c.u(1)? as usize;
        if !(1..=8).contains(&w) {
            return Err(format!("cluster {n}: offset width {w}"));
        }
        let nb = c.u(2)? as usize;
        let raw_size = c.u(w)? as usize;
        let data_size = c.u(w)? as usize;
        let mut bounds = vec![0];
        for _ in 1..nb {
            bounds.push(c.u(w)? as usize);
        }
        bounds.push(data_size);
        c.end("cluster tail")?;
        if bounds.windows(2).any(|w| w[0] > w[1]) {
            return Err(format!("cluster {n}: offsets decrease"));
        }
        let stored_at = off
            .checked_sub(raw_size)
            .ok_or_else(|| format!("cluster {n}: raw size {raw_size} before {off}"))?;
        let data = decompress(comp, &d[stored_at..off]).map_err(|e| format!("cluster {n}: {e}"))?;
        if data.len() != data_size {
            return Err(format!(
                "cluster {n}: {} bytes where {data_size} are said",
                data.len()
            ));
        }
        clusters.push(DCluster {
            comp,
            offset_width: w,
            raw_size,
            data_size,
            bounds,
            stored_at,
            data,
        });
    }
    Ok(DContent {
        header,
        free,
        infos,
        clusters,
    })
}
