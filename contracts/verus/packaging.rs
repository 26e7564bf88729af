/*@ C10 C05 C14: what the files of packs are made of: a container is a header, its packs as they were given, the table that says where
each of them is, a check block and the mirrored header (ContainerPackCreator from_file, into_file, add_pack, finalize, InContainerFile close,
Skip new, seek, into_inner); concat puts every pack of every input in it (tools::concat); a manifest is a header, the check info of every
pack where its pack info says, the pack infos in the order of the packs, the check value of all this but the locations, and the mirrored
header (ManifestPackCreator finalize, add_pack). */
use vstd::prelude::*;
verus! {
/*@types PackIdx PackCount u16 ValueIdx ValueCount u64 ValueStoreIdx ValueStoreCount u8 sizes @*/
/*@include std.inc @*/
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
impl FromSpecImpl<IoError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IoError) -> Error { Error } }
impl From<IoError> for Error { #[verifier::external_body] fn from(v: IoError) -> Error { unimplemented!() } }
/*@include outfile.inc @*/

#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid(pub u128);
impl Uuid {
    // trusted: uuid v4
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct PackId(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
#[derive(Clone, Copy)] pub struct VendorId(pub u32);
impl FromSpecImpl<[u8; 4]> for VendorId { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: [u8; 4]) -> VendorId { arbitrary() } }
impl From<[u8; 4]> for VendorId { #[verifier::external_body] fn from(v: [u8; 4]) -> VendorId { unimplemented!() } }
#[derive(Clone, Copy)] pub struct PackFreeData(pub u8);
pub enum CheckKind { None, Blake3 }
impl CheckKind {
    // proved elsewhere: kani contract of common/check.rs
    #[verifier::external_body]
    pub fn block_size(self) -> (r: ASize) ensures r.0 == (if self is None { 5int } else { 37 }) { unimplemented!() }
}
pub struct PackHeaderInfo { pub app_vendor_id: VendorId, pub file_size: Size, pub check_info_pos: Offset }
impl PackHeaderInfo {
    /*@fn src/common/headers/pack.rs | impl PackHeaderInfo | new
    ensures r.app_vendor_id == app_vendor_id, r.file_size == file_size, r.check_info_pos == check_info_pos,
    @*/
}
pub struct PackHeader { pub magic: PackKind, pub app_vendor_id: VendorId, pub major_version: u8, pub minor_version: u8, pub uuid: Uuid, pub flags: u8, pub file_size: Size, pub check_info_pos: Offset }
pub struct ContainerPackHeader { pub pack_locators_pos: Offset, pub pack_count: PackCount, pub free_data: PackFreeData }
pub struct ManifestPackHeader { pub pack_count: PackCount, pub value_store_posinfo: SizedOffset, pub free_data: PackFreeData }
pub struct PackLocator { pub uuid: Uuid, pub pack_size: Size, pub pack_pos: Offset }
pub struct CheckInfo { pub b3hash: Option<Hash> }
#[derive(Clone, Copy)] pub struct Hash(pub u128);
pub struct SizedOffset { pub size: ASize, pub offset: Offset }
// proved elsewhere: the sizes of the blocks: kani contracts of common/headers, common/pack_locator.rs, common/check.rs, common/pack_info.rs
impl PackHeader { pub const BLOCK_SIZE: usize = 64;
    /*@fn src/common/headers/pack.rs | impl PackHeader | new
    ensures r.magic == magic, r.app_vendor_id == pack_info.app_vendor_id, r.file_size == pack_info.file_size, r.check_info_pos == pack_info.check_info_pos, r.major_version == 0, r.minor_version == 2, r.flags == 0,
    @*/
}
impl ContainerPackHeader { pub const BLOCK_SIZE: usize = 64;
    /*@fn src/common/headers/container_pack.rs | impl ContainerPackHeader | new
    ensures r.pack_locators_pos == pack_locators_pos, r.pack_count == pack_count, r.free_data == free_data,
    @*/
}
impl ManifestPackHeader { pub const BLOCK_SIZE: usize = 64;
    /*@fn src/common/headers/manifest_pack.rs | impl ManifestPackHeader | new
    ensures r.pack_count == pack_count, r.free_data == free_data, r.value_store_posinfo == value_store_posinfo,
    @*/
}
impl PackLocator {
    /*@fn src/common/pack_locator.rs | impl PackLocator | new
    ensures r.uuid == uuid, r.pack_size == pack_size, r.pack_pos == pack_pos,
    @*/
}
impl CheckInfo {
    /*@fn src/common/check.rs | impl CheckInfo | new_none
    ensures r.b3hash is None,
    @*/
}
impl SizedOffset {
    pub const fn new(size: ASize, offset: Offset) -> (r: SizedOffset) ensures r.size == size, r.offset == offset { SizedOffset { size, offset } }
}
impl Ser for PackHeader { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 64 } }
impl Ser for ContainerPackHeader { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 64 } }
impl Ser for ManifestPackHeader { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 64 } }
impl Ser for PackLocator { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 36 } }
impl Ser for PackInfo { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 256 } }
impl Ser for CheckInfo { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { if self.b3hash is None { 5 } else { 37 } } }

pub struct SmallString { pub b: Ghost<Seq<u8>> }
pub struct PackData { pub uuid: Uuid, pub pack_size: Size, pub pack_kind: PackKind, pub pack_id: PackId, pub free_data: Vec<u8>, pub check_info: CheckInfo }
pub struct PackInfo {
    pub uuid: Uuid, pub pack_size: Size, pub check_info_pos: SizedOffset, pub pack_id: PackId, pub pack_kind: PackKind,
    pub pack_group: u8, pub free_data_id: ValueIdx, pub pack_location: SmallString,
}
impl PackInfo {
    /*@fn src/common/pack_info.rs | impl PackInfo | new
    ensures
        r.describes(pack_data), r.check_info_pos == check_info_pos, r.pack_group == pack_group, r.free_data_id == free_data_id, r.pack_location == pack_location,
    @sub `crate::creator::PackData` => `PackData`
    @*/
    pub open spec fn describes(&self, d: PackData) -> bool { self.uuid == d.uuid && self.pack_size == d.pack_size && self.pack_id == d.pack_id && self.pack_kind == d.pack_kind }
}

// ---- a container
pub struct Skip { pub inner: OutFile, pub skip: u64 }
impl Skip {
    pub open spec fn ok(&self) -> bool { self.inner.ok() && self.skip <= i64::MAX }
    /*@fn src/bases/skip.rs | impl<R> Skip<R> where R: Seek, | new
    requires inner.ok(),
    ensures r matches Ok(s) ==> s.inner == inner && s.skip == inner.pos@ && s.ok(),
    @sub `inner: R` => `inner: OutFile`
    @sub `io::Result` => `IoResult`
    @*/
    /*@fn src/bases/skip.rs | impl<R> Skip<R> | into_inner
    ensures r == self.inner,
    @sub `-> R` => `-> OutFile`
    @*/
    /*@fn src/bases/skip.rs | impl<R> io::Seek for Skip<R> where R: io::Seek, | seek
    requires old(self).ok(), pos matches SeekFrom::Start(s) ==> s <= i64::MAX,
    ensures
        final(self).inner.data == old(self).inner.data, final(self).skip == old(self).skip, final(self).ok(),
        // positions are those of the inner file, from where it was
        r matches Ok(n) ==> n + old(self).skip == final(self).inner.pos@ && (match pos {
            SeekFrom::Start(s) => n == s, SeekFrom::End(d) => n == old(self).inner@.len() + d - old(self).skip, SeekFrom::Current(d) => n == old(self).inner.pos@ + d - old(self).skip }),
    @sub `io::Result` => `IoResult`
    @sub `io::SeekFrom` => `SeekFrom`
    @sub `/io::Error::new\([^()]*\)/` => `IoError`
    @*/
}
// trusted: a source that is read to its end by std::io::copy
pub struct Source { pub b: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn copy(reader: &mut Source, file: &mut OutFile) -> (r: IoResult<u64>)
    requires old(file).ok(),
    ensures final(file).ok(), r is Ok ==> final(file)@ == splice(old(file)@, old(file).pos@, old(reader).b@) && final(file).pos@ == old(file).pos@ + old(reader).b@.len(),
{ unimplemented!() }
pub struct ContainerPackCreator { pub packs: Vec<PackLocator>, pub file: OutFile, pub free_data: PackFreeData }
pub struct InContainerFile { pub file: Skip, pub packs: Vec<PackLocator>, pub container_free_data: PackFreeData }
/// the bytes a locator names
pub open spec fn region(d: Seq<u8>, l: PackLocator) -> Seq<u8> { d.subrange(l.pack_pos.0 as int, l.pack_pos.0 + l.pack_size.0) }
pub open spec fn located(d: Seq<u8>, l: PackLocator) -> bool { 128 <= l.pack_pos.0 && l.pack_pos.0 + l.pack_size.0 <= d.len() }
/// a is b up to where a ends, but for the place of the headers
pub open spec fn extends(b: Seq<u8>, a: Seq<u8>) -> bool { b.len() >= a.len() && forall|i: int| 128 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn prefix(a: Seq<PackLocator>, b: Seq<PackLocator>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// a container in these bytes: where everything is
pub open spec fn image(d: Seq<u8>, packs: Seq<PackLocator>, table: int, ph: PackHeader, ch: ContainerPackHeader, none: CheckInfo, free: PackFreeData) -> bool {
    let (n, check) = (packs.len(), table + 36 * packs.len());
    &&& d.len() == check + 5 + 64 && 128 <= table
    &&& ph.magic is Container && ph.file_size.0 == d.len() && ph.check_info_pos.0 == check && d.subrange(0, 64) == ph.block()
    &&& ch.pack_locators_pos.0 == table && ch.pack_count.0 == n && ch.free_data == free && d.subrange(64, 128) == ch.block()
    &&& forall|k: int| 0 <= k < n ==> at(d, table + 36 * k, #[trigger] packs[k])
    &&& none.b3hash is None && d.subrange(check, check + 5) == none.block()
    &&& d.subrange(check + 5, check + 69) == ph.block().reverse()
}
pub open spec fn at<T: Ser>(d: Seq<u8>, p: int, t: T) -> bool { d.subrange(p, p + t.size()) == t.block() }
/// what was read at p stays there
pub proof fn stays<T: Ser>(d: Seq<u8>, e: Seq<u8>, p: int, t: T)
    requires at(d, p, t), 0 <= p, p + t.size() <= d.len(), t.size() >= 0, e.len() >= p + t.size(), forall|i: int| p <= i < p + t.size() ==> #[trigger] e[i] == d[i],
    ensures at(e, p, t),
{ assert(e.subrange(p, p + t.size()) =~= d.subrange(p, p + t.size())); }
impl ContainerPackCreator {
    pub open spec fn inv(&self) -> bool {
        &&& self.file.ok() && self.file.pos@ >= 128 && (self.file@.len() == self.file.pos@ || self.file@.len() < 128 && self.file.pos@ == 128)
        &&& forall|k: int| 0 <= k < self.packs@.len() ==> self.holds(#[trigger] self.packs@[k])
    }
    pub open spec fn holds(&self, l: PackLocator) -> bool { located(self.file@, l) || l.pack_size.0 == 0 && l.pack_pos.0 == 128 }
    /// the packs which were there are there, with their bytes
    pub open spec fn keeps(&self, d: Seq<u8>, packs: Seq<PackLocator>) -> bool { extends(self.file@, d) && prefix(packs, self.packs@) }
    /*@fn src/creator/container_pack.rs | impl<F: PackRecipient> ContainerPackCreator<F> | from_file
    requires file.ok(), file@.len() == 0,
    ensures r matches Ok(c) ==> c.inv() && c.packs@.len() == 0 && c.free_data == free_data,
    @sub `Box<F>` => `OutFile`
    @*/
    /*@fn src/creator/container_pack.rs | impl<F: PackRecipient> ContainerPackCreator<F> | into_file
    requires self.inv(),
    ensures r matches Ok(f) ==> f.inv() && f.packs == self.packs && f.file.inner == self.file && f.file.skip == self.file.pos@ && f.container_free_data == self.free_data,
    @sub `Box<InContainerFile<F>>` => `Box<InContainerFile>`
    @*/
    /*@fn src/creator/container_pack.rs | impl<F: PackRecipient> ContainerPackCreator<F> | add_pack
    requires old(self).inv(),
    ensures
        r is Ok ==> final(self).inv() && final(self).keeps(old(self).file@, old(self).packs@) && final(self).packs@.len() == old(self).packs@.len() + 1,
        r is Ok ==> final(self).packs@.last().uuid == uuid && (old(reader).b@.len() > 0 ==> region(final(self).file@, final(self).packs@.last()) == old(reader).b@) && final(self).packs@.last().pack_size.0 == old(reader).b@.len(),
    @sub `add_pack<I: Read>` => `add_pack`
    @sub `uuid::Uuid` => `Uuid`
    @sub `&mut I` => `&mut Source`
    @sub `std::io::copy` => `copy`
    @before `Ok(())`
        proof {
            assert(old(reader).b@.len() > 0 ==> region(self.file@, self.packs@.last()) =~= old(reader).b@);
            assert forall|k: int| 0 <= k < self.packs@.len() implies self.holds(#[trigger] self.packs@[k]) by { if k < old(self).packs@.len() { assert(old(self).holds(old(self).packs@[k])); } }
        }
    @*/
    /*@fn src/creator/container_pack.rs | impl<F: PackRecipient> ContainerPackCreator<F> | finalize
    requires self.inv(), self.packs@.len() <= u16::MAX,
    ensures r matches Ok(f) ==> extends(f@, self.file@) && exists|ph: PackHeader, ch: ContainerPackHeader, none: CheckInfo| #[trigger] image(f@, self.packs@, self.file.pos@, ph, ch, none, self.free_data),
    @sub `Box<F>` => `OutFile`
    @sub `crate::common::PackKind` => `PackKind`
    @sub `for pack_locator in &self.packs` => `for pack_locator in it: &self.packs`
    @sub `tail_buffer.reverse();` => `reverse(&mut tail_buffer);`
    @loop 1
        invariant
            this.packs == self.packs, this.free_data == self.free_data, it.seq().len() == self.packs@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == self.packs@[k], self.packs@.len() <= u16::MAX,
            self.inv(), this.file.ok(), pack_locators_pos.0 == self.file.pos@, this.file.pos@ == self.file.pos@ + 36 * it.index@,
            extends(this.file@, self.file@), it.index@ > 0 ==> this.file@.len() == this.file.pos@, it.index@ == 0 ==> this.file@ == self.file@,
            forall|k: int| 0 <= k < it.index@ ==> at(this.file@, self.file.pos@ + 36 * k, #[trigger] self.packs@[k]),
    @before 1 `this.file.ser_write(pack_locator)?;`
        let ghost before = this.file@;
    @after 1 `this.file.ser_write(pack_locator)?;`
        proof {
            let p = this.file.pos@ - 36;
            assert(this.file@.subrange(p, p + 36) =~= pack_locator.block());
            assert(at(this.file@, p, *pack_locator));
            assert forall|k: int| 0 <= k <= it.index@ implies at(this.file@, self.file.pos@ + 36 * k, #[trigger] self.packs@[k]) by {
                if k < it.index@ { stays(before, this.file@, self.file.pos@ + 36 * k, self.packs@[k]); }
            }
        }
    @before `let pack_size =`
        let ghost table = this.file@;
    @before `Ok(this.file)`
        proof {
            let d = this.file@;
            let (n, check) = (self.packs@.len(), self.file.pos@ + 36 * self.packs@.len());
            assert(d.len() == check + 69);
            assert(d.subrange(0, 64) =~= pack_header.block());
            assert(d.subrange(64, 128) =~= header.block());
            assert(d.subrange(check, check + 5) =~= check_info.block());
            assert(d.subrange(check + 5, check + 69) =~= pack_header.block().reverse());
            assert forall|k: int| 0 <= k < n implies at(d, self.file.pos@ + 36 * k, #[trigger] self.packs@[k]) by { stays(table, d, self.file.pos@ + 36 * k, self.packs@[k]); }
            assert(image(d, self.packs@, self.file.pos@, pack_header, header, check_info, self.free_data));
        }
    @*/
}
impl InContainerFile {
    pub open spec fn inv(&self) -> bool {
        &&& self.file.ok() && self.file.skip >= 128 && (self.file.inner@.len() >= self.file.skip || self.file.inner@.len() < 128 && self.file.skip == 128)
        &&& forall|k: int| 0 <= k < self.packs@.len() ==> self.holds(#[trigger] self.packs@[k])
    }
    pub open spec fn holds(&self, l: PackLocator) -> bool { located(self.file.inner@, l) || l.pack_size.0 == 0 && l.pack_pos.0 == 128 }
    /*@fn src/creator/container_pack.rs | impl<F: PackRecipient> InContainerFile<F> | close
    requires self.inv(),
    ensures
        r matches Ok(c) ==> c.inv() && c.file.data == self.file.inner.data && c.free_data == self.container_free_data && c.packs@.len() == self.packs@.len() + 1 && prefix(self.packs@, c.packs@),
        // the pack is all that was written since the file was opened
        r matches Ok(c) ==> ({ let l = c.packs@.last(); l.uuid == uuid && l.pack_pos.0 == self.file.skip && l.pack_pos.0 + l.pack_size.0 == c.file@.len() }),
    @sub `uuid::Uuid` => `Uuid`
    @sub `ContainerPackCreator<F>` => `ContainerPackCreator`
    @*/
}
// ---- a manifest
pub uninterp spec fn blake3(d: Seq<u8>) -> Hash;
/// d with the locations of the pack infos zeroed (they are from first to end)
pub open spec fn without_locations(d: Seq<u8>, first: int, end: int) -> Seq<u8> { Seq::new(d.len(), |i: int| if first <= i < end && (i - first) % 256 >= 38 { 0 } else { d[i] }) }
// proved elsewhere: ManifestCheckStream reads the bytes without the locations: unit check_stream
// trusted: blake3 hashes what it reads to the end (CheckInfo::new_blake3)
pub struct ManifestCheckStream { pub first: Offset, pub count: PackCount }
impl ManifestCheckStream {
    pub fn new(first: Offset, count: PackCount) -> (r: ManifestCheckStream) ensures r.first == first, r.count == count { ManifestCheckStream { first, count } }
    #[verifier::external_body]
    pub fn blake3(&mut self, file: &mut OutFile) -> (r: IoResult<CheckInfo>)
        requires old(file).ok(), old(file).pos@ <= old(file)@.len(), old(self).first.0 + old(self).count.0 * 256 <= u64::MAX,
        ensures
            final(file).data == old(file).data, final(file).ok(),
            r matches Ok(c) ==> final(file).pos@ == final(file)@.len()
                && c.b3hash == Some(blake3(without_locations(old(file)@.subrange(old(file).pos@, old(file)@.len() as int), old(self).first.0 as int, old(self).first.0 + old(self).count.0 * 256))),
    { unimplemented!() }
}
pub struct Utf8PathBuf { pub b: Ghost<Seq<u8>> }
impl FromSpecImpl<Utf8PathBuf> for SmallString { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Utf8PathBuf) -> SmallString { SmallString { b: v.b } } }
impl From<Utf8PathBuf> for SmallString { #[verifier::external_body] fn from(v: Utf8PathBuf) -> SmallString { unimplemented!() } }
// proved elsewhere: value stores: every value added is found at the id its handle gives once the store is finalised: unit value_store
pub struct StoreHandle { pub id: Ghost<int> }
pub struct ValueHandle { pub store: Ghost<int>, pub value: Ghost<Seq<u8>> }
/// the value the finalised store has at an id
pub uninterp spec fn names(store: int, id: ValueIdx, value: Seq<u8>) -> bool;
impl StoreHandle {
    /// the bytes of the finalised store, and the place of its tail when they are at p
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn tail(&self, p: int) -> SizedOffset;
    #[verifier::external_body]
    pub fn add_value(&self, v: Vec<u8>) -> (r: ValueHandle) ensures r.store == self.id, r.value@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&self, idx: ValueStoreIdx) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_to(&self, file: &mut OutFile) -> (r: Result<SizedOffset>)
        requires old(file).ok(),
        ensures final(file).ok(), r matches Ok(p) ==> p == self.tail(old(file).pos@) && self.bytes().len() > 0 && final(file)@ == splice(old(file)@, old(file).pos@, self.bytes()) && final(file).pos@ == old(file).pos@ + self.bytes().len(),
    { unimplemented!() }
}
impl ValueHandle {
    #[verifier::external_body]
    pub fn get(&self) -> (r: ValueIdx) ensures names(self.store@, r, self.value@) { unimplemented!() }
}
// trusted: slice::to_vec (std) on bytes
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
// trusted: Iterator::zip (std)
#[verifier::external_body]
pub fn zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (a@[k], b@[k]),
{ unimplemented!() }
/// this pack info is that of this pack of a manifest that starts at o
pub open spec fn info_of(d: Seq<u8>, o: int, store: int, info: PackInfo, pack: (PackData, Utf8PathBuf)) -> bool {
    &&& info.describes(pack.0) && info.pack_group == 0 && info.pack_location.b == pack.1.b && names(store, info.free_data_id, pack.0.free_data@)
    &&& info.check_info_pos.size.0 == pack.0.check_info.size() && 128 <= info.check_info_pos.offset.0
    &&& o + info.check_info_pos.offset.0 + info.check_info_pos.size.0 <= d.len() && at(d, o + info.check_info_pos.offset.0, pack.0.check_info)
}
pub open spec fn manifest_image(d: Seq<u8>, o: int, m: ManifestPackCreator, ph: PackHeader, mh: ManifestPackHeader, infos: Seq<PackInfo>, store: int, check: CheckInfo) -> bool {
    let (n, c) = (m.packs@.len() as int, ph.check_info_pos.0 as int);
    &&& d.len() == o + c + 37 + 64 && ph.magic is Manifest && ph.file_size.0 == c + 37 + 64 && ph.app_vendor_id == m.app_vendor_id && at(d, o, ph)
    &&& mh.pack_count.0 == n && mh.free_data == m.free_data && at(d, o + 64, mh)
    // the free data of the packs
    &&& o + 128 <= store && store + m.value_store.bytes().len() <= d.len() && d.subrange(store, store + m.value_store.bytes().len()) == m.value_store.bytes()
    &&& mh.value_store_posinfo == m.value_store.tail(store)
    // the packs, in order, right before the check block
    &&& infos.len() == n && 128 <= c - 256 * n
    &&& forall|k: int| 0 <= k < n ==> info_of(d, o, m.value_store.id@, #[trigger] infos[k], m.packs@[k]) && at(d, o + c - 256 * n + 256 * k, infos[k])
    // the check value of all that is before it but the locations
    &&& check.b3hash == Some(blake3(without_locations(d.subrange(o, o + c), c - 256 * n, c))) && at(d, o + c, check)
    &&& d.subrange(o + c + 37, o + c + 101) == ph.block().reverse()
}
pub proof fn info_stays(d: Seq<u8>, e: Seq<u8>, o: int, store: int, info: PackInfo, pack: (PackData, Utf8PathBuf))
    requires info_of(d, o, store, info, pack), 0 <= o, e.len() >= d.len(), forall|i: int| o + 128 <= i < d.len() ==> #[trigger] e[i] == d[i],
    ensures info_of(e, o, store, info, pack),
{ stays(d, e, o + info.check_info_pos.offset.0, pack.0.check_info); }
pub struct ManifestPackCreator { pub app_vendor_id: VendorId, pub free_data: PackFreeData, pub packs: Vec<(PackData, Utf8PathBuf)>, pub value_store: StoreHandle }
impl ManifestPackCreator {
    /*@fn src/creator/manifest_pack.rs | impl ManifestPackCreator | add_pack
    ensures final(self).packs@ == old(self).packs@.push((pack_info, locator)), final(self).value_store == old(self).value_store, final(self).app_vendor_id == old(self).app_vendor_id, final(self).free_data == old(self).free_data,
    @sub `impl Into<Utf8PathBuf>` => `Utf8PathBuf`
    @sub `locator.into()` => `locator`
    @*/
    /*@fn src/creator/manifest_pack.rs | impl ManifestPackCreator | finalize
    requires
        old(file).ok(), old(file)@.len() <= old(file).pos@, self.packs@.len() <= u16::MAX,
        // (the position of the value store is that in the file)
        old(file).pos@ == 0,
        // assumed: the file stays under 2^62 bytes
        self.value_store.bytes().len() <= i64::MAX / 2,
    ensures
        r matches Ok(uuid) ==> exists|ph: PackHeader, mh: ManifestPackHeader, infos: Seq<PackInfo>, store: int, check: CheckInfo|
            uuid == ph.uuid && #[trigger] manifest_image(final(file)@, old(file).pos@, self, ph, mh, infos, store, check),
    @sub `finalize<O: InOutStream>` => `finalize`
    @sub `let mut free_data_ids =` => `let mut free_data_ids: Vec<ValueHandle> =`
    @sub `let mut pack_infos =` => `let mut pack_infos: Vec<PackInfo> =`
    @sub `&mut O` => `&mut OutFile`
    @sub `uuid::Uuid` => `Uuid`
    @sub `for (pack_data, _locator) in &self.packs {` => `for pack in it: &self.packs { let pack_data = &pack.0;`
    @sub `/in self\.packs\.into_iter\(\)\.zip\(free_data_ids\)/` => `in it: zip(self.packs, free_data_ids)`
    @sub `/self\.value_store\.write\(\)\.unwrap\(\)\.write\(file\)/` => `self.value_store.write_to(file)`
    @sub `for pack_info in &pack_infos` => `for pack_info in it: &pack_infos`
    @sub `ManifestCheckStream::new(file, ` => `ManifestCheckStream::new(`
    @sub `CheckInfo::new_blake3(&mut check_stream)` => `check_stream.blake3(file)`
    @sub `tail_buffer.reverse();` => `reverse(&mut tail_buffer);`
    @start
        let ghost m = self;
    @loop 1
        invariant
            self == m, it.seq().len() == m.packs@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == m.packs@[k], free_data_ids@.len() == it.index@,
            forall|k: int| 0 <= k < it.index@ ==> (#[trigger] free_data_ids@[k]).store == m.value_store.id && free_data_ids@[k].value@ == m.packs@[k].0.free_data@,
    @after `self.value_store.add_value(`
            proof { assert(free_data_id.value@ =~= pack_data.free_data@); }
    @loop 2
        invariant
            self.value_store == m.value_store, self.app_vendor_id == m.app_vendor_id, self.free_data == m.free_data, origin_offset == old(file).pos@, old(file)@.len() <= origin_offset,
            it.seq().len() == m.packs@.len(), pack_infos@.len() == it.index@, m.packs@.len() <= u16::MAX, file.ok(),
            forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == m.packs@[k] && it.seq()[k].1.store == m.value_store.id && it.seq()[k].1.value@ == m.packs@[k].0.free_data@,
            origin_offset + 128 <= file.pos@ <= origin_offset + 128 + 37 * it.index@, it.index@ == 0 ==> file@ == old(file)@ && file.pos@ == origin_offset + 128, it.index@ > 0 ==> file@.len() == file.pos@,
            forall|k: int| 0 <= k < it.index@ ==> info_of(file@, origin_offset as int, m.value_store.id@, #[trigger] pack_infos@[k], m.packs@[k]),
    @loop 3
        invariant
            file.ok(), origin_offset == old(file).pos@, it.seq().len() == pack_infos@.len(), pack_infos@.len() == m.packs@.len(), m.packs@.len() <= u16::MAX, forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == pack_infos@[k],
            file.pos@ == file@.len(), file@.len() == origin_offset + packs_offset + 256 * it.index@, stored.len() == origin_offset + packs_offset,
            forall|i: int| 0 <= i < stored.len() ==> #[trigger] file@[i] == stored[i],
            forall|k: int| 0 <= k < it.index@ ==> at(file@, origin_offset + packs_offset + 256 * k, #[trigger] pack_infos@[k]),
    @before `file.ser_write(&pack_data.check_info)?;`
            let ghost before = file@;
    @after `pack_infos.push(`
            proof {
                let o = origin_offset as int;
                let k = it.index@;
                let info = pack_infos@[k];
                assert(file@.subrange(o + check_info_pos, o + check_info_pos + check_info_size) =~= m.packs@[k].0.check_info.block());
                assert(info_of(file@, o, m.value_store.id@, info, m.packs@[k]));
                assert forall|j: int| 0 <= j <= k implies info_of(file@, o, m.value_store.id@, #[trigger] pack_infos@[j], m.packs@[j]) by {
                    if j < k { info_stays(before, file@, o, m.value_store.id@, pack_infos@[j], m.packs@[j]); }
                }
            }
    @before `let value_store_pos =`
        let ghost d1 = file@;
        let ghost store = file.pos@;
    @after `let packs_offset =`
        let ghost stored = file@;
        proof { assert(stored.subrange(store, store + m.value_store.bytes().len()) =~= m.value_store.bytes()); }
    @before `file.ser_write(pack_info)?;`
            let ghost before = file@;
    @after `file.ser_write(pack_info)?;`
            proof {
                let p = origin_offset + packs_offset;
                assert(file@.subrange(p + 256 * it.index@, p + 256 * it.index@ + 256) =~= pack_info.block());
                assert forall|k: int| 0 <= k <= it.index@ implies at(file@, p + 256 * k, #[trigger] pack_infos@[k]) by {
                    if k < it.index@ { stays(before, file@, p + 256 * k, pack_infos@[k]); }
                }
            }
    @before `let pack_size: Size =`
        let ghost table = file@;
    @before `let mut check_stream =`
        let ghost covered = file@;
    @before `Ok(pack_header.uuid)`
        proof {
            let d = file@;
            let (o, n, c) = (origin_offset as int, m.packs@.len() as int, check_offset as int);
            assert(d.len() == o + c + 101);
            assert(d.subrange(o, o + 64) =~= pack_header.block());
            assert(d.subrange(o + 64, o + 128) =~= header.block());
            assert(d.subrange(o + c, o + c + 37) =~= check_info.block());
            assert(d.subrange(o + c + 37, o + c + 101) =~= pack_header.block().reverse());
            assert(d.subrange(o, o + c) =~= covered.subrange(o, covered.len() as int));
            assert(d.subrange(store, store + m.value_store.bytes().len()) =~= stored.subrange(store, store + m.value_store.bytes().len()));
            assert forall|k: int| 0 <= k < n implies info_of(d, o, m.value_store.id@, #[trigger] pack_infos@[k], m.packs@[k]) && at(d, o + c - 256 * n + 256 * k, pack_infos@[k]) by {
                stays(table, d, o + packs_offset + 256 * k, pack_infos@[k]);
                info_stays(d1, d, o, m.value_store.id@, pack_infos@[k], m.packs@[k]);
            }
            assert(manifest_image(d, o, m, pack_header, header, pack_infos@, store, check_info));
        }
    @*/
}
// ---- containers put together
pub struct NamedFile;
impl NamedFile {
    // trusted: a file opened for writing is emptied (OpenOptions truncate)
    #[verifier::external_body]
    pub fn new(path: Path) -> (r: IoResult<OutFile>) ensures r matches Ok(f) ==> f.ok() && f@.len() == 0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct Path { pub id: Ghost<int> }
impl Path { pub fn as_ref(&self) -> (r: Path) ensures r == *self { *self } }
/// the packs of a file: that is, of the container that opens when it is opened
pub uninterp spec fn packs_of(p: Path) -> Seq<(Uuid, Seq<u8>)>;
pub struct Reader { pub b: Ghost<Seq<u8>> }
pub struct ContainerPack { pub packs: Ghost<Seq<(Uuid, Seq<u8>)>> }
// proved elsewhere: open_as_container_pack, ContainerPack: unit container
#[verifier::external_body]
pub fn open_pack(path: Path) -> (r: Result<ContainerPack>) ensures r matches Ok(c) ==> c.packs@ == packs_of(path) { unimplemented!() }
impl ContainerPack {
    // trusted: HashMap::iter (std) gives every pack once; here the order is that of packs_of
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(Uuid, Reader)>)
        ensures r@.len() == self.packs@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == self.packs@[k].0 && r@[k].1.b@ == self.packs@[k].1,
    { unimplemented!() }
}
impl Reader {
    // proved elsewhere: a stream of a reader gives the bytes asked for: kani contracts of bases/stream.rs
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self.b@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn create_stream(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Source>)
        requires offset.0 + size.0 <= self.b@.len(),
        ensures r matches Ok(s) ==> s.b@ == self.b@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
}
/// every pack of the first n files
pub open spec fn all_packs(p: Seq<Path>, n: int) -> Seq<(Uuid, Seq<u8>)>
    decreases n
{ if n <= 0 { Seq::empty() } else { all_packs(p, n - 1) + packs_of(p[n - 1]) } }
pub open spec fn is_pack(d: Seq<u8>, l: PackLocator, want: (Uuid, Seq<u8>)) -> bool {
    l.uuid == want.0 && l.pack_size.0 == want.1.len() && (want.1.len() > 0 ==> located(d, l) && region(d, l) == want.1)
}
/// these packs are there
pub open spec fn gathered(d: Seq<u8>, packs: Seq<PackLocator>, want: Seq<(Uuid, Seq<u8>)>) -> bool {
    packs.len() == want.len() && forall|k: int| 0 <= k < want.len() ==> is_pack(d, #[trigger] packs[k], want[k])
}
pub proof fn pack_kept(d: Seq<u8>, e: Seq<u8>, l: PackLocator, want: (Uuid, Seq<u8>))
    requires is_pack(d, l, want), extends(e, d),
    ensures is_pack(e, l, want),
{ if want.1.len() > 0 { assert(region(e, l) =~= region(d, l)); } }
pub proof fn all_packs_grow(p: Seq<Path>, a: int, b: int)
    requires 0 <= a <= b,
    ensures all_packs(p, a).len() <= all_packs(p, b).len(),
    decreases b,
{ if a < b { all_packs_grow(p, a, b - 1); } }
impl ContainerPackCreator {
    /*@fn src/creator/container_pack.rs | impl ContainerPackCreator<NamedFile> | new
    ensures r matches Ok(c) ==> c.inv() && c.packs@.len() == 0 && c.free_data == free_data,
    @sub `impl AsRef<Utf8Path>` => `Path`
    @*/
}
/*@fn src/tools.rs | | concat
requires
    // (a container counts its packs on 16 bits)
    all_packs(infiles@, infiles@.len() as int).len() <= u16::MAX,
ensures
    // the file is a container that has every pack of every input
    r is Ok ==> exists|packs: Seq<PackLocator>, table: int, ph: PackHeader, ch: ContainerPackHeader, none: CheckInfo, free: PackFreeData|
        #[trigger] image(final(out)@, packs, table, ph, ch, none, free) && gathered(final(out)@, packs, all_packs(infiles@, infiles@.len() as int)),
@sub `infiles: &[impl AsRef<Path>], outfile: impl AsRef<Utf8Path>` => `infiles: &[Path], outfile: Path, out: &mut Ghost<Seq<u8>>`
@sub `jbk::Result` => `Result`
@sub `jbk::creator::ContainerPackCreator::new(&outfile, Default::default())` => `ContainerPackCreator::new(outfile, PackFreeData(0))`
@sub `for infile in infiles` => `for infile in it: infiles`
@sub `/for \(uuid, reader\) in in_container.iter\(\) \{/` => `for pack in it2: in_container.iter() { let uuid = &pack.0; let reader = &pack.1;`
@sub `/container\.finalize\(\)\?;/` => `let ghost before = container; let finished = container.finalize()?; *out = Ghost(finished.data@); proof { written_all(before, finished@, all_packs(infiles@, infiles@.len() as int)); }`
@loop 1
    invariant
        container.inv(), it.seq().len() == infiles@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == infiles@[k],
        gathered(container.file@, container.packs@, all_packs(infiles@, it.index@)),
@loop 2
    invariant
        container.inv(), 0 <= it.index@ < infiles@.len(), in_container.packs@ == packs_of(infiles@[it.index@]), it2.seq().len() == in_container.packs@.len(),
        forall|k: int| 0 <= k < it2.seq().len() ==> (#[trigger] it2.seq()[k]).0 == in_container.packs@[k].0 && it2.seq()[k].1.b@ == in_container.packs@[k].1,
        gathered(container.file@, container.packs@, all_packs(infiles@, it.index@) + in_container.packs@.take(it2.index@)),
@before `container.add_pack(`
    let ghost before = container;
    let ghost want = all_packs(infiles@, it.index@) + in_container.packs@.take(it2.index@);
@after `container.add_pack(`
    proof {
        let now = all_packs(infiles@, it.index@) + in_container.packs@.take(it2.index@ + 1);
        assert(now =~= want.push(in_container.packs@[it2.index@]));
        assert forall|k: int| 0 <= k < now.len() implies is_pack(container.file@, #[trigger] container.packs@[k], now[k]) by {
            if k < want.len() { assert(is_pack(before.file@, before.packs@[k], want[k])); pack_kept(before.file@, container.file@, before.packs@[k], want[k]); }
            else { assert(container.holds(container.packs@[k])); assert(reader.b@.subrange(0, reader.b@.len() as int) =~= reader.b@); }
        }
    }
@*/
pub proof fn written_all(c: ContainerPackCreator, d: Seq<u8>, want: Seq<(Uuid, Seq<u8>)>)
    requires gathered(c.file@, c.packs@, want), extends(d, c.file@),
    ensures gathered(d, c.packs@, want),
{
    assert forall|k: int| 0 <= k < want.len() implies is_pack(d, #[trigger] c.packs@[k], want[k]) by { pack_kept(c.file@, d, c.packs@[k], want[k]); }
}
} // verus!
fn main() {}
