/*@ C02 C14 C16: what the file of a directory pack is made of: each index, entry store and value store is its data followed by a checked block
that describes it, no longer than what the pointer to it can say (WritableTell write, Index and FinalEntryStore write_data, serialize_tail); the
three tables of pointers, in the order of the indexes and stores, are where the header says; then comes the check value of all this and the mirrored
header (FinalizedDirectoryPackCreator write); an index is written as it was given (Index new, DirectoryPackCreator create_index). */
use vstd::prelude::*;
verus! {
/*@types EntryIdx EntryCount u32 EntryStoreIdx EntryStoreCount u32 ValueStoreIdx ValueStoreCount u8 IndexIdx IndexCount u32 PropertyIdx PropertyCount u8 sizes @*/
/*@include std.inc @*/
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
impl FromSpecImpl<IoError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IoError) -> Error { Error } }
impl From<IoError> for Error { #[verifier::external_body] fn from(v: IoError) -> Error { unimplemented!() } }
// trusted: io::Error::new
#[verifier::external_body]
pub fn too_big() -> IoError { unimplemented!() }
/*@include outfile.inc @*/
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid(pub u128);
impl Uuid {
    // trusted: uuid v4
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct PackId(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
#[derive(Clone, Copy)] pub struct VendorId(pub u32);
#[derive(Clone, Copy)] pub struct PackFreeData(pub u8);
#[derive(Clone, Copy)] pub struct IndexFreeData(pub u8);
pub enum CheckKind { None, Blake3 }
impl CheckKind {
    // proved elsewhere: kani contract of common/check.rs
    #[verifier::external_body]
    pub fn block_size(self) -> (r: ASize) ensures r.0 == (if self is None { 5int } else { 37 }) { unimplemented!() }
}
pub struct PackHeaderInfo { pub app_vendor_id: VendorId, pub file_size: Size, pub check_info_pos: Offset }
impl PackHeaderInfo {
    /*@fn src/common/headers/pack.rs | impl PackHeaderInfo | new
    ensures r.app_vendor_id == app_vendor_id, r.file_size == file_size, r.check_info_pos == check_info_pos,
    @*/
}
pub struct PackHeader { pub magic: PackKind, pub app_vendor_id: VendorId, pub major_version: u8, pub minor_version: u8, pub uuid: Uuid, pub flags: u8, pub file_size: Size, pub check_info_pos: Offset }
pub struct DirectoryPackHeader { pub index_ptr_pos: Offset, pub entry_store_ptr_pos: Offset, pub value_store_ptr_pos: Offset, pub index_count: IndexCount, pub entry_store_count: EntryStoreCount, pub value_store_count: ValueStoreCount, pub free_data: PackFreeData }
#[derive(Clone, Copy)] pub struct CheckInfo { pub b3hash: Option<Hash> }
#[derive(Clone, Copy)] pub struct Hash(pub u128);
pub struct SizedOffset { pub size: ASize, pub offset: Offset }
// proved elsewhere: the sizes of the blocks: kani contracts of common/headers, common/check.rs
impl PackHeader { pub const BLOCK_SIZE: usize = 64;
    /*@fn src/common/headers/pack.rs | impl PackHeader | new
    ensures r.magic == magic, r.app_vendor_id == pack_info.app_vendor_id, r.file_size == pack_info.file_size, r.check_info_pos == pack_info.check_info_pos, r.major_version == 0, r.minor_version == 2, r.flags == 0,
    @*/
}
impl DirectoryPackHeader { pub const BLOCK_SIZE: usize = 64;
    /*@fn src/common/headers/directory_pack.rs | impl DirectoryPackHeader | new
    ensures
        r.index_ptr_pos == indexes.1, r.index_count == indexes.0, r.entry_store_ptr_pos == entry_stores.1, r.entry_store_count == entry_stores.0,
        r.value_store_ptr_pos == value_stores.1, r.value_store_count == value_stores.0, r.free_data == free_data,
    @*/
}
pub uninterp spec fn blake3(d: Seq<u8>) -> Hash;
impl CheckInfo {
    // trusted: blake3 hashes what it reads to the end
    #[verifier::external_body]
    pub fn new_blake3(file: &mut OutFile) -> (r: IoResult<CheckInfo>)
        requires old(file).ok(), old(file).pos@ <= old(file)@.len(),
        ensures
            final(file).data == old(file).data, final(file).ok(),
            r matches Ok(c) ==> final(file).pos@ == final(file)@.len() && c.b3hash == Some(blake3(old(file)@.subrange(old(file).pos@, old(file)@.len() as int))),
    { unimplemented!() }
}
impl Ser for PackHeader { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 64 } }
impl Ser for DirectoryPackHeader { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { 64 } }
impl Ser for CheckInfo { uninterp spec fn block(&self) -> Seq<u8>; open spec fn size(&self) -> int { if self.b3hash is None { 5 } else { 37 } } }

// ---- blocks
pub enum BlockCheck { None, Crc32 }
/// the four bytes of the CRC
pub uninterp spec fn crc(b: Seq<u8>) -> Seq<u8>;
pub open spec fn blk(b: Seq<u8>) -> Seq<u8> { b + crc(b) }
// proved elsewhere: the CRC of a block is the last four bytes of it: kani contracts of bases/block.rs, bases/write.rs
pub proof fn crc_len(b: Seq<u8>) ensures crc(b).len() == 4 { admit() }
pub struct Serializer { pub b: Ghost<Seq<u8>>, pub check: Ghost<BlockCheck> }
impl Serializer {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    // proved elsewhere: Serializer::new, close, write_u8, write_data: kani contracts of bases/write.rs
    #[verifier::external_body]
    pub fn new(check: BlockCheck) -> (r: Serializer) ensures r@.len() == 0, r.check@ == check { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u8(&mut self, v: u8) -> (r: IoResult<usize>) ensures final(self).check == old(self).check, r is Ok ==> final(self)@ == old(self)@.push(v) { unimplemented!() }
}
impl OutFile {
    // proved elsewhere: write_serializer: the bytes and their CRC: kani contract of bases/write.rs
    #[verifier::external_body]
    pub fn write_serializer(&mut self, ser: Serializer) -> (r: IoResult<usize>)
        requires old(self).ok(), ser.check@ is Crc32,
        ensures
            final(self).ok(),
            r matches Ok(n) ==> n == ser@.len() && final(self)@ == splice(old(self)@, old(self).pos@, blk(ser@)) && final(self).pos@ == old(self).pos@ + blk(ser@).len(),
    { unimplemented!() }
    // trusted: BufWriter (std): what is written through it is in the file once it is flushed or taken back; it is asked where it is
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: IoResult<()>) requires old(self).ok() ensures *final(self) == *old(self) { unimplemented!() }
}
/// the bytes of these, as they are serialized
pub uninterp spec fn sized_offset(s: SizedOffset) -> Seq<u8>;
pub uninterp spec fn index_free(f: IndexFreeData) -> Seq<u8>;
pub uninterp spec fn pstring(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn le4(v: u32) -> Seq<u8>;
impl SizedOffset {
    // proved elsewhere: kani contract of bases/types/sized_offset.rs
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + sized_offset(*self) { unimplemented!() }
}
// proved elsewhere: the serialization of indices and counts: kani contracts of bases/types
impl EntryStoreIdx {
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + le4(self.0) { unimplemented!() }
}
impl EntryIdx {
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + le4(self.0) { unimplemented!() }
}
impl EntryCount {
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + le4(self.0) { unimplemented!() }
}
impl PropertyIdx {
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@.push(self.0) { unimplemented!() }
}
impl IndexFreeData {
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + index_free(*self) { unimplemented!() }
}
pub struct PString;
impl PString {
    #[verifier::external_body]
    pub fn serialize_string(s: &String, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + pstring(s@) { unimplemented!() }
}
pub proof fn splice_twice(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= p,
    ensures splice(splice(d, p, a), p + a.len(), b) == splice(d, p, a + b),
{
    assert(splice(splice(d, p, a), p + a.len(), b) =~= splice(d, p, a + b));
}
pub trait WritableTell: Sized {
    /// the data (with their CRC), and what describes them
    spec fn data(&self) -> Seq<u8>;
    spec fn tail(&self) -> Seq<u8>;
    /// what must be so for it to be written
    spec fn ready(&self) -> bool;
    fn write_data(&mut self, stream: &mut OutFile) -> (r: Result<()>)
        requires old(stream).ok(), old(self).ready(),
        ensures *final(self) == *old(self), final(stream).ok(), r is Ok ==> final(stream)@ == splice(old(stream)@, old(stream).pos@, old(self).data()) && final(stream).pos@ == old(stream).pos@ + old(self).data().len();
    fn serialize_tail(&mut self, ser: &mut Serializer) -> (r: IoResult<()>)
        requires old(self).ready(),
        ensures *final(self) == *old(self), final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + old(self).tail();
    /*@fn src/creator/mod.rs | mod private :: trait WritableTell | write
    requires old(stream).ok(), old(self).ready(),
    ensures
        *final(self) == *old(self), final(stream).ok(),
        r matches Ok(so) ==> {
            &&& final(stream)@ == splice(old(stream)@, old(stream).pos@, old(self).data() + blk(old(self).tail()))
            &&& final(stream).pos@ == old(stream).pos@ + old(self).data().len() + blk(old(self).tail()).len()
            &&& so.offset.0 == old(stream).pos@ + old(self).data().len() && so.size.0 == old(self).tail().len() && so.size.0 <= 0xFFFF
        },
    @sub `&mut dyn OutStream` => `&mut OutFile`
    @sub `/io::Error::new\(\s*io::ErrorKind::InvalidInput,\s*format!\([^;]*\),\s*\)\s*\.into\(\)/` => `too_big().into()`
    @before `Ok(SizedOffset {`
        proof {
            assert(Seq::<u8>::empty() + self.tail() =~= self.tail());
            splice_twice(old(stream)@, old(stream).pos@, self.data(), blk(self.tail()));
        }
    @*/
}

// ---- an index
pub struct Word<T> { pub val: T }
impl Word<EntryIdx> {
    // proved elsewhere: what a Word from a Bound gives: unit entry_store
    #[verifier::external_body]
    pub fn get(&self) -> (r: EntryIdx) ensures r == self.val { unimplemented!() }
}
pub struct Index { pub store_id: EntryStoreIdx, pub free_data: IndexFreeData, pub index_key: PropertyIdx, pub name: String, pub count: EntryCount, pub offset: Word<EntryIdx> }
impl Index {
    /*@fn src/creator/directory_pack/mod.rs | impl Index | new
    ensures r.store_id == store_id, r.free_data == free_data, r.index_key == index_key, r.name@ == name@, r.count == count, r.offset == offset,
    @*/
}
impl WritableTell for Index {
    open spec fn data(&self) -> Seq<u8> { Seq::empty() }
    open spec fn tail(&self) -> Seq<u8> { ((le4(self.store_id.0) + le4(self.count.0) + le4(self.offset.val.0)) + index_free(self.free_data)).push(self.index_key.0) + pstring(self.name@) }
    open spec fn ready(&self) -> bool { true }
    /*@fn src/creator/directory_pack/mod.rs | impl super::private::WritableTell for Index | write_data
    @sub `&mut dyn OutStream` => `&mut OutFile`
    @sub `_stream` => `stream`
    @*/
    /*@fn src/creator/directory_pack/mod.rs | impl super::private::WritableTell for Index | serialize_tail
    @before `Ok(())`
        proof { assert(ser@ =~= old(ser)@ + self.tail()); }
    @*/
}
// ---- an entry store
pub struct Entry { pub what: Ghost<int> }
/// proved elsewhere: layout Entry serialize_entry: every entry that fits is entry_size bytes, its properties one after the other: unit schema;
/// layout Entry serialize: kani contracts of creator/directory_pack/layout
pub struct Layout { pub entry_size: u16, pub fit: Ghost<Set<Entry>> }
impl Layout {
    pub uninterp spec fn enc(&self, e: Entry) -> Seq<u8>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn serialize_entry(&self, entry: &Entry, ser: &mut Serializer) -> (r: Result<usize>)
        requires self.fit@.contains(*entry),
        ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + self.enc(*entry),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>) ensures final(ser).check == old(ser).check, r is Ok ==> final(ser)@ == old(ser)@ + self.bytes() { unimplemented!() }
}
pub struct FinalEntryStore { pub entries: Vec<Entry>, pub layout: Layout }
pub open spec fn encs(l: Layout, e: Seq<Entry>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { encs(l, e, n - 1) + l.enc(e[n - 1]) } }
impl WritableTell for FinalEntryStore {
    open spec fn data(&self) -> Seq<u8> { blk(encs(self.layout, self.entries@, self.entries@.len() as int)) }
    open spec fn tail(&self) -> Seq<u8> { (seq![0u8] + le4(self.entries@.len() as u32)).push(0u8) + self.layout.bytes() }
    // (a store is numbered on 32 bits: unit entry_store, set_entry_idx)
    open spec fn ready(&self) -> bool { self.entries@.len() <= u32::MAX && forall|i: int| 0 <= i < self.entries@.len() ==> self.layout.fit@.contains(#[trigger] self.entries@[i]) }
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> WritableTell for FinalEntryStore<PN, VN, Entry> where PN: PropertyName + std::fmt::Debug, VN: VariantName + std::fmt::Debug, Entry: FullEntryTrait<PN, VN>, | write_data
    @sub `&mut dyn OutStream` => `&mut OutFile`
    @sub `for entry in &self.entries` => `for entry in it: &self.entries`
    @loop 1
        invariant
            *self == *old(self), *stream == *old(stream), stream.ok(), serializer.check@ is Crc32, self.ready(), it.seq().len() == self.entries@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == self.entries@[k],
            serializer@ == encs(self.layout, self.entries@, it.index@),
    @before `self.layout.serialize_entry(`
        proof { assert(self.layout.fit@.contains(self.entries@[it.index@])); }
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> WritableTell for FinalEntryStore<PN, VN, Entry> where PN: PropertyName + std::fmt::Debug, VN: VariantName + std::fmt::Debug, Entry: FullEntryTrait<PN, VN>, | serialize_tail
    @sub `std::io::Result` => `IoResult`
    @before `Ok(())`
        proof { assert(ser@ =~= old(ser)@ + self.tail()); }
    @*/
}
// ---- the directory pack
/// proved elsewhere: value stores, their write_data and serialize_tail: unit value_store
pub struct StoreHandle { pub d: Ghost<Seq<u8>>, pub t: Ghost<Seq<u8>> }
impl StoreHandle {
    #[verifier::external_body]
    pub fn write_to(&self, stream: &mut OutFile) -> (r: Result<SizedOffset>)
        requires old(stream).ok(),
        ensures
            final(stream).ok(),
            r matches Ok(so) ==> final(stream)@ == splice(old(stream)@, old(stream).pos@, self.d@ + blk(self.t@)) && final(stream).pos@ == old(stream).pos@ + self.d@.len() + blk(self.t@).len()
                && so.offset.0 == old(stream).pos@ + self.d@.len() && so.size.0 == self.t@.len() && so.size.0 <= 0xFFFF,
    { unimplemented!() }
}
pub struct PackData { pub uuid: Uuid, pub pack_size: Size, pub pack_kind: PackKind, pub pack_id: PackId, pub free_data: Vec<u8>, pub check_info: CheckInfo }
pub struct DirectoryPackCreator { pub app_vendor_id: VendorId, pub pack_id: PackId, pub free_data: PackFreeData, pub value_stores: Vec<StoreHandle>, pub indexes: Vec<Index> }
impl DirectoryPackCreator {
    /*@fn src/creator/directory_pack/directory_pack.rs | impl DirectoryPackCreator | create_index
    ensures
        final(self).value_stores == old(self).value_stores, final(self).free_data == old(self).free_data, final(self).pack_id == old(self).pack_id,
        final(self).indexes@.drop_last() == old(self).indexes@, final(self).indexes@.len() == old(self).indexes@.len() + 1,
        ({ let i = final(self).indexes@.last(); i.store_id == store_id && i.free_data == free_data && i.index_key == index_key && i.name@ == name@ && i.count == count && i.offset == offset }),
    @after `self.indexes.push(`
        proof { assert(self.indexes@.drop_last() =~= old(self).indexes@); }
    @*/
}
pub struct FinalizedDirectoryPackCreator { pub app_vendor_id: VendorId, pub pack_id: PackId, pub free_data: PackFreeData, pub value_stores: Vec<StoreHandle>, pub entry_stores: Vec<Box<FinalEntryStore>>, pub indexes: Vec<Index> }
/// this is where the pointer says: its data, then what describes it
pub open spec fn there(d: Seq<u8>, data: Seq<u8>, tail: Seq<u8>, so: SizedOffset) -> bool {
    &&& so.size.0 == tail.len() && so.size.0 <= 0xFFFF && 128 <= so.offset.0 - data.len() && so.offset.0 + blk(tail).len() <= d.len()
    &&& d.subrange(so.offset.0 - data.len(), so.offset.0 as int) == data
    &&& d.subrange(so.offset.0 as int, so.offset.0 + blk(tail).len()) == blk(tail)
}
pub open spec fn pointers(s: Seq<SizedOffset>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { pointers(s, n - 1) + sized_offset(s[n - 1]) } }
pub open spec fn table_at(d: Seq<u8>, p: int, s: Seq<SizedOffset>) -> bool {
    let b = blk(pointers(s, s.len() as int));
    128 <= p && p + b.len() <= d.len() && d.subrange(p, p + b.len()) == b
}
pub open spec fn indexes_there(d: Seq<u8>, v: Seq<Index>, s: Seq<SizedOffset>, n: int) -> bool { forall|k: int| 0 <= k < n ==> there(d, (#[trigger] v[k]).data(), v[k].tail(), s[k]) }
pub open spec fn entries_there(d: Seq<u8>, v: Seq<Box<FinalEntryStore>>, s: Seq<SizedOffset>, n: int) -> bool { forall|k: int| 0 <= k < n ==> there(d, (#[trigger] v[k]).data(), v[k].tail(), s[k]) }
pub open spec fn values_there(d: Seq<u8>, v: Seq<StoreHandle>, s: Seq<SizedOffset>, n: int) -> bool { forall|k: int| 0 <= k < n ==> there(d, (#[trigger] v[k]).d@, v[k].t@, s[k]) }
/// e is d from the end of the headers to the end of d
pub open spec fn kept(d: Seq<u8>, e: Seq<u8>) -> bool { e.len() >= d.len() && forall|i: int| 128 <= i < d.len() ==> #[trigger] e[i] == d[i] }
pub proof fn there_kept(d: Seq<u8>, e: Seq<u8>, data: Seq<u8>, tail: Seq<u8>, so: SizedOffset)
    requires there(d, data, tail, so), kept(d, e),
    ensures there(e, data, tail, so),
{
    assert(e.subrange(so.offset.0 - data.len(), so.offset.0 as int) =~= d.subrange(so.offset.0 - data.len(), so.offset.0 as int));
    assert(e.subrange(so.offset.0 as int, so.offset.0 + blk(tail).len()) =~= d.subrange(so.offset.0 as int, so.offset.0 + blk(tail).len()));
}
pub proof fn all_kept(d: Seq<u8>, e: Seq<u8>, a: Seq<Index>, sa: Seq<SizedOffset>, na: int, b: Seq<Box<FinalEntryStore>>, sb: Seq<SizedOffset>, nb: int, c: Seq<StoreHandle>, sc: Seq<SizedOffset>, nc: int)
    requires kept(d, e), indexes_there(d, a, sa, na), entries_there(d, b, sb, nb), values_there(d, c, sc, nc),
    ensures indexes_there(e, a, sa, na), entries_there(e, b, sb, nb), values_there(e, c, sc, nc),
{
    assert forall|k: int| 0 <= k < na implies there(e, (#[trigger] a[k]).data(), a[k].tail(), sa[k]) by { there_kept(d, e, a[k].data(), a[k].tail(), sa[k]); }
    assert forall|k: int| 0 <= k < nb implies there(e, (#[trigger] b[k]).data(), b[k].tail(), sb[k]) by { there_kept(d, e, b[k].data(), b[k].tail(), sb[k]); }
    assert forall|k: int| 0 <= k < nc implies there(e, (#[trigger] c[k]).d@, c[k].t@, sc[k]) by { there_kept(d, e, c[k].d@, c[k].t@, sc[k]); }
}
pub proof fn table_kept(d: Seq<u8>, e: Seq<u8>, p: int, s: Seq<SizedOffset>)
    requires table_at(d, p, s), kept(d, e),
    ensures table_at(e, p, s),
{ let n = blk(pointers(s, s.len() as int)).len(); assert(e.subrange(p, p + n) =~= d.subrange(p, p + n)); }
/// something was written at the end
pub proof fn appended(d: Seq<u8>, p: int, data: Seq<u8>, tail: Seq<u8>, so: SizedOffset)
    requires 128 <= p, d.len() == p || d.len() < 128 && p == 128, so.offset.0 == p + data.len(), so.size.0 == tail.len(), so.size.0 <= 0xFFFF,
    ensures ({ let e = splice(d, p, data + blk(tail)); kept(d, e) && there(e, data, tail, so) && e.len() == p + data.len() + blk(tail).len() }),
{
    crc_len(tail);
    let e = splice(d, p, data + blk(tail));
    assert(e.subrange(so.offset.0 - data.len(), so.offset.0 as int) =~= data);
    assert(e.subrange(so.offset.0 as int, so.offset.0 + blk(tail).len()) =~= blk(tail));
}
pub proof fn table_appended(d: Seq<u8>, p: int, s: Seq<SizedOffset>)
    requires 128 <= p, d.len() == p || d.len() < 128 && p == 128,
    ensures ({ let b = blk(pointers(s, s.len() as int)); let e = splice(d, p, b); kept(d, e) && table_at(e, p, s) && e.len() == p + b.len() }),
{
    let b = blk(pointers(s, s.len() as int));
    crc_len(pointers(s, s.len() as int));
    let e = splice(d, p, b);
    assert(e.subrange(p, p + b.len()) =~= b);
}
pub open spec fn at<T: Ser>(d: Seq<u8>, p: int, t: T) -> bool { d.subrange(p, p + t.size()) == t.block() }
pub open spec fn directory_image(d: Seq<u8>, f: FinalizedDirectoryPackCreator, ph: PackHeader, dh: DirectoryPackHeader, si: Seq<SizedOffset>, se: Seq<SizedOffset>, sv: Seq<SizedOffset>, check: CheckInfo) -> bool {
    let c = ph.check_info_pos.0 as int;
    &&& d.len() == c + 37 + 64 && ph.magic is Directory && ph.file_size.0 == d.len() && ph.app_vendor_id == f.app_vendor_id && at(d, 0, ph) && at(d, 64, dh)
    &&& dh.free_data == f.free_data && dh.index_count.0 == f.indexes@.len() && dh.entry_store_count.0 == f.entry_stores@.len() && dh.value_store_count.0 == f.value_stores@.len()
    &&& si.len() == f.indexes@.len() && se.len() == f.entry_stores@.len() && sv.len() == f.value_stores@.len()
    &&& table_at(d, dh.index_ptr_pos.0 as int, si) && table_at(d, dh.entry_store_ptr_pos.0 as int, se) && table_at(d, dh.value_store_ptr_pos.0 as int, sv)
    &&& indexes_there(d, f.indexes@, si, si.len() as int) && entries_there(d, f.entry_stores@, se, se.len() as int) && values_there(d, f.value_stores@, sv, sv.len() as int)
    &&& check.b3hash == Some(blake3(d.subrange(0, c))) && at(d, c, check)
    &&& d.subrange(c + 37, c + 101) == ph.block().reverse()
}
impl FinalizedDirectoryPackCreator {
    /*@fn src/creator/directory_pack/directory_pack.rs | impl FinalizedDirectoryPackCreator | write
    requires
        // (the pointers are positions in the file: the pack is at its start)
        old(file).ok(), old(file)@.len() == 0, old(file).pos@ == 0,
        // (DirectoryPackCreator finalize: unit entry_store)
        self.value_stores@.len() <= u8::MAX, self.entry_stores@.len() <= u32::MAX, self.indexes@.len() <= u32::MAX, forall|k: int| 0 <= k < self.entry_stores@.len() ==> (#[trigger] self.entry_stores@[k]).ready(),
    ensures
        r matches Ok(p) ==> exists|ph: PackHeader, dh: DirectoryPackHeader, si: Seq<SizedOffset>, se: Seq<SizedOffset>, sv: Seq<SizedOffset>, check: CheckInfo| {
            &&& #[trigger] directory_image(final(file)@, self, ph, dh, si, se, sv, check)
            &&& p.uuid == ph.uuid && p.pack_id == self.pack_id && p.pack_kind is Directory && p.pack_size.0 == final(file)@.len() && p.check_info == check
        },
        r is Ok ==> final(file).pos@ == 0,
    @sub `write<O: InOutStream>` => `write`
    @sub `&mut O` => `&mut OutFile`
    @sub `/info!\([^;]*\);/` => ` `
    @sub `BufWriter::new(file)` => `file`
    @sub `/let mut (\w+)_offsets = vec!\[\];/` => `let mut \1_offsets: Vec<SizedOffset> = Vec::new();`
    @sub `/for (\w+) in &mut self\.indexes \{([^{}]*)&mut buffered([^{}]*)\}/` => `let mut n: usize = 0; while n < self.indexes.len() { let ghost (d0, p0) = (buffered@, buffered.pos@); let \1 = &mut self.indexes[n]; \2buffered\3 n += 1; }`
    @sub `/for mut (\w+) in self\.entry_stores \{([^{}]*)&mut buffered([^{}]*)\}/` => `let mut m: usize = 0; while m < self.entry_stores.len() { let ghost (d0, p0) = (buffered@, buffered.pos@); let \1 = &mut *self.entry_stores[m]; \2buffered\3 m += 1; }`
    @sub `/for (\w+) in &self\.value_stores \{([^{}]*)\.write\(\)\.unwrap\(\)\.write\(&mut buffered([^{}]*)\}/` => `for \1 in it: &self.value_stores { let ghost (d0, p0) = (buffered@, buffered.pos@); \2.write_to(buffered\3}`
    @sub `/buffered\.ser_callable\(&\|ser\| \{\s*for offset in &(\w+) \{\s*offset\.serialize\(ser\)\?;\s*\}\s*Ok\(\(\)\)\s*\}\)\?;/` => `let ghost (d0, p0) = (buffered@, buffered.pos@); let mut ser = Serializer::new(BlockCheck::Crc32); for offset in it: &\1 { offset.serialize(&mut ser)?; } buffered.write_serializer(ser)?;`
    @sub `buffered.into_inner().unwrap()` => `buffered`
    @sub `tail_buffer.reverse();` => `reverse(&mut tail_buffer);`
    @sub `Default::default()` => `Vec::new()`
    @start
        let ghost f0 = self;
    @loop 1
        invariant
            n <= this.indexes@.len(), this.indexes@ =~= self.indexes@, this.entry_stores == self.entry_stores, this.value_stores == self.value_stores, this.free_data == self.free_data, this.pack_id == self.pack_id, this.app_vendor_id == self.app_vendor_id,
            indexes_offsets@.len() == n, buffered.ok(), 128 <= buffered.pos@, buffered@.len() == buffered.pos@ || buffered@.len() < 128 && buffered.pos@ == 128,
            indexes_there(buffered@, self.indexes@, indexes_offsets@, n as int),
        decreases this.indexes@.len() - n,
    @before `n += 1;`
        proof {
            let so = indexes_offsets@.last();
            let i = self.indexes@[n as int];
            appended(d0, p0, i.data(), i.tail(), so);
            assert forall|k: int| 0 <= k <= n implies there(buffered@, (#[trigger] self.indexes@[k]).data(), self.indexes@[k].tail(), indexes_offsets@[k]) by { if k < n { there_kept(d0, buffered@, self.indexes@[k].data(), self.indexes@[k].tail(), indexes_offsets@[k]); } }
        }
    @loop 2
        invariant
            m <= this.entry_stores@.len(), this.indexes@ == self.indexes@, this.entry_stores@ =~= self.entry_stores@, this.value_stores == self.value_stores, this.free_data == self.free_data, this.pack_id == self.pack_id, this.app_vendor_id == self.app_vendor_id,
            entry_stores_offsets@.len() == m, indexes_offsets@.len() == self.indexes@.len(), buffered.ok(), 128 <= buffered.pos@, buffered@.len() == buffered.pos@ || buffered@.len() < 128 && buffered.pos@ == 128,
            forall|k: int| 0 <= k < self.entry_stores@.len() ==> (#[trigger] self.entry_stores@[k]).ready(),
            indexes_there(buffered@, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int), entries_there(buffered@, self.entry_stores@, entry_stores_offsets@, m as int),
        decreases this.entry_stores@.len() - m,
    @before `m += 1;`
        proof {
            let so = entry_stores_offsets@.last();
            let e = self.entry_stores@[m as int];
            appended(d0, p0, e.data(), e.tail(), so);
            all_kept(d0, buffered@, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@.drop_last(), m as int, self.value_stores@, Seq::empty(), 0);
            assert forall|k: int| 0 <= k <= m implies there(buffered@, (#[trigger] self.entry_stores@[k]).data(), self.entry_stores@[k].tail(), entry_stores_offsets@[k]) by { if k < m { assert(entry_stores_offsets@[k] == entry_stores_offsets@.drop_last()[k]); } }
        }
    @loop 3
        invariant
            it.seq().len() == self.value_stores@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == self.value_stores@[k],
            entry_stores_offsets@.len() == self.entry_stores@.len(), indexes_offsets@.len() == self.indexes@.len(), value_stores_offsets@.len() == it.index@,
            buffered.ok(), 128 <= buffered.pos@, buffered@.len() == buffered.pos@ || buffered@.len() < 128 && buffered.pos@ == 128,
            indexes_there(buffered@, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int), entries_there(buffered@, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int),
            values_there(buffered@, self.value_stores@, value_stores_offsets@, it.index@),
    @after `value_stores_offsets.push(`
        proof {
            let so = value_stores_offsets@.last();
            let v = self.value_stores@[it.index@];
            appended(d0, p0, v.d@, v.t@, so);
            all_kept(d0, buffered@, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int, self.value_stores@, value_stores_offsets@.drop_last(), it.index@);
            assert forall|k: int| 0 <= k <= it.index@ implies there(buffered@, (#[trigger] self.value_stores@[k]).d@, self.value_stores@[k].t@, value_stores_offsets@[k]) by { if k < it.index@ { assert(value_stores_offsets@[k] == value_stores_offsets@.drop_last()[k]); } }
        }
    @loop 4
        invariant it.seq().len() == indexes_offsets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == indexes_offsets@[k], ser.check@ is Crc32, ser@ == pointers(indexes_offsets@, it.index@),
    @loop 5
        invariant it.seq().len() == value_stores_offsets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == value_stores_offsets@[k], ser.check@ is Crc32, ser@ == pointers(value_stores_offsets@, it.index@),
    @loop 6
        invariant it.seq().len() == entry_stores_offsets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == entry_stores_offsets@[k], ser.check@ is Crc32, ser@ == pointers(entry_stores_offsets@, it.index@),
    @after 1 `buffered.write_serializer(ser)?;`
        let ghost d1 = buffered@;
        proof {
            table_appended(d0, p0, indexes_offsets@);
            all_kept(d0, d1, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int, self.value_stores@, value_stores_offsets@, value_stores_offsets@.len() as int);
        }
    @after 2 `buffered.write_serializer(ser)?;`
        let ghost d2 = buffered@;
        proof {
            table_appended(d0, p0, value_stores_offsets@);
            table_kept(d1, d2, indexes_ptr_offsets as int, indexes_offsets@);
            all_kept(d1, d2, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int, self.value_stores@, value_stores_offsets@, value_stores_offsets@.len() as int);
        }
    @after 3 `buffered.write_serializer(ser)?;`
        let ghost d3 = buffered@;
        proof {
            table_appended(d0, p0, entry_stores_offsets@);
            table_kept(d2, d3, indexes_ptr_offsets as int, indexes_offsets@);
            table_kept(d2, d3, value_stores_ptr_offsets as int, value_stores_offsets@);
            all_kept(d2, d3, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int, self.value_stores@, value_stores_offsets@, value_stores_offsets@.len() as int);
        }
    @before `let check_info =`
        let ghost covered = file@;
    @before `Ok(PackData {`
        proof {
            let d = file@;
            let c = check_offset as int;
            assert(d.len() == c + 101);
            assert(kept(d3, d));
            table_kept(d3, d, indexes_ptr_offsets as int, indexes_offsets@);
            table_kept(d3, d, value_stores_ptr_offsets as int, value_stores_offsets@);
            table_kept(d3, d, entry_stores_ptr_offsets as int, entry_stores_offsets@);
            all_kept(d3, d, self.indexes@, indexes_offsets@, indexes_offsets@.len() as int, self.entry_stores@, entry_stores_offsets@, entry_stores_offsets@.len() as int, self.value_stores@, value_stores_offsets@, value_stores_offsets@.len() as int);
            assert(d.subrange(0, 64) =~= pack_header.block());
            assert(d.subrange(64, 128) =~= header.block());
            assert(d.subrange(c, c + 37) =~= check_info.block());
            assert(d.subrange(c + 37, c + 101) =~= pack_header.block().reverse());
            assert(d.subrange(0, c) =~= covered.subrange(0, covered.len() as int));
            assert(directory_image(d, self, pack_header, header, indexes_offsets@, entry_stores_offsets@, value_stores_offsets@, check_info));
        }
    @*/
}
} // verus!
fn main() {}
