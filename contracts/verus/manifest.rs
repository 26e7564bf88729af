/*@ C12 C10 C05 C14: the manifest: a pack info is written on 252 bytes, its description on the first 38 and its location on the
rest, and read back as it was (PackInfo serialize, parse); set_location rewrites one pack info, that of the pack it names, and
in it nothing but the location: every other byte of the file, hence of what the check of the manifest covers, is unchanged, and
a pack which is not listed changes nothing; the reader's manifest lists the packs in order (ManifestPack new, get_content_pack_info,
get_content_pack_info_uuid, get_pack_free_data, get_pack_free_data_uuid). */
use vstd::prelude::*;
verus! {
/*@types PackIdx PackCount u16 ValueIdx ValueCount u64 sizes @*/
/*@include std.inc @*/
/*@include bytes.inc @*/
pub proof fn lemma_unle(s: Seq<u8>)
    requires s.len() <= 8,
    ensures unle(s) < p256(s.len() as int), le(unle(s), s.len() as int) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_unle(t);
        assert(s[0] + 256 * unle(t) < p256(s.len() as int));
        assert(((s[0] + 256 * unle(t)) as u64 % 256) as u8 == s[0]);
        assert((s[0] + 256 * unle(t)) as u64 / 256 == unle(t));
        assert(seq![s[0]] + t =~= s);
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn lemma_inj(a: u64, b: u64, n: int)
    requires 1 <= n <= 8, a < p256(n), b < p256(n), le(a, n) == le(b, n),
    ensures a == b,
{ bytes_lemmas::lemma_le0(a, n); bytes_lemmas::lemma_le0(b, n); }

// ---- the fields
// trusted: uuid::Uuid: as_bytes/from_bytes are inverse to each other, == compares the bytes
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid(pub u128);
pub uninterp spec fn ubytes(u: Uuid) -> Seq<u8>;
pub uninterp spec fn uuid_of(b: Seq<u8>) -> Uuid;
#[verifier::external_body]
pub proof fn uuid_bytes(u: Uuid) ensures ubytes(u).len() == 16, uuid_of(ubytes(u)) == u {}
#[derive(Clone, Copy)] pub struct PackId(pub u16);
impl PackId {
    #[verifier::external_body]
    pub fn into_u16(self) -> (r: u16) ensures r == self.0 { unimplemented!() }
}
impl PartialEqSpecImpl for PackId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PackId) -> bool { self.0 == o.0 }
}
impl PartialEq for PackId {
    #[verifier::external_body]
    fn eq(&self, o: &PackId) -> bool { unimplemented!() }
}
impl FromSpecImpl<u16> for PackId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> PackId { PackId(v) } }
impl From<u16> for PackId {
    #[verifier::external_body]
    fn from(v: u16) -> PackId { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
pub open spec fn kind_byte(k: PackKind) -> u8 { match k { PackKind::Manifest => 109, PackKind::Directory => 100, PackKind::Content => 99, PackKind::Container => 67 } }
#[derive(Clone, Copy)] pub struct SizedOffset { pub size: ASize, pub offset: Offset }
impl SizedOffset {
    pub open spec fn ok(&self) -> bool { self.size.0 <= 0xFFFF && self.offset.0 < 0x1_0000_0000_0000 }
    pub open spec fn bits(&self) -> u64 { (self.offset.0 * 0x1_0000 + self.size.0) as u64 }
    // proved elsewhere: SizedOffset: kani contracts of bases/types/sized_offset.rs
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.bits() == 0) { unimplemented!() }
}
/// a string: its UTF-8 bytes
// trusted: SmallString (smallstr): len, as_str, to_owned, clone
pub struct SmallString { pub b: Ghost<Seq<u8>> }
impl SmallString {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &SmallString) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: SmallString) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SmallString) ensures r == *self { unimplemented!() }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| 0u8) }
// proved elsewhere: Uuid, Size, PackId, PackKind, SizedOffset serialize and parse: kani contracts (root, common/headers/pack.rs, bases/types)
macro_rules! ser { ($($t:ty : $n:literal, $e:expr, $pre:expr;)*) => { verus! {
    $(impl $t {
        #[verifier::external_body]
        pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>)
            requires $pre(*self),
            ensures r matches Ok(n) ==> n == $n && final(ser)@ == old(ser)@ + $e(*self)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse(parser: &mut Parser) -> (r: Result<$t>)
            requires old(parser).ok(),
            ensures
                final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
                r matches Ok(v) ==> old(parser).has($n) && $pre(v) && $e(v) == old(parser).next($n) && final(parser).pos() == old(parser).pos() + $n,
        { unimplemented!() }
    })*
} } }
pub open spec fn yes<T>(t: T) -> bool { true }
pub open spec fn enc_size(s: Size) -> Seq<u8> { le(s.0, 8) }
pub open spec fn enc_id(s: PackId) -> Seq<u8> { le(s.0 as u64, 2) }
pub open spec fn enc_kind(s: PackKind) -> Seq<u8> { seq![kind_byte(s)] }
pub open spec fn enc_so(s: SizedOffset) -> Seq<u8> { le(s.bits(), 8) }
pub open spec fn so_ok(s: SizedOffset) -> bool { s.ok() }
ser! {
    Uuid: 16, ubytes, yes;
    Size: 8, enc_size, yes;
    PackId: 2, enc_id, yes;
    PackKind: 1, enc_kind, yes;
    SizedOffset: 8, enc_so, so_ok;
}
pub struct PString;
pub open spec fn enc_location(b: Seq<u8>) -> Seq<u8> { (seq![b.len() as u8] + b) + zeros(213 - b.len()) }
impl PString {
    // proved elsewhere: PString: kani contracts of bases/types/pstring.rs; parse refuses what is not UTF-8
    #[verifier::external_body]
    pub fn serialize_string_padded(s: &SmallString, size: usize, ser: &mut Serializer) -> (r: IoResult<usize>)
        requires s@.len() <= size, size <= 255,
        ensures r matches Ok(n) ==> n == size + 1 && final(ser)@ == old(ser)@ + ((seq![s@.len() as u8] + s@) + zeros(size - s@.len()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(parser: &mut Parser) -> (r: Result<SmallString>)
        requires old(parser).ok(),
        ensures
            final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
            r matches Ok(v) ==> old(parser).has(1 + v@.len() as int) && v@.len() == old(parser).bytes()[old(parser).pos()]
                && v@ == old(parser).bytes().subrange(old(parser).pos() + 1, old(parser).pos() + 1 + v@.len() as int) && final(parser).pos() == old(parser).pos() + 1 + v@.len(),
    { unimplemented!() }
}
impl Parser {
    #[verifier::external_body]
    pub fn read_u16(&mut self) -> (r: Result<u16>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).bytes() == old(self).bytes(),
            r matches Ok(v) ==> old(self).has(2) && v == unle(old(self).next(2)) && le(v as u64, 2) == old(self).next(2) && final(self).pos() == old(self).pos() + 2,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, n: usize) -> (r: Result<()>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).bytes() == old(self).bytes(),
            r is Ok ==> old(self).has(n as int) && final(self).pos() == old(self).pos() + n,
    { unimplemented!() }
}

// ---- a pack info
pub struct PackInfo {
    pub uuid: Uuid, pub pack_size: Size, pub check_info_pos: SizedOffset, pub pack_id: PackId, pub pack_kind: PackKind,
    pub pack_group: u8, pub free_data_id: ValueIdx, pub pack_location: SmallString,
}
impl PackInfo {
    /*@const src/common/pack_info.rs | MAX_LOCATION_LEN @*/
    // proved elsewhere: PackInfo::BLOCK_SIZE is 256: kani contract of common/pack_info.rs
    pub const BLOCK_SIZE: usize = 256;
    /// what 38 bytes and 214 bytes can say
    pub open spec fn ok(&self) -> bool { self.check_info_pos.ok() && self.free_data_id.0 <= 0xFFFF && self.pack_location@.len() <= 213 }
    /// the description of the pack
    pub open spec fn description(&self) -> Seq<u8> {
        ((((((ubytes(self.uuid) + le(self.pack_size.0, 8)) + le(self.check_info_pos.bits(), 8)) + le(self.pack_id.0 as u64, 2))
            + seq![kind_byte(self.pack_kind)]).push(self.pack_group)) + le(self.free_data_id.0, 2))
    }
    pub open spec fn enc(&self) -> Seq<u8> { self.description() + enc_location(self.pack_location@) }
    /// b is a written form of this pack info
    pub open spec fn in_bytes(&self, b: Seq<u8>) -> bool {
        &&& b.len() >= 252 && self.ok() && b.subrange(0, 38) == self.description()
        &&& b[38] == self.pack_location@.len() && b.subrange(39, 39 + b[38]) == self.pack_location@
    }
    pub proof fn description_len(&self)
        requires self.ok(),
        ensures self.description().len() == 38, self.description().subrange(0, 16) == ubytes(self.uuid),
    {
        uuid_bytes(self.uuid);
        broadcast use bytes_lemmas::lemma_le;
        assert(self.check_info_pos.bits() < p256(8) && self.pack_size.0 < p256(8) && self.pack_id.0 < p256(2) && self.free_data_id.0 < p256(2));
        assert(self.description().subrange(0, 16) =~= ubytes(self.uuid));
    }
    /// what is written is a written form
    pub proof fn written(&self, rest: Seq<u8>)
        requires self.ok(),
        ensures self.in_bytes(self.enc() + rest), self.enc().len() == 252,
    {
        self.description_len();
        let b = self.enc() + rest;
        assert(b.subrange(0, 38) =~= self.description());
        assert(b.subrange(39, 39 + self.pack_location@.len() as int) =~= self.pack_location@);
    }
    /// and it is the written form of no other pack info
    pub proof fn one_reading(&self, o: PackInfo, b: Seq<u8>)
        requires self.in_bytes(b), o.in_bytes(b),
        ensures
            self.uuid == o.uuid, self.pack_size.0 == o.pack_size.0, self.check_info_pos.bits() == o.check_info_pos.bits(), self.pack_id.0 == o.pack_id.0,
            kind_byte(self.pack_kind) == kind_byte(o.pack_kind), self.pack_kind == o.pack_kind, self.pack_group == o.pack_group, self.free_data_id.0 == o.free_data_id.0, self.pack_location@ == o.pack_location@,
    {
        broadcast use bytes_lemmas::lemma_le;
        self.description_len(); o.description_len();
        uuid_bytes(self.uuid); uuid_bytes(o.uuid);
        let (d, e) = (self.description(), o.description());
        assert(self.pack_size.0 < p256(8) && self.check_info_pos.bits() < p256(8) && self.pack_id.0 < p256(2) && self.free_data_id.0 < p256(2));
        assert(o.pack_size.0 < p256(8) && o.check_info_pos.bits() < p256(8) && o.pack_id.0 < p256(2) && o.free_data_id.0 < p256(2));
        assert(d.subrange(16, 24) =~= le(self.pack_size.0, 8) && e.subrange(16, 24) =~= le(o.pack_size.0, 8));
        assert(d.subrange(24, 32) =~= le(self.check_info_pos.bits(), 8) && e.subrange(24, 32) =~= le(o.check_info_pos.bits(), 8));
        assert(d.subrange(32, 34) =~= le(self.pack_id.0 as u64, 2) && e.subrange(32, 34) =~= le(o.pack_id.0 as u64, 2));
        assert(d[34] == kind_byte(self.pack_kind) && e[34] == kind_byte(o.pack_kind));
        assert(d[35] == self.pack_group && e[35] == o.pack_group);
        assert(d.subrange(36, 38) =~= le(self.free_data_id.0, 2) && e.subrange(36, 38) =~= le(o.free_data_id.0, 2));
        lemma_inj(self.pack_size.0, o.pack_size.0, 8); lemma_inj(self.check_info_pos.bits(), o.check_info_pos.bits(), 8);
        lemma_inj(self.pack_id.0 as u64, o.pack_id.0 as u64, 2); lemma_inj(self.free_data_id.0, o.free_data_id.0, 2);
    }
    /*@fn src/common/pack_info.rs | impl Serializable for PackInfo | serialize
    requires self.ok(),
    ensures r matches Ok(n) ==> n == 252 && final(ser)@ == old(ser)@ + self.enc(),
    @sub `/written \+= (PString::serialize_string_padded\()/` => `proof { self.description_len(); assert(ser@ =~= old(ser)@ + self.description()); assert(self.free_data_id.0 as u16 == self.free_data_id.0); } written += \1`
    @sub `Ok(written)` => `proof { assert(ser@ =~= old(ser)@ + self.enc()); } Ok(written)`
    @*/
    /*@fn src/common/pack_info.rs | impl Parsable for PackInfo | parse
    requires old(parser).ok(),
    ensures
        final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
        r matches Ok(i) ==> old(parser).has(252) && i.in_bytes(old(parser).next(252)) && final(parser).pos() == old(parser).pos() + 252,
    @sub `&mut impl Parser` => `&mut Parser`
    @sub `/format_error!\([^()]*\)/` => `Error`
    @sub `Ok(Self {` => `proof { parsed_info(old(parser).bytes(), old(parser).pos(), uuid, pack_size, check_info_pos, pack_id, pack_kind, pack_group, free_data_id, pack_location); } Ok(Self {`
    @*/
}
pub proof fn parsed_info(all: Seq<u8>, p: int, uuid: Uuid, pack_size: Size, check_info_pos: SizedOffset, pack_id: PackId, pack_kind: PackKind, pack_group: u8, free_data_id: ValueIdx, pack_location: SmallString)
    requires
        0 <= p, p + 252 <= all.len(), ubytes(uuid) == all.subrange(p, p + 16), le(pack_size.0, 8) == all.subrange(p + 16, p + 24),
        check_info_pos.ok(), le(check_info_pos.bits(), 8) == all.subrange(p + 24, p + 32),
        le(pack_id.0 as u64, 2) == all.subrange(p + 32, p + 34), seq![kind_byte(pack_kind)] == all.subrange(p + 34, p + 35), pack_group == all[p + 35],
        le(free_data_id.0, 2) == all.subrange(p + 36, p + 38), free_data_id.0 <= 0xFFFF,
        pack_location@.len() == all[p + 38], pack_location@.len() <= 213, pack_location@ == all.subrange(p + 39, p + 39 + pack_location@.len() as int),
    ensures
        (PackInfo { uuid, pack_size, check_info_pos, pack_id, pack_kind, pack_group, free_data_id, pack_location }).in_bytes(all.subrange(p, p + 252)),
{
    let i = PackInfo { uuid, pack_size, check_info_pos, pack_id, pack_kind, pack_group, free_data_id, pack_location };
    let b = all.subrange(p, p + 252);
    i.description_len();
    assert(b.subrange(0, 16) =~= all.subrange(p, p + 16)); assert(b.subrange(16, 24) =~= all.subrange(p + 16, p + 24)); assert(b.subrange(24, 32) =~= all.subrange(p + 24, p + 32));
    assert(b.subrange(32, 34) =~= all.subrange(p + 32, p + 34)); assert(seq![b[34]] =~= all.subrange(p + 34, p + 35)); assert(seq![kind_byte(pack_kind)][0] == seq![b[34]][0]);
    assert(b.subrange(36, 38) =~= all.subrange(p + 36, p + 38));
    assert(b.subrange(39, 39 + b[38]) =~= all.subrange(p + 39, p + 39 + b[38]));
    broadcast use bytes_lemmas::lemma_le;
    assert(i.pack_size.0 < p256(8) && i.check_info_pos.bits() < p256(8) && i.pack_id.0 < p256(2) && i.free_data_id.0 < p256(2));
    let d = i.description();
    assert(b.subrange(0, 38) =~= ((((b.subrange(0, 16) + b.subrange(16, 24)) + b.subrange(24, 32)) + b.subrange(32, 34)) + seq![b[34]]).push(b[35]) + b.subrange(36, 38));
}

// ---- the file of the manifest, and what a reader of it is
/// the block of a pack info: its bytes and their CRC
pub uninterp spec fn crc(b: Seq<u8>) -> Seq<u8>;
pub open spec fn block(b: Seq<u8>) -> Seq<u8> { b + crc(b) }
pub struct PackHeader { pub magic: PackKind, pub check_info_pos: Offset, pub file_size: Size, pub uuid: Uuid }
impl PackHeader { pub const BLOCK_SIZE: usize = 64; }
#[derive(Clone, Copy)] pub struct PackFreeData(pub u8);
pub struct ManifestPackHeader { pub pack_count: PackCount, pub value_store_posinfo: SizedOffset, pub free_data: PackFreeData }
pub uninterp spec fn header_in(b: Seq<u8>) -> PackHeader;
pub uninterp spec fn mheader_in(b: Seq<u8>) -> ManifestPackHeader;
pub trait Block: Sized { spec fn read_from(&self, b: Seq<u8>) -> bool; spec fn size() -> int; }
impl Block for PackHeader { open spec fn read_from(&self, b: Seq<u8>) -> bool { *self == header_in(b) } open spec fn size() -> int { 64 } }
impl Block for ManifestPackHeader { open spec fn read_from(&self, b: Seq<u8>) -> bool { *self == mheader_in(b) } open spec fn size() -> int { 64 } }
impl Block for PackInfo { open spec fn read_from(&self, b: Seq<u8>) -> bool { self.in_bytes(b) } open spec fn size() -> int { 256 } }
impl Block for CheckInfo { open spec fn read_from(&self, b: Seq<u8>) -> bool { *self == check_in(b) } open spec fn size() -> int { 0 } }
pub struct CheckInfo(pub u8);
pub uninterp spec fn check_in(b: Seq<u8>) -> CheckInfo;
impl BlockCheck {
    // proved elsewhere: kani contract of bases/block.rs
    #[verifier::external_body]
    pub const fn size(self) -> (r: usize) ensures r == (if self is Crc32 { 4int } else { 0 }) { unimplemented!() }
}
pub struct ValueStore(pub u64);
pub uninterp spec fn store_at(bytes: Seq<u8>, so: SizedOffset) -> ValueStore;
impl ValueStore {
    pub uninterp spec fn value(&self, id: u64) -> Seq<u8>;
    // proved elsewhere: unit value_store
    #[verifier::external_body]
    pub fn get_data(&self, id: ValueIdx, size: Option<ASize>) -> (r: Result<&[u8]>)
        ensures size is None ==> (r matches Ok(d) ==> d@ == self.value(id.0)),
    { unimplemented!() }
}
pub struct Reader { pub b: Ghost<Seq<u8>>, pub at: Ghost<int> }
impl Reader {
    pub open spec fn bytes(&self) -> Seq<u8> { self.b@ }
    // assumed: what parse_block_at gives was parsed from the bytes of the block, which are in the reader (Kani: block parsing, CRC)
    #[verifier::external_body]
    pub fn parse_block_at<T: Block>(&self, offset: Offset) -> (r: Result<T>)
        ensures r matches Ok(v) ==> offset.0 + T::size() <= self.bytes().len() && v.read_from(self.bytes().subrange(offset.0 as int, offset.0 + T::size())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_block_in<T: Block>(&self, offset: Offset, size: ASize) -> (r: Result<T>)
        ensures r matches Ok(v) ==> offset.0 + size.0 <= self.bytes().len() && v.read_from(self.bytes().subrange(offset.0 as int, offset.0 + size.0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_data_block(&self, so: SizedOffset) -> (r: Result<ValueStore>)
        ensures r matches Ok(v) ==> v == store_at(self.bytes(), so),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn global_offset(&self) -> (r: Offset) ensures r.0 == self.at@ { unimplemented!() }
}
pub struct OnceLock;
impl OnceLock { #[verifier::external_body] pub fn new() -> OnceLock { unimplemented!() } }

pub struct PackOffsetsIter { pub offset: Offset, pub left: u16 }
impl PackOffsetsIter {
    pub open spec fn inv(&self) -> bool { self.offset.0 + self.left * 256 <= u64::MAX }
    /*@fn src/reader/manifest_pack.rs | impl PackOffsetsIter | new
    requires pack_count.0 * 256 <= check_info_pos.0,
    ensures r.inv(), r.left == pack_count.0, r.offset.0 + pack_count.0 * 256 == check_info_pos.0,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl Iterator for PackOffsetsIter | next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        old(self).left == 0 ==> r is None && *final(self) == *old(self),
        old(self).left > 0 ==> r == Some(old(self).offset) && final(self).left == old(self).left - 1 && final(self).offset.0 == old(self).offset.0 + 256,
    @sub `Self::Item` => `Offset`
    @*/
}

/// the manifest in these bytes: how many packs, where their infos are
pub open spec fn count(m: Seq<u8>) -> int { mheader_in(m.subrange(64, 128)).pack_count.0 as int }
pub open spec fn info_at(m: Seq<u8>, k: int) -> int { header_in(m.subrange(0, 64)).check_info_pos.0 - 256 * (count(m) - k) }
pub open spec fn info_block(m: Seq<u8>, k: int) -> Seq<u8> { m.subrange(info_at(m, k), info_at(m, k) + 256) }
/// block b is that of the pack of this uuid
pub open spec fn names(b: Seq<u8>, u: Uuid) -> bool { b.len() == 256 && b.subrange(0, 16) == ubytes(u) }

// trusted: the files; the file of a manifest does not change between its opening and the write
#[derive(Clone, Copy)] pub struct Path;
/// the manifest in the file of this name: where it starts, how long it is
pub struct Disk { pub file: Ghost<Seq<u8>>, pub at: Ghost<int>, pub len: Ghost<int> }
impl Disk {
    pub open spec fn ok(&self) -> bool { 0 <= self.at@ && 0 <= self.len@ && self.at@ + self.len@ <= self.file@.len() <= i64::MAX }
    pub open spec fn manifest(&self) -> Seq<u8> { self.file@.subrange(self.at@, self.at@ + self.len@) }
    /// set_location trusts the header it is given on this (the reader checks it): see DESIGN.md
    pub open spec fn sane(&self) -> bool { self.len@ >= 128 ==> info_at(self.manifest(), 0) >= 0 }
}
pub struct ContainerPack { pub b: Ghost<Seq<u8>>, pub at: Ghost<int> }
// assumed: open_pack, get_manifest_pack_reader: the manifest of the file, if there is one
#[verifier::external_body]
pub fn open_pack(p: &Path, disk: &mut Disk) -> (r: Result<ContainerPack>)
    ensures *final(disk) == *old(disk), r matches Ok(c) ==> c.b@ == old(disk).manifest() && c.at@ == old(disk).at@,
{ unimplemented!() }
impl ContainerPack {
    #[verifier::external_body]
    pub fn get_manifest_pack_reader(&self) -> (r: Result<Option<Reader>>)
        ensures r matches Ok(Some(x)) ==> x.bytes() == self.b@ && x.at@ == self.at@,
    { unimplemented!() }
}
pub struct OpenOptions { pub w: bool, pub wipe: bool }
pub struct File { pub pos: Ghost<int> }
pub enum SeekFrom { Start(u64), Current(i64), End(i64) }
impl OpenOptions {
    #[verifier::external_body]
    pub fn new() -> (r: OpenOptions) ensures !r.w && !r.wipe { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.w == b, r.wipe == self.wipe { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r.w == self.w, r.wipe == self.wipe { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.w == self.w, r.wipe == (self.wipe || b) { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.w == self.w, r.wipe == self.wipe { unimplemented!() }
    #[verifier::external_body]
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r.w == self.w, r.wipe == (self.wipe || b) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(self, p: &Path, disk: &mut Disk) -> (r: Result<File>)
        requires self.w && !self.wipe,
        ensures *final(disk) == *old(disk), r matches Ok(f) ==> f.pos@ == 0,
    { unimplemented!() }
}
/// these bytes of the file were replaced, none added
pub open spec fn patched(a: Seq<u8>, b: Seq<u8>, at: int, what: Seq<u8>) -> bool {
    b == a.subrange(0, at) + what + a.subrange(at + what.len(), a.len() as int)
}
/// 256 bytes at most were written
pub open spec fn spoiled(a: Seq<u8>, b: Seq<u8>, at: int) -> bool { exists|w: Seq<u8>| w.len() == 256 && #[trigger] patched(a, b, at, w) }
impl File {
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
        ensures p matches SeekFrom::Start(o) ==> (r is Ok ==> final(self).pos@ == o),
    { unimplemented!() }
    // proved elsewhere: ser_write: a block is what serialize writes and its CRC (Kani: bases/block.rs, bases/write.rs)
    #[verifier::external_body]
    pub fn ser_write(&mut self, i: &PackInfo, disk: &mut Disk) -> (r: Result<usize>)
        requires i.ok(), 0 <= old(self).pos@, old(self).pos@ + 256 <= old(disk).file@.len(), old(disk).ok(),
        ensures
            final(disk).at == old(disk).at, final(disk).len == old(disk).len,
            r is Ok ==> patched(old(disk).file@, final(disk).file@, old(self).pos@, block(i.enc())),
            r is Err ==> spoiled(old(disk).file@, final(disk).file@, old(self).pos@),
    { unimplemented!() }
}
/// the k-th info is that of this pack, and the first one; its location, and nothing else of what it says, became l
pub open spec fn relocated(a: Disk, b: Disk, k: int, i: PackInfo, u: Uuid, l: SmallString) -> bool {
    let m = a.manifest();
    &&& 0 <= k < count(m) && 0 <= info_at(m, k) && info_at(m, k) + 256 <= m.len()
    &&& i.in_bytes(info_block(m, k)) && i.uuid == u
    &&& forall|j: int| 0 <= j < k ==> !names(#[trigger] info_block(m, j), u)
    &&& patched(a.file@, b.file@, a.at@ + info_at(m, k), block(PackInfo { pack_location: l, ..i }.enc()))
}
/*@fn src/tools.rs | | set_location
requires old(disk).ok(), old(disk).sane(),
ensures
    final(disk).at == old(disk).at, final(disk).len == old(disk).len,
    // the pack is not listed: nothing changes
    r matches Ok(None) ==> *final(disk) == *old(disk) && forall|j: int| 0 <= j < count(old(disk).manifest()) ==> !names(#[trigger] info_block(old(disk).manifest(), j), uuid),
    // it is: its old location is given back, and replaced
    r matches Ok(Some(o)) ==> exists|k: int, i: PackInfo| #[trigger] relocated(*old(disk), *final(disk), k, i, uuid, new_location) && o.0 == i.pack_kind && o.1@ == i.pack_location@,
    // an error changes nothing, or the bytes of the pack's info only
    r is Err ==> *final(disk) == *old(disk) || exists|k: int| 0 <= k < count(old(disk).manifest()) && names(#[trigger] info_block(old(disk).manifest(), k), uuid)
        && spoiled(old(disk).file@, final(disk).file@, old(disk).at@ + info_at(old(disk).manifest(), k)),
    // a location that does not fit is refused
    new_location@.len() > 213 ==> r is Err && *final(disk) == *old(disk),
@sub `filename: impl AsRef<Path>,` => `filename: Path, disk: &mut Disk,`
@sub `jbk::Result` => `Result`
@sub `/format_error!\(format!\((?:[^()]|\([^()]*\))*\)\)/` => `Error`
@sub `Arc::new(jbk::tools::open_pack(&filename)?)` => `open_pack(&filename, disk)?`
@sub `jbk::Offset` => `Offset`
@sub `std::fs::OpenOptions` => `OpenOptions`
@sub `.open(&filename)` => `.open(&filename, disk)`
@sub `ser_write(&pack_info)` => `ser_write(&pack_info, disk)`
@sub `/(let mut pack_info\s*=[^;]*;)/` => `\1 proof { let b = info_block(disk.manifest(), n - 1); pack_info.description_len(); uuid_bytes(pack_info.uuid); uuid_bytes(uuid); assert(b.subrange(0, 38).subrange(0, 16) =~= b.subrange(0, 16)); } let ghost info = pack_info;`
@sub `for pack_offset in pack_offsets {` => `let mut pack_offsets = pack_offsets; let ghost mut n: int = 0; loop { let pack_offset = match pack_offsets.next() { Some(o) => o, None => break }; proof { n = n + 1; }`
@loop 1
    invariant_except_break
        forall|j: int| 0 <= j < n ==> !names(#[trigger] info_block(disk.manifest(), j), uuid),
    invariant
        old(disk).ok(), old(disk).sane(), *disk == *old(disk), new_location@.len() <= 213, pack_offsets.inv(), manifest_pack_reader.bytes() == disk.manifest(), manifest_pack_reader.at@ == disk.at@, 
        disk.manifest().len() >= 128, 0 <= n <= count(disk.manifest()), n + pack_offsets.left == count(disk.manifest()),
        pack_offsets.offset.0 == info_at(disk.manifest(), n),
    ensures
        n == count(disk.manifest()), forall|j: int| 0 <= j < n ==> !names(#[trigger] info_block(disk.manifest(), j), uuid),
    decreases pack_offsets.left
@before `let mut file`
    proof { assert(global_pack_offset == disk.at@ + info_at(disk.manifest(), n - 1)); assert(names(info_block(disk.manifest(), n - 1), uuid)); }
@before `return Ok(Some(`
    proof {
        assert(pack_info.enc() == PackInfo { pack_location: new_location, ..info }.enc());
        assert(relocated(*old(disk), *disk, n - 1, info, uuid, new_location));
    }
@*/
// trusted: a CRC32 is 4 bytes
#[verifier::external_body]
pub proof fn crc_len(b: Seq<u8>) ensures crc(b).len() == 4 {}
/// so: no byte outside the location (and the CRC of the info) changes, and what is read there now is the info with the new location
pub proof fn only_the_location(a: Disk, b: Disk, k: int, i: PackInfo, u: Uuid, l: SmallString)
    requires a.ok(), a.sane(), relocated(a, b, k, i, u, l), l@.len() <= 213, a.len@ >= 128, a.at == b.at, a.len == b.len,
    ensures
        b.ok(), b.file@.len() == a.file@.len(),
        forall|x: int| 0 <= x < a.file@.len() && !(a.at@ + info_at(a.manifest(), k) + 38 <= x < a.at@ + info_at(a.manifest(), k) + 256) ==> #[trigger] b.file@[x] == a.file@[x],
        ({ let at = info_at(a.manifest(), k); (PackInfo { pack_location: l, ..i }).in_bytes(b.manifest().subrange(at, at + 256)) }),
{
    let j = PackInfo { pack_location: l, ..i };
    let at = info_at(a.manifest(), k);
    j.written(crc(j.enc())); crc_len(j.enc()); i.description_len();
    let w = block(j.enc());
    assert(w.subrange(0, 38) =~= i.description()) by { assert(w.subrange(0, 38) =~= j.description()); }
    let m = info_block(a.manifest(), k);
    assert forall|x: int| 0 <= x < a.file@.len() && !(a.at@ + at + 38 <= x < a.at@ + at + 256) implies #[trigger] b.file@[x] == a.file@[x] by {
        if a.at@ + at <= x < a.at@ + at + 38 {
            let y = x - a.at@ - at;
            assert(w.subrange(0, 38)[y] == m.subrange(0, 38)[y]);
            assert(b.file@[x] == w[y] && a.file@[x] == m[y]);
        }
    }
    assert(b.manifest().subrange(at, at + 256) =~= w);
}

// ---- the reader's manifest
/// the infos of the packs which are not the directory pack, in order, among the first n
pub open spec fn contents(m: Seq<u8>, v: Seq<PackInfo>, d: Option<PackInfo>, max: int, n: int) -> bool {
    exists|all: Seq<PackInfo>| #[trigger] reads(m, all, n) && v == kept(all) && d == last_directory(all) && max == biggest_id(all)
}
pub open spec fn reads(m: Seq<u8>, all: Seq<PackInfo>, n: int) -> bool {
    all.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] all[k].in_bytes(info_block(m, k))
}
pub open spec fn kept(all: Seq<PackInfo>) -> Seq<PackInfo>
    decreases all.len()
{
    if all.len() == 0 { all } else if all.last().pack_kind is Directory { kept(all.drop_last()) } else { kept(all.drop_last()).push(all.last()) }
}
pub open spec fn last_directory(all: Seq<PackInfo>) -> Option<PackInfo>
    decreases all.len()
{ if all.len() == 0 { None } else if all.last().pack_kind is Directory { Some(all.last()) } else { last_directory(all.drop_last()) } }
pub open spec fn biggest_id(all: Seq<PackInfo>) -> int
    decreases all.len()
{
    if all.len() == 0 { 0 } else {
        let b = biggest_id(all.drop_last());
        if all.last().pack_kind is Directory || all.last().pack_id.0 <= b { b } else { all.last().pack_id.0 as int }
    }
}
/// the first of v for which f
pub open spec fn first(v: Seq<PackInfo>, f: spec_fn(PackInfo) -> bool) -> Option<PackInfo>
    decreases v.len()
{
    if v.len() == 0 { None } else if f(v[0]) { Some(v[0]) } else { first(v.drop_first(), f) }
}
pub open spec fn by_uuid(u: Uuid) -> spec_fn(PackInfo) -> bool { |i: PackInfo| i.uuid == u }
pub open spec fn by_id(u: PackId) -> spec_fn(PackInfo) -> bool { |i: PackInfo| i.pack_id.0 == u.0 }
// trusted: Iterator::find on a slice
#[verifier::external_body]
pub fn find_in<'a, F: Fn(&PackInfo) -> bool>(v: &'a Vec<PackInfo>, f: F, Ghost(g): Ghost<spec_fn(PackInfo) -> bool>) -> (r: Option<&'a PackInfo>)
    requires forall|i: PackInfo| #[trigger] f.requires((&i,)), forall|i: PackInfo, b: bool| #[trigger] f.ensures((&i,), b) ==> b == g(i),
    ensures r matches Some(x) ==> first(v@, g) == Some(*x), r is None ==> first(v@, g) is None,
{ unimplemented!() }

pub struct ManifestPack {
    pub pack_header: PackHeader, pub header: ManifestPackHeader, pub reader: Reader, pub directory_pack_info: PackInfo, pub pack_infos: Vec<PackInfo>,
    pub check_info: OnceLock, pub value_store: Option<ValueStore>, pub max_id: u16,
}
impl ManifestPack {
    /// what the reader's manifest holds is what the file says
    pub open spec fn inv(&self) -> bool {
        let m = self.reader.bytes();
        &&& m.len() >= 128 && self.pack_header == header_in(m.subrange(0, 64)) && self.header == mheader_in(m.subrange(64, 128))
        &&& info_at(m, 0) >= 0 && contents(m, self.pack_infos@, Some(self.directory_pack_info), self.max_id as int, count(m))
        &&& self.value_store == (if self.header.value_store_posinfo.bits() == 0 { None } else { Some(store_at(m, self.header.value_store_posinfo)) })
    }
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | new
    requires reader.bytes().len() <= i64::MAX,
    ensures r matches Ok(m) ==> m.inv() && m.reader == reader && m.pack_header.magic is Manifest,
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @sub `/\.ok_or_else\(\|\| -> Error \{ Error \}\)/` => `.ok_or(Error)`
    @sub `parse_data_block::<ValueStore>` => `parse_data_block`
    @sub `cmp::` => `std::cmp::`
    @sub `for pack_offset in pack_offsets {` => `let mut pack_offsets = pack_offsets; let ghost mut all: Seq<PackInfo> = Seq::empty(); loop { let pack_offset = match pack_offsets.next() { Some(o) => o, None => break };`
    @sub `match pack_info.pack_kind` => `proof { all = grown(reader.bytes(), all, pack_info); } match pack_info.pack_kind`
    @loop 1
        invariant
            pack_offsets.inv(), all.len() + pack_offsets.left == count(reader.bytes()), pack_offsets.offset.0 == info_at(reader.bytes(), all.len() as int),
            reads(reader.bytes(), all, all.len() as int), pack_infos@ == kept(all), directory_pack_info == last_directory(all), max_id == biggest_id(all),
        ensures all.len() == count(reader.bytes()),
        decreases pack_offsets.left
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | packs_offset
    requires self.inv(),
    ensures r.inv(), r.left == count(self.reader.bytes()), r.offset.0 == info_at(self.reader.bytes(), 0),
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | pack_count
    ensures r == self.header.pack_count,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | max_id
    ensures r == self.max_id,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_directory_pack_info
    ensures *r == self.directory_pack_info,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_content_pack_info
    ensures r matches Some(x) ==> first(self.pack_infos@, by_id(pack_id)) == Some(*x), r is None ==> first(self.pack_infos@, by_id(pack_id)) is None,
    @sub `/self\s*\.pack_infos\s*\.iter\(\)\s*\.find\(\|&(\w+)\|([^()]*)\)/` => `find_in(&self.pack_infos, |\1: &PackInfo| -> (b: bool) requires true, ensures b == (\2) { \2 }, Ghost(by_id(pack_id)))`
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_content_pack_info_uuid
    ensures r matches Some(x) ==> first(self.pack_infos@, by_uuid(uuid)) == Some(*x), r is None ==> first(self.pack_infos@, by_uuid(uuid)) is None,
    @sub `/self\s*\.pack_infos\s*\.iter\(\)\s*\.find\(\|&(\w+)\|([^()]*)\)/` => `find_in(&self.pack_infos, |\1: &PackInfo| -> (b: bool) requires true, ensures b == (\2) { \2 }, Ghost(by_uuid(uuid)))`
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_pack_infos
    ensures r@ == self.pack_infos@,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_free_data
    ensures r == self.header.free_data,
    @*/
    /// the info of the pack of this uuid
    pub open spec fn info_of(&self, u: Uuid) -> Option<PackInfo> { if self.directory_pack_info.uuid == u { Some(self.directory_pack_info) } else { first(self.pack_infos@, by_uuid(u)) } }
    pub open spec fn info_of_id(&self, u: PackId) -> Option<PackInfo> { if u.0 == 0 { Some(self.directory_pack_info) } else { first(self.pack_infos@, by_id(u)) } }
    /// what was recorded with this pack
    pub open spec fn free_data_of(&self, i: Option<PackInfo>) -> Option<Seq<u8>> {
        match (i, self.value_store) { (Some(i), Some(v)) => Some(v.value(i.free_data_id.0)), _ => None }
    }
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_pack_check_info
    ensures r matches Ok(c) ==> match (self.info_of(uuid), c) {
        (None, None) => true,
        // the block at the recorded place, without its CRC
        (Some(i), Some(c)) => {
            let (at, n) = (i.check_info_pos.offset.0 as int, i.check_info_pos.size.0 - 4);
            n >= 0 && at + n <= self.reader.bytes().len() && c == check_in(self.reader.bytes().subrange(at, at + n))
        },
        _ => false,
    },
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @sub `/\.ok_or_else\(\|\| -> Error \{ Error \}\)/` => `.ok_or(Error)`
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_pack_free_data_raw
    ensures r matches Ok(Some(d)) ==> self.value_store is Some && d@ == self.value_store->0.value(idx.0), r matches Ok(None) ==> self.value_store is None,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_pack_free_data
    ensures r matches Ok(Some(d)) ==> self.free_data_of(self.info_of_id(pack_id)) == Some(d@), r matches Ok(None) ==> self.free_data_of(self.info_of_id(pack_id)) is None,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_pack_free_data_uuid
    ensures r matches Ok(Some(d)) ==> self.free_data_of(self.info_of(pack_uuid)) == Some(d@), r matches Ok(None) ==> self.free_data_of(self.info_of(pack_uuid)) is None,
    @*/
}
pub proof fn grown(m: Seq<u8>, all: Seq<PackInfo>, i: PackInfo) -> (r: Seq<PackInfo>)
    requires reads(m, all, all.len() as int), i.in_bytes(info_block(m, all.len() as int)),
    ensures r == all.push(i), reads(m, r, r.len() as int), r.drop_last() == all, r.last() == i,
{
    let r = all.push(i);
    assert(r.drop_last() =~= all);
    r
}
} // verus!
fn main() {}
