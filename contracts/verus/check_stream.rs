/*@ C04 C05 C12: the check value of a manifest is computed on its bytes with the location part (38..256) of every pack
info, and nothing else, replaced by zeros: PackOffsetsIter enumerates the pack infos that precede the check block,
ManifestCheckStream::read delivers every byte before, between and after them as it is, whatever the sizes of the reads,
never stops before the end of its source and cannot overflow; the check of a pack answers true when the recorded hash is the hash of
everything it covers, false otherwise (CheckInfo new_none, new_blake3, check, PackHeader check_info_size, ContentPack, DirectoryPack and
ManifestPack check, ManifestPack get_pack_check_info); lemmas: a pack just recorded verifies, two packs with the same hash that both
verify have the same covered bytes. */
use vstd::prelude::*;
verus! {
/*@types PackIdx PackCount u16 sizes @*/
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub type IoResult<T> = std::result::Result<T, Error>;
/*@include std.inc @*/

// proved elsewhere: PackInfo::BLOCK_SIZE is 256: kani contract of common/pack_info.rs
pub const PACK_INFO_SIZE: u64 = 256;
/*@const src/common/check.rs | PACK_INFO_TO_CHECK @*/
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
// trusted: uuid::Uuid: == compares the bytes
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid(pub u128);
#[derive(Clone, Copy)] pub struct SizedOffset { pub size: ASize, pub offset: Offset }
pub struct PackInfo { pub uuid: Uuid, pub check_info_pos: SizedOffset }
impl PackInfo { pub const BLOCK_SIZE: usize = 256; }

/// what a hasher reads: the bytes that are left
pub trait Source: Sized {
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<u8>;
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        requires old(self).ok(),
        ensures
            r is Ok ==> final(self).ok(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> {
                &&& n <= old(buf)@.len() && n <= old(self).rest().len()
                &&& final(buf)@.take(n as int) == old(self).rest().take(n as int)
                &&& final(self).rest() == old(self).rest().skip(n as int)
                &&& n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0
            };
}

// assumed: the source of a check stream is a Read as std documents it (0 bytes only at its end or for an empty buffer)
pub struct Src { pub data: Ghost<Seq<u8>>, pub pos: Ghost<int> }
impl Src {
    pub open spec fn ok(&self) -> bool { 0 <= self.pos@ <= self.data@.len() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).data == old(self).data, final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> {
                &&& n <= old(buf)@.len() && final(self).pos@ == old(self).pos@ + n
                &&& forall|i: int| 0 <= i < n ==> final(buf)@[i] == old(self).data@[old(self).pos@ + i]
                &&& n == 0 ==> old(buf)@.len() == 0 || old(self).pos@ == old(self).data@.len()
            },
    { unimplemented!() }
}

impl Source for Src {
    open spec fn ok(&self) -> bool { Src::ok(self) }
    open spec fn rest(&self) -> Seq<u8> { self.data@.skip(self.pos@) }
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>) {
        let ghost s = *self;
        let r = Src::read(self, buf);
        proof { if let Ok(n) = r {
            assert(buf@.take(n as int) =~= s.data@.skip(s.pos@).take(n as int));
            assert(self.data@.skip(self.pos@) =~= s.data@.skip(s.pos@).skip(n as int));
        } }
        r
    }
}

pub struct ManifestCheckStream { pub source: Src, pub current_offset: u64, pub pack_offset: u64, pub start_safe_zone: u64 }

/// is the byte at position a one of those the check does not cover?
pub open spec fn masked(a: int, first: int, end: int) -> bool { first <= a < end && (a - first) % 256 >= 38 }

impl ManifestCheckStream {
    pub open spec fn inv(&self) -> bool {
        &&& self.source.ok()
        &&& self.pack_offset <= self.start_safe_zone && (self.start_safe_zone - self.pack_offset) % 256 == 0
        &&& self.current_offset + (self.source.data@.len() - self.source.pos@) <= u64::MAX
    }
    /// the i-th byte from now on, as it must be hashed
    pub open spec fn byte(&self, i: int) -> u8 {
        if masked(self.current_offset + i, self.pack_offset as int, self.start_safe_zone as int) { 0 } else { self.source.data@[self.source.pos@ + i] }
    }

    /*@fn src/common/check.rs | impl<'a, S: Read> ManifestCheckStream<'a, S> | new
    requires
        source.ok(), source.data@.len() - source.pos@ <= u64::MAX,
        // (the pack infos lie inside the manifest)
        pack_offset.0 + pack_count.0 * 256 <= u64::MAX,
    ensures
        r.inv(), r.source == source, r.current_offset == 0,
        r.pack_offset == pack_offset.0, r.start_safe_zone == pack_offset.0 + pack_count.0 * 256,
    @sub `&'a mut S` => `Src`
    @*/

    /*@fn src/common/check.rs | impl<'a, S: Read> ManifestCheckStream<'a, S> | new_from_offset_iter
    requires
        source.ok(), source.data@.len() - source.pos@ <= u64::MAX, pack_offsets.inv(),
    ensures
        r.inv(), r.source == source, r.current_offset == 0,
        pack_offsets.left > 0 ==> r.pack_offset == pack_offsets.offset.0 && r.start_safe_zone == pack_offsets.offset.0 + pack_offsets.left * 256,
        pack_offsets.left == 0 ==> r.pack_offset == r.start_safe_zone,
    @sub `&'a mut S` => `Src`
    @sub `impl Iterator<Item = Offset>` => `PackOffsetsIter`
    @*/

    /*@fn src/common/check.rs | impl<S: Read> Read for ManifestCheckStream<'_, S> | read
    requires old(self).inv(),
    ensures
        r is Ok ==> final(self).inv(),
        final(self).source.data == old(self).source.data,
        final(self).pack_offset == old(self).pack_offset, final(self).start_safe_zone == old(self).start_safe_zone,
        final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) ==> {
            &&& n <= old(buf)@.len()
            &&& final(self).source.pos@ == old(self).source.pos@ + n && final(self).current_offset == old(self).current_offset + n
            &&& forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self).byte(i)
            // an end only where the source ends
            &&& n == 0 ==> old(buf)@.len() == 0 || old(self).source.pos@ == old(self).source.data@.len()
        },
    @sub `std::io::Result` => `IoResult`
    @sub `cmp::` => `std::cmp::`
    @*/
}

pub struct PackOffsetsIter { pub offset: Offset, pub left: u16 }
impl PackOffsetsIter {
    pub open spec fn inv(&self) -> bool { self.offset.0 + self.left * 256 <= u64::MAX }

    /*@fn src/reader/manifest_pack.rs | impl PackOffsetsIter | new
    requires pack_count.0 * 256 <= check_info_pos.0,
    ensures r.inv(), r.left == pack_count.0, r.offset.0 + pack_count.0 * 256 == check_info_pos.0,
    @*/

    /*@fn src/reader/manifest_pack.rs | impl Iterator for PackOffsetsIter | next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        old(self).left == 0 ==> r is None && *final(self) == *old(self),
        old(self).left > 0 ==> r == Some(old(self).offset) && final(self).left == old(self).left - 1 && final(self).offset.0 == old(self).offset.0 + 256,
    @sub `Self::Item` => `Offset`
    @*/

    // trusted: Iterator::count (std) of what next yields: self.left items
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires self.inv() ensures r == self.left { unimplemented!() }
}

// ---- what a check hashes
impl ManifestCheckStream {
    /// everything from now on, as it must be hashed
    pub open spec fn left(&self) -> Seq<u8> { Seq::new((self.source.data@.len() - self.source.pos@) as nat, |i: int| self.byte(i)) }
}
impl Source for ManifestCheckStream {
    open spec fn ok(&self) -> bool { self.inv() }
    open spec fn rest(&self) -> Seq<u8> { self.left() }
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>) {
        let ghost s = *self;
        let r = ManifestCheckStream::read(self, buf);
        proof { if let Ok(n) = r {
            assert(buf@.take(n as int) =~= s.left().take(n as int));
            assert forall|i: int| 0 <= i < self.left().len() implies self.left()[i] == s.left()[n + i] by {}
            assert(self.left() =~= s.left().skip(n as int));
        } }
        r
    }
}

/// the blake3 hash of these bytes
// trusted: blake3
pub uninterp spec fn hash_of(b: Seq<u8>) -> Hash;
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Hash(pub [u8; 32]);
pub mod blake3 {
    use super::*;
    verus! {
    pub use super::Hash;
    pub struct Hasher { pub b: Ghost<Seq<u8>> }
    impl Hasher {
        #[verifier::external_body]
        pub fn new() -> (r: Hasher) ensures r.b@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, x: &[u8]) ensures final(self).b@ == old(self).b@ + x@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(&self) -> (r: Hash) ensures r == hash_of(self.b@) { unimplemented!() }
        // trusted: Hasher::update_reader reads until the end of its source, any read error is returned (its loop, of the dependency, is restated here and proved)
        #[verifier::exec_allows_no_decreases_clause]
        pub fn update_reader<S: Source>(&mut self, s: &mut S) -> (r: IoResult<()>)
            requires old(s).ok(),
            ensures r is Ok ==> final(self).b@ == old(self).b@ + old(s).rest(),
        {
            let ghost all = self.b@ + s.rest();
            let mut buf = [0u8; 65536];
            loop
                invariant s.ok(), self.b@ + s.rest() == all, all == old(self).b@ + old(s).rest(),
            {
                let ghost before = s.rest();
                let ghost sofar = self.b@;
                let n = s.read(&mut buf)?;
                proof { assert(before =~= before.take(n as int) + before.skip(n as int)); }
                if n == 0 {
                    proof { assert(self.b@ + s.rest() =~= self.b@); }
                    return Ok(());
                }
                let x = vstd::slice::slice_subrange(&buf, 0, n);
                proof { assert(x@ =~= buf@.take(n as int)); }
                self.update(x);
                proof { assert(self.b@ + s.rest() =~= sofar + before); }
            }
        }
    }
    }
}

#[derive(Clone, Copy)] pub struct CheckInfo { pub b3hash: Option<blake3::Hash> }
/// what the check of these bytes against this record answers
pub open spec fn verifies(c: CheckInfo, covered: Seq<u8>) -> bool { c.b3hash matches Some(h) ==> h == hash_of(covered) }
impl CheckInfo {
    /*@fn src/common/check.rs | impl CheckInfo | new_none
    ensures r.b3hash is None,
    @*/
    /*@fn src/common/check.rs | impl CheckInfo | new_blake3
    requires old(source).ok(),
    ensures r matches Ok(c) ==> c.b3hash == Some(hash_of(old(source).rest())),
    @sub `std::io::Result` => `IoResult`
    @sub `&mut dyn Read` => `&mut impl Source`
    @before `let hash =`
    proof { assert(Seq::<u8>::empty() + old(source).rest() =~= old(source).rest()); }
    @*/
    /*@fn src/common/check.rs | impl CheckInfo | check
    requires old(source).ok(),
    ensures r matches Ok(x) ==> x == verifies(*self, old(source).rest()),
    @sub `std::io::Result` => `IoResult`
    @sub `&mut dyn Read` => `&mut impl Source`
    @before `let hash =`
    proof { assert(Seq::<u8>::empty() + old(source).rest() =~= old(source).rest()); }
    @*/
}

// ---- the packs
pub struct PackHeader { pub magic: PackKind, pub file_size: Size, pub check_info_pos: Offset }
// proved elsewhere: the sizes of the blocks: kani contracts of common/headers, bases/block.rs
impl PackHeader { pub const BLOCK_SIZE: usize = 64; }
pub fn crc_size() -> (r: usize) ensures r == 4 { 4 }
impl PackHeader {
    /// the record lies between the bytes it is about and the mirrored header, and its checksum follows it
    pub open spec fn record_size(&self) -> int { self.file_size.0 - self.check_info_pos.0 - 68 }
    /*@fn src/common/headers/pack.rs | impl PackHeader | check_info_size
    ensures self.check_info_pos.0 + 68 <= u64::MAX ==> (r is Ok <==> self.record_size() >= 0) && (r is Ok ==> r->Ok_0.0 == self.record_size()),
    @sub `BlockCheck::Crc32.size()` => `crc_size()`
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @*/
}
/// the pack header at the start of these bytes; the check record of a block
// proved elsewhere: what is parsed from the blocks: kani contracts of common/headers, common/check.rs
pub uninterp spec fn header_at(b: Seq<u8>) -> Option<PackHeader>;
pub uninterp spec fn record_in(b: Seq<u8>, at: int, n: int) -> Option<CheckInfo>;
pub struct Reader { pub data: Ghost<Seq<u8>> }
// proved elsewhere: Reader: kani contracts of bases/reader.rs; assumed: no I/O error while reading
impl Reader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn parse_block_in<T>(&self, offset: Offset, size: ASize) -> (r: Result<CheckInfo>)
        ensures r is Ok <==> record_in(self@, offset.0 as int, size.0 as int) is Some, r matches Ok(c) ==> record_in(self@, offset.0 as int, size.0 as int) == Some(c) && offset.0 + size.0 <= self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_stream(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Src>)
        ensures
            r is Ok <==> offset.0 + size.0 <= self@.len(),
            r matches Ok(x) ==> x.data@ == self@.subrange(offset.0 as int, offset.0 + size.0) && x.pos@ == 0,
    { unimplemented!() }
}
/// the record of a pack, the bytes it is about
pub open spec fn record(b: Seq<u8>) -> Option<CheckInfo> {
    if header_at(b)->0.check_info_pos.0 > b.len() { None } else { record_in(b, header_at(b)->0.check_info_pos.0 as int, header_at(b)->0.record_size()) }
}
pub open spec fn covered(b: Seq<u8>) -> Seq<u8> { b.take(header_at(b)->0.check_info_pos.0 as int) }
/// in a manifest, without the locations of the n packs
pub open spec fn blanked(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(s.len(), |i: int| if masked(i, s.len() - 256 * n, s.len() as int) { 0 } else { s[i] }) }

/// a place where the record is kept once read: it holds nothing but what is wanted there, and once set it is never emptied
// trusted: OnceLock get/set; RwLock read/write (never poisoned: nothing panics with the lock held)
pub struct Slot { pub want: Ghost<spec_fn(CheckInfo) -> bool> }
impl Slot {
    pub uninterp spec fn filled(&self) -> bool;
    #[verifier::external_body]
    pub fn is_unset(&self) -> (r: bool) ensures !r ==> self.filled() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&self, c: CheckInfo) requires (self.want@)(c) ensures self.filled() { unimplemented!() }
    #[verifier::external_body]
    pub fn held(&self) -> (r: &CheckInfo) requires self.filled() ensures (self.want@)(*r) { unimplemented!() }
}
pub struct ContentPack { pub pack_header: PackHeader, pub reader: Reader, pub check_info: Slot }
pub struct DirectoryPack { pub pack_header: PackHeader, pub reader: Reader, pub check_info: Slot }
pub struct ManifestPackHeader { pub pack_count: PackCount }
pub struct ManifestPack { pub pack_header: PackHeader, pub header: ManifestPackHeader, pub reader: Reader, pub check_info: Slot }
/// what new establishes
// proved elsewhere: ContentPack new, DirectoryPack new: unit packs; ManifestPack new: unit manifest
pub open spec fn opened(h: PackHeader, r: Reader, s: Slot) -> bool {
    &&& r@.len() <= i64::MAX && header_at(r@) == Some(h)
    &&& forall|c: CheckInfo| #[trigger] (s.want@)(c) <==> record(r@) == Some(c)
}
/// the pack is as its record says
pub open spec fn checks(b: Seq<u8>, c: Seq<u8>) -> bool { record(b) matches Some(i) && verifies(i, c) }
/// everything needed to check is there
pub open spec fn checkable(b: Seq<u8>) -> bool { header_at(b)->0.record_size() >= 0 && record(b) is Some && header_at(b)->0.check_info_pos.0 <= b.len() }
impl ContentPack {
    /*@fn src/reader/content_pack/mod.rs | impl Pack for ContentPack | check
    requires opened(self.pack_header, self.reader, self.check_info),
    ensures
        r matches Ok(x) ==> x == checks(self.reader@, covered(self.reader@)),
    @sub `self.check_info.get().is_none()` => `self.check_info.is_unset()`
    @sub `let _ = self.check_info.set(` => `self.check_info.put(`
    @sub `self.check_info.get().unwrap()` => `self.check_info.held()`
    @after `let mut check_stream`
    proof { assert(check_stream.data@.skip(0) =~= covered(self.reader@)); }
    @*/
}
impl DirectoryPack {
    /*@fn src/reader/directory_pack/mod.rs | impl Pack for DirectoryPack | check
    requires opened(self.pack_header, self.reader, self.check_info),
    ensures
        r matches Ok(x) ==> x == checks(self.reader@, covered(self.reader@)),
    @sub `self.check_info.read().unwrap().is_none()` => `self.check_info.is_unset()`
    @sub `/let mut (\w+) = self\.check_info\.write\(\)\.unwrap\(\);\s*\*\1 = Some\((\w+)\);/` => `self.check_info.put(\2);`
    @sub `/self\s*\.check_info\s*\.read\(\)\s*\.unwrap\(\)\s*\.unwrap\(\)/` => `self.check_info.held()`
    @after `let mut check_stream`
    proof { assert(check_stream.data@.skip(0) =~= covered(self.reader@)); }
    @*/
}
impl ManifestPack {
    pub open spec fn inv(&self) -> bool {
        &&& opened(self.pack_header, self.reader, self.check_info)
        &&& self.header.pack_count.0 * 256 <= self.pack_header.check_info_pos.0
    }
    pub open spec fn hashed(&self) -> Seq<u8> { blanked(covered(self.reader@), self.header.pack_count.0 as int) }
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | packs_offset
    requires self.inv(),
    ensures r.inv(), r.left == self.header.pack_count.0, r.offset.0 == self.pack_header.check_info_pos.0 - 256 * self.header.pack_count.0,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | _get_check_info
    requires self.inv(),
    ensures r matches Ok(c) ==> record(self.reader@) == Some(c), checkable(self.reader@) ==> r is Ok,
    @*/
    /*@fn src/reader/manifest_pack.rs | impl ManifestPack | get_check_info
    requires self.inv(),
    ensures r matches Ok(c) ==> record(self.reader@) == Some(*c),
    @sub `self.check_info.get().is_none()` => `self.check_info.is_unset()`
    @sub `let _ = self.check_info.set(` => `self.check_info.put(`
    @sub `self.check_info.get().unwrap()` => `self.check_info.held()`
    @*/
    /*@fn src/reader/manifest_pack.rs | impl Pack for ManifestPack | check
    requires self.inv(),
    ensures
        r matches Ok(x) ==> x == checks(self.reader@, self.hashed()),
    @sub `(&mut check_stream, ` => `(check_stream, `
    @after 2 `let mut check_stream`
    proof { assert(check_stream.left() =~= self.hashed()); }
    @*/
}

// ---- what this gives
/// a pack whose record is the one made of what it covers verifies
pub proof fn fresh(b: Seq<u8>, c: Seq<u8>)
    requires record(b) matches Some(i) && i.b3hash == Some(hash_of(c)),
    ensures checks(b, c),
{}
/// of two packs with the same recorded hash that both verify, the covered bytes are the same: an alteration of what is covered is
/// never accepted as long as the record is the same one
// assumed: nobody finds two byte sequences of the same blake3 hash
pub proof fn altered(b: Seq<u8>, c: Seq<u8>, b2: Seq<u8>, c2: Seq<u8>)
    requires
        record(b) matches Some(i) && i.b3hash is Some, record(b2) == record(b), checks(b, c), c2 != c,
        hash_of(c) == hash_of(c2) ==> c == c2,
    ensures !checks(b2, c2),
{}
/// an alteration of the recorded hash is never accepted
pub proof fn altered_record(b: Seq<u8>, b2: Seq<u8>, c: Seq<u8>)
    requires record(b) matches Some(i) && i.b3hash is Some, record(b2) matches Some(i) && i.b3hash is Some, record(b2) != record(b), checks(b, c),
    ensures !checks(b2, c),
{}
/// in a manifest, a byte which is not in a location counts
pub proof fn altered_manifest(s: Seq<u8>, t: Seq<u8>, n: int, i: int)
    requires s.len() == t.len(), 0 <= i < s.len(), s[i] != t[i], !masked(i, s.len() - 256 * n, s.len() as int),
    ensures blanked(s, n) != blanked(t, n),
{ assert(blanked(s, n)[i] != blanked(t, n)[i]); }
/// and the locations do not
pub proof fn moved_manifest(s: Seq<u8>, t: Seq<u8>, n: int)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() && !masked(i, s.len() - 256 * n, s.len() as int) ==> s[i] == t[i],
    ensures blanked(s, n) == blanked(t, n),
{ assert(blanked(s, n) =~= blanked(t, n)); }
}
fn main() {}
