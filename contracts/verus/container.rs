/*@ C10 C11: what is found in a file and where: a file opens at its header or, failing that, at the mirrored header of its end
(open_as_container_pack, parse_tail); the table of a container pack maps each identity to its bytes (ContainerPack new, new_fake,
get_pack_reader, get_pack_reader_from_idx, get_pack_uuid, get_manifest_pack_reader, locate); a pack is looked for in the file at hand, then
at its recorded location (FsLocator locate, ChainedLocator locate, Container new_with_locator); a pack listed and not found is reported missing
with its description, one which is not listed is unknown, one which is found is read (Container get_pack, _get_pack, get_bytes, MayMissPack
transpose); the check of a container covers the manifest, the directory and every pack found (Container check, ContainerPack check). */
use vstd::prelude::*;
use std::sync::Arc;
verus! {
/*@types PackIdx PackCount u16 sizes @*/
/*@include std.inc @*/
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
// trusted: uuid::Uuid: == compares the bytes
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Uuid(pub u128);
#[derive(Clone, Copy)] pub struct PackId(pub u16);
impl PackId {
    #[verifier::external_body]
    pub fn into_usize(self) -> (r: usize) ensures r == self.0 { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
pub struct SmallString { pub b: Ghost<Seq<u8>> }

// ---- bytes, and what is parsed from them
pub struct PackHeader { pub magic: PackKind, pub file_size: Size, pub uuid: Uuid }
pub struct ContainerPackHeader { pub pack_locators_pos: Offset, pub pack_count: PackCount }
pub struct PackLocator { pub uuid: Uuid, pub pack_size: Size, pub pack_pos: Offset }
/// the block of a pack header (of a container header, of a locator) at this position, if there is a valid one
// proved elsewhere: what is parsed from the block: kani contracts of common/headers, common/pack_locator.rs; its CRC: bases/block.rs
pub uninterp spec fn header_at(b: Seq<u8>, o: int) -> Option<PackHeader>;
pub uninterp spec fn cheader_at(b: Seq<u8>, o: int) -> Option<ContainerPackHeader>;
pub uninterp spec fn locator_at(b: Seq<u8>, o: int) -> Option<PackLocator>;
pub trait Block: Sized { spec fn at(b: Seq<u8>, o: int) -> Option<Self>; spec fn size() -> int; }
impl Block for PackHeader { open spec fn at(b: Seq<u8>, o: int) -> Option<Self> { header_at(b, o) } open spec fn size() -> int { 64 } }
impl Block for ContainerPackHeader { open spec fn at(b: Seq<u8>, o: int) -> Option<Self> { cheader_at(b, o) } open spec fn size() -> int { 64 } }
impl Block for PackLocator { open spec fn at(b: Seq<u8>, o: int) -> Option<Self> { locator_at(b, o) } open spec fn size() -> int { 36 } }
// proved elsewhere: the sizes of the blocks: kani contracts of common/headers, common/pack_locator.rs
impl PackHeader { pub const BLOCK_SIZE: usize = 64; }
impl ContainerPackHeader { pub const BLOCK_SIZE: usize = 64; }
impl PackLocator { pub const BLOCK_SIZE: usize = 36; }
pub struct Reader { pub data: Ghost<Seq<u8>> }
pub struct Stream { pub data: Ghost<Seq<u8>> }
// proved elsewhere: Reader: kani contracts of bases/reader.rs; assumed: no I/O error while reading
impl Reader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Reader) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_block_at<T: Block>(&self, offset: Offset) -> (r: Result<T>)
        ensures r is Ok <==> T::at(self@, offset.0 as int) is Some, r matches Ok(v) ==> T::at(self@, offset.0 as int) == Some(v) && offset.0 + T::size() <= self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_block_unchecked_at<T: Block>(&self, offset: Offset) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn cut(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Reader>)
        ensures
            r is Ok <==> offset.0 + size.0 <= self@.len(),
            r matches Ok(x) ==> x@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_stream(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Stream>)
        ensures
            r is Ok <==> offset.0 + size.0 <= self@.len(),
            r matches Ok(x) ==> x.data@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
}
impl Stream {
    // trusted: Read::read_exact
    #[verifier::external_body]
    pub fn read_exact(self, buf: &mut [u8; 64]) -> (r: Result<()>)
        ensures r is Ok <==> self.data@.len() >= 64, r is Ok ==> final(buf)@ == self.data@.subrange(0, 64),
    { unimplemented!() }
}
// trusted: slice::reverse
#[verifier::external_body]
pub fn reverse(b: &mut [u8; 64]) ensures final(b)@ == old(b)@.reverse() { unimplemented!() }
impl FromSpecImpl<[u8; 64]> for Reader { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: [u8; 64]) -> Reader { Reader { data: Ghost(b@) } } }
impl From<[u8; 64]> for Reader {
    #[verifier::external_body]
    fn from(b: [u8; 64]) -> Reader { unimplemented!() }
}

// ---- the table of a container pack
pub open spec fn given(v: Seq<&Reader>, r: Reader) -> bool { exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == r }
pub open spec fn listed(m: Map<Uuid, Reader>, r: Reader) -> bool { exists|u: Uuid| #[trigger] m.dom().contains(u) && m[u] == r }
// trusted: HashMap
pub struct HashMap { pub m: Ghost<Map<Uuid, Reader>> }
impl HashMap {
    pub open spec fn view(&self) -> Map<Uuid, Reader> { self.m@ }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: HashMap) ensures r@ == Map::<Uuid, Reader>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Uuid, v: Reader) -> (r: Option<Reader>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Uuid) -> (r: Option<&Reader>) ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    /// the values, in some order
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&Reader>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> listed(self@, *#[trigger] r@[i]),
            forall|u: Uuid| #[trigger] self@.dom().contains(u) ==> given(r@, self@[u]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
}
#[verifier::external_body]
pub fn cloned_reader(o: Option<&Reader>) -> (r: Option<Reader>) ensures r == (match o { Some(x) => Some(*x), None => None }) { unimplemented!() }
/// what a table maps the identities to: bytes
pub open spec fn bytes_of(t: Map<Uuid, Reader>) -> Map<Uuid, Seq<u8>> { t.map_values(|r: Reader| r@) }
/// the first n locators of the container pack in these bytes
pub open spec fn locator(b: Seq<u8>, k: int) -> Option<PackLocator> { locator_at(b, cheader_at(b, 64)->0.pack_locators_pos.0 + 36 * k) }
pub open spec fn table(b: Seq<u8>, n: int) -> Map<Uuid, Seq<u8>>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        let l = locator(b, n - 1)->0;
        table(b, n - 1).insert(l.uuid, b.subrange(l.pack_pos.0 as int, l.pack_pos.0 + l.pack_size.0))
    }
}
/// a container pack: a header, a container header, locators that name parts of it
pub open spec fn is_container(b: Seq<u8>) -> bool {
    &&& header_at(b, 0) is Some && header_at(b, 0)->0.magic is Container && cheader_at(b, 64) is Some
    &&& forall|k: int| 0 <= k < cheader_at(b, 64)->0.pack_count.0 ==> (#[trigger] locator(b, k)) is Some && locator(b, k)->0.pack_pos.0 + locator(b, k)->0.pack_size.0 <= b.len()
}
pub open spec fn packs_of(b: Seq<u8>) -> Map<Uuid, Seq<u8>> { table(b, cheader_at(b, 64)->0.pack_count.0 as int) }
pub proof fn step(t: Map<Uuid, Reader>, u: Uuid, r: Reader)
    ensures bytes_of(t.insert(u, r)) == bytes_of(t).insert(u, r@),
{ assert(bytes_of(t.insert(u, r)) =~= bytes_of(t).insert(u, r@)); }

pub struct ContainerPack { pub packs_uuid: Vec<Uuid>, pub packs: HashMap }
impl ContainerPack {
    /// the bytes of the packs, by identity
    pub open spec fn view(&self) -> Map<Uuid, Seq<u8>> { bytes_of(self.packs@) }
    /*@fn src/reader/container_pack.rs | impl ContainerPack | new
    requires reader@.len() <= i64::MAX,
    ensures
        r is Ok ==> is_container(reader@), r matches Ok(c) ==> c@ == packs_of(reader@),
        // nothing but what is not a container is refused
        is_container(reader@) && cheader_at(reader@, 64)->0.pack_locators_pos.0 <= i64::MAX ==> r is Ok,
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @sub `for _idx in header.pack_count` => `for _idx in it: header.pack_count`
    @sub `/(packs\.insert\(pack_locator\.uuid, pack_reader\);)/` => `proof { step(packs@, pack_locator.uuid, pack_reader); } \1`
    @sub `let mut pack_offset = header.pack_locators_pos;` => `let mut pack_offset = header.pack_locators_pos; proof { assert(bytes_of(Map::<Uuid, Reader>::empty()) =~= Map::empty()); }`
    @sub `let pack_locator =` => `let ghost l = locator(reader@, it.index@); let pack_locator =`
    @loop 1
        invariant
            reader@.len() <= i64::MAX, it.seq().len() == header.pack_count.0, header_at(reader@, 0) is Some && header_at(reader@, 0)->0.magic is Container, cheader_at(reader@, 64) == Some(header),
            pack_offset.0 == header.pack_locators_pos.0 + 36 * it.index@,
            bytes_of(packs@) == table(reader@, it.index@),
            forall|k: int| 0 <= k < it.index@ ==> (#[trigger] locator(reader@, k)) is Some && locator(reader@, k)->0.pack_pos.0 + locator(reader@, k)->0.pack_size.0 <= reader@.len(),
    @*/
    /*@fn src/reader/container_pack.rs | impl ContainerPack | new_fake
    ensures r@ == Map::empty().insert(uuid, reader@), r.packs_uuid@ == seq![uuid],
    @start
        proof { step(Map::empty(), uuid, reader); assert(bytes_of(Map::<Uuid, Reader>::empty()) =~= Map::empty()); }
    @*/
    /*@fn src/reader/container_pack.rs | impl ContainerPack | get_pack_uuid
    requires idx.0 < self.packs_uuid@.len(),
    ensures r == self.packs_uuid@[idx.0 as int],
    @sub `uuid::Uuid` => `Uuid`
    @*/
    /*@fn src/reader/container_pack.rs | impl ContainerPack | get_pack_reader
    ensures
        self@.dom().contains(*uuid) ==> r is Some && r->0@ == self@[*uuid],
        !self@.dom().contains(*uuid) ==> r is None,
    @sub `self.packs.get(uuid).cloned()` => `cloned_reader(self.packs.get(uuid))`
    @*/
    /*@fn src/reader/container_pack.rs | impl ContainerPack | get_pack_reader_from_idx
    requires idx.0 < self.packs_uuid@.len(),
    ensures self@.dom().contains(self.packs_uuid@[idx.0 as int]) ==> r is Some && r->0@ == self@[self.packs_uuid@[idx.0 as int]],
    @*/
    /// this pack is a manifest
    pub open spec fn manifest(&self, u: Uuid) -> bool { self@.dom().contains(u) && header_at(self@[u], 0) is Some && header_at(self@[u], 0)->0.magic is Manifest }
    /*@fn src/reader/container_pack.rs | impl ContainerPack | get_manifest_pack_reader
    ensures
        r matches Ok(Some(x)) ==> exists|u: Uuid| #[trigger] self.manifest(u) && x@ == self@[u],
        r matches Ok(None) ==> forall|u: Uuid| !#[trigger] self.manifest(u),
        (forall|u: Uuid| #[trigger] self@.dom().contains(u) ==> header_at(self@[u], 0) is Some) ==> r is Ok,
    @sub `in self.packs.values()` => `in it: self.packs.values()`
    @sub `let pack_header =` => `let ghost u = choose|u: Uuid| self.packs@.dom().contains(u) && self.packs@[u] == *reader; proof { assert(listed(self.packs@, *reader)); assert(self@.dom().contains(u)); } let ghost m = self.manifest(u); let pack_header =`
    @loop 1
        invariant
            forall|u: Uuid| #[trigger] self.packs@.dom().contains(u) ==> given(it.seq(), self.packs@[u]),
            forall|i: int| 0 <= i < it.seq().len() ==> listed(self.packs@, *#[trigger] it.seq()[i]),
            forall|i: int| 0 <= i < it.index@ ==> header_at((#[trigger] it.seq()[i])@, 0) is Some && !(header_at(it.seq()[i]@, 0)->0.magic is Manifest),
    @*/
    /*@fn src/reader/container_pack.rs | impl ContainerPack | check
    ensures
        // true: everything in it was checked, false: something in it is not what it was
        r matches Ok(true) ==> forall|u: Uuid| #[trigger] self@.dom().contains(u) ==> intact(self@[u]),
        r matches Ok(false) ==> exists|u: Uuid| #[trigger] self@.dom().contains(u) && !intact(self@[u]),
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @sub `in self.packs.values()` => `in it: self.packs.values()`
    @sub `return Ok(false)` => `proof { let u = choose|u: Uuid| self.packs@.dom().contains(u) && self.packs@[u] == *reader; assert(self@.dom().contains(u)); } return Ok(false)`
    @loop 1
        invariant
            forall|u: Uuid| #[trigger] self.packs@.dom().contains(u) ==> given(it.seq(), self.packs@[u]),
            forall|i: int| 0 <= i < it.seq().len() ==> listed(self.packs@, *#[trigger] it.seq()[i]),
            forall|i: int| 0 <= i < it.index@ ==> intact((#[trigger] it.seq()[i])@),
    @*/
    /*@fn src/reader/container_pack.rs | impl PackLocatorTrait for ContainerPack | locate
    ensures
        r is Ok,
        self@.dom().contains(uuid) ==> r->Ok_0 is Some && r->Ok_0->0@ == self@[uuid],
        !self@.dom().contains(uuid) ==> r->Ok_0 is None,
    @*/
}
/// the pack in these bytes has the check value it records: what the check of its kind answers
pub uninterp spec fn intact(b: Seq<u8>) -> bool;
// proved elsewhere: the checks of the packs: unit check_stream, kani contracts of common/check.rs; bounded exploration (C04)
macro_rules! pack { ($($t:ident)*) => { verus! {
    $(pub struct $t { pub b: Ghost<Seq<u8>> }
    impl $t {
        #[verifier::external_body]
        pub fn new(r: Reader) -> (p: Result<$t>) ensures p matches Ok(p) ==> p.b@ == r@ { unimplemented!() }
        #[verifier::external_body]
        pub fn check(&self) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == intact(self.b@) { unimplemented!() }
    })*
} } }
pack! { DirectoryPack ContentPack }

// ---- opening a file
/// where the pack of a file is: at its start or, if there is no valid header, where the mirrored header of its end says
pub open spec fn place(b: Seq<u8>) -> Option<(PackHeader, int)> {
    if b.len() < 64 { None }
    else if header_at(b, 0) is Some { Some((header_at(b, 0)->0, 0)) }
    else {
        let t = header_at(b.subrange(b.len() - 64, b.len() as int).reverse(), 0);
        if t is Some && t->0.file_size.0 <= b.len() { Some((t->0, b.len() - t->0.file_size.0)) } else { None }
    }
}
/// the packs of a file, by identity
pub open spec fn file_packs(b: Seq<u8>) -> Map<Uuid, Seq<u8>> {
    let (h, o) = place(b)->0;
    let p = b.subrange(o, o + h.file_size.0);
    if h.magic is Container { packs_of(p) } else { Map::empty().insert(h.uuid, p) }
}
pub open spec fn opens(b: Seq<u8>) -> bool {
    place(b) is Some && {
        let (h, o) = place(b)->0;
        o + h.file_size.0 <= b.len() && (h.magic is Container ==> is_container(b.subrange(o, o + h.file_size.0)) && cheader_at(b.subrange(o, o + h.file_size.0), 64)->0.pack_locators_pos.0 <= i64::MAX)
    }
}
/*@fn src/reader/jubako.rs | | parse_tail
requires 64 <= reader@.len() <= i64::MAX,
ensures
    ({ let t = header_at(reader@.subrange(reader@.len() - 64, reader@.len() as int).reverse(), 0);
       if t is Some && t->0.file_size.0 <= reader@.len() { r is Ok && r->Ok_0.0 == t->0 && r->Ok_0.1.0 == reader@.len() - t->0.file_size.0 } else { r is Err } }),
@sub `/format_error!\("[^"]*"\)/` => `Error`
@sub `buffer_reader.reverse();` => `reverse(&mut buffer_reader); proof { let s = reader@.subrange(reader@.len() - 64, reader@.len() as int); assert(s.subrange(0, 64) =~= s); }`
@*/
/*@fn src/reader/jubako.rs | | open_as_container_pack
requires reader@.len() <= i64::MAX,
ensures
    r matches Ok(c) ==> place(reader@) is Some && c@ == file_packs(reader@),
    opens(reader@) ==> r is Ok,
@sub `ErrorKind::NotAJbk.into()` => `Error`
@*/

// ---- where packs are looked for
pub struct PackInfo { pub uuid: Uuid, pub pack_location: SmallString, pub pack_id: PackId }
impl PackInfo { #[verifier::external_body] pub fn clone(&self) -> (r: PackInfo) ensures r == *self { unimplemented!() } }
/// where packs are looked for: what is found there under an identity and a location
// (dyn PackLocatorTrait)
pub struct Locator { pub g: Ghost<spec_fn(Uuid, SmallString) -> Option<Seq<u8>>> }
pub open spec fn view_of(r: Option<Reader>) -> Option<Seq<u8>> { match r { Some(x) => Some(x@), None => None } }
impl Locator {
    pub open spec fn found(&self, u: Uuid, l: SmallString) -> Option<Seq<u8>> { (self.g@)(u, l) }
    // proved here for the locators of the library: ContainerPack, FsLocator, ChainedLocator; assumed of the user's
    #[verifier::external_body]
    pub fn locate(&self, u: Uuid, l: &SmallString) -> (r: Result<Option<Reader>>)
        ensures r matches Ok(x) ==> view_of(x) == self.found(u, *l),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn of_chain(c: ChainedLocator) -> (r: Locator)
        ensures forall|u: Uuid, l: SmallString| #[trigger] r.found(u, l) == first_found(c.0@, u, l),
    { unimplemented!() }
}
pub trait AsLocator: Sized {
    spec fn finds(&self, u: Uuid, l: SmallString) -> Option<Seq<u8>>;
    fn as_locator(self) -> (r: Locator) ensures forall|u: Uuid, l: SmallString| #[trigger] r.found(u, l) == self.finds(u, l);
}
impl AsLocator for Arc<ContainerPack> {
    open spec fn finds(&self, u: Uuid, l: SmallString) -> Option<Seq<u8>> { in_table((**self)@, u, l) }
    #[verifier::external_body]
    fn as_locator(self) -> Locator { unimplemented!() }
}
impl AsLocator for Locator {
    open spec fn finds(&self, u: Uuid, l: SmallString) -> Option<Seq<u8>> { self.found(u, l) }
    #[verifier::external_body]
    fn as_locator(self) -> Locator { unimplemented!() }
}
pub open spec fn in_table(t: Map<Uuid, Seq<u8>>, u: Uuid, l: SmallString) -> Option<Seq<u8>> { if t.dom().contains(u) { Some(t[u]) } else { None } }
/// what the first locator that finds something finds
pub open spec fn first_found(v: Seq<Locator>, u: Uuid, l: SmallString) -> Option<Seq<u8>>
    decreases v.len()
{ if v.len() == 0 { None } else if v[0].found(u, l) is Some { v[0].found(u, l) } else { first_found(v.drop_first(), u, l) } }
pub proof fn skip(v: Seq<Locator>, n: int, u: Uuid, l: SmallString)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).found(u, l) is None,
    ensures
        n < v.len() && v[n].found(u, l) is Some ==> first_found(v, u, l) == v[n].found(u, l),
        n == v.len() ==> first_found(v, u, l) is None,
    decreases v.len(),
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] v.drop_first()[i]).found(u, l) is None by { assert(v.drop_first()[i] == v[i + 1]); }
        skip(v.drop_first(), n - 1, u, l);
    }
}
pub proof fn two(v: Seq<Locator>, t: Map<Uuid, Seq<u8>>, o: Locator, u: Uuid, l: SmallString)
    requires v.len() == 2, v[0].found(u, l) == in_table(t, u, l), v[1].found(u, l) == o.found(u, l),
    ensures first_found(v, u, l) == (if t.dom().contains(u) { Some(t[u]) } else { o.found(u, l) }),
{
    assert(v.drop_first()[0] == v[1]);
    assert(v.drop_first().drop_first().len() == 0);
    assert(first_found(v.drop_first(), u, l) == (if o.found(u, l) is Some { o.found(u, l) } else { first_found(v.drop_first().drop_first(), u, l) }));
}
pub struct ChainedLocator(pub Vec<Locator>);
impl ChainedLocator {
    /*@fn src/reader/locator.rs | impl ChainedLocator | new
    ensures r.0 == locators,
    @sub `Arc<dyn PackLocatorTrait>` => `Locator`
    @*/
    /*@fn src/reader/locator.rs | impl PackLocatorTrait for ChainedLocator | locate
    ensures r matches Ok(x) ==> view_of(x) == first_found(self.0@, uuid, *path),
    @sub `path: &str` => `path: &SmallString`
    @sub `for locator in &self.0 {` => `for locator in it: &self.0 { proof { skip(self.0@, it.index@, uuid, *path); }`
    @loop 1
        invariant it.seq() == self.0@.map_values(|l: Locator| &l), forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.0@[i]).found(uuid, *path) is None,
    @before `Ok(None)`
        proof { skip(self.0@, self.0@.len() as int, uuid, *path); }
    @*/
}
/// the files
// trusted: the file system; assumed: it does not change while a container is read
pub struct PathBuf { pub b: Ghost<Seq<u8>> }
pub uninterp spec fn joined(a: PathBuf, l: SmallString) -> PathBuf;
pub uninterp spec fn file_at(p: PathBuf) -> Option<Seq<u8>>;
pub struct FileSource { pub b: Ghost<Seq<u8>> }
impl PathBuf {
    #[verifier::external_body]
    pub fn join(&self, l: &SmallString) -> (r: PathBuf) ensures r == joined(*self, *l) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == file_at(*self) is Some { unimplemented!() }
}
impl FileSource {
    #[verifier::external_body]
    pub fn open(p: PathBuf) -> (r: Result<FileSource>)
        ensures r matches Ok(f) ==> file_at(p) == Some(f.b@) && f.b@.len() <= i64::MAX,
    { unimplemented!() }
}
impl FromSpecImpl<FileSource> for Reader { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(b: FileSource) -> Reader { Reader { data: b.b } } }
impl From<FileSource> for Reader {
    #[verifier::external_body]
    fn from(b: FileSource) -> Reader { unimplemented!() }
}
/// what is found at a location: the pack of this identity in the file which is there
pub open spec fn at_location(base: PathBuf, u: Uuid, l: SmallString) -> Option<Seq<u8>> {
    match file_at(joined(base, l)) { None => None, Some(b) => in_table(file_packs(b), u, l) }
}
pub struct FsLocator { pub base_dir: PathBuf }
impl FsLocator {
    /*@fn src/reader/locator.rs | impl FsLocator | new
    ensures r.base_dir == base_dir,
    @*/
    /*@fn src/reader/locator.rs | impl PackLocatorTrait for FsLocator | locate
    ensures
        r matches Ok(x) ==> view_of(x) == at_location(self.base_dir, uuid, *path),
        // a file which is not there is no error
        file_at(joined(self.base_dir, *path)) is None ==> r is Ok,
    @sub `path: &str` => `path: &SmallString`
    @*/
}

// ---- the container
/// a manifest: its packs
// proved elsewhere: ManifestPack new, get_content_pack_info, get_directory_pack_info, get_pack_infos, max_id: unit manifest
pub struct ManifestPack { pub b: Ghost<Seq<u8>>, pub i: Ghost<Seq<PackInfo>>, pub d: Ghost<PackInfo>, pub max: Ghost<int> }
/// the first info of this id
pub open spec fn first_of(v: Seq<PackInfo>, id: PackId) -> Option<PackInfo>
    decreases v.len()
{ if v.len() == 0 { None } else if v[0].pack_id.0 == id.0 { Some(v[0]) } else { first_of(v.drop_first(), id) } }
pub proof fn first_is(v: Seq<PackInfo>, id: PackId)
    ensures first_of(v, id) matches Some(i) ==> i.pack_id.0 == id.0 && exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == i,
    decreases v.len(),
{
    if v.len() > 0 && v[0].pack_id.0 != id.0 {
        first_is(v.drop_first(), id);
        if let Some(i) = first_of(v, id) {
            let k = choose|k: int| 0 <= k < v.drop_first().len() && #[trigger] v.drop_first()[k] == i;
            assert(v[k + 1] == i);
        }
    } else if v.len() > 0 { assert(v[0] == v[0]); }
}
impl ManifestPack {
    pub open spec fn ok(&self) -> bool { 0 <= self.max@ <= 0xFFFF && forall|k: int| 0 <= k < self.i@.len() ==> (#[trigger] self.i@[k]).pack_id.0 <= self.max@ }
    #[verifier::external_body]
    pub fn new(r: Reader) -> (p: Result<ManifestPack>) ensures p matches Ok(p) ==> p.b@ == r@ && p.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn check(&self) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == intact(self.b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_id(&self) -> (r: u16) ensures r == self.max@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_directory_pack_info(&self) -> (r: &PackInfo) ensures *r == self.d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_content_pack_info(&self, id: PackId) -> (r: Option<&PackInfo>)
        ensures r == (match first_of(self.i@, id) { Some(i) => Some(&i), None => None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pack_infos(&self) -> (r: &Vec<PackInfo>) ensures r@ == self.i@ { unimplemented!() }
}
pub struct ValueStorage; pub struct EntryStorage;
impl DirectoryPack {
    #[verifier::external_body] pub fn create_value_storage(&self) -> Arc<ValueStorage> { unimplemented!() }
    #[verifier::external_body] pub fn create_entry_storage(&self) -> Arc<EntryStorage> { unimplemented!() }
}
// proved elsewhere: ContentPack::get_content
pub struct ByteRegion { pub b: Ghost<Seq<u8>> }
pub uninterp spec fn content_in(pack: Seq<u8>, id: u32) -> Option<Seq<u8>>;
#[derive(Clone, Copy)] pub struct ContentIdx(pub u32);
impl ContentPack {
    #[verifier::external_body]
    pub fn get_content(&self, id: ContentIdx) -> (r: Result<Option<ByteRegion>>)
        ensures r matches Ok(c) ==> (match c { Some(x) => Some(x.b@), None => None }) == content_in(self.b@, id.0),
    { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct ContentAddress { pub pack_id: PackId, pub content_id: ContentIdx }

pub enum MayMissPack<T> { MISSING(PackInfo), FOUND(T) }
impl<T, E> MayMissPack<std::result::Result<T, E>> {
    /*@fn src/reader/missing.rs | impl<T, E> MayMissPack<Result<T, E>> | transpose
    ensures match self {
        MayMissPack::FOUND(Err(e)) => r == std::result::Result::<MayMissPack<T>, E>::Err(e),
        MayMissPack::FOUND(Ok(x)) => r == std::result::Result::<MayMissPack<T>, E>::Ok(MayMissPack::FOUND(x)),
        MayMissPack::MISSING(i) => r == std::result::Result::<MayMissPack<T>, E>::Ok(MayMissPack::MISSING(i)),
    },
    @sub `Result<` => `std::result::Result<`
    @*/
}
impl<T> MayMissPack<Option<T>> {
    /*@fn src/reader/missing.rs | impl<T> MayMissPack<Option<T>> | transpose
    ensures match self {
        MayMissPack::FOUND(None) => r is None,
        MayMissPack::FOUND(Some(x)) => r == Some(MayMissPack::FOUND(x)),
        MayMissPack::MISSING(i) => r == Some(MayMissPack::<T>::MISSING(i)),
    },
    @*/
}
impl<T> MayMissPack<T> {
    /*@fn src/reader/missing.rs | impl<T> MayMissPack<T> | map
    requires self matches MayMissPack::FOUND(x) ==> f.requires((x,)),
    ensures match self {
        MayMissPack::FOUND(x) => r matches MayMissPack::FOUND(y) && f.ensures((x,), y),
        MayMissPack::MISSING(i) => r == MayMissPack::<U>::MISSING(i),
    },
    @where
    @*/
    /*@fn src/reader/missing.rs | impl<T> MayMissPack<T> | unwrap
    requires self is FOUND,
    ensures r == self->FOUND_0,
    @sub `panic!("called `MayMissPack::unwrap()` on a `MISSING` value");` => `unreached()`
    @*/
    /*@fn src/reader/missing.rs | impl<T> MayMissPack<T> | get
    ensures r == (match self { MayMissPack::FOUND(x) => Some(x), MayMissPack::MISSING(_) => None }),
    @*/
    /*@fn src/reader/missing.rs | impl<T> MayMissPack<T> | as_ref
    ensures match *self {
        MayMissPack::FOUND(x) => r == MayMissPack::FOUND(&x),
        MayMissPack::MISSING(i) => r == MayMissPack::<&T>::MISSING(i),
    },
    @*/
}

/// the slot of an opened pack: what is put in it is what it is for
// trusted: OnceLock: get gives what set put, and something once set was called (the history of the calls is a ghost argument)
pub struct OnceLock { pub want: Ghost<spec_fn(ContentPack) -> bool> }
impl OnceLock {
    #[verifier::external_body]
    pub fn get(&self, f: &mut Ghost<bool>) -> (r: Option<&ContentPack>)
        ensures r matches Some(p) ==> (self.want@)(*p), old(f)@ ==> r is Some, final(f)@ == (r is Some),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: ContentPack, f: &mut Ghost<bool>) -> (r: std::result::Result<(), ContentPack>)
        requires (self.want@)(v),
        ensures final(f)@,
    { unimplemented!() }
}
/// slots for the packs of this manifest, found by this locator
#[verifier::external_body]
pub fn slots(n: usize, Ghost(m): Ghost<ManifestPack>, Ghost(l): Ghost<Locator>) -> (r: Vec<OnceLock>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).want@ == |p: ContentPack| is_pack(m, l, PackId(i as u16), p.b@),
{ unimplemented!() }
/// the bytes b are those of the pack of this id: what is found under its identity and its location
pub open spec fn is_pack(m: ManifestPack, l: Locator, id: PackId, b: Seq<u8>) -> bool {
    first_of(m.i@, id) matches Some(i) && l.found(i.uuid, i.pack_location) == Some(b)
}
pub open spec fn in_file(t: Map<Uuid, Seq<u8>>, u: Uuid, b: Seq<u8>) -> bool { t.dom().contains(u) && t[u] == b && header_at(b, 0) is Some && header_at(b, 0)->0.magic is Manifest }
pub open spec fn manifest_of(t: Map<Uuid, Seq<u8>>, b: Seq<u8>) -> bool { exists|u: Uuid| #[trigger] in_file(t, u, b) }
pub struct Container {
    pub manifest_pack: ManifestPack, pub locator: Locator, pub directory_pack: Arc<DirectoryPack>, pub value_storage: Arc<ValueStorage>, pub entry_storage: Arc<EntryStorage>, pub packs: Vec<OnceLock>,
}
impl Container {
    pub open spec fn inv(&self) -> bool {
        &&& self.manifest_pack.ok() && self.packs@.len() == self.manifest_pack.max@ + 1
        &&& forall|i: int| 0 <= i < self.packs@.len() ==> (#[trigger] self.packs@[i]).want@ == |p: ContentPack| is_pack(self.manifest_pack, self.locator, PackId(i as u16), p.b@)
        &&& self.locator.found(self.manifest_pack.d@.uuid, self.manifest_pack.d@.pack_location) == Some(self.directory_pack.b@)
    }
    /// the bytes of the pack of this id, if it is listed and there
    pub open spec fn pack(&self, id: PackId) -> Option<Option<Seq<u8>>> {
        match first_of(self.manifest_pack.i@, id) { None => None, Some(i) => Some(self.locator.found(i.uuid, i.pack_location)) }
    }
    /*@fn src/reader/jubako.rs | impl Container | new_with_locator
    ensures
        r is Ok ==> r->Ok_0.inv() && file_at(path) is Some,
        // its manifest is one of the packs of the file
        r is Ok ==> manifest_of(file_packs(file_at(path)->0), r->Ok_0.manifest_pack.b@),
        // and packs are looked for in this file first, then where the given locator says
        r is Ok ==> forall|u: Uuid, l: SmallString| #[trigger] r->Ok_0.locator.found(u, l) ==
            (if file_packs(file_at(path)->0).dom().contains(u) { Some(file_packs(file_at(path)->0)[u]) } else { locator.found(u, l) }),
    @sub `path: impl AsRef<Path>` => `path: PathBuf`
    @sub `locator: Arc<dyn PackLocatorTrait>` => `locator: Locator`
    @sub `let path: PathBuf = path.as_ref().into();` => ``
    @sub `/format_error!\("[^"]*"\)/` => `Error`
    @sub `/\.ok_or_else\(\|\| -> Error \{ Error \}\)/` => `.ok_or(Error)`
    @sub `Arc<dyn PackLocatorTrait>` => `Locator`
    @sub `/vec!\[(\w+), (\w+)\]/` => `vec![\1.as_locator(), \2.as_locator()]`
    @sub `let reader = container_pack` => `let ghost (table, other) = (container_pack@, locator); let reader = container_pack`
    @sub `/Arc::new\(ChainedLocator::new\(locators\)\)/` => `{ let ghost both = locators@; proof { assert forall|u: Uuid, l: SmallString| #[trigger] first_found(both, u, l) == (if table.dom().contains(u) { Some(table[u]) } else { other.found(u, l) }) by { two(both, table, other, u, l); } } Locator::of_chain(ChainedLocator::new(locators)) }`
    @sub `let mut packs = Vec::new();` => ``
    @before `Ok(Self {`
        proof { let t = file_packs(file_at(path)->0); let b = manifest_pack.b@; assert(in_file(t, u, b)); assert(manifest_of(t, b)); }
    @before `let manifest_reader_size`
        proof {
            assert(reader@.subrange(0, reader@.len() as int) =~= reader@);
        }
        let ghost u = choose|u: Uuid| #[trigger] container_pack.manifest(u) && reader@ == container_pack@[u];
    @before `let pack_info = manifest_pack`
        proof { assert(manifest_pack.b@ =~= reader@); assert(in_file(file_packs(file_at(path)->0), u, manifest_pack.b@)); }
    @sub `packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default)` => `let packs = slots(manifest_pack.max_id() as usize + 1, Ghost(manifest_pack), Ghost(locator))`
    @*/
    /*@fn src/reader/jubako.rs | impl Container | _get_pack
    requires self.inv(),
    ensures
        match r {
            Ok(None) => self.pack(pack_id) is None,
            Ok(Some(MayMissPack::MISSING(i))) => self.pack(pack_id) == Some(None::<Seq<u8>>) && first_of(self.manifest_pack.i@, pack_id) == Some(i),
            Ok(Some(MayMissPack::FOUND(p))) => self.pack(pack_id) == Some(Some(p.b@)),
            _ => true,
        },
    @*/
    /*@fn src/reader/jubako.rs | impl Container | get_pack
    requires self.inv(),
    ensures
        match r {
            Ok(None) => self.pack(pack_id) is None,
            Ok(Some(MayMissPack::MISSING(i))) => self.pack(pack_id) == Some(None::<Seq<u8>>) && first_of(self.manifest_pack.i@, pack_id) == Some(i),
            Ok(Some(MayMissPack::FOUND(p))) => self.pack(pack_id) == Some(Some(p.b@)),
            _ => true,
        },
    @start
        let mut filled: Ghost<bool> = Ghost(false);
        proof { first_is(self.manifest_pack.i@, pack_id); }
    @sub `cache_slot.get()` => `cache_slot.get(&mut filled)`
    @sub `cache_slot.set(p)` => `cache_slot.set(p, &mut filled)`
    @*/
    /*@fn src/reader/jubako.rs | impl Container | get_bytes
    requires self.inv(),
    ensures
        match r {
            // an unknown pack, a missing pack and its description, the content or none of that number
            Ok(None) => self.pack(content.pack_id) is None,
            Ok(Some(MayMissPack::MISSING(i))) => self.pack(content.pack_id) == Some(None::<Seq<u8>>) && first_of(self.manifest_pack.i@, content.pack_id) == Some(i),
            Ok(Some(MayMissPack::FOUND(c))) => self.pack(content.pack_id) is Some && self.pack(content.pack_id)->0 is Some && (match c { Some(x) => Some(x.b@), None => None }) == content_in(self.pack(content.pack_id)->0->0, content.content_id.0),
            _ => true,
        },
    @*/
    /*@fn src/reader/jubako.rs | impl Container | check
    requires self.inv(), forall|u: Uuid, l: SmallString| (#[trigger] self.locator.found(u, l)) matches Some(b) ==> b.len() <= i64::MAX,
    ensures
        r matches Ok(true) ==> self.all_intact(),
        r matches Ok(false) ==> !self.all_intact(),
    @sub `for pack_info in self.manifest_pack.get_pack_infos().iter()` => `for pack_info in it: self.manifest_pack.get_pack_infos()`
    @sub `let pack_reader =` => `proof { assert(self.manifest_pack.i@.map_values(|i: PackInfo| &i)[it.index@] == pack_info); } let ghost im = self.intact_or_missing(self.manifest_pack.i@[it.index@]); let pack_reader =`
    @loop 1
        invariant
            self.inv(), forall|u: Uuid, l: SmallString| (#[trigger] self.locator.found(u, l)) matches Some(b) ==> b.len() <= i64::MAX,
            intact(self.manifest_pack.b@), intact(self.directory_pack.b@),
            it.seq() == self.manifest_pack.i@.map_values(|i: PackInfo| &i),
            forall|k: int| 0 <= k < it.index@ ==> #[trigger] self.intact_or_missing(self.manifest_pack.i@[k]),
    @*/
    pub open spec fn intact_or_missing(&self, i: PackInfo) -> bool {
        self.locator.found(i.uuid, i.pack_location) matches Some(b) ==> forall|u: Uuid| #[trigger] file_packs(b).dom().contains(u) ==> intact(file_packs(b)[u])
    }
    pub open spec fn all_intact(&self) -> bool {
        intact(self.manifest_pack.b@) && intact(self.directory_pack.b@) && forall|k: int| 0 <= k < self.manifest_pack.i@.len() ==> #[trigger] self.intact_or_missing(self.manifest_pack.i@[k])
    }
}
#[verifier::external_body]
pub fn unreached() -> ! requires false { unimplemented!() }
} // verus!
fn main() {}
