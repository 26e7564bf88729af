/*@ C01 C02 C06 C10: what is reached through a pack: its tables are read where its header says, after their checksum was verified, and their
elements by their index, an index past the end being an error (ArrayReader new_memory_from_reader, index); a content is the blob its entry of
the table names in the cluster it names, whatever was asked before (ContentPack new, get_content, get_cluster, _get_cluster, get_content_count);
an index is the one of this number or of this name, if there is one (DirectoryPack new, get_index, get_index_from_name, Index new, get_store_id,
size, is_empty, offset, count); a value store or an entry store is the one its number names, whatever was asked before (DirectoryPack get_value,
get_len, VecCache new, get, get_value_store, get_entry_store, Index get_store). */
use vstd::prelude::*;
use std::sync::Arc;
verus! {
/*@types ContentIdx ContentCount u32 ClusterIdx ClusterCount u32 BlobIdx BlobCount u16 EntryIdx EntryCount u32 EntryStoreIdx EntryStoreCount u32 ValueStoreIdx ValueStoreCount u8 IndexIdx IndexCount u32 sizes @*/
/*@include std.inc @*/
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;

// ---- what is parsed
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum PackKind { Manifest, Directory, Content, Container }
#[derive(Clone, Copy)] pub struct SizedOffset { pub size: ASize, pub offset: Offset }
#[derive(Clone, Copy)] pub struct ContentInfo { pub cluster_index: ClusterIdx, pub blob_index: BlobIdx }
pub struct PackHeader { pub magic: PackKind, pub file_size: Size, pub check_info_pos: Offset }
pub struct PackFreeData { pub b: [u8; 24] }
pub struct ContentPackHeader { pub content_ptr_pos: Offset, pub cluster_ptr_pos: Offset, pub content_count: ContentCount, pub cluster_count: ClusterCount, pub free_data: PackFreeData }
pub struct DirectoryPackHeader {
    pub entry_store_ptr_pos: Offset, pub index_ptr_pos: Offset, pub value_store_ptr_pos: Offset,
    pub entry_store_count: EntryStoreCount, pub index_count: IndexCount, pub value_store_count: ValueStoreCount, pub free_data: PackFreeData,
}
pub struct SmallString { pub b: Ghost<Seq<char>> }
impl SmallString {
    pub open spec fn view(&self) -> Seq<char> { self.b@ }
    // trusted: SmallString::as_str, == of strings
    #[verifier::external_body]
    pub fn is(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
pub struct IndexHeader { pub store_id: EntryStoreIdx, pub entry_count: EntryCount, pub entry_offset: EntryIdx, pub name: SmallString }
/// what these bytes stand for, if they stand for something; on how many bytes
// proved elsewhere: what is parsed from the bytes: kani contracts of common/headers, common/content_info.rs, bases/types/sized_offset.rs, unit directory_write (indexes)
pub trait Parsable: Sized { spec fn of(b: Seq<u8>) -> Option<Self>; spec fn width() -> int; fn size_() -> (r: usize) ensures r == Self::width(), 1 <= r <= 64; }
macro_rules! parsable { ($($t:ident $f:ident $w:expr;)*) => { verus! {
    $(pub uninterp spec fn $f(b: Seq<u8>) -> Option<$t>;
    impl Parsable for $t { open spec fn of(b: Seq<u8>) -> Option<Self> { $f(b) } open spec fn width() -> int { $w } fn size_() -> usize { $w } })*
} } }
parsable! { PackHeader header 60; ContentPackHeader content_header 60; DirectoryPackHeader directory_header 60; ContentInfo content_info 4; SizedOffset sized_offset 8; IndexHeader index_header 1; }
impl PackHeader { pub const BLOCK_SIZE: usize = 64; }
/// a block: its bytes and their checksum
// proved elsewhere: unit reader
pub uninterp spec fn block_ok(b: Seq<u8>, at: int, n: int) -> bool;
pub open spec fn block<T: Parsable>(b: Seq<u8>, at: int, n: int) -> Option<T> { if at + n <= b.len() && block_ok(b, at, n) { T::of(b.subrange(at, at + n)) } else { None } }
pub open spec fn block_at<T: Parsable>(b: Seq<u8>, at: int) -> Option<T> { block::<T>(b, at, T::width()) }
#[derive(Clone, Copy)] pub enum BlockCheck { None, Crc32 }
pub struct Reader { pub data: Ghost<Seq<u8>> }
pub struct CheckReader { pub data: Ghost<Seq<u8>> }
/// what is built from a place of these bytes
pub trait Built: Sized { spec fn built(b: Seq<u8>, so: SizedOffset, v: Self) -> bool; }
// proved elsewhere: Reader, CheckReader: unit reader
impl Reader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn cut(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Reader>)
        ensures r matches Ok(x) ==> offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cut_check(&self, offset: Offset, size: Size, check: BlockCheck) -> (r: Result<CheckReader>)
        ensures r matches Ok(x) ==> offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0) && (check is Crc32 ==> block_ok(self@, offset.0 as int, size.0 as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_block_at<T: Parsable>(&self, offset: Offset) -> (r: Result<T>)
        ensures r matches Ok(v) ==> block_at::<T>(self@, offset.0 as int) == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_block_in<T: Parsable>(&self, offset: Offset, size: ASize) -> (r: Result<T>)
        ensures r matches Ok(v) ==> block::<T>(self@, offset.0 as int, size.0 as int) == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_data_block<T: Built>(&self, so: SizedOffset) -> (r: Result<T>)
        ensures r matches Ok(v) ==> T::built(self@, so, v),
    { unimplemented!() }
}
impl CheckReader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn parse_in<T: Parsable>(&self, offset: Offset, size: ASize) -> (r: Result<T>)
        ensures r matches Ok(v) ==> offset.0 + size.0 <= self@.len() && T::of(self@.subrange(offset.0 as int, offset.0 + size.0)) == Some(v),
    { unimplemented!() }
}

// ---- tables
pub trait Number: Sized + Copy { spec fn n(&self) -> int; proof fn small(&self) ensures 0 <= self.n() <= u32::MAX; fn as_u64(self) -> (r: u64) ensures r == self.n(), r <= u32::MAX; }
pub trait Index_<C: Number>: Sized + Copy {
    spec fn i(&self) -> int;
    fn is_valid(&self, c: C) -> (r: bool) ensures r == (self.i() < c.n());
    fn base(self) -> (r: u64) ensures r == self.i();
}
macro_rules! numbers { ($($i:ident $c:ident)*) => { verus! {
    $(impl Number for $c { open spec fn n(&self) -> int { self.0 as int } proof fn small(&self) {} fn as_u64(self) -> u64 { self.0 as u64 } }
    impl Index_<$c> for $i {
        open spec fn i(&self) -> int { self.0 as int }
        fn is_valid(&self, c: $c) -> bool { self.0 < c.0 }
        fn base(self) -> u64 { self.0 as u64 }
    })*
} } }
numbers! { ContentIdxInner ContentCountInner ClusterIdxInner ClusterCountInner EntryStoreIdxInner EntryStoreCountInner ValueStoreIdxInner ValueStoreCountInner IndexIdxInner IndexCountInner }
/// the k-th element of the table of n elements at this place of these bytes
pub open spec fn elem<T: Parsable>(b: Seq<u8>, at: int, n: int, k: int) -> Option<T> {
    if 0 <= k < n && at + n * T::width() <= b.len() && block_ok(b, at, n * T::width()) { T::of(b.subrange(at + k * T::width(), at + k * T::width() + T::width())) } else { None }
}
#[verifier::reject_recursive_types(T)]
pub struct ArrayReader<T, C> { pub reader: CheckReader, pub length: C, pub elem_size: ASize, pub produced_type: Ghost<Option<T>> }
impl<T: Parsable, C: Number> ArrayReader<T, C> {
    /// it is the table of this place of these bytes
    pub open spec fn is(&self, b: Seq<u8>, at: int) -> bool {
        let n = self.length.n() * T::width();
        &&& self.elem_size.0 == T::width() && 1 <= T::width() <= 64 && self.length.n() >= 0
        &&& at + n <= b.len() && block_ok(b, at, n) && self.reader@ == b.subrange(at, at + n)
    }
    /*@fn src/bases/mod.rs | impl<OutType, IdxType> ArrayReader<OutType, IdxType> where OutType: SizedParsable, u64: std::convert::From<Count<IdxType>>, IdxType: Copy, | new_memory_from_reader
    ensures r matches Ok(a) ==> a.is(reader@, at.0 as int) && a.length == length,
    @sub `Count<IdxType>` => `C`
    @sub `OutType::SIZE.into()` => `ASize::new(T::size_())`
    @sub `OutType::SIZE as u64 * u64::from(length)` => `sized(T::size_() as u64, length.as_u64())`
    @sub `OutType::SIZE` => `T::size_()`
    @sub `u64::from(length)` => `length.as_u64()`
    @sub `PhantomData` => `Ghost(None)`
    @start
        proof { length.small(); assert(length.n() * T::width() == T::width() * length.n()) by (nonlinear_arith); }
    @*/
    /*@fn src/bases/mod.rs | impl<OutType: Parsable, IdxType> IndexTrait<Idx<IdxType>> for ArrayReader<OutType, IdxType> where u64: std::convert::From<IdxType>, IdxType: std::cmp::PartialOrd + Copy + std::fmt::Debug, | index
    requires exists|b: Seq<u8>, at: int| 0 <= at && #[trigger] self.is(b, at),
    ensures
        r matches Ok(v) ==> forall|b: Seq<u8>, at: int| 0 <= at && #[trigger] self.is(b, at) ==> elem::<T>(b, at, self.length.n(), idx.i()) == Some(v),
        r is Ok ==> idx.i() < self.length.n(),
    @sub `fn index(` => `fn index<I: Index_<C>>(`
    @sub `Idx<IdxType>` => `I`
    @sub `OutType::Output` => `T`
    @sub `parse_in::<OutType>` => `parse_in::<T>`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @before `let offset = sized`
        proof { self.length.small(); }
    @sub `/u64::from\(idx\.into_base\(\)\) \* self\.elem_size\.into_u64\(\)/` => `sized(idx.base(), self.elem_size.into_u64())`
    @sub `/self\.reader\s*\.parse_in/` => `proof { self.length.small(); places::<T, C, I>(*self, idx); } self.reader.parse_in`
    @*/
}
/// a product of 64-bit numbers: it must not overflow
pub fn sized(a: u64, b: u64) -> (r: u64) requires a <= 64 && b <= u32::MAX || b <= 64 && a <= u32::MAX ensures r == a * b { proof { if a <= 64 { fits(a as int, b as int); } else { fits(b as int, a as int); assert(a * b == b * a) by (nonlinear_arith); } } a * b }
pub proof fn fits(a: int, b: int) requires 0 <= a <= 64, 0 <= b <= u32::MAX ensures a * b <= u64::MAX, a * b >= 0 { assert(a * b <= 64 * u32::MAX && a * b >= 0) by (nonlinear_arith) requires 0 <= a <= 64, 0 <= b <= u32::MAX; }
pub proof fn places<T: Parsable, C: Number, I: Index_<C>>(a: ArrayReader<T, C>, i: I)
    requires 0 <= i.i() < a.length.n(), T::width() >= 0,
    ensures forall|b: Seq<u8>, at: int| 0 <= at && #[trigger] a.is(b, at) ==> ({
        let o = i.i() * T::width();
        0 <= o && o + T::width() <= a.reader@.len() && a.reader@.subrange(o, o + T::width()) == b.subrange(at + o, at + o + T::width())
    }),
{
    assert forall|b: Seq<u8>, at: int| 0 <= at && #[trigger] a.is(b, at) implies ({
        let o = i.i() * T::width();
        0 <= o && o + T::width() <= a.reader@.len() && a.reader@.subrange(o, o + T::width()) == b.subrange(at + o, at + o + T::width())
    }) by {
        let (k, n, w) = (i.i(), a.length.n(), T::width());
        assert(0 <= k * w && k * w + w <= n * w) by (nonlinear_arith) requires 0 <= k < n, 0 <= w;
        assert(a.reader@.subrange(k * w, k * w + w) =~= b.subrange(at + k * w, at + k * w + w));
    }
}

// ---- contents
#[derive(Clone)] pub struct ByteRegion { pub data: Ghost<Seq<u8>> }
impl ByteRegion { pub open spec fn view(&self) -> Seq<u8> { self.data@ } }
pub struct Cluster { pub at: Ghost<(Seq<u8>, SizedOffset)> }
/// the content of this blob of the cluster at this place
// proved elsewhere: units cluster and decoder
pub uninterp spec fn blob_of(b: Seq<u8>, so: SizedOffset, i: BlobIdx) -> Option<Seq<u8>>;
impl Built for Cluster { open spec fn built(b: Seq<u8>, so: SizedOffset, v: Self) -> bool { v.at@ == (b, so) } }
impl Cluster {
    #[verifier::external_body]
    pub fn get_bytes(&self, i: BlobIdx) -> (r: Result<ByteRegion>) ensures r matches Ok(x) ==> blob_of(self.at@.0, self.at@.1, i) == Some(x@) { unimplemented!() }
}
/// what is kept of what was asked for: under each key, something that is wanted there
// trusted: lru::LruCache::try_get_or_insert gives what is kept under the key, or what the function given makes (and keeps it under the key); Mutex (not poisoned)
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Cache<K, V> { pub want: Ghost<spec_fn(K, V) -> bool> }
impl<K, V> Cache<K, V> {
    #[verifier::external_body]
    pub fn empty(want: Ghost<spec_fn(K, V) -> bool>) -> (r: Self) ensures r.want == want { unimplemented!() }
    #[verifier::external_body]
    pub fn try_get_or_insert<F: FnOnce() -> Result<V>>(&self, k: K, f: F) -> (r: Result<&V>)
        requires f.requires(()), forall|v: V| #[trigger] f.ensures((), Ok::<V, Error>(v)) ==> (self.want@)(k, v),
        ensures r matches Ok(v) ==> (self.want@)(k, *v),
    { unimplemented!() }
}
pub struct Lock;
impl Lock { pub fn new() -> Lock { Lock } }
pub struct ContentPack {
    pub pack_header: PackHeader, pub header: ContentPackHeader, pub content_infos: ArrayReader<ContentInfo, ContentCountInner>, pub cluster_ptrs: ArrayReader<SizedOffset, ClusterCountInner>,
    pub cluster_cache: Cache<ClusterIdx, Arc<Cluster>>, pub reader: Reader, pub check_info: Lock,
}
/// the cluster of this number, and this content, of the pack of these bytes
pub open spec fn cluster_place(b: Seq<u8>, h: ContentPackHeader, k: ClusterIdx) -> Option<SizedOffset> { elem::<SizedOffset>(b, h.cluster_ptr_pos.0 as int, h.cluster_count.0 as int, k.0 as int) }
pub open spec fn content_of(b: Seq<u8>, h: ContentPackHeader, k: ContentIdx) -> Option<Seq<u8>> {
    match elem::<ContentInfo>(b, h.content_ptr_pos.0 as int, h.content_count.0 as int, k.0 as int) {
        Some(i) => match cluster_place(b, h, i.cluster_index) { Some(so) => blob_of(b, so, i.blob_index), None => None },
        None => None,
    }
}
pub open spec fn clusters(b: Seq<u8>, h: ContentPackHeader) -> spec_fn(ClusterIdx, Arc<Cluster>) -> bool {
    |k: ClusterIdx, v: Arc<Cluster>| cluster_place(b, h, k) matches Some(so) && Cluster::built(b, so, *v)
}
impl ContentPack {
    pub open spec fn inv(&self) -> bool {
        let (b, h) = (self.reader@, self.header);
        &&& self.content_infos.is(b, h.content_ptr_pos.0 as int) && self.content_infos.length.0 == h.content_count.0
        &&& self.cluster_ptrs.is(b, h.cluster_ptr_pos.0 as int) && self.cluster_ptrs.length.0 == h.cluster_count.0
        &&& self.cluster_cache.want@ == clusters(b, h)
    }
    /*@fn src/reader/content_pack/mod.rs | impl ContentPack | new
    ensures
        r matches Ok(p) ==> p.inv() && p.reader == reader && block_at::<PackHeader>(reader@, 0) == Some(p.pack_header) && p.pack_header.magic is Content
            && block_at::<ContentPackHeader>(reader@, 64) == Some(p.header),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `/Mutex::new\(LruCache::with_hasher\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\)/` => `Cache::empty(Ghost(clusters(reader@, header)))`
    @sub `OnceLock::new()` => `Lock::new()`
    @*/
    /*@fn src/reader/content_pack/mod.rs | impl ContentPack | get_content_count
    ensures r == self.header.content_count,
    @*/
    /*@fn src/reader/content_pack/mod.rs | impl ContentPack | _get_cluster
    requires self.inv(),
    ensures r matches Ok(c) ==> (clusters(self.reader@, self.header))(cluster_index, c),
    @start
        proof { assert(self.cluster_ptrs.is(self.reader@, self.header.cluster_ptr_pos.0 as int)); }
    @*/
    /*@fn src/reader/content_pack/mod.rs | impl ContentPack | get_cluster
    requires self.inv(),
    ensures r matches Ok(c) ==> (clusters(self.reader@, self.header))(cluster_index, c),
    @sub `let mut cache = self.cluster_cache.lock().unwrap();` => `let cache = &self.cluster_cache;`
    @sub `/\|\| self\._get_cluster\((\w+)\)/` => `|| -> (c: Result<Arc<Cluster>>) ensures c matches Ok(v) ==> (clusters(self.reader@, self.header))(\1, v) { self._get_cluster(\1) }`
    @*/
    /*@fn src/reader/content_pack/mod.rs | impl ContentPack | get_content
    requires self.inv(),
    ensures
        r matches Ok(x) ==> (x is None <==> index.0 >= self.header.content_count.0),
        // whatever was asked before
        r matches Ok(Some(x)) ==> content_of(self.reader@, self.header, index) == Some(x@),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @start
        proof { assert(self.content_infos.is(self.reader@, self.header.content_ptr_pos.0 as int)); }
    @*/
}

// ---- the directory
pub struct Index { pub header: IndexHeader }
impl Index {
    /*@fn src/reader/directory_pack/index.rs | impl Index | new
    ensures r.header == header,
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl Index | get_store_id
    ensures r == self.header.store_id,
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl Index | size
    ensures r == self.header.entry_count,
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl Index | is_empty
    ensures r == (self.header.entry_count.0 == 0),
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl RangeTrait for Index | offset
    ensures r == self.header.entry_offset,
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl RangeTrait for Index | count
    ensures r == self.header.entry_count,
    @*/
    /*@fn src/reader/directory_pack/index.rs | impl Index | get_store
    requires entry_storage.inv(), self.header.store_id.0 < entry_storage.0.source.header.entry_store_count.0,
    ensures r matches Ok(s) ==> entry_store_is(*entry_storage.0.source, self.header.store_id.0 as int, *s),
    @*/
}
pub struct ValueStore { pub at: Ghost<(Seq<u8>, SizedOffset)> }
pub struct EntryStore { pub at: Ghost<(Seq<u8>, SizedOffset)> }
// proved elsewhere: units value_store and entry_store: what is parsed from there
impl Built for ValueStore { open spec fn built(b: Seq<u8>, so: SizedOffset, v: Self) -> bool { v.at@ == (b, so) } }
impl Built for EntryStore { open spec fn built(b: Seq<u8>, so: SizedOffset, v: Self) -> bool { v.at@ == (b, so) } }
pub struct DirectoryPack {
    pub pack_header: PackHeader, pub header: DirectoryPackHeader,
    pub value_stores_ptrs: ArrayReader<SizedOffset, ValueStoreCountInner>, pub entry_stores_ptrs: ArrayReader<SizedOffset, EntryStoreCountInner>, pub index_ptrs: ArrayReader<SizedOffset, IndexCountInner>,
    pub reader: Reader, pub check_info: Lock,
}
/// the header of the index of this number
pub open spec fn index_at(b: Seq<u8>, h: DirectoryPackHeader, k: int) -> Option<IndexHeader> {
    match elem::<SizedOffset>(b, h.index_ptr_pos.0 as int, h.index_count.0 as int, k) { Some(so) => block::<IndexHeader>(b, so.offset.0 as int, so.size.0 as int), None => None }
}
pub open spec fn named(b: Seq<u8>, h: DirectoryPackHeader, k: int, name: Seq<char>) -> bool { index_at(b, h, k) matches Some(i) && i.name@ == name }
pub open spec fn other(b: Seq<u8>, h: DirectoryPackHeader, k: int, name: Seq<char>) -> bool { index_at(b, h, k) matches Some(i) && i.name@ != name }
pub open spec fn first_named(b: Seq<u8>, h: DirectoryPackHeader, k: int, name: Seq<char>) -> bool {
    0 <= k < h.index_count.0 && named(b, h, k, name) && forall|j: int| 0 <= j < k ==> #[trigger] other(b, h, j, name)
}
pub open spec fn named_one(b: Seq<u8>, h: DirectoryPackHeader, name: Seq<char>, i: IndexHeader) -> bool { exists|k: int| #[trigger] first_named(b, h, k, name) && index_at(b, h, k) == Some(i) }
pub open spec fn value_store_is(p: DirectoryPack, k: int, v: ValueStore) -> bool {
    elem::<SizedOffset>(p.reader@, p.header.value_store_ptr_pos.0 as int, p.header.value_store_count.0 as int, k) matches Some(so) && ValueStore::built(p.reader@, so, v)
}
pub open spec fn entry_store_is(p: DirectoryPack, k: int, v: EntryStore) -> bool {
    elem::<SizedOffset>(p.reader@, p.header.entry_store_ptr_pos.0 as int, p.header.entry_store_count.0 as int, k) matches Some(so) && EntryStore::built(p.reader@, so, v)
}
impl DirectoryPack {
    pub open spec fn inv(&self) -> bool {
        let (b, h) = (self.reader@, self.header);
        &&& self.value_stores_ptrs.is(b, h.value_store_ptr_pos.0 as int) && self.value_stores_ptrs.length.0 == h.value_store_count.0
        &&& self.entry_stores_ptrs.is(b, h.entry_store_ptr_pos.0 as int) && self.entry_stores_ptrs.length.0 == h.entry_store_count.0
        &&& self.index_ptrs.is(b, h.index_ptr_pos.0 as int) && self.index_ptrs.length.0 == h.index_count.0
    }
    /*@fn src/reader/directory_pack/mod.rs | impl DirectoryPack | new
    ensures
        r matches Ok(p) ==> p.inv() && p.reader@ == reader@ && block_at::<PackHeader>(reader@, 0) == Some(p.pack_header) && p.pack_header.magic is Directory
            && block_at::<DirectoryPackHeader>(reader@, 64) == Some(p.header),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `RwLock::new(None)` => `Lock::new()`
    @before `let pack_header`
        proof { assert(reader@ =~= old_); }
    @start
        let ghost old_ = reader@;
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl DirectoryPack | get_index
    requires self.inv(),
    ensures
        r matches Ok(x) ==> index_at(self.reader@, self.header, index_id.0 as int) == Some(x.header),
        index_id.0 >= self.header.index_count.0 ==> r is Err,
    @start
        proof { assert(self.index_ptrs.is(self.reader@, self.header.index_ptr_pos.0 as int)); }
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl DirectoryPack | get_index_from_name
    requires self.inv(),
    ensures
        r matches Ok(Some(x)) ==> named_one(self.reader@, self.header, index_name@, x.header),
        r matches Ok(None) ==> forall|k: int| 0 <= k < self.header.index_count.0 ==> #[trigger] other(self.reader@, self.header, k, index_name@),
    @sub `for index_id in self.header.index_count` => `for index_id in it: self.header.index_count`
    @sub `/index_header\.name\.as_str\(\) == index_name/` => `index_header.name.is(index_name)`
    @loop 1
        invariant
            self.inv(), self.index_ptrs.is(self.reader@, self.header.index_ptr_pos.0 as int),
            it.seq().len() == self.header.index_count.0, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == IndexIdx(i as u32),
            forall|k: int| 0 <= k < it.index@ ==> #[trigger] other(self.reader@, self.header, k, index_name@),
    @after `let index_header`
        proof { assert(index_at(self.reader@, self.header, it.index@) == Some(index_header));  }
    @before `let index = Index::new(`
        proof { assert(first_named(self.reader@, self.header, it.index@, index_name@)); }
    @*/
}

// ---- what is kept of the stores
// trusted: OnceLock get/set: what is got is what was put, and what was put is never taken back
#[verifier::reject_recursive_types(V)]
pub struct OnceLock<V> { pub want: Ghost<spec_fn(V) -> bool> }
impl<V> OnceLock<V> {
    pub uninterp spec fn filled(&self) -> bool;
    #[verifier::external_body]
    pub fn get(&self) -> (r: Option<&V>) ensures self.filled() || r is None, r matches Some(v) ==> (self.want@)(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unset(&self) -> (r: bool) ensures !r ==> self.filled() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&self, v: V) requires (self.want@)(v) ensures self.filled() { unimplemented!() }
    #[verifier::external_body]
    pub fn held(&self) -> (r: &V) requires self.filled() ensures (self.want@)(*r) { unimplemented!() }
}
pub trait StoreIdx: Sized + Copy { spec fn k(&self) -> int; fn into_usize_(self) -> (r: usize) ensures r == self.k(); }
impl StoreIdx for ValueStoreIdx { open spec fn k(&self) -> int { self.0 as int } fn into_usize_(self) -> usize { self.0 as usize } }
impl StoreIdx for EntryStoreIdx { open spec fn k(&self) -> int { self.0 as int } fn into_usize_(self) -> usize { self.0 as usize } }
pub trait CachableSource<Value>: Sized {
    type Idx: StoreIdx;
    /// it can be asked; for so many values; of which this is the one of this number
    spec fn ready(&self) -> bool;
    spec fn len_(&self) -> int;
    spec fn is_value(&self, k: int, v: Value) -> bool;
    fn get_len(&self) -> (r: usize) ensures r == self.len_();
    fn get_value(&self, id: Self::Idx) -> (r: Result<Arc<Value>>) requires self.ready() ensures r matches Ok(v) ==> self.is_value(id.k(), *v);
}
impl CachableSource<ValueStore> for DirectoryPack {
    type Idx = ValueStoreIdx;
    open spec fn ready(&self) -> bool { self.inv() }
    open spec fn len_(&self) -> int { self.header.value_store_count.0 as int }
    open spec fn is_value(&self, k: int, v: ValueStore) -> bool { value_store_is(*self, k, v) }
    /*@fn src/reader/directory_pack/mod.rs | impl CachableSource<ValueStore> for DirectoryPack | get_len
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl CachableSource<ValueStore> for DirectoryPack | get_value
    @start
        proof { assert(self.value_stores_ptrs.is(self.reader@, self.header.value_store_ptr_pos.0 as int)); }
    @*/
}
impl CachableSource<EntryStore> for DirectoryPack {
    type Idx = EntryStoreIdx;
    open spec fn ready(&self) -> bool { self.inv() }
    open spec fn len_(&self) -> int { self.header.entry_store_count.0 as int }
    open spec fn is_value(&self, k: int, v: EntryStore) -> bool { entry_store_is(*self, k, v) }
    /*@fn src/reader/directory_pack/mod.rs | impl CachableSource<EntryStore> for DirectoryPack | get_len
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl CachableSource<EntryStore> for DirectoryPack | get_value
    @start
        proof { assert(self.entry_stores_ptrs.is(self.reader@, self.header.entry_store_ptr_pos.0 as int)); }
    @*/
}
#[verifier::reject_recursive_types(Value)]
#[verifier::reject_recursive_types(Source)]
pub struct VecCache<Value, Source: CachableSource<Value>> { pub source: Arc<Source>, pub values: Vec<OnceLock<Arc<Value>>> }
pub open spec fn wanted<Value, Source: CachableSource<Value>>(s: Source, k: int) -> spec_fn(Arc<Value>) -> bool { |v: Arc<Value>| s.is_value(k, *v) }
// trusted: resize_with of a new Vec gives so many empty slots
#[verifier::external_body]
pub fn slots<Value, Source: CachableSource<Value>>(s: &Source, n: usize) -> (r: Vec<OnceLock<Arc<Value>>>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).want@ == wanted::<Value, Source>(*s, k),
{ unimplemented!() }
impl<Value, Source: CachableSource<Value>> VecCache<Value, Source> {
    pub open spec fn inv(&self) -> bool {
        &&& self.source.ready() && self.values@.len() == self.source.len_()
        &&& forall|k: int| 0 <= k < self.values@.len() ==> (#[trigger] self.values@[k]).want@ == wanted::<Value, Source>(*self.source, k)
    }
    /*@fn src/bases/cache.rs | impl<Value, Source> VecCache<Value, Source> where Source: CachableSource<Value>, | new
    requires source.ready(),
    ensures r.inv(), r.source == source,
    @sub `let mut values = Vec::new();` => ``
    @sub `/values\.resize_with\(([^;]*), Default::default\);/` => `let values = slots::<Value, Source>(&source, \1);`
    @*/
    /*@fn src/bases/cache.rs | impl<Value, Source> VecCache<Value, Source> where Source: CachableSource<Value>, | get
    requires self.inv(), index.k() < self.source.len_(), index.k() >= 0,
    ensures r matches Ok(v) ==> self.source.is_value(index.k(), **v),
    @sub `Result<&Arc<Value>, Source::Error>` => `Result<&Arc<Value>>`
    @sub `index.into()` => `index.into_usize_()`
    @sub `cache_slot.get().is_none()` => `cache_slot.is_unset()`
    @sub `let _ = cache_slot.set(new_value);` => `cache_slot.put(new_value);`
    @sub `cache_slot.get().unwrap()` => `cache_slot.held()`
    @*/
}
pub struct ValueStorage(pub VecCache<ValueStore, DirectoryPack>);
pub struct EntryStorage(pub VecCache<EntryStore, DirectoryPack>);
impl ValueStorage {
    pub open spec fn inv(&self) -> bool { self.0.inv() }
    /*@fn src/reader/directory_pack/mod.rs | impl ValueStorage | new
    requires source.inv(),
    ensures r.inv(), r.0.source == source,
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl private::ValueStorageTrait for ValueStorage | get_value_store
    requires self.inv(), store_id.0 < self.0.source.header.value_store_count.0,
    ensures r matches Ok(v) ==> value_store_is(*self.0.source, store_id.0 as int, *v),
    @sub `Self::ValueStore` => `ValueStore`
    @*/
}
impl EntryStorage {
    pub open spec fn inv(&self) -> bool { self.0.inv() }
    /*@fn src/reader/directory_pack/mod.rs | impl EntryStorage | new
    requires source.inv(),
    ensures r.inv(), r.0.source == source,
    @*/
    /*@fn src/reader/directory_pack/mod.rs | impl EntryStorage | get_entry_store
    requires self.inv(), store_id.0 < self.0.source.header.entry_store_count.0,
    ensures r matches Ok(v) ==> entry_store_is(*self.0.source, store_id.0 as int, **v),
    @*/
}
}
fn main() {}
