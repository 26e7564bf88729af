/*@include numbers.inc @*/
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum CompressionType { None, Lz4, Lzma, Zstd }
// trusted: the levels of Compression (deranged integers) do not matter to the contracts
#[derive(Clone, Copy)] pub enum Compression { None, Lz4(u32), Lzma(u32), Zstd(i32) }
pub open spec fn ctype(c: Compression) -> CompressionType {
    match c { Compression::None => CompressionType::None, Compression::Lz4(_) => CompressionType::Lz4, Compression::Lzma(_) => CompressionType::Lzma, Compression::Zstd(_) => CompressionType::Zstd }
}
/// a content to store: its bytes, and how much of it was read already
pub struct Input { pub content: Ghost<Seq<u8>>, pub pos: Ghost<int> }
impl Input {
    pub open spec fn len(&self) -> int { self.content@.len() as int }
    // assumed: InputReader::size() is the number of bytes the reader gives, which does not change between insertion and writing
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self.len() { unimplemented!() }
}

pub struct ContentInfo { pub cluster_index: ClusterIdx, pub blob_index: BlobIdx }

pub struct ClusterCreator {
    pub compressed: bool,
    pub index: ClusterIdx,
    pub data: Vec<Input>,
    pub offsets: Vec<u64>,
}

pub open spec fn end(offsets: Seq<u64>, i: int) -> int { if i < 0 { 0 } else { offsets[i] as int } }

impl ClusterCreator {
    pub open spec fn inv(&self) -> bool {
        &&& self.offsets@.len() == self.data@.len() <= 0xFFF
        &&& forall|i: int| 0 <= i < self.offsets@.len() ==> #[trigger] self.offsets@[i] == end(self.offsets@, i - 1) + self.data@[i].len()
    }
    pub open spec fn total(&self) -> int { end(self.offsets@, self.offsets@.len() - 1) }
}
/// an assert! of the code: it must hold
pub fn runtime_assert(b: bool) requires b {}

pub uninterp spec fn header_bytes(c: CompressionType, w: ByteSize, n: u16) -> Seq<u8>;
pub uninterp spec fn header_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn header_comp(s: Seq<u8>) -> CompressionType;
pub uninterp spec fn header_width(s: Seq<u8>) -> ByteSize;
pub uninterp spec fn header_count(s: Seq<u8>) -> u16;
// proved elsewhere: kani cluster_header contract (common/headers/cluster.rs): 4 bytes, read back, and nothing else accepted
pub mod header_axioms {
use super::*;
pub broadcast axiom fn axiom_header(c: CompressionType, w: ByteSize, n: u16)
    requires w.ok(),
    ensures ({
        let s = #[trigger] header_bytes(c, w, n);
        s.len() == 4 && header_ok(s) && header_comp(s) == c && header_width(s) == w && header_count(s) == n
    });
}

pub open spec fn tail(c: CompressionType, w: ByteSize, raw: u64, offsets: Seq<u64>) -> Seq<u8> {
    header_bytes(c, w, offsets.len() as u16) + le(raw, w.0 as int) + le(offsets[offsets.len() - 1], w.0 as int)
        + ends(offsets, w.0 as int, offsets.len() - 1)
}

/// what serialize_cluster_tail is given: the data is not read any more
pub open spec fn ascending(offsets: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < offsets.len() ==> offsets[i] <= offsets[j] }

pub proof fn increasing(offsets: Seq<u64>, c: ClusterCreator, i: int, j: int)
    requires c.inv(), offsets == c.offsets@, 0 <= i <= j < offsets.len(),
    ensures offsets[i] <= offsets[j],
    decreases j - i,
{ if i < j { assert(offsets[j] == end(offsets, j - 1) + c.data@[j].len()); increasing(offsets, c, i, j - 1); } }

