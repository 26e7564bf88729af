/*@ C01 C14 C06 C08: clusters: ClusterCreator keeps the ends of its contents (blob i covers [end(i-1), end(i)) and the
address returned names it), serialize_cluster_tail writes every field on a width that holds it, ClusterBuilder::parse
gives back exactly the ends that were written (for any number of contents and any sizes), accepts only increasing ends
inside the cluster and never panics; Cluster::get_bytes gives the range of the blob, or an error past the last one. */
use vstd::prelude::*;
verus! {
/*@types ClusterIdx ClusterCount u32 BlobIdx BlobCount u16 sizes @*/
/*@include std.inc @*/
/*@include bytes.inc @*/
/*@include reader.inc @*/
/*@include cluster_defs.inc @*/

impl FromSpecImpl<Compression> for CompressionType {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: Compression) -> CompressionType { ctype(c) }
}

impl From<Compression> for CompressionType {
    /*@fn src/creator/mod.rs | impl From<Compression> for CompressionType | from
    @*/
}

impl ContentInfo {
    /*@fn src/common/content_info.rs | impl ContentInfo | new
    ensures r.cluster_index == cluster_index, r.blob_index == blob_index
    @*/
}

/*@const src/creator/content_pack/cluster.rs | MAX_BLOBS_PER_CLUSTER @*/
/*@const src/creator/content_pack/cluster.rs | CLUSTER_SIZE exec @*/

impl ClusterCreator {
    /*@fn src/creator/content_pack/cluster.rs | impl ClusterCreator | new
    ensures r.inv(), r.index == index, r.compressed == compressed, r.offsets@.len() == 0
    @*/
    /*@fn src/creator/content_pack/cluster.rs | impl ClusterCreator | data_size
    ensures r.0 == self.total()
    @sub `self.offsets.last().unwrap_or(&0)` => `last_or_0(&self.offsets)`
    @*/
    /*@fn src/creator/content_pack/cluster.rs | impl ClusterCreator | is_full
    requires
        self.inv(),
        // assumed: the sizes of the contents of a cluster add up to less than 2^64
        self.total() + size.0 <= u64::MAX,
    ensures
        // a cluster never takes more than 0xFFF contents; a raw one is limited by nothing else
        !r ==> self.offsets@.len() < 0xFFF,
        !self.compressed ==> r == (self.offsets@.len() == 0xFFF),
        // an empty cluster always takes one
        self.offsets@.len() == 0 ==> !r,
    @*/
    /*@fn src/creator/content_pack/cluster.rs | impl ClusterCreator | is_empty
    ensures r == (self.data@.len() == 0)
    @*/
    /*@fn src/creator/content_pack/cluster.rs | impl ClusterCreator | add_content
    requires
        old(self).inv(), old(self).offsets@.len() < 0xFFF,
        old(self).total() + content.len() <= u64::MAX,
    ensures
        r matches Ok(info) ==> {
            // the address names the blob, which covers the bytes of the content
            &&& info.cluster_index == old(self).index
            &&& info.blob_index.0 == old(self).data@.len()
            &&& final(self).inv()
            &&& final(self).data@ == old(self).data@.push(content)
            &&& final(self).offsets@ == old(self).offsets@.push((old(self).total() + content.len()) as u64)
        },
        final(self).index == old(self).index, final(self).compressed == old(self).compressed,
    @sub `Box<dyn InputReader>` => `Input`
    @sub `std::io::Result` => `IoResult`
    @sub `assert!(` => `runtime_assert(`
    @sub `self.offsets.last().unwrap_or(&0)` => `last_or_0(&self.offsets)`
    @before `Ok(ContentInfo`
        proof {
            assert forall|i: int| 0 <= i < self.offsets@.len() implies
                #[trigger] self.offsets@[i] == end(self.offsets@, i - 1) + self.data@[i].len() by {
                if i < old(self).offsets@.len() {
                    assert(self.offsets@[i] == old(self).offsets@[i]);
                    assert(i > 0 ==> self.offsets@[i - 1] == old(self).offsets@[i - 1]);
                }
            }
        }
    @*/
}

/// `v.last().unwrap_or(&0)`
// trusted: slice::last, Option::unwrap_or (std)
#[verifier::external_body]
pub fn last_or_0(v: &Vec<u64>) -> (r: &u64) ensures *r == end(v@, v@.len() - 1) { v.last().unwrap_or(&0) }
// ---- the tail, as written
pub struct ClusterHeader { pub compression: CompressionType, pub offset_size: ByteSize, pub blob_count: BlobCount }
impl ClusterHeader {
    /*@fn src/common/headers/cluster.rs | impl ClusterHeader | new
    ensures r.compression == compression, r.offset_size == offset_size, r.blob_count == blob_count
    @*/
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>)
        ensures r is Ok ==> final(ser)@ == old(ser)@ + header_bytes(self.compression, self.offset_size, self.blob_count.0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(parser: &mut Parser) -> (r: Result<ClusterHeader>)
        requires old(parser).ok(),
        ensures
            final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
            r is Ok <==> old(parser).has(4) && header_ok(old(parser).next(4)),
            r matches Ok(h) ==> {
                let s = old(parser).next(4);
                h.compression == header_comp(s) && h.offset_size == header_width(s) && h.blob_count.0 == header_count(s)
                    && h.offset_size.ok() && final(parser).pos() == old(parser).pos() + 4
            },
    { unimplemented!() }
}

/*@fn src/creator/content_pack/clusterwriter.rs | | serialize_cluster_tail
    requires 0 < cluster.offsets@.len() <= 0xFFF, ascending(cluster.offsets@),
    ensures
        r is Ok ==> exists|w: ByteSize| #![auto] {
            &&& w.ok() && raw_data_size.0 < p256(w.0 as int) && cluster.total() < p256(w.0 as int)
            &&& final(ser)@ == old(ser)@ + tail(ctype(compression), w, raw_data_size.0, cluster.offsets@)
        },
    @loop 1 it
        invariant
            offset_size.ok(), ascending(cluster.offsets@), 0 < cluster.offsets@.len(),
            cluster.total() < p256(offset_size.0 as int),
            it.seq().len() == cluster.offsets@.len() - 1,
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cluster.offsets@[i],
            ser@ == before + ends(cluster.offsets@, offset_size.0 as int, it.index@),
    @before `for offset in`
        let ghost before = ser@;
    @before `Ok(())`
        proof {
            let t = tail(ctype(compression), offset_size, raw_data_size.0, cluster.offsets@);
            assert(ser@ =~= old(ser)@ + t);
        }
    @sub `std::io::Result` => `IoResult`
    @sub `&cluster.offsets[..cluster.offsets.len() - 1]` => `slice_to(&cluster.offsets, cluster.offsets.len() - 1)`
@*/

/// `&v[..n]`
// trusted: slicing of a vector (std)
#[verifier::external_body]
pub fn slice_to(v: &Vec<u64>, n: usize) -> (r: &[u64])
    requires n <= v@.len(),
    ensures r@ == v@.subrange(0, n as int)
{ &v[..n] }

// ---- the tail, as read
pub struct ClusterBuilder { pub blob_offsets: Vec<Offset>, pub data_size: Size, pub compression: CompressionType }

#[verifier::external_body]
pub fn format_error() -> Error { unimplemented!() }

/// where the i-th number after the raw size starts
#[verifier::opaque]
pub open spec fn at(p: int, w: int, i: int) -> int { p + 4 + (i + 1) * w }
pub proof fn at_step(p: int, w: int, i: int, n: int)
    requires 0 <= i <= n, 1 <= w,
    ensures at(p, w, 0) == p + 4 + w, at(p, w, i + 1) == at(p, w, i) + w, at(p, w, i) <= at(p, w, n), at(p, w, 1) == p + 4 + 2 * w,
{
    reveal(at);
    assert((0 + 1) * w == w) by (nonlinear_arith);
    assert((i + 1 + 1) * w == (i + 1) * w + w) by (nonlinear_arith);
    assert((i + 1) * w <= (n + 1) * w) by (nonlinear_arith) requires 0 <= i <= n, 1 <= w;
}
/// the i-th end according to the bytes of a tail
pub open spec fn read_end(s: Seq<u8>, p: int, w: int, i: int) -> u64 { unle(s.subrange(at(p, w, i), at(p, w, i + 1))) }

pub open spec fn start_at(s: Seq<u8>, p: int, w: int, i: int) -> u64 { if i == 0 { 0 } else { read_end(s, p, w, i) } }

pub open spec fn readable(s: Seq<u8>, p: int) -> bool {
    let h = s.subrange(p, p + 4);
    let w = header_width(h).0 as int;
    let n = header_count(h) as int;
    let data = unle(s.subrange(p + 4 + w, p + 4 + 2 * w));
    &&& p + 4 <= s.len() && header_ok(h)
    &&& p + 4 + 2 * w <= s.len() && at(p, w, n) <= s.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] start_at(s, p, w, i) <= data
    &&& forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] start_at(s, p, w, i) <= #[trigger] start_at(s, p, w, j)
    &&& header_comp(h) == CompressionType::None ==> unle(s.subrange(p + 4, p + 4 + w)) == data
}

impl ClusterBuilder {
    /*@fn src/reader/content_pack/cluster.rs | impl Parsable for ClusterBuilder | parse
    requires old(parser).ok(),
    ensures
        r is Ok <==> readable(old(parser).bytes(), old(parser).pos()),
        r matches Ok((b, raw)) ==> {
            let s = old(parser).bytes();
            let p = old(parser).pos();
            let h = s.subrange(p, p + 4);
            let w = header_width(h).0 as int;
            let n = header_count(h) as int;
            &&& b.compression == header_comp(h)
            &&& raw.0 == unle(s.subrange(p + 4, p + 4 + w))
            &&& b.data_size.0 == unle(s.subrange(p + 4 + w, p + 4 + 2 * w))
            &&& b.blob_offsets@.len() == n + 1
            &&& forall|i: int| 0 <= i < n ==> (#[trigger] b.blob_offsets@[i]).0 == start_at(s, p, w, i)
            &&& b.blob_offsets@[n].0 == b.data_size.0
            &&& forall|i: int, j: int| 0 <= i <= j <= n ==> b.blob_offsets@[i].0 <= b.blob_offsets@[j].0
            &&& b.compression == CompressionType::None ==> raw.0 == b.data_size.0
        },
    @loop 1 it
        invariant
            header.offset_size.ok(),
            w == header.offset_size.0, s == old(parser).bytes(), p == old(parser).pos(), 0 <= p,
            hb == s.subrange(p, p + 4), p + 4 <= s.len(), header_ok(hb),
            w == header_width(hb).0, blob_count == header_count(hb),
            p + 4 + 2 * w <= s.len(),
            data_size.0 == unle(s.subrange(p + 4 + w, p + 4 + 2 * w)),
            parser.ok(), parser.bytes() == s,
            parser.pos() == at(p, w, if it.index@ == 0 { 1 } else { it.index@ as int }),
            it.index@ <= blob_count,
            blob_offsets@.len() == it.index@,
            first == (it.index@ == 0),
            it.index@ > 0 ==> previous == blob_offsets@[it.index@ - 1],
            it.index@ == 0 ==> previous.0 == 0,
            it.index@ > 0 ==> at(p, w, it.index@ as int) <= s.len(),
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] blob_offsets@[i]).0 == start_at(s, p, w, i),
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] start_at(s, p, w, i)) <= data_size.0,
            forall|i: int, j: int| 0 <= i <= j < it.index@ ==> #[trigger] start_at(s, p, w, i) <= #[trigger] start_at(s, p, w, j),
            forall|i: int, j: int| 0 <= i <= j < it.index@ ==> blob_offsets@[i].0 <= blob_offsets@[j].0,
    @before `if header.compression == CompressionType::None`
        proof { at_step(p, w, 0, blob_count as int); }
    @before `let mut first = true;`
        let ghost s = old(parser).bytes();
        let ghost p = old(parser).pos();
        let ghost hb = s.subrange(p, p + 4);
        let ghost w = header.offset_size.0 as int;
        proof { at_step(p, w, 0, blob_count as int); }
    @before `let value`
            proof {
                at_step(p, w, it.index@ as int, blob_count as int);
                at_step(p, w, it.index@ as int + 1, blob_count as int);
            }
    @before `if value`
            proof { assert(value.0 == start_at(s, p, w, it.index@)); if it.index@ > 0 { assert(previous.0 == start_at(s, p, w, it.index@ - 1)); } }
    @sub `Result<Self::Output>` => `Result<(ClusterBuilder, Size)>`
    @sub `&mut impl Parser` => `&mut Parser`
    @sub `let uninit = blob_offsets.spare_capacity_mut();` => ``
    @sub `for elem in &mut uninit[0..blob_count]` => `for elem in 0..blob_count`
    @sub `elem.write(value);` => `blob_offsets.push(value);`
    @sub `unsafe { blob_offsets.set_len(blob_count) }` => ``
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @*/
}

// ---- a cluster, once opened
pub enum ClusterReader { Raw(Reader), Plain(Reader) }
pub struct Lock { pub reader: ClusterReader }
pub struct RwLock;
impl RwLock {
    #[verifier::external_body]
    pub fn new(r: ClusterReader) -> (l: Lock) ensures l.reader == r { unimplemented!() }
}
pub struct Cluster { pub blob_offsets: Vec<Offset>, pub data_size: Size, pub compression: CompressionType, pub reader: Lock }

/// what the compressed bytes stand for
pub uninterp spec fn decompressed(c: CompressionType, raw: Seq<u8>) -> Seq<u8>;

impl Cluster {
    /// the bytes the blobs are made of
    pub open spec fn plain(&self) -> Seq<u8> {
        match self.reader.reader { ClusterReader::Plain(r) => r@, ClusterReader::Raw(r) => decompressed(self.compression, r@) }
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.blob_offsets@.len() >= 1
        &&& forall|i: int, j: int| 0 <= i <= j < self.blob_offsets@.len() ==> self.blob_offsets@[i].0 <= self.blob_offsets@[j].0
        &&& self.blob_offsets@.last().0 == self.data_size.0
        &&& self.compression == CompressionType::None ==> self.reader.reader is Plain && self.plain().len() == self.data_size.0
    }
    // trusted: Cluster::build_plain_reader replaces the raw reader, once, by one of data_size bytes on what the decoder gives (C07: SeekableDecoder), or fails
    #[verifier::external_body]
    pub fn build_plain_reader(&self) -> (r: Result<()>)
        ensures r is Ok ==> self.plain().len() == self.data_size.0,
    { unimplemented!() }

    // trusted: after build_plain_reader, the reader under the lock is the plain one
    #[verifier::external_body]
    pub fn plain_reader(&self) -> (r: &ClusterReader)
        requires self.plain().len() == self.data_size.0,
        ensures *r matches ClusterReader::Plain(x) && x@ == self.plain(),
    { unimplemented!() }

    /*@fn src/reader/content_pack/cluster.rs | impl DataBlockParsable for Cluster | finalize
    requires
        // what ClusterBuilder::parse ensures
        intermediate.0.blob_offsets@.len() >= 1,
        forall|i: int, j: int| 0 <= i <= j < intermediate.0.blob_offsets@.len() ==> intermediate.0.blob_offsets@[i].0 <= intermediate.0.blob_offsets@[j].0,
        intermediate.0.blob_offsets@.last().0 == intermediate.0.data_size.0,
        intermediate.0.compression == CompressionType::None ==> intermediate.1.0 == intermediate.0.data_size.0,
    ensures
        r matches Ok(c) ==> {
            // the raw_data_size bytes that precede the tail
            let raw = reader@.subrange(header_offset.0 - intermediate.1.0, header_offset.0 as int);
            &&& intermediate.1.0 <= header_offset.0 <= reader@.len()
            &&& c.inv() && c.blob_offsets@ == intermediate.0.blob_offsets@ && c.compression == intermediate.0.compression
            &&& c.compression == CompressionType::None ==> c.plain() == raw
            &&& c.compression != CompressionType::None ==> c.plain() == decompressed(c.compression, raw)
        },
    @sub `Result<Self::Output>` => `Result<Cluster>`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @sub `/assert_eq!\(([^,]*),([^;]*)\);/` => `runtime_assert(\1 == \2);`
    @sub `assert!(` => `runtime_assert(`
    @*/

    /*@fn src/reader/content_pack/cluster.rs | impl Cluster | get_bytes
    requires self.inv(), self.blob_offsets@.len() <= 0x1_0000,
    ensures
        // a blob past the last one is refused
        index.0 + 1 >= self.blob_offsets@.len() ==> r is Err,
        // the others are exactly their bytes
        r matches Ok(b) ==> b.data@ == self.plain().subrange(self.blob_offsets@[index.0 as int].0 as int, self.blob_offsets@[index.0 + 1].0 as int),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @sub `&*self.reader.read().unwrap()` => `self.plain_reader()`
    @sub `unreachable!()` => `vstd::pervasive::unreached()`
    @*/
}

// ---- what is written is what is read
/// ClusterBuilder::parse (whose contract is readable/read_end) gives back the ends serialize_cluster_tail was given
pub proof fn tail_is_read_back(c: CompressionType, w: ByteSize, raw: u64, offsets: Seq<u64>)
    requires
        w.ok(), 0 < offsets.len() <= 0xFFF, ascending(offsets), raw < p256(w.0 as int),
        offsets[offsets.len() - 1] < p256(w.0 as int),
        c == CompressionType::None ==> raw == offsets[offsets.len() - 1],
    ensures ({
        let s = tail(c, w, raw, offsets);
        let n = offsets.len() as int;
        let ww = w.0 as int;
        &&& readable(s, 0)
        &&& header_comp(s.subrange(0, 4)) == c && header_count(s.subrange(0, 4)) == n && header_width(s.subrange(0, 4)) == w
        &&& unle(s.subrange(4, 4 + ww)) == raw
        // blob i goes from the end of the one before to its own
        &&& forall|i: int| 0 < i < n ==> #[trigger] start_at(s, 0, ww, i) == offsets[i - 1]
        &&& unle(s.subrange(4 + ww, 4 + 2 * ww)) == offsets[n - 1]
        &&& s.len() == 4 + (n + 1) * ww
    }),
{
    broadcast use {bytes_lemmas::lemma_le, header_axioms::axiom_header};
    let s = tail(c, w, raw, offsets);
    let n = offsets.len() as int;
    let ww = w.0 as int;
    let e = ends(offsets, ww, n - 1);
    reveal(at);
    ends_len(offsets, ww, n - 1);
    assert(s.subrange(0, 4) =~= header_bytes(c, w, n as u16));
    assert(s.subrange(4, 4 + ww) =~= le(raw, ww));
    assert(s.subrange(4 + ww, 4 + 2 * ww) =~= le(offsets[n - 1], ww));
    assert((n - 1) * ww + 2 * ww == (n + 1) * ww) by (nonlinear_arith);
    assert forall|i: int| 0 < i < n implies #[trigger] start_at(s, 0, ww, i) == offsets[i - 1] by {
        ends_at(offsets, ww, n - 1, i - 1);
        assert((i - 1) * ww + 2 * ww == (i + 1) * ww) by (nonlinear_arith);
        assert((i - 1) * ww + 3 * ww == (i + 1 + 1) * ww) by (nonlinear_arith);
        assert(s.subrange(at(0, ww, i), at(0, ww, i + 1)) =~= e.subrange((i - 1) * ww, (i - 1) * ww + ww));
    }
    assert(start_at(s, 0, ww, 0) == 0);
}
}
fn main() {}
