/*@ C08 C01 C16: writing of the clusters, in whatever order the worker threads hand them over: a compressed chunk carries
its own tail (ClusterCompressor::compress_cluster, run), the writing thread puts every chunk where nothing was written
before and records for its cluster index the place of its tail in the file (ClusterWriter::write_cluster, write_data, run:
the place inside the chunk is moved by where the chunk starts), and what is recorded for an index stays true whatever is
written later; ClusterWriterProxy::write_cluster hands every cluster over exactly once, to the compressors only if it is
to be compressed. */
use vstd::prelude::*;
verus! {
/*@types ClusterIdx ClusterCount u32 BlobIdx BlobCount u16 sizes @*/
/*@include std.inc @*/
/*@include bytes.inc @*/
/*@include cluster_defs.inc @*/

#[derive(Clone, Copy)] pub struct SizedOffset { pub size: ASize, pub offset: Offset }

pub open spec fn asz(a: ASize) -> int { a.0 as int }
// ---- the stored form of a cluster
/// the bytes of the contents, one after the other
pub open spec fn concat(d: Seq<Input>) -> Seq<u8>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { concat(d.drop_last()) + d.last().content@ } }

pub proof fn concat_len(c: ClusterCreator, k: int)
    requires c.inv(), 0 <= k <= c.data@.len(),
    ensures concat(c.data@.take(k)).len() == end(c.offsets@, k - 1),
    decreases k,
{
    if k > 0 {
        concat_len(c, k - 1);
        assert(c.data@.take(k).drop_last() =~= c.data@.take(k - 1));
        assert(c.data@.take(k).last() == c.data@[k - 1]);
    }
    else { assert(c.data@.take(0).len() == 0); }
}

/// the cluster handed over under an index (ContentPackCreator never gives an index twice)
pub uninterp spec fn given(idx: int) -> ClusterCreator;
/// what the decoder of a compression makes of its input
pub uninterp spec fn decompressed(c: CompressionType, raw: Seq<u8>) -> Seq<u8>;

/// raw and t are the stored form of the cluster of index idx: reader unit `cluster` gives its contents back
pub open spec fn stored_form(idx: int, raw: Seq<u8>, t: Seq<u8>) -> bool {
    let c = given(idx);
    exists|comp: CompressionType, w: ByteSize| {
        &&& w.ok() && raw.len() < p256(w.0 as int) && c.total() < p256(w.0 as int)
        &&& t == #[trigger] tail(comp, w, raw.len() as u64, c.offsets@)
        &&& comp == CompressionType::None ==> raw == concat(c.data@)
        &&& comp != CompressionType::None ==> decompressed(comp, raw) == concat(c.data@)
    }
}
/// the block at `so`: t, preceded by raw
pub open spec fn block_at(f: Seq<u8>, o: int, n: int, raw: Seq<u8>, t: Seq<u8>) -> bool {
    &&& raw.len() <= o && o + n + 4 <= f.len() && t.len() == n
    &&& f.subrange(o - raw.len(), o) == raw
    &&& f.subrange(o, o + n) == t
}
pub open spec fn holds(f: Seq<u8>, so: SizedOffset, idx: int) -> bool {
    exists|raw: Seq<u8>, t: Seq<u8>| #[trigger] block_at(f, so.offset.0 as int, so.size.0 as int, raw, t) && stored_form(idx, raw, t)
}
pub proof fn holds_in(f: Seq<u8>, so: SizedOffset, idx: int)
    requires holds(f, so, idx), ensures so.offset.0 + so.size.0 + 4 <= f.len() {}
/// appending breaks nothing
pub proof fn holds_after(f: Seq<u8>, more: Seq<u8>, so: SizedOffset, idx: int)
    requires holds(f, so, idx),
    ensures holds(f + more, so, idx),
{
    let o = so.offset.0 as int;
    let n = so.size.0 as int;
    let (raw, t) = choose|raw: Seq<u8>, t: Seq<u8>| #[trigger] block_at(f, o, n, raw, t) && stored_form(idx, raw, t);
    assert((f + more).subrange(o - raw.len(), o) =~= f.subrange(o - raw.len(), o));
    assert((f + more).subrange(o, o + n) =~= f.subrange(o, o + n));
    assert(block_at(f + more, o, n, raw, t));
}
/// and what is put after something else is found that much further
pub proof fn holds_moved(before: Seq<u8>, f: Seq<u8>, so: SizedOffset, to: SizedOffset, idx: int)
    requires holds(f, so, idx), to.size == so.size, to.offset.0 == so.offset.0 + before.len(),
    ensures holds(before + f, to, idx),
{
    let o = so.offset.0 as int;
    let n = so.size.0 as int;
    let (raw, t) = choose|raw: Seq<u8>, t: Seq<u8>| #[trigger] block_at(f, o, n, raw, t) && stored_form(idx, raw, t);
    let p = to.offset.0 as int;
    assert((before + f).subrange(p - raw.len(), p) =~= f.subrange(o - raw.len(), o));
    assert((before + f).subrange(p, p + n) =~= f.subrange(o, o + n));
    assert(block_at(before + f, p, n, raw, t));
}

/// the block written after raw
pub proof fn block_written(f0: Seq<u8>, raw: Seq<u8>, t: Seq<u8>, crc: Seq<u8>, so: SizedOffset, idx: int)
    requires crc.len() == 4, so.offset.0 == f0.len() + raw.len(), so.size.0 == t.len(), stored_form(idx, raw, t),
    ensures holds(f0 + raw + t + crc, so, idx),
{
    let f = f0 + raw + t + crc;
    let o = so.offset.0 as int;
    assert(f.subrange(o - raw.len(), o) =~= raw);
    assert(f.subrange(o, o + t.len()) =~= t);
    assert(block_at(f, o, so.size.0 as int, raw, t));
}
pub proof fn tail_stored(c: ClusterCreator, comp: CompressionType, raw: Seq<u8>, t: Seq<u8>)
    requires
        cluster_ok(c),
        exists|w: ByteSize| #![auto] w.ok() && raw.len() < p256(w.0 as int) && c.total() < p256(w.0 as int)
            && t == Seq::<u8>::empty() + tail(comp, w, raw.len() as u64, c.offsets@),
        comp == CompressionType::None ==> raw == concat(c.data@),
        comp != CompressionType::None ==> decompressed(comp, raw) == concat(c.data@),
    ensures stored_form(c.index.0 as int, raw, t),
{
    let w = choose|w: ByteSize| #![auto] w.ok() && raw.len() < p256(w.0 as int) && c.total() < p256(w.0 as int)
            && t == Seq::<u8>::empty() + tail(comp, w, raw.len() as u64, c.offsets@);
    assert(t =~= tail(comp, w, raw.len() as u64, c.offsets@));
}
pub proof fn offsets_ascending(c: ClusterCreator)
    requires c.inv(), ensures ascending(c.offsets@)
{
    assert forall|i: int, j: int| 0 <= i <= j < c.offsets@.len() implies c.offsets@[i] <= c.offsets@[j] by { increasing(c.offsets@, c, i, j); }
}
pub proof fn data_len(c: ClusterCreator)
    requires c.inv(), ensures concat(c.data@).len() == c.total()
{ concat_len(c, c.data@.len() as int); assert(c.data@.take(c.data@.len() as int) =~= c.data@); }
pub uninterp spec fn crc32(s: Seq<u8>) -> Seq<u8>;

// ---- streams and channels
/// a file or a buffer written from its beginning to its end
// trusted: Write/Seek of files, Cursor and BufWriter append and tell where they are (std); copy() gives all the bytes of a content
// assumed: a write that succeeds does not make a file of 2^64 bytes or more
pub struct Out { pub data: Ghost<Seq<u8>> }
impl Out {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn new() -> (r: Out) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn tell(&mut self) -> (r: Offset) ensures r.0 == old(self)@.len(), final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&mut self, d: Input) -> (r: IoResult<(u64, ())>)
        ensures r matches Ok((n, _)) ==> n == d.len() && final(self)@ == old(self)@ + d.content@ && final(self)@.len() <= u64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, d: &Out) -> (r: IoResult<()>)
        ensures r is Ok ==> final(self)@ == old(self)@ + d@ && final(self)@.len() <= u64::MAX { unimplemented!() }
    // proved elsewhere: write_serializer: kani contract of bases/write.rs (the data, then its 4 byte checksum; gives the size without it)
    #[verifier::external_body]
    pub fn write_serializer(&mut self, s: Serializer) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == s@.len() && crc32(s@).len() == 4 && final(self)@ == old(self)@ + s@ + crc32(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: IoResult<Out>) ensures r matches Ok(x) ==> x@ == self@ { unimplemented!() }
}
// proved elsewhere: serialize_cluster_tail: unit cluster
#[verifier::external_body]
pub fn serialize_cluster_tail(compression: Compression, cluster: &ClusterCreator, raw_data_size: Size, ser: &mut Serializer) -> (r: IoResult<()>)
    requires 0 < cluster.offsets@.len() <= 0xFFF, ascending(cluster.offsets@),
    ensures
        r is Ok ==> exists|w: ByteSize| #![auto] {
            &&& w.ok() && raw_data_size.0 < p256(w.0 as int) && cluster.total() < p256(w.0 as int)
            &&& final(ser)@ == old(ser)@ + tail(ctype(compression), w, raw_data_size.0, cluster.offsets@)
        },
{ unimplemented!() }
impl ClusterCreator {
    // proved elsewhere: ClusterCreator::data_size: unit cluster
    #[verifier::external_body]
    pub fn data_size(&self) -> (r: Size) ensures r.0 == self.total() { unimplemented!() }
}

pub enum WriteTask { Cluster(ClusterCreator), Compressed(Out, SizedOffset, ClusterIdx) }
impl FromSpecImpl<ClusterCreator> for WriteTask {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: ClusterCreator) -> WriteTask { WriteTask::Cluster(c) }
}
impl From<ClusterCreator> for WriteTask {
    /*@fn src/creator/content_pack/clusterwriter.rs | impl From<ClusterCreator> for WriteTask | from
    @*/
}
pub open spec fn cluster_ok(c: ClusterCreator) -> bool { c.inv() && c.offsets@.len() > 0 && given(c.index.0 as int) == c }
/// what goes through the channel to the writing thread
pub open spec fn task_ok(t: WriteTask) -> bool {
    match t {
        WriteTask::Cluster(c) => cluster_ok(c),
        WriteTask::Compressed(d, so, idx) => holds(d@, so, idx.0 as int),
    }
}
pub open spec fn task_idx(t: WriteTask) -> int { match t { WriteTask::Cluster(c) => c.index.0 as int, WriteTask::Compressed(_, _, i) => i.0 as int } }

pub struct RecvError;
// trusted: mpsc/spmc channels deliver what was sent, once, in some order (std, spmc)
// assumed: the receiving thread is alive while clusters are handed over
pub struct Sender { pub sent: Ghost<Seq<WriteTask>> }
impl Sender {
    #[verifier::external_body]
    pub fn send(&mut self, t: WriteTask) -> (r: Option<()>)
        requires task_ok(t),
        ensures r is Some, final(self).sent@ == old(self).sent@.push(t),
    { unimplemented!() }
}
pub struct Receiver { pub got: Ghost<Seq<WriteTask>> }
impl Receiver {
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: std::result::Result<WriteTask, RecvError>)
        ensures
            r matches Ok(t) ==> task_ok(t) && final(self).got@ == old(self).got@.push(t),
            r is Err ==> final(self).got@ == old(self).got@,
    { unimplemented!() }
}
pub struct ClusterSender { pub sent: Ghost<Seq<ClusterCreator>> }
impl ClusterSender {
    #[verifier::external_body]
    pub fn send(&mut self, c: ClusterCreator) -> (r: Option<()>)
        requires cluster_ok(c),
        ensures r is Some, final(self).sent@ == old(self).sent@.push(c),
    { unimplemented!() }
}
pub struct ClusterReceiver { pub got: Ghost<Seq<ClusterCreator>> }
impl ClusterReceiver {
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: std::result::Result<ClusterCreator, RecvError>)
        ensures
            r matches Ok(c) ==> cluster_ok(c) && final(self).got@ == old(self).got@.push(c),
            r is Err ==> final(self).got@ == old(self).got@,
    { unimplemented!() }
}

// ---- the compressing threads
pub struct ClusterCompressor { pub compression: Compression, pub input: ClusterReceiver, pub output: Sender }
impl ClusterCompressor {
    // trusted: the encoders (lz4, xz2, zstd) write what their decoders turn back into the bytes given; the dispatch on the compression is exercised by the bounded runs
    #[verifier::external_body]
    pub fn write_cluster_data(&mut self, cluster: &mut ClusterCreator, outstream: &mut Out) -> (r: IoResult<()>)
        requires !(old(self).compression is None),
        ensures
            *final(self) == *old(self), final(cluster).offsets == old(cluster).offsets, final(cluster).index == old(cluster).index,
            r is Ok ==> exists|raw: Seq<u8>| final(outstream)@ == old(outstream)@ + raw
                && #[trigger] decompressed(ctype(old(self).compression), raw) == concat(old(cluster).data@),
    { unimplemented!() }

    /*@fn src/creator/content_pack/clusterwriter.rs | impl ClusterCompressor | compress_cluster
    requires !(old(self).compression is None), cluster_ok(cluster),
    ensures
        final(self).compression == old(self).compression, final(self).input == old(self).input, final(self).output == old(self).output,
        r matches Ok(so) ==> holds(final(outstream)@, so, cluster.index.0 as int),
    @start
    let ghost c0 = cluster;
    let ghost f0 = outstream@;
    proof { data_len(c0); offsets_ascending(c0); }
    @after `let tail_offset = outstream.tell();`
        let ghost raw = choose|raw: Seq<u8>| outstream@ == f0 + raw && #[trigger] decompressed(ctype(old(self).compression), raw) == concat(c0.data@);
    @before `let tail_size`
        let ghost t = serializer@;
        proof { tail_stored(c0, ctype(self.compression), raw, t); }
    @before `Ok(SizedOffset {`
        proof {
            let so = SizedOffset { size: tail_size, offset: tail_offset };
            block_written(f0, raw, t, crc32(t), so, c0.index.0 as int);
        }
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @sub `&mut dyn OutStream` => `&mut Out`
    @sub `std::io::Result` => `IoResult`
    @*/

    /*@fn src/creator/content_pack/clusterwriter.rs | impl ClusterCompressor | run
    requires !(self.compression is None), self.input.got@.len() == self.output.sent@.len(),
    @attr #[verifier::exec_allows_no_decreases_clause]
    @loop 1
        invariant !(this.compression is None), this.input.got@.len() == this.output.sent@.len(),
    @sub `let mut data = Vec::<u8>::with_capacity(1024 * 1024);` => ``
    @sub `std::io::Cursor::new(&mut data)` => `Out::new()`
    @sub `WriteTask::Compressed(data,` => `WriteTask::Compressed(cursor,`
    @sub `let (count, cvar) = &*self.nb_cluster_in_queue;` => ``
    @sub `let mut count = count.lock().unwrap();` => ``
    @sub `*count -= 1;` => ``
    @sub `cvar.notify_one();` => ``
    @sub `drop(self.output);` => ``
    @sub `std::io::Result` => `IoResult`
    @*/
}

// ---- the writing thread
/// the place of a cluster, once known
#[derive(Clone, Copy)] pub struct Late { pub v: Option<SizedOffset> }
impl Late {
    pub fn set(&mut self, value: SizedOffset) ensures final(self).v == Some(value) { self.v = Some(value); }
}
// trusted: Vec::resize with the default (unset) Late (std)
#[verifier::external_body]
pub fn resize_late(v: &mut Vec<Late>, n: usize)
    requires n >= old(v)@.len(),
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i].v is None,
{ unimplemented!() }

pub struct ClusterWriter { pub cluster_addresses: Vec<Late>, pub file: Out, pub input: Receiver }

/// what is recorded is there
pub open spec fn addressed(f: Seq<u8>, a: Seq<Late>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> ((#[trigger] a[i]).v matches Some(so) ==> holds(f, so, i))
}
/// every cluster received has its address
pub open spec fn all_there(got: Seq<WriteTask>, a: Seq<Late>) -> bool {
    forall|k: int| 0 <= k < got.len() ==> task_idx(#[trigger] got[k]) < a.len() && a[task_idx(got[k])].v is Some
}

impl ClusterWriter {
    /*@fn src/creator/content_pack/clusterwriter.rs | impl<O> ClusterWriter<O> | write_cluster_data
    ensures
        final(self).cluster_addresses == old(self).cluster_addresses, final(self).input == old(self).input,
        r matches Ok(n) ==> n == concat(cluster_data@).len() && final(self).file@ == old(self).file@ + concat(cluster_data@),
    @loop 1 it
        invariant
            self.cluster_addresses == old(self).cluster_addresses, self.input == old(self).input,
            it.seq() == cluster_data@,
            copied == concat(cluster_data@.take(it.index@ as int)).len(),
            self.file@ == old(self).file@ + concat(cluster_data@.take(it.index@ as int)),
    @before `let (read, to_drop)`
            proof {
                let k = it.index@ as int;
                assert(cluster_data@.take(k + 1).drop_last() =~= cluster_data@.take(k));
                assert(cluster_data@.take(k + 1).last() == d);
            }
    @before `copied += read`
            proof { assert(self.file@ =~= old(self).file@ + concat(cluster_data@.take(it.index@ as int + 1))); }
    @before `Ok(copied)`
        proof { assert(cluster_data@.take(cluster_data@.len() as int) =~= cluster_data@); }
    @sub `self.dropper.dropout(to_drop);` => ``
    @sub `InputData` => `Vec<Input>`
    @sub `std::io::Result` => `IoResult`
    @*/

    /*@fn src/creator/content_pack/clusterwriter.rs | impl<O> ClusterWriter<O> | write_cluster
    requires cluster_ok(cluster),
    ensures
        final(self).cluster_addresses == old(self).cluster_addresses, final(self).input == old(self).input,
        r matches Ok(so) ==> holds(final(self).file@, so, cluster.index.0 as int)
            && exists|more: Seq<u8>| final(self).file@ == #[trigger] (old(self).file@ + more),
    @start
    let ghost c0 = cluster;
    let ghost f0 = self.file@;
    let ghost raw = concat(c0.data@);
    proof { data_len(c0); offsets_ascending(c0); assert(c0.data@.subrange(0, c0.data@.len() as int) =~= c0.data@); }
    @before `let tail_size`
        let ghost t = serializer@;
        proof { tail_stored(c0, CompressionType::None, raw, t); }
    @before `Ok(SizedOffset {`
        proof {
            let so = SizedOffset { size: tail_size, offset: tail_offset };
            block_written(f0, raw, t, crc32(t), so, c0.index.0 as int);
            assert(self.file@ =~= f0 + (raw + t + crc32(t)));
        }
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @sub `/assert_eq!\(([^,]*),([^;]*)\);/` => `runtime_assert(\1 == \2);`
    @sub `std::io::Result` => `IoResult`
    @*/

    /*@fn src/creator/content_pack/clusterwriter.rs | impl<O> ClusterWriter<O> | write_data
    ensures
        final(self).cluster_addresses == old(self).cluster_addresses, final(self).input == old(self).input,
        r matches Ok(o) ==> o.0 == old(self).file@.len() && final(self).file@ == old(self).file@ + data@ && final(self).file@.len() <= u64::MAX,
    @sub `&[u8]` => `&Out`
    @sub `std::io::Result` => `IoResult`
    @*/

    /*@fn src/creator/content_pack/clusterwriter.rs | impl<O> ClusterWriter<O> | run
    requires self.cluster_addresses@.len() == 0, self.input.got@.len() == 0,
    ensures
        r matches Ok((file, a)) ==> addressed(file@, a@),
    @attr #[verifier::exec_allows_no_decreases_clause]
    @loop 1
        invariant
            addressed(this.file@, this.cluster_addresses@),
            all_there(this.input.got@, this.cluster_addresses@),
    @after `recv() {`
            let ghost f0 = this.file@;
    @after `WriteTask::Compressed(data, mut sized_offset, idx) => {`
                    let ghost so0 = sized_offset;
                    proof { holds_in(data@, so0, idx.0 as int); }
    @before 2 `(sized_offset, idx)`
                    proof { holds_moved(f0, data@, so0, sized_offset, idx.0 as int); }
    @before `let idx = idx.into_usize();`
            proof {
                let more = choose|more: Seq<u8>| this.file@ == #[trigger] (f0 + more);
                assert(this.file@ == f0 + more);
                assert forall|i: int| 0 <= i < this.cluster_addresses@.len() implies
                    ((#[trigger] this.cluster_addresses@[i]).v matches Some(so) ==> holds(this.file@, so, i)) by {
                    if this.cluster_addresses@[i].v is Some { holds_after(f0, more, this.cluster_addresses@[i].v->0, i); }
                }
            }
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @sub `/self\s*\.cluster_addresses\.resize\(([^,;]*), Default::default\(\)\);/` => `resize_late(&mut self.cluster_addresses, \1);`
    @sub `std::io::Result<(O, Vec<Late<SizedOffset>>)>` => `IoResult<(Out, Vec<Late>)>`
    @sub `self.file.into_inner().map_err(|e| e.into_error())?` => `self.file.into_inner()?`
    @*/
}

// ---- handing over
pub struct ClusterWriterProxy { pub dispatch_tx: ClusterSender, pub fusion_tx: Sender, pub compression: Compression }
impl ClusterWriterProxy {
    /*@fn src/creator/content_pack/clusterwriter.rs | impl<O: OutStream + 'static> ClusterWriterProxy<O> | write_cluster
    requires cluster_ok(cluster),
    ensures
        r is Ok, final(self).compression == old(self).compression,
        // exactly once; to the compressors only if it must be compressed
        compressed && !(old(self).compression is None) ==>
            final(self).dispatch_tx.sent@ == old(self).dispatch_tx.sent@.push(cluster) && final(self).fusion_tx == old(self).fusion_tx,
        !compressed || old(self).compression is None ==>
            final(self).fusion_tx.sent@ == old(self).fusion_tx.sent@.push(WriteTask::Cluster(cluster)) && final(self).dispatch_tx == old(self).dispatch_tx,
    @sub `let (count, cvar) = &*self.nb_cluster_in_queue;` => ``
    @sub `/let mut count = cvar\s*\.wait_while\(count\.lock\(\)\.unwrap\(\), \|c\| [^|;]*\)\s*\.unwrap\(\);/` => ``
    @sub `*count += 1;` => ``
    @sub `/\.expect\([^()]*\)/` => `.unwrap()`
    @sub `std::io::Result` => `IoResult`
    @*/
}
}
fn main() {}
