/*@ C01 C16 C08: ContentPackCreator: every content gets an address, addresses are given in order, the address names a
cluster and a blob of it whose bytes are the content's, cluster indices are never given twice, a cluster is handed to the
writer complete and at most once, and stays as it is afterwards; detection of the compressibility leaves the content
unread. */
use vstd::prelude::*;
/*@macro src/creator/content_pack/creator.rs | open_cluster_ref @*/
verus! {
/*@types ClusterIdx ClusterCount u32 BlobIdx BlobCount u16 ContentIdx ContentCount u32 sizes @*/
/*@include std.inc @*/
/*@include bytes.inc @*/
/*@include cluster_defs.inc @*/

impl ClusterCreator {
    // proved elsewhere: ClusterCreator::new, is_full, is_empty, add_content: unit cluster
    #[verifier::external_body]
    pub fn new(index: ClusterIdx, compressed: bool) -> (r: ClusterCreator)
        ensures r.inv(), r.index == index, r.compressed == compressed, r.offsets@.len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_full(&self, size: Size) -> (r: bool)
        requires self.inv(), self.total() + size.0 <= u64::MAX,
        ensures !r ==> self.offsets@.len() < 0xFFF, self.offsets@.len() == 0 ==> !r,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.data@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_content(&mut self, content: Input) -> (r: IoResult<ContentInfo>)
        requires old(self).inv(), old(self).offsets@.len() < 0xFFF, old(self).total() + content.len() <= u64::MAX,
        ensures
            r matches Ok(info) ==> {
                &&& info.cluster_index == old(self).index
                &&& info.blob_index.0 == old(self).data@.len()
                &&& final(self).inv()
                &&& final(self).data@ == old(self).data@.push(content)
                &&& final(self).offsets@ == old(self).offsets@.push((old(self).total() + content.len()) as u64)
            },
            r is Err ==> *final(self) == *old(self),
            final(self).index == old(self).index, final(self).compressed == old(self).compressed,
    { unimplemented!() }
}

/// the clusters handed to the writer
pub struct ClusterWriterProxy { pub given: Ghost<Map<u32, ClusterCreator>> }
impl ClusterWriterProxy {
    // proved elsewhere: ClusterWriterProxy::write_cluster: unit clusterwriter (handed over exactly once)
    #[verifier::external_body]
    pub fn write_cluster(&mut self, c: ClusterCreator, compressed: bool) -> (r: IoResult<()>)
        requires c.inv(), c.offsets@.len() > 0, !old(self).given@.contains_key(c.index.0),
        ensures final(self).given@ == old(self).given@.insert(c.index.0, c),
    { unimplemented!() }
}

#[derive(Clone, Copy)] pub enum CompHint { Yes, No, Detect }
#[derive(Clone, Copy)] pub struct PackId(pub u16);
pub struct ContentAddress { pub pack_id: PackId, pub content_id: ContentIdx }
impl ContentAddress {
    /*@fn src/common/content_address.rs | impl ContentAddress | new
    ensures r.pack_id == pack_id, r.content_id == content_id
    @*/
}

pub struct ContentPackCreator {
    pub pack_id: PackId,
    pub content_infos: Vec<ContentInfo>,
    pub raw_open_cluster: Option<ClusterCreator>,
    pub comp_open_cluster: Option<ClusterCreator>,
    pub next_cluster_id: Cell32,
    pub cluster_writer: ClusterWriterProxy,
    pub compression: Compression,
    /// the contents added so far
    pub contents: Ghost<Seq<Input>>,
}

/// `Cell<u32>`
// trusted: Cell (std); it is changed by `open_cluster(&self)`, seen as `open_cluster(&mut self)`
pub struct Cell32 { pub v: u32 }
impl Cell32 {
    pub fn get(&self) -> (r: u32) ensures r == self.v { self.v }
    pub fn set(&mut self, v: u32) ensures final(self).v == v { self.v = v; }
    pub fn replace(&mut self, v: u32) -> (r: u32) ensures r == old(self).v, final(self).v == v { let o = self.v; self.v = v; o }
}

// trusted: Read::take(n).read_to_end (std): reads at most n bytes, the content stays
#[verifier::external_body]
pub fn read_head(content: &mut Input, n: u64, head: &mut Vec<u8>) -> (r: IoResult<usize>)
    ensures final(content).content == old(content).content
{ unimplemented!() }
// not covered: the entropy (floating point): it only chooses whether to compress
#[verifier::external_body]
pub fn shannon_entropy(data: &Vec<u8>) -> f32 { unimplemented!() }
#[verifier::external_body]
pub fn low(entropy: f32) -> bool { unimplemented!() }
impl Input {
    // trusted: Seek::seek(SeekFrom::Start(0)) (std)
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: IoResult<u64>)
        ensures final(self).content == old(self).content, r is Ok ==> final(self).pos@ == 0
    { unimplemented!() }
}

impl ContentPackCreator {
    /// the cluster of an index: handed over, or still open
    pub open spec fn cluster(&self, i: u32) -> Option<ClusterCreator> {
        if self.cluster_writer.given@.contains_key(i) { Some(self.cluster_writer.given@[i]) }
        else if self.raw_open_cluster matches Some(c) && c.index.0 == i { self.raw_open_cluster }
        else if self.comp_open_cluster matches Some(c) && c.index.0 == i { self.comp_open_cluster }
        else { None }
    }
    pub open spec fn open_ok(&self, o: Option<ClusterCreator>) -> bool {
        o matches Some(c) ==> c.inv() && c.index.0 < self.next_cluster_id.v && !self.cluster_writer.given@.contains_key(c.index.0)
    }
    /// content k is where its info says
    pub open spec fn stored(&self, k: int) -> bool {
        let info = self.content_infos@[k];
        self.cluster(info.cluster_index.0) matches Some(c) && c.inv() && info.blob_index.0 < c.data@.len()
            && c.data@[info.blob_index.0 as int] == self.contents@[k]
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.open_ok(self.raw_open_cluster) && self.open_ok(self.comp_open_cluster)
        &&& self.raw_open_cluster is Some && self.comp_open_cluster is Some ==> self.raw_open_cluster->0.index.0 != self.comp_open_cluster->0.index.0
        &&& forall|i: u32| #[trigger] self.cluster_writer.given@.contains_key(i) ==> i < self.next_cluster_id.v && self.cluster_writer.given@[i].inv()
        &&& self.content_infos@.len() == self.contents@.len()
        &&& forall|k: int| 0 <= k < self.contents@.len() ==> #[trigger] self.stored(k)
    }
    /// what is already given away does not change
    pub open spec fn keeps(&self, old: &ContentPackCreator) -> bool {
        forall|i: u32| #[trigger] old.cluster_writer.given@.contains_key(i) ==>
            self.cluster_writer.given@.contains_key(i) && self.cluster_writer.given@[i] == old.cluster_writer.given@[i]
    }
    pub open spec fn slot(&self, compressed: bool) -> Option<ClusterCreator> {
        if compressed { self.comp_open_cluster } else { self.raw_open_cluster }
    }
    // assumed: less than 2^32 clusters and contents per pack, less than 2^64 bytes per cluster (C06: a pack is bounded by the sizes of its format)
    pub open spec fn room(&self, size: int) -> bool {
        &&& self.next_cluster_id.v < u32::MAX && self.contents@.len() < u32::MAX
        &&& self.raw_open_cluster matches Some(c) ==> c.total() + size <= u64::MAX
        &&& self.comp_open_cluster matches Some(c) ==> c.total() + size <= u64::MAX
    }

    /*@fn src/creator/content_pack/creator.rs | impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> | open_cluster
    requires old(self).next_cluster_id.v < u32::MAX,
    ensures
        r.inv(), r.offsets@.len() == 0, r.index.0 == old(self).next_cluster_id.v, r.compressed == compressed,
        *final(self) == (ContentPackCreator { next_cluster_id: Cell32 { v: (old(self).next_cluster_id.v + 1) as u32 }, ..*old(self) }),
    @sub `&self` => `&mut self`
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @*/

    /*@fn src/creator/content_pack/creator.rs | impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> | setup_slot_and_get_to_close
    requires old(self).inv(), old(self).room(size.0 as int),
    ensures
        // there is a cluster with room for one more content
        final(self).slot(compressed) is Some, final(self).slot(compressed)->0.offsets@.len() < 0xFFF,
        final(self).slot(compressed)->0.total() + size.0 <= u64::MAX,
        final(self).slot(!compressed) == old(self).slot(!compressed),
        // and the one that was there, if it is not that one any more, is given back: it is not empty
        r matches Some(c) ==> old(self).slot(compressed) == Some(c) && c.offsets@.len() > 0
            && final(self).slot(compressed)->0.index.0 == old(self).next_cluster_id.v && final(self).slot(compressed)->0.offsets@.len() == 0
            && final(self).slot(compressed)->0.inv(),
        r is None ==> old(self).slot(compressed) == final(self).slot(compressed) || (old(self).slot(compressed) is None
            && final(self).slot(compressed)->0.index.0 == old(self).next_cluster_id.v && final(self).slot(compressed)->0.offsets@.len() == 0
            && final(self).slot(compressed)->0.inv()),
        final(self).slot(compressed) != old(self).slot(compressed) ==> final(self).next_cluster_id.v == old(self).next_cluster_id.v + 1,
        final(self).slot(compressed) == old(self).slot(compressed) ==> final(self).next_cluster_id.v == old(self).next_cluster_id.v,
        final(self).cluster_writer == old(self).cluster_writer, final(self).content_infos == old(self).content_infos,
        final(self).contents == old(self).contents, final(self).pack_id == old(self).pack_id, final(self).compression == old(self).compression,
    @*/

    /// the open cluster of that kind, before the content is added: c
    pub open spec fn opened(&self, old: &ContentPackCreator, compressed: bool, c: ClusterCreator) -> bool {
        &&& c.inv()
        &&& old.slot(compressed) == Some(c) && self.next_cluster_id.v == old.next_cluster_id.v && self.cluster_writer == old.cluster_writer
            || c.offsets@.len() == 0 && c.index.0 == old.next_cluster_id.v && self.next_cluster_id.v == old.next_cluster_id.v + 1
                && self.cluster_writer.given@ == (match old.slot(compressed) {
                    Some(o) => old.cluster_writer.given@.insert(o.index.0, o), None => old.cluster_writer.given@ })
        &&& self.content_infos == old.content_infos && self.contents == old.contents && self.pack_id == old.pack_id && self.compression == old.compression
    }

    /*@fn src/creator/content_pack/creator.rs | impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> | get_open_cluster
    requires old(self).inv(), old(self).room(content_size.0 as int),
    ensures
        r matches Ok(c) ==> {
            &&& final(self).opened(old(self), compressed, *c)
            &&& c.offsets@.len() < 0xFFF && c.total() + content_size.0 <= u64::MAX
            &&& final(self).slot(compressed) == Some(*final(c))
            &&& final(self).slot(!compressed) == old(self).slot(!compressed)
        },
    @sub `std::io::Result` => `IoResult`
    @*/

    /*@fn src/creator/content_pack/creator.rs | impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> | detect_compression
    ensures
        final(content).content == old(content).content,
        r is Ok ==> final(content).pos@ == old(content).pos@ || final(content).pos@ == 0,
        self.compression is None ==> r is Ok ==> !r->Ok_0,
    @sub `std::io::Result` => `IoResult`
    @sub `&mut dyn InputReader` => `&mut Input`
    @sub `/content\s*\.take\(([^()]*)\)\s*\.read_to_end\(/` => `read_head(content, \1, `
    @sub `content.seek(SeekFrom::Start(0))` => `content.rewind()`
    @sub `/entropy <= [0-9.]+/` => `low(entropy)`
    @*/

    /// the content that is added is where its info says, everything that was already stored stays where it was
    pub proof fn adding(now: ContentPackCreator, old: ContentPackCreator, compressed: bool, c: ClusterCreator, c2: ClusterCreator, info: ContentInfo, content: Input)
        requires
            old.inv(), old.next_cluster_id.v < u32::MAX, c2.inv(), c2.index == c.index, c2.data@ == c.data@.push(content),
            info.cluster_index == c.index, info.blob_index.0 == c.data@.len(),
            now.slot(compressed) == Some(c2), now.slot(!compressed) == old.slot(!compressed),
            now.contents@ == old.contents@.push(content), now.content_infos@ == old.content_infos@.push(info),
            ({ let mid = ContentPackCreator { contents: old.contents, content_infos: old.content_infos, ..now }; mid.opened(&old, compressed, c) }),
        ensures now.inv(), now.keeps(&old),
    {
        assert forall|k: int| 0 <= k < now.contents@.len() implies #[trigger] now.stored(k) by {
            if k < old.contents@.len() { assert(old.stored(k)); assert(now.content_infos@[k] == old.content_infos@[k]); }
            else { assert(now.cluster(c.index.0) == Some(c2)); }
        }
    }

    /*@fn src/creator/content_pack/creator.rs | impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> | add_content
    requires old(self).inv(), old(self).room(content.len()), content.pos@ == 0,
    ensures
        r matches Ok(address) ==> {
            &&& final(self).inv()
            // a new address, and the content behind it
            &&& address.pack_id == old(self).pack_id && address.content_id.0 == old(self).contents@.len()
            &&& final(self).contents@.len() == old(self).contents@.len() + 1
            &&& final(self).contents@.drop_last() == old(self).contents@
            &&& final(self).contents@.last().content == content.content && final(self).contents@.last().pos@ == 0
            // what was given before stays
            &&& final(self).content_infos@.drop_last() == old(self).content_infos@
            &&& final(self).keeps(old(self))
        },
    @sub `std::io::Result` => `IoResult`
    @sub `Box<dyn InputReader>` => `Input`
    @sub `content.as_mut()` => `&mut content`
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @start
        let ghost before = *self;
    @before `let content_info`
        let ghost given = *cluster;
        let ghost stored = content;
    @after `self.content_infos.push(content_info);`
        proof {
            self.contents@ = self.contents@.push(stored);
            Self::adding(*self, before, should_compress, given, self.slot(should_compress)->0, content_info, stored);
            assert(self.contents@.drop_last() =~= before.contents@);
            assert(self.content_infos@.drop_last() =~= before.content_infos@);
        }
    @*/
}
}
fn main() {}
