/*@ C16 C01: CachedContentAdder: a content is handed to the wrapped adder, whole, unread and with its hint, exactly when no
identical content was before; otherwise nothing is stored and the address is the one that content got. */
use vstd::prelude::*;
verus! {
/*@types ClusterIdx ClusterCount u32 BlobIdx BlobCount u16 ContentIdx ContentCount u32 sizes @*/
/*@include std.inc @*/
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;

#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum CompHint { Yes, No, Detect }
#[derive(Clone, Copy)] pub struct PackId(pub u16);
#[derive(Clone, Copy)] pub struct ContentAddress { pub pack_id: PackId, pub content_id: ContentIdx }

pub mod cluster {
    use super::*;
    /*@const src/creator/content_pack/cluster.rs | CLUSTER_SIZE exec @*/
}

/// a content to store: its bytes, and how much of it was read already
pub struct Input { pub content: Ghost<Seq<u8>>, pub pos: Ghost<int> }
impl Input {
    // assumed: InputReader::size() is the number of bytes the reader gives, which does not change between insertion and writing
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self.content@.len() { unimplemented!() }
    // trusted: Read::read_to_end appends what is left to read, Seek::rewind goes back to the start (std)
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        requires 0 <= old(self).pos@ <= old(self).content@.len(),
        ensures
            final(self).content == old(self).content,
            r is Ok ==> final(self).pos@ == old(self).content@.len()
                && final(buf)@ == old(buf)@ + old(self).content@.subrange(old(self).pos@, old(self).content@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: IoResult<()>)
        ensures final(self).content == old(self).content, r is Ok ==> final(self).pos@ == 0
    { unimplemented!() }
}
/// `Box::new(Cursor::new(buf))`
// trusted: std::io::Cursor reads the bytes it is given, from the start
#[verifier::external_body]
pub fn cursor(buf: Vec<u8>) -> (r: Input) ensures r.content@ == buf@, r.pos@ == 0 { unimplemented!() }

#[derive(Clone, Copy)] pub struct Hash(pub u64);
pub uninterp spec fn hash_of(s: Seq<u8>) -> Hash;
/// two contents with the same digest are the same
// assumed: blake3 has no collision among the contents of a pack
#[verifier::external_body]
pub proof fn no_collision(a: Seq<u8>, b: Seq<u8>)
    requires hash_of(a) == hash_of(b),
    ensures a == b,
{ unimplemented!() }
pub mod blake3 {
    use super::*;
    // trusted: blake3::Hasher digests all the bytes it is updated with, in order
    pub struct Hasher { pub seen: Ghost<Seq<u8>> }
    impl Hasher {
        #[verifier::external_body]
        pub fn new() -> (r: Hasher) ensures r.seen@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &Vec<u8>) ensures final(self).seen@ == old(self).seen@ + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn update_reader(&mut self, r: &mut Input) -> (res: IoResult<()>)
            requires 0 <= old(r).pos@ <= old(r).content@.len(),
            ensures
                final(r).content == old(r).content,
                res is Ok ==> final(self).seen@ == old(self).seen@ + old(r).content@.subrange(old(r).pos@, old(r).content@.len() as int),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(&self) -> (r: Hash) ensures r == hash_of(self.seen@) { unimplemented!() }
    }
}

pub struct Added { pub content: Seq<u8>, pub hint: CompHint, pub address: ContentAddress }
/// the adder that is wrapped: what it was given, and what it answered
// proved elsewhere: ContentPackCreator::add_content, behind it: unit pack_creator
pub struct Wrapped { pub log: Ghost<Seq<Added>> }
impl Wrapped {
    #[verifier::external_body]
    pub fn add_content(&mut self, reader: Input, comp_hint: CompHint) -> (r: IoResult<ContentAddress>)
        requires reader.pos@ == 0,
        ensures
            r matches Ok(a) ==> final(self).log@ == old(self).log@.push(Added { content: reader.content@, hint: comp_hint, address: a }),
            r is Err ==> final(self).log@ == old(self).log@,
    { unimplemented!() }
}

/// `HashMap<Hash, ContentAddress>`: `entry(hash)` being Vacant is `get` giving nothing, Occupied is `get` giving the value
// trusted: HashMap::entry, VacantEntry::insert, OccupiedEntry::get (std); Hash's Eq and Hash (blake3)
pub struct Cache { pub m: Ghost<Map<Hash, ContentAddress>> }
impl Cache {
    #[verifier::external_body]
    pub fn get(&self, h: &Hash) -> (r: Option<&ContentAddress>)
        ensures
            self.m@.contains_key(*h) ==> (r matches Some(a) && *a == self.m@[*h]),
            !self.m@.contains_key(*h) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, h: Hash, a: ContentAddress) ensures final(self).m@ == old(self).m@.insert(h, a) { unimplemented!() }
}
pub struct CachedContentAdder { pub content_pack: Wrapped, pub cache: Cache }

impl CachedContentAdder {
    pub open spec fn log(&self) -> Seq<Added> { self.content_pack.log@ }
    /// a content is in the log
    pub open spec fn has(&self, c: Seq<u8>) -> bool { exists|k: int| 0 <= k < self.log().len() && (#[trigger] self.log()[k]).content == c }
    pub open spec fn knows(&self, h: Hash) -> bool { self.cache.m@.contains_key(h) }
    pub open spec fn inv(&self) -> bool {
        // what was stored is known, under its address
        &&& forall|k: int| 0 <= k < self.log().len() ==> self.knows(hash_of((#[trigger] self.log()[k]).content)) && self.cache.m@[hash_of(self.log()[k].content)] == self.log()[k].address
        // and nothing else is
        &&& forall|h: Hash| #[trigger] self.knows(h) ==> exists|k: int| 0 <= k < self.log().len() && hash_of((#[trigger] self.log()[k]).content) == h
        // no content is stored twice
        &&& forall|i: int, j: int| 0 <= i < j < self.log().len() ==> #[trigger] self.log()[i].content != #[trigger] self.log()[j].content
    }
    /// what adding a content does
    pub open spec fn added(&self, before: CachedContentAdder, c: Seq<u8>, hint: CompHint, r: IoResult<ContentAddress>) -> bool {
        &&& r is Err ==> self.log() == before.log()
        &&& r matches Ok(a) ==> {
            &&& self.log() == (if before.has(c) { before.log() } else { before.log().push(Added { content: c, hint, address: a }) })
            // its address is the one under which this very content is stored
            &&& exists|k: int| 0 <= k < self.log().len() && (#[trigger] self.log()[k]).content == c && self.log()[k].address == a
        }
    }

    /*@fn src/creator/content_pack/mod.rs | impl<Wrapped: ContentAdder> CachedContentAdder<Wrapped> | cache_content
    requires old(self).inv(), reader.pos@ == 0, hash == hash_of(reader.content@),
    ensures final(self).inv(), final(self).added(*old(self), reader.content@, comp_hint, r),
    @sub `Box<dyn InputReader>` => `Input`
    @sub `std::io::Result<crate::ContentAddress>` => `IoResult<ContentAddress>`
    @sub `self.cache.entry(hash)` => `self.cache.get(&hash)`
    @sub `/Entry::Vacant\(\w+\)/` => `None`
    @sub `/Entry::Occupied\((\w+)\)/` => `Some(\1)`
    @sub `/\b\w+\.insert\((\w+)\)/` => `self.cache.insert(hash, \1)`
    @sub `/\*(\w+)\.get\(\)/` => `*\1`
    @sub `/self\s*\.progress\s*\.\w+\((?:[^()]|\([^()]*\))*\);/` => ``
    @start
        let ghost before = *self;
        let ghost c = reader.content@;
        proof {
            if before.knows(hash) {
                let k = choose|k: int| 0 <= k < before.log().len() && hash_of((#[trigger] before.log()[k]).content) == hash;
                no_collision(before.log()[k].content, c);
                assert(before.has(c));
            }
        }
    @before `Ok(content_address)`
                proof {
                    let n = before.log().len() as int;
                    assert(self.log()[n].content == c && self.log()[n].address == content_address);
                    assert forall|k: int| 0 <= k < n implies self.log()[k] == before.log()[k] && hash_of((#[trigger] self.log()[k]).content) != hash by {
                        assert(before.knows(hash_of(before.log()[k].content)));
                    }
                    assert forall|h: Hash| #[trigger] self.knows(h) implies exists|k: int| 0 <= k < self.log().len() && hash_of((#[trigger] self.log()[k]).content) == h by {
                        if h != hash {
                            assert(before.knows(h));
                            let k = choose|k: int| 0 <= k < before.log().len() && hash_of((#[trigger] before.log()[k]).content) == h;
                            assert(hash_of(self.log()[k].content) == h);
                        } else { assert(hash_of(self.log()[n].content) == h); }
                    }
                }
    @*/

    /*@fn src/creator/content_pack/mod.rs | impl<Wrapped: ContentAdder> CachedContentAdder<Wrapped> | add_content
    requires old(self).inv(), reader.pos@ == 0,
    ensures final(self).inv(), final(self).added(*old(self), reader.content@, comp_hint, r),
    @sub `Box<dyn InputReader>` => `Input`
    @sub `std::io::Result<crate::ContentAddress>` => `IoResult<ContentAddress>`
    @sub `Box::new(Cursor::new(buf))` => `cursor(buf)`
    @before 1 `let hash = hasher.finalize();`
            proof { assert(hasher.seen@ =~= reader.content@); }
    @before 2 `let hash = hasher.finalize();`
            proof { assert(hasher.seen@ =~= reader.content@); }
    @*/
}
} // verus!
fn main() {}
