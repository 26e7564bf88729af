/*@ C07 C13 C01 C06: decompression shared between threads: decode_to_end only appends the decoder's bytes, never
reallocates the shared buffer, publishes only what is written, in increasing order, waking every waiter each time, and
ends with everything published or an error; wait_for returns without error only when the asked bytes are published;
SeekableDecoder::read/read_exact/get_slice deliver exactly the bytes at the asked positions whatever the progress of the
decompression, and never look at a byte that is not published. */
use vstd::prelude::*;
verus! {
/*@types sizes @*/
/*@include std.inc @*/
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
impl From<IoError> for Error {
    #[verifier::external_body]
    fn from(e: IoError) -> Error { unimplemented!() }
}
#[verifier::external_body]
pub fn format_error() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn io_error() -> IoError { unimplemented!() }
/// an assert! of the code: it must hold
pub fn runtime_assert(b: bool) requires b {}

// ---- the writing side
/// the decoder: the bytes it will give (up to an error)
pub struct Decoder { pub stream: Ghost<Seq<u8>>, pub pos: Ghost<int> }
impl Decoder {
    // trusted: Read::take(size).read_to_end(vec) appends at most size bytes, in order; 0 bytes only at the end of the stream; it does not reallocate a vector with room for size more bytes (std)
    #[verifier::external_body]
    pub fn read_to_end_up_to(&mut self, size: u64, v: &mut Shared) -> (r: IoResult<usize>)
        requires
            0 <= old(self).pos@ <= old(self).stream@.len(),
            // no reallocation: the readers hold a pointer
            old(v)@.len() + size <= old(v).capacity@,
        ensures
            final(self).stream == old(self).stream, old(self).pos@ <= final(self).pos@ <= final(self).stream@.len(),
            final(v).capacity == old(v).capacity, final(v).published == old(v).published,
            final(v)@ == old(v)@ + old(self).stream@.subrange(old(self).pos@, final(self).pos@),
            r matches Ok(n) ==> n <= size && n == final(self).pos@ - old(self).pos@,
    { unimplemented!() }
}
/// the shared buffer, seen from its only writer: what it contains, how much of it the readers may look at
pub struct Shared { pub data: Ghost<Seq<u8>>, pub capacity: Ghost<int>, pub published: Ghost<int> }
impl Shared { pub open spec fn view(&self) -> Seq<u8> { self.data@ } }
pub struct SyncVecWr { pub data: Shared, pub total_size: usize }

/// what the lock protects
pub struct Progress { pub decoded: usize, pub error: Option<()> }
impl SyncVecWr {
    // trusted: Mutex::lock gives the value the (only) writer left
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Progress)
        ensures r.decoded == self.data.published@, r.error is None
    { unimplemented!() }
    // trusted: Condvar::notify_all wakes every waiter, who then sees the value under the lock
    /// the value set under the lock becomes visible: it must not go beyond what is written, nor back
    #[verifier::external_body]
    pub fn publish(&mut self, p: &Progress)
        requires old(self).data.published@ <= p.decoded <= old(self).data@.len(),
        ensures
            final(self).data.data == old(self).data.data, final(self).data.capacity == old(self).data.capacity,
            final(self).total_size == old(self).total_size, final(self).data.published@ == p.decoded,
    { unimplemented!() }
}

/*@fn src/bases/io/compression.rs | | decode_to_end
    requires
        0 < chunk_size, decoder.pos@ == 0,
        // create_sync_vec
        old(buffer).data@.len() == 0, old(buffer).data.published@ == 0, old(buffer).data.capacity@ == old(buffer).total_size,
    ensures
        // everything is there, and published (or the error is reported)
        r is Ok ==> final(buffer).data.published@ == old(buffer).total_size && final(buffer).data@.len() == old(buffer).total_size,
        // what was published stays what the decoder gave
        final(buffer).data@.len() <= decoder.stream@.len(),
        forall|i: int| 0 <= i < final(buffer).data@.len() ==> final(buffer).data@[i] == decoder.stream@[i],
        0 <= final(buffer).data.published@ <= final(buffer).data@.len(),
    @attr #[verifier::loop_isolation(false)]
    @start
    let ghost all = decoder.stream@;
    @loop 1
        invariant
            0 < chunk_size, total_size == old(buffer).total_size, buffer.total_size == total_size,
            buffer.data.capacity@ == total_size, uncompressed <= total_size,
            decoder.stream@ == all, decoder.pos@ == uncompressed, 0 <= uncompressed <= all.len(),
            buffer.data@ == all.subrange(0, uncompressed as int),
            buffer.data.published@ == uncompressed,
        decreases total_size - uncompressed,
    @after `&mut buffer.data)?;`
        proof { assert(buffer.data@ =~= all.subrange(0, decoder.pos@)); }
    @sub `decoder.by_ref().take(size as u64).read_to_end(&mut buffer.data)` => `decoder.read_to_end_up_to(size as u64, &mut buffer.data)`
    @sub `<T: Read + Send>` => ``
    @sub `mut decoder: T` => `mut decoder: Decoder`
    @sub `std::io::Result` => `IoResult`
    @sub `/std::io::Error::new\((?:[^()]|\([^()]*\))*\)/` => `io_error()`
    @sub `let (lock, cvar) = &*buffer.decoded;` => ``
    @sub `lock.lock().unwrap()` => `buffer.lock()`
    @sub `cvar.notify_all();` => `buffer.publish(&progress);`
@*/

// ---- the reading side
pub struct SyncVecRd { pub total_size: usize, pub stream: Ghost<Seq<u8>> }
impl SyncVecRd {
    pub open spec fn inv(&self) -> bool { self.stream@.len() <= self.total_size }
    /// at least n bytes are published (and will stay so: the writer's contract above)
    pub uninterp spec fn reached(&self, n: int) -> bool;

    // trusted: Condvar::wait_while returns, under the lock, when its condition is false (std)
    #[verifier::external_body]
    pub fn wait_while<F: Fn(&Progress) -> bool>(&self, f: F) -> (p: Progress)
        requires forall|p: &Progress| f.requires((p,)),
        ensures f.ensures((&p,), false), forall|n: int| n <= p.decoded ==> self.reached(n),
    { unimplemented!() }

    /*@fn src/bases/io/compression.rs | impl SyncVecRd | wait_for
    ensures r is Ok ==> self.reached(end as int)
    @sub `std::io::Result` => `IoResult`
    @sub `let (lock, cvar) = &*self.decoded;` => ``
    @sub `/cvar\s*\.wait_while\(\s*lock\.lock\(\)\.unwrap\(\),\s*\|p\| \{([^{}]*)\}\s*\)\s*\.unwrap\(\)/` => `self.wait_while(|p: &Progress| -> (b: bool) ensures b == (p.decoded < end && p.error is None) {\1})`
    @sub `/std::io::Error::new\((?:[^()]|\([^()]*\))*\)/` => `io_error()`
    @sub `Some((kind, msg))` => `Some(_)`
    @*/
    /*@fn src/bases/io/compression.rs | impl SyncVecRd | total_size
    ensures r == self.total_size
    @*/
    // trusted: SyncVecRd::slice: from_raw_parts on the shared buffer, up to the published count read at that time, which is not below any count seen before
    #[verifier::external_body]
    pub fn slice(&self, seen: Ghost<int>) -> (r: &[u8])
        requires self.inv(), self.reached(seen@),
        ensures seen@ <= r@.len() <= self.stream@.len(), r@ == self.stream@.subrange(0, r@.len() as int),
    { unimplemented!() }
}

// trusted: 0 bytes are always published
pub broadcast axiom fn axiom_reached(r: SyncVecRd) ensures #[trigger] r.reached(0);

pub struct SeekableDecoder { pub buffer: SyncVecRd }

/// `Read::read` on a slice
// trusted: impl Read for &[u8] (std)
#[verifier::external_body]
pub fn read_slice(s: &[u8], buf: &mut [u8]) -> (r: IoResult<usize>)
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) && n == (if s@.len() < old(buf)@.len() { s@.len() } else { old(buf)@.len() }),
        r matches Ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == s@[i],
{ unimplemented!() }

#[derive(Clone, Copy)] pub struct ARegion { pub b: u64, pub e: u64 }
impl ARegion {
    // proved elsewhere: kani contracts of bases/types/range.rs
    #[verifier::external_body]
    pub fn begin(&self) -> (r: Offset) ensures r.0 == self.b { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: Offset) ensures r.0 == self.e { unimplemented!() }
}
#[derive(Clone, Copy)] pub enum BlockCheck { None, Crc32 }
pub enum Cow<'a> { Borrowed(&'a [u8]) }

impl SeekableDecoder {
    pub open spec fn inv(&self) -> bool { self.buffer.inv() }
    pub open spec fn plain(&self) -> Seq<u8> { self.buffer.stream@ }

    /*@fn src/bases/io/compression.rs | impl SeekableDecoder | decode_to
    ensures r is Ok ==> self.buffer.reached(end as int)
    @sub `std::io::Result` => `IoResult`
    @*/
    /*@fn src/bases/io/compression.rs | impl SeekableDecoder | decoded_slice
    requires self.inv(), self.buffer.reached(seen@),
    ensures seen@ <= r@.len() <= self.plain().len(), r@ == self.plain().subrange(0, r@.len() as int),
    @sub `&self` => `&self, seen: Ghost<int>`
    @sub `self.buffer.slice()` => `self.buffer.slice(seen)`
    @*/
    /*@fn src/bases/io/compression.rs | impl Source for SeekableDecoder | size
    ensures r.0 == self.buffer.total_size
    @*/
    /*@fn src/bases/io/compression.rs | impl Source for SeekableDecoder | read
    requires self.inv(),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) ==> {
            &&& n <= old(buf)@.len()
            &&& n > 0 ==> offset.0 + n <= self.plain().len()
        },
        r matches Ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == self.plain()[offset.0 + i],
        // fewer bytes only at the end
        r matches Ok(n) ==> n == old(buf)@.len() || offset.0 + n >= self.buffer.total_size,
    @sub `std::io::Result` => `IoResult`
    @sub `self.decoded_slice()` => `self.decoded_slice(Ghost(end as int))`
    @after `self.decoded_slice(Ghost(end as int))[offset..];`
        proof {
            assert(slice@.len() > 0 ==> offset == old_offset);
            assert forall|i: int| 0 <= i < slice@.len() implies #[trigger] slice@[i] == self.plain()[old_offset + i] by {}
        }
    @start
    let ghost old_offset = offset.0;
    @sub `Read::read(&mut slice, buf)` => `read_slice(slice, buf)`
    @*/
    /*@fn src/bases/io/compression.rs | impl Source for SeekableDecoder | read_exact
    requires self.inv(),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> {
            &&& offset.0 + old(buf)@.len() <= self.plain().len()
            &&& final(buf)@ == self.plain().subrange(offset.0 as int, offset.0 + old(buf)@.len())
        },
        offset.0 + old(buf)@.len() > self.buffer.total_size ==> r is Err,
    @sub `std::io::Result` => `IoResult`
    @sub `self.decoded_slice()` => `self.decoded_slice(Ghost(end as int))`
    @sub `|end| end <=` => `|end: u64| -> (b: bool) ensures b == (end <= self.buffer.total_size) { end <=`
    @sub `self.buffer.total_size() as u64)` => `self.buffer.total_size() as u64 })`
    @sub `/std::io::Error::new\((?:[^()]|\([^()]*\))*\)/` => `io_error()`
    @sub `assert!(` => `runtime_assert(`
    @*/
    /*@fn src/bases/io/compression.rs | impl Source for SeekableDecoder | get_slice
    requires self.inv(), !(block_check is Crc32), region.b <= region.e,
    ensures
        r matches Ok(Cow::Borrowed(s)) ==> region.e <= self.plain().len() && s@ == self.plain().subrange(region.b as int, region.e as int),
        region.e > self.buffer.total_size ==> r is Err,
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @sub `self.decoded_slice()` => `self.decoded_slice(Ghost(region.e as int))`
    @sub `unreachable!()` => `vstd::pervasive::unreached()`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @*/
}
}
fn main() {}
