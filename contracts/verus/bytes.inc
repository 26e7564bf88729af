/// 256^n
pub open spec fn p256(n: int) -> int {
    if n <= 0 { 1 } else if n == 1 { 0x100 } else if n == 2 { 0x1_0000 } else if n == 3 { 0x100_0000 } else if n == 4 { 0x1_0000_0000 }
    else if n == 5 { 0x100_0000_0000 } else if n == 6 { 0x1_0000_0000_0000 } else if n == 7 { 0x100_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// the n bytes a value is written on (little-endian), and the value bytes stand for
// proved elsewhere: write_usized writes le(v, n), read_usized gives unle of the next n bytes: kani contracts of bases/write.rs, bases/parsing.rs
pub open spec fn le(v: u64, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { seq![(v % 256) as u8] + le(v / 256, n - 1) } }
pub open spec fn unle(s: Seq<u8>) -> u64
    decreases s.len()
{ if s.len() == 0 { 0 } else { (s[0] + 256 * unle(s.drop_first())) as u64 } }
pub mod bytes_lemmas {
use super::*;
/// what is written is read back
pub broadcast proof fn lemma_le(v: u64, n: int)
    requires 1 <= n <= 8, v < p256(n),
    ensures (#[trigger] le(v, n)).len() == n, unle(le(v, n)) == v,
{ lemma_le0(v, n); }
pub proof fn lemma_le0(v: u64, n: int)
    requires 0 <= n <= 8, v < p256(n),
    ensures le(v, n).len() == n, unle(le(v, n)) == v,
    decreases n,
{
    if n > 0 {
        lemma_le0(v / 256, n - 1);
        assert(le(v, n).drop_first() =~= le(v / 256, n - 1));
    }
}
}

#[derive(Clone, Copy)] pub struct ByteSize(pub u8);
impl ByteSize { pub open spec fn ok(self) -> bool { 1 <= self.0 <= 8 } }

// proved elsewhere: needed_bytes: kani needed_bytes_u64 (bases/mod.rs)
#[verifier::external_body]
pub fn needed_bytes(v: u64) -> (r: ByteSize)
    ensures r.ok(), v < p256(r.0 as int), r.0 == 1 || v >= p256(r.0 - 1)
{ unimplemented!() }


pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;

#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum BlockCheck { None, Crc32 }
// proved elsewhere: Serializer::write_*: kani contracts of bases/write.rs
// trusted: a serializer is a Vec<u8> in memory: what it holds has a length that fits usize
pub struct Serializer { pub buf: Ghost<Seq<u8>> }
impl Serializer {
    pub open spec fn view(&self) -> Seq<u8> { self.buf@ }
    #[verifier::external_body]
    pub fn new(c: BlockCheck) -> (r: Serializer) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_usized(&mut self, value: u64, size: ByteSize) -> (r: IoResult<usize>)
        requires size.ok(), value < p256(size.0 as int),
        ensures r matches Ok(n) ==> n == size.0 && final(self)@ == old(self)@ + le(value, size.0 as int) && final(self)@.len() == old(self)@.len() + n && final(self)@.len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u8(&mut self, value: u8) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == 1 && final(self)@ == old(self)@.push(value),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u16(&mut self, value: u16) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == 2 && final(self)@ == old(self)@ + le(value as u64, 2),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u32(&mut self, value: u32) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == 4 && final(self)@ == old(self)@ + le(value as u64, 4),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64(&mut self, value: u64) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == 8 && final(self)@ == old(self)@ + le(value, 8),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_data(&mut self, value: &[u8]) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == value@.len() && final(self)@ == old(self)@ + value@ && final(self)@.len() == old(self)@.len() + n && final(self)@.len() <= usize::MAX,
    { unimplemented!() }
}

/// a parser on bytes
// proved elsewhere: SliceParser: kani slice_parser contract (bases/parsing.rs)
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub struct Parser { pub b: Ghost<Seq<u8>>, pub p: Ghost<int> }
impl Parser {
    pub open spec fn bytes(&self) -> Seq<u8> { self.b@ }
    pub open spec fn pos(&self) -> int { self.p@ }
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.bytes().len() }
    pub open spec fn has(&self, n: int) -> bool { self.pos() + n <= self.bytes().len() }
    pub open spec fn next(&self, n: int) -> Seq<u8> { self.bytes().subrange(self.pos(), self.pos() + n) }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).bytes() == old(self).bytes(),
            r is Ok <==> old(self).has(1),
            r matches Ok(v) ==> v == old(self).bytes()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(&mut self) -> (r: Result<u64>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).bytes() == old(self).bytes(),
            r is Ok <==> old(self).has(8),
            r matches Ok(v) ==> v == unle(old(self).next(8)) && final(self).pos() == old(self).pos() + 8,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_usized(&mut self, size: ByteSize) -> (r: Result<u64>)
        requires old(self).ok(), size.ok(),
        ensures
            final(self).ok(), final(self).bytes() == old(self).bytes(),
            r is Ok <==> old(self).has(size.0 as int),
            r matches Ok(v) ==> v == unle(old(self).next(size.0 as int)) && final(self).pos() == old(self).pos() + size.0,
    { unimplemented!() }
}
