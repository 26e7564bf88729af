/// a file being written
// trusted: the files (std::io Write, Seek, Read on a file): what they do when they succeed; sizes fit i64
pub struct OutFile { pub data: Ghost<Seq<u8>>, pub pos: Ghost<int> }
pub enum SeekFrom { Start(u64), Current(i64), End(i64) }
/// d with w written at p (a gap is filled with zeros)
pub open spec fn splice(d: Seq<u8>, p: int, w: Seq<u8>) -> Seq<u8> {
    if w.len() == 0 { d } else {
        Seq::new(if d.len() > p + w.len() { d.len() as nat } else { (p + w.len()) as nat }, |i: int| if p <= i < p + w.len() { w[i - p] } else if i < d.len() { d[i] } else { 0 })
    }
}
/// what is written as a block
pub trait Ser: Sized {
    spec fn block(&self) -> Seq<u8>;
    spec fn size(&self) -> int;
}
impl OutFile {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    pub open spec fn ok(&self) -> bool { 0 <= self.pos@ <= i64::MAX && self@.len() <= i64::MAX }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: IoResult<u64>)
        requires old(self).ok(),
        ensures
            final(self).data == old(self).data, final(self).ok(),
            r matches Ok(n) ==> n == final(self).pos@ && final(self).pos@ == (match p {
                SeekFrom::Start(o) => o as int, SeekFrom::Current(d) => old(self).pos@ + d, SeekFrom::End(d) => old(self)@.len() + d }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: IoResult<()>)
        requires old(self).ok(),
        ensures final(self).data == old(self).data, final(self).ok(), r is Ok ==> final(self).pos@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: IoResult<u64>)
        requires old(self).ok(),
        ensures *final(self) == *old(self), r matches Ok(n) ==> n == old(self).pos@,
    { unimplemented!() }
    // (panics where stream_position fails)
    #[verifier::external_body]
    pub fn tell(&mut self) -> (r: Offset)
        requires old(self).ok(),
        ensures *final(self) == *old(self), r.0 == old(self).pos@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8; 64]) -> (r: IoResult<()>)
        requires old(self).ok(),
        ensures
            final(self).data == old(self).data, final(self).ok(),
            r is Ok ==> old(self).pos@ + 64 <= old(self)@.len() && final(buf)@ == old(self)@.subrange(old(self).pos@, old(self).pos@ + 64),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8; 64]) -> (r: IoResult<()>)
        requires old(self).ok(),
        ensures final(self).ok(), r is Ok ==> final(self)@ == splice(old(self)@, old(self).pos@, buf@) && final(self).pos@ == old(self).pos@ + 64,
    { unimplemented!() }
    // proved elsewhere: ser_write: the bytes of serialize and their CRC: kani contracts of bases/write.rs
    #[verifier::external_body]
    pub fn ser_write<T: Ser>(&mut self, t: &T) -> (r: IoResult<usize>)
        requires old(self).ok(),
        ensures
            final(self).ok(), t.block().len() == t.size(),
            r is Ok ==> final(self)@ == splice(old(self)@, old(self).pos@, t.block()) && final(self).pos@ == old(self).pos@ + t.size(),
    { unimplemented!() }
}
// trusted: slice::reverse
#[verifier::external_body]
pub fn reverse(b: &mut [u8; 64]) ensures final(b)@ == old(b)@.reverse() { unimplemented!() }
