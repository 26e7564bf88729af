/// a reader: the bytes of its region
// proved elsewhere: Reader::cut/get_byte_slice give exactly the asked part of the region and refuse what leaves it: kani contracts of bases/reader.rs, bases/types (Region), reader/byte_slice.rs
pub struct Reader { pub data: Ghost<Seq<u8>> }
pub struct ByteSlice { pub data: Ghost<Seq<u8>> }
pub struct ByteRegion { pub data: Ghost<Seq<u8>> }
impl Reader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn cut(&self, offset: Offset, size: Size, in_memory: bool) -> (r: Result<Reader>)
        ensures
            r matches Ok(x) ==> offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_byte_slice(&self, offset: Offset, size: Size) -> (r: ByteSlice)
        requires offset.0 + size.0 <= self@.len(),
        ensures r.data@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
}
impl FromSpecImpl<ByteSlice> for ByteRegion {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: ByteSlice) -> ByteRegion { ByteRegion { data: s.data } }
}
impl From<ByteSlice> for ByteRegion {
    #[verifier::external_body]
    fn from(s: ByteSlice) -> ByteRegion { unimplemented!() }
}
