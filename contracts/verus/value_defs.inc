// ---- numbers and the bytes they are written on
/// 256^n
pub open spec fn p256(n: int) -> int {
    if n <= 0 { 1 } else if n == 1 { 0x100 } else if n == 2 { 0x1_0000 } else if n == 3 { 0x100_0000 } else if n == 4 { 0x1_0000_0000 }
    else if n == 5 { 0x100_0000_0000 } else if n == 6 { 0x1_0000_0000_0000 } else if n == 7 { 0x100_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// the number these bytes stand for (little-endian), unsigned, and in two's complement
pub open spec fn unle(s: Seq<u8>) -> u64
    decreases s.len()
{ if s.len() == 0 { 0 } else { (s[0] + 256 * unle(s.drop_first())) as u64 } }
pub open spec fn sint(s: Seq<u8>) -> i64 { let v = unle(s); if v < p256(s.len() as int) / 2 { v as i64 } else { (v - p256(s.len() as int)) as i64 } }
pub open spec fn fits_signed(v: i64, n: int) -> bool { -(p256(n) / 2) <= v < p256(n) / 2 }
pub proof fn unle_small(s: Seq<u8>)
    requires s.len() <= 8,
    ensures unle(s) < p256(s.len() as int), s.len() > 0 ==> fits_signed(sint(s), s.len() as int),
    decreases s.len(),
{ if s.len() > 0 { unle_small(s.drop_first()); } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ByteSize { U1, U2, U3, U4, U5, U6, U7, U8 }
impl ByteSize {
    pub open spec fn n(self) -> int {
        match self { ByteSize::U1 => 1, ByteSize::U2 => 2, ByteSize::U3 => 3, ByteSize::U4 => 4, ByteSize::U5 => 5, ByteSize::U6 => 6, ByteSize::U7 => 7, ByteSize::U8 => 8 }
    }
    /// `size as u8`: the discriminants
    pub fn number(self) -> (r: u8) ensures r == self.n() {
        match self { ByteSize::U1 => 1, ByteSize::U2 => 2, ByteSize::U3 => 3, ByteSize::U4 => 4, ByteSize::U5 => 5, ByteSize::U6 => 6, ByteSize::U7 => 7, ByteSize::U8 => 8 }
    }
}
#[derive(Debug)] pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
/// a panic! of the code: never reached
#[verifier::external_body]
pub fn panics() -> ! requires false { unimplemented!() }
/// an assert! of the code: it must hold
pub fn runtime_assert(b: bool) requires b {}

/// a parser on bytes
// proved elsewhere: SliceParser and the provided methods of Parser: kani contracts of bases/parsing.rs
pub struct Parser { pub b: Ghost<Seq<u8>>, pub p: Ghost<int> }
pub type SliceParser = Parser;
impl Parser {
    pub open spec fn bytes(&self) -> Seq<u8> { self.b@ }
    pub open spec fn pos(&self) -> int { self.p@ }
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.bytes().len() }
    pub open spec fn has(&self, n: int) -> bool { self.pos() + n <= self.bytes().len() }
    pub open spec fn next(&self, n: int) -> Seq<u8> { self.bytes().subrange(self.pos(), self.pos() + n) }
    pub open spec fn moved(&self, to: &Parser, n: int) -> bool { to.ok() && to.bytes() == self.bytes() && to.pos() == self.pos() + n }
    #[verifier::external_body]
    pub fn new(s: &[u8], global_offset: Offset) -> (r: Parser) ensures r.bytes() == s@, r.pos() == 0, r.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).has(1), r matches Ok(v) ==> v == old(self).bytes()[old(self).pos()] && old(self).moved(final(self), 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16(&mut self) -> (r: Result<u16>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).has(2), r matches Ok(v) ==> v == unle(old(self).next(2)) && old(self).moved(final(self), 2),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(&mut self) -> (r: Result<u32>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).has(4), r matches Ok(v) ==> v == unle(old(self).next(4)) && old(self).moved(final(self), 4),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_usized(&mut self, size: ByteSize) -> (r: Result<u64>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).has(size.n()), r matches Ok(v) ==> v == unle(old(self).next(size.n())) && v < p256(size.n()) && old(self).moved(final(self), size.n()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_isized(&mut self, size: ByteSize) -> (r: Result<i64>)
        requires old(self).ok(),
        ensures r is Ok <==> old(self).has(size.n()), r matches Ok(v) ==> v == sint(old(self).next(size.n())) && fits_signed(v, size.n()) && old(self).moved(final(self), size.n()),
    { unimplemented!() }
    /// `read_data(&mut buf[..n])`
    #[verifier::external_body]
    pub fn read_start(&mut self, buf: &mut [u8; 31], n: usize) -> (r: Result<()>)
        requires old(self).ok(), n <= 31,
        ensures r is Ok <==> old(self).has(n as int), r matches Ok(_) ==> old(self).moved(final(self), n as int) && final(buf)@ == old(self).next(n as int) + old(buf)@.skip(n as int),
    { unimplemented!() }
}

// ---- identities
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct PackId(pub u16);
impl FromSpecImpl<u16> for PackId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> PackId { PackId(v) }
}
impl From<u16> for PackId { fn from(v: u16) -> PackId { PackId(v) } }
#[derive(Clone, Copy)] pub struct ContentAddress { pub pack_id: PackId, pub content_id: ContentIdx }
impl ContentAddress {
    /*@fn src/common/content_address.rs | impl ContentAddress | new
    ensures r.pack_id == pack_id, r.content_id == content_id,
    @*/
}

// ---- value stores
/// what a value store holds under an id, given the size asked for
// proved elsewhere: unit value_store (get_data: the bytes at the id, of the size asked)
pub struct Store { pub h: Ghost<spec_fn(u64, Option<int>) -> Option<Seq<u8>>> }
pub open spec fn want(size: Option<ASize>) -> Option<int> { match size { Some(s) => Some(s.0 as int), None => None } }
impl Store {
    pub open spec fn held(&self, id: u64, size: Option<int>) -> Option<Seq<u8>> { (self.h@)(id, size) }
    #[verifier::external_body]
    pub fn get_data(&self, id: ValueIdx, size: Option<ASize>) -> (r: Result<&[u8]>)
        ensures r matches Ok(x) ==> self.held(id.0, want(size)) == Some(x@) && (size matches Some(s) ==> x@.len() == s.0),
    { unimplemented!() }
}
/// the value stores of the directory
// proved elsewhere: ValueStorage::get_value_store: unit packs
pub struct Storage { pub s: Ghost<spec_fn(ValueStoreIdx) -> Option<Store>> }
impl Storage {
    pub open spec fn store(&self, i: ValueStoreIdx) -> Option<Store> { (self.s@)(i) }
    #[verifier::external_body]
    pub fn get_value_store(&self, i: ValueStoreIdx) -> (r: Result<Arc<Store>>) ensures r matches Ok(s) ==> self.store(i) == Some(*s) { unimplemented!() }
}

// ---- the layout of a property
#[derive(Clone, Copy)] pub struct BaseArray { pub data: [u8; 31] }
impl BaseArray {
    /*@fn src/bases/types/base_array.rs | impl BaseArray | parse
    requires size <= 31, old(parser).ok(),
    ensures
        r is Ok <==> size == 0 || old(parser).has(size as int),
        r matches Ok(b) ==> old(parser).moved(final(parser), size as int) && b.data@.take(size as int) == old(parser).next(size as int),
    @sub `assert!(` => `runtime_assert(`
    @sub `impl Parser` => `Parser`
    @sub `parser.read_data(&mut s.data[..size as usize])?` => `parser.read_start(&mut s.data, size as usize)?`
    @before `Ok(s)`
        proof { assert(s.data@.take(size as int) =~= old(parser).next(size as int)); }
    @*/
}
#[derive(Clone, Copy)] pub enum DeportedDefault { Value(u64), KeySize(ByteSize) }
#[derive(Clone, Copy)] pub struct DeportedInfo { pub id_size: ByteSize, pub value_store_idx: ValueStoreIdx }
#[allow(inconsistent_fields)]
pub enum PropertyKind {
    Padding,
    ContentAddress { pack_id_size: ByteSize, content_id_size: ByteSize, default_pack_id: Option<PackId> },
    UnsignedInt { int_size: ByteSize, default: Option<u64> },
    SignedInt { int_size: ByteSize, default: Option<i64> },
    DeportedUnsignedInt { int_size: ByteSize, value_store_idx: ValueStoreIdx, id: DeportedDefault },
    DeportedSignedInt { int_size: ByteSize, value_store_idx: ValueStoreIdx, id: DeportedDefault },
    Array { array_len_size: Option<ByteSize>, fixed_array_len: u8, deported_info: Option<DeportedInfo>, default: Option<(ASize, BaseArray, Option<u64>)> },
    VariantId,
}
impl PropertyKind {
    /// what a parsed property satisfies
    pub open spec fn ok(&self) -> bool {
        match *self {
            PropertyKind::ContentAddress { pack_id_size, content_id_size, default_pack_id } => pack_id_size.n() <= 2 && content_id_size.n() <= 4,
            PropertyKind::UnsignedInt { int_size, default } => default matches Some(v) ==> v < p256(int_size.n()),
            PropertyKind::SignedInt { int_size, default } => default matches Some(v) ==> fits_signed(v, int_size.n()),
            PropertyKind::Array { array_len_size, fixed_array_len, deported_info, default } =>
                fixed_array_len <= 31 && (array_len_size matches Some(s) ==> s.n() <= 3) && (default matches Some(d) ==> (d.2 is Some <==> deported_info is Some)),
            _ => true,
        }
    }
    pub open spec fn is_value(&self) -> bool { !(*self is Padding) && !(*self is VariantId) }
    /// the number of bytes of an entry it takes
    pub open spec fn width(&self) -> int {
        match *self {
            PropertyKind::Padding => arbitrary(),
            PropertyKind::ContentAddress { pack_id_size, content_id_size, default_pack_id } => content_id_size.n() + if default_pack_id is Some { 0 } else { pack_id_size.n() },
            PropertyKind::UnsignedInt { int_size, default } => if default is Some { 0 } else { int_size.n() },
            PropertyKind::SignedInt { int_size, default } => if default is Some { 0 } else { int_size.n() },
            PropertyKind::DeportedUnsignedInt { int_size, value_store_idx, id } => match id { DeportedDefault::Value(_) => 0, DeportedDefault::KeySize(w) => w.n() },
            PropertyKind::DeportedSignedInt { int_size, value_store_idx, id } => match id { DeportedDefault::Value(_) => 0, DeportedDefault::KeySize(w) => w.n() },
            PropertyKind::Array { array_len_size, fixed_array_len, deported_info, default } =>
                if default is Some { 0 } else { (match array_len_size { Some(s) => s.n(), None => 0 }) + fixed_array_len + (match deported_info { Some(d) => d.id_size.n(), None => 0 }) },
            PropertyKind::VariantId => 1,
        }
    }
}
