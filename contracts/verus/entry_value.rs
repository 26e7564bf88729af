/*@ C02 C03 C06 C14: the values of an entry: each property gives the value its bytes stand for, at its place, or its default, or what the
value store holds under its key, whichever way it is asked for, typed or not (VariantIdProperty, IntProperty, SignedProperty, ArrayProperty,
ContentProperty, AnyProperty: from_property, new_from_deported, create); a raw value is seen as this value (RawValue get, as_unsigned, as_signed,
as_content, as_vec, Array resolve_to_vec, size), and is compared with a key as numbers compare, or as whole byte strings, lexicographically
(RawValue partial_cmp, Array cmp, ArrayIter new, setup_extend, next). */
use vstd::prelude::*;
use std::sync::Arc;
verus! {
/*@types ContentIdx ContentCount u32 ValueIdx ValueCount u64 VariantIdx VariantCount u8 ValueStoreIdx ValueStoreCount u8 sizes @*/
/*@include std.inc @*/
/*@include ordering.inc @*/
/*@include value_defs.inc @*/

/// the bytes of an entry
// proved elsewhere: ByteSlice/ByteRegion as RandomParser: kani contracts of reader/byte_slice.rs, byte_region.rs, bases/parsing.rs
pub struct Region { pub data: Ghost<Seq<u8>> }
/// n bytes at this place
pub open spec fn at(b: Seq<u8>, o: int, n: int) -> Option<Seq<u8>> { if o + n <= b.len() { Some(b.subrange(o, o + n)) } else { None } }
pub open spec fn uint_at(b: Seq<u8>, o: int, w: ByteSize) -> Option<u64> { match at(b, o, w.n()) { Some(s) => Some(unle(s)), None => None } }
pub open spec fn sint_at(b: Seq<u8>, o: int, w: ByteSize) -> Option<i64> { match at(b, o, w.n()) { Some(s) => Some(sint(s)), None => None } }
impl Region {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body]
    pub fn global_offset(&self) -> (r: Offset) ensures r.0 + self@.len() <= u64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn create_parser(&self, offset: Offset) -> (r: Result<Parser>) ensures r matches Ok(p) ==> p.bytes() == self@ && p.pos() == offset.0 && p.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&self, offset: Offset) -> (r: Result<u8>) ensures r matches Ok(v) ==> uint_at(self@, offset.0 as int, ByteSize::U1) == Some(v as u64) && v == self@[offset.0 as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16(&self, offset: Offset) -> (r: Result<u16>) ensures r matches Ok(v) ==> uint_at(self@, offset.0 as int, ByteSize::U2) == Some(v as u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(&self, offset: Offset) -> (r: Result<u32>) ensures r matches Ok(v) ==> uint_at(self@, offset.0 as int, ByteSize::U4) == Some(v as u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(&self, offset: Offset) -> (r: Result<u64>) ensures r matches Ok(v) ==> uint_at(self@, offset.0 as int, ByteSize::U8) == Some(v as u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_usized(&self, offset: Offset, size: ByteSize) -> (r: Result<u64>) ensures r matches Ok(v) ==> uint_at(self@, offset.0 as int, size) == Some(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i8(&self, offset: Offset) -> (r: Result<i8>) ensures r matches Ok(v) ==> sint_at(self@, offset.0 as int, ByteSize::U1) == Some(v as i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i16(&self, offset: Offset) -> (r: Result<i16>) ensures r matches Ok(v) ==> sint_at(self@, offset.0 as int, ByteSize::U2) == Some(v as i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i32(&self, offset: Offset) -> (r: Result<i32>) ensures r matches Ok(v) ==> sint_at(self@, offset.0 as int, ByteSize::U4) == Some(v as i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i64(&self, offset: Offset) -> (r: Result<i64>) ensures r matches Ok(v) ==> sint_at(self@, offset.0 as int, ByteSize::U8) == Some(v as i64) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_isized(&self, offset: Offset, size: ByteSize) -> (r: Result<i64>) ensures r matches Ok(v) ==> sint_at(self@, offset.0 as int, size) == Some(v) { unimplemented!() }
}

// ---- the value of a property in an entry
pub ghost struct Arr { pub size: Option<int>, pub base: Seq<u8>, pub ext: Option<(Store, u64)> }
impl Arr {
    /// what its part in the value store holds, if it is there
    pub open spec fn known(&self) -> Option<int> { match self.size { Some(s) => Some(s - self.base.len()), None => None } }
    pub open spec fn tail(&self) -> Option<Seq<u8>> {
        match self.ext { None => Some(Seq::empty()), Some(e) => if self.known() == Some(0int) { Some(Seq::empty()) } else { e.0.held(e.1, self.known()) } }
    }
    /// the whole byte string
    pub open spec fn bytes(&self) -> Option<Seq<u8>> { match self.tail() { Some(t) => Some(self.base + t), None => None } }
}
pub ghost enum Val { Content(u16, u32), U(u64), I(i64), Array(Arr) }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn arr(size: Option<int>, base: Seq<u8>, fixed: int, ext: Option<(Store, u64)>) -> Arr {
    Arr { size, base: base.take(match size { Some(s) => min(s, fixed), None => fixed }), ext }
}
pub open spec fn deported(key: Option<u64>, s: Option<Store>, w: ByteSize) -> Option<Seq<u8>> {
    match (key, s) { (Some(k), Some(s)) => s.held(k, Some(w.n())), _ => None }
}
pub open spec fn key_of(id: DeportedDefault, o: int, b: Seq<u8>) -> Option<u64> { match id { DeportedDefault::Value(k) => Some(k), DeportedDefault::KeySize(w) => uint_at(b, o, w) } }
/// an array: its length, its first bytes, the key of the others
pub open spec fn array_at(b: Seq<u8>, o: int, len: Option<ByteSize>, fixed: int, key: Option<(ByteSize, Store)>) -> Option<Arr> {
    let l = match len { Some(w) => w.n(), None => 0 };
    let size = match len { Some(w) => match uint_at(b, o, w) { Some(v) => Some(v as int), None => None }, None => None };
    let ext = match key { Some(k) => match uint_at(b, o + l + fixed, k.0) { Some(v) => Some((k.1, v)), None => None }, None => None };
    match at(b, o + l, fixed) {
        Some(base) => if (len is Some ==> size is Some) && (key is Some ==> ext is Some) { Some(arr(size, base, fixed, ext)) } else { None },
        None => None,
    }
}
pub open spec fn content_at(b: Seq<u8>, o: int, pack: Option<PackId>, pw: ByteSize, cw: ByteSize) -> Option<(u16, u32)> {
    match pack {
        Some(p) => match uint_at(b, o, cw) { Some(c) => Some((p.0, c as u32)), None => None },
        None => match (uint_at(b, o, pw), uint_at(b, o + pw.n(), cw)) { (Some(p), Some(c)) => Some((p as u16, c as u32)), _ => None },
    }
}
/// the value a property of this kind, at this place, has in these bytes
pub open spec fn value_at(kind: PropertyKind, o: int, st: Storage, b: Seq<u8>) -> Option<Val> {
    match kind {
        PropertyKind::ContentAddress { pack_id_size, content_id_size, default_pack_id } => match content_at(b, o, default_pack_id, pack_id_size, content_id_size) { Some(c) => Some(Val::Content(c.0, c.1)), None => None },
        PropertyKind::UnsignedInt { int_size, default } => match (if default is Some { default } else { uint_at(b, o, int_size) }) { Some(v) => Some(Val::U(v)), None => None },
        PropertyKind::SignedInt { int_size, default } => match (if default is Some { default } else { sint_at(b, o, int_size) }) { Some(v) => Some(Val::I(v)), None => None },
        PropertyKind::DeportedUnsignedInt { int_size, value_store_idx, id } => match deported(key_of(id, o, b), st.store(value_store_idx), int_size) { Some(x) => Some(Val::U(unle(x))), None => None },
        PropertyKind::DeportedSignedInt { int_size, value_store_idx, id } => match deported(key_of(id, o, b), st.store(value_store_idx), int_size) { Some(x) => Some(Val::I(sint(x))), None => None },
        PropertyKind::Array { array_len_size, fixed_array_len, deported_info, default } => {
            let key = match deported_info { Some(d) => match st.store(d.value_store_idx) { Some(s) => Some((d.id_size, s)), None => None }, None => None };
            if deported_info is Some && key is None { None }
            else if default is Some {
                Some(Val::Array(arr(Some(((default->0).0).0 as int), (default->0).1.data@, fixed_array_len as int, match key { Some(k) => Some((k.1, (default->0).2->0)), None => None })))
            } else { match array_at(b, o, array_len_size, fixed_array_len as int, key) { Some(a) => Some(Val::Array(a)), None => None } }
        },
        _ => None,
    }
}
pub mod layout {
    use super::*;
    pub use super::PropertyKind;
    pub struct Property { pub offset: Offset, pub kind: PropertyKind }
}
impl layout::Property {
    pub open spec fn value(&self, st: Storage, b: Seq<u8>) -> Option<Val> { value_at(self.kind, self.offset.0 as int, st, b) }
}

// ---- variants
#[derive(Clone, Copy)] pub struct VariantIdProperty { pub offset: Offset }
impl VariantIdx {
    // proved elsewhere: VariantIdx::rparse reads a byte: kani contract of bases/types (rparse)
    #[verifier::external_body]
    pub fn rparse(parser: &Region, offset: Offset) -> (r: Result<VariantIdx>)
        ensures r matches Ok(v) ==> offset.0 < parser@.len() && v.0 == parser@[offset.0 as int]
    { unimplemented!() }
}
impl VariantIdProperty {
    /*@fn src/reader/directory_pack/builder/property.rs | impl VariantIdProperty | new
    ensures r.offset == offset,
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for VariantIdProperty | create
    ensures r matches Ok(v) ==> self.offset.0 < parser@.len() && v.0 == parser@[self.offset.0 as int],
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<VariantIdx>`
    @*/
}

// ---- unsigned integers
pub struct IntProperty { pub offset: Offset, pub size: ByteSize, pub default: Option<u64>, pub deported: Option<(ByteSize, Arc<Store>)> }
impl IntProperty {
    pub open spec fn ok(&self) -> bool { self.default matches Some(v) ==> v < p256(self.size.n()) }
    pub open spec fn value(&self, b: Seq<u8>) -> Option<u64> {
        match self.default {
            Some(v) => Some(v),
            None => match self.deported {
                Some(d) => match deported(uint_at(b, self.offset.0 as int, d.0), Some(*d.1), self.size) { Some(x) => Some(unle(x)), None => None },
                None => uint_at(b, self.offset.0 as int, self.size),
            },
        }
    }
    /// it stands for the property of this kind at this place
    pub open spec fn is(&self, p: layout::Property, st: Storage) -> bool {
        &&& self.ok() && (p.kind matches PropertyKind::UnsignedInt { int_size, default } ==> self.size == int_size)
        &&& p.kind matches PropertyKind::DeportedUnsignedInt { int_size, value_store_idx, id } ==> self.size == int_size
        &&& forall|b: Seq<u8>| p.value(st, b) == #[trigger] self.as_val(b)
    }
    pub open spec fn as_val(&self, b: Seq<u8>) -> Option<Val> { match self.value(b) { Some(v) => Some(Val::U(v)), None => None } }
    /*@fn src/reader/directory_pack/builder/property.rs | impl IntProperty | new
    ensures r.offset == offset, r.size == size, r.default == default, r.deported == deported,
    @sub `dyn ValueStoreTrait` => `Store`
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl IntProperty | new_from_deported
    ensures
        r matches Ok(p) ==> p.ok() && p.offset == offset && p.size == size,
        r matches Ok(p) ==> forall|b: Seq<u8>| #[trigger] p.value(b) == match deported(key_of(deported_default, offset.0 as int, b), Some(*store), size) { Some(x) => Some(unle(x)), None => None },
    @sub `dyn ValueStoreTrait` => `Store`
    @sub `std::borrow::Cow::Borrowed(default_data)` => `default_data`
    @sub `ASize::from(size as u8 as usize)` => `ASize::from(size.number() as usize)`
    @after `.expect("data_parser has the right size, so should not fail");`
        proof { assert(data_parser.bytes().subrange(0, size.n()) =~= data_parser.bytes()); }
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl FromLayoutProperty for IntProperty | from_property
    requires p.kind.ok(),
    ensures
        r matches Ok(q) ==> (q is Some <==> p.kind is UnsignedInt || p.kind is DeportedUnsignedInt),
        r matches Ok(Some(q)) ==> q.is(*p, *value_storage),
    @sub `impl ValueStorageTrait` => `Storage`
    @sub `/\s*where\s*Self: Sized,/` => ``
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for IntProperty | create
    requires self.ok(),
    ensures r matches Ok(v) ==> self.value(parser@) == Some(v) && v < p256(self.size.n()),
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<u64>`
    @sub `std::borrow::Cow::Borrowed(value_data)` => `value_data`
    @sub `ASize::from(self.size as u8 as usize)` => `ASize::from(self.size.number() as usize)`
    @start
        proof { if let Some(s) = at(parser@, self.offset.0 as int, self.size.n()) { unle_small(s); } }
    @before `data_parser.read_usized(self.size).unwrap()`
        proof { assert(data_parser.bytes().subrange(0, self.size.n()) =~= data_parser.bytes()); }
    @*/
}

// ---- signed integers
pub struct SignedProperty { pub offset: Offset, pub size: ByteSize, pub default: Option<i64>, pub deported: Option<(ByteSize, Arc<Store>)> }
impl SignedProperty {
    pub open spec fn ok(&self) -> bool { self.default matches Some(v) ==> fits_signed(v, self.size.n()) }
    pub open spec fn value(&self, b: Seq<u8>) -> Option<i64> {
        match self.default {
            Some(v) => Some(v),
            None => match self.deported {
                Some(d) => match deported(uint_at(b, self.offset.0 as int, d.0), Some(*d.1), self.size) { Some(x) => Some(sint(x)), None => None },
                None => sint_at(b, self.offset.0 as int, self.size),
            },
        }
    }
    pub open spec fn is(&self, p: layout::Property, st: Storage) -> bool {
        &&& self.ok() && (p.kind matches PropertyKind::SignedInt { int_size, default } ==> self.size == int_size)
        &&& p.kind matches PropertyKind::DeportedSignedInt { int_size, value_store_idx, id } ==> self.size == int_size
        &&& forall|b: Seq<u8>| p.value(st, b) == #[trigger] self.as_val(b)
    }
    pub open spec fn as_val(&self, b: Seq<u8>) -> Option<Val> { match self.value(b) { Some(v) => Some(Val::I(v)), None => None } }
    /*@fn src/reader/directory_pack/builder/property.rs | impl SignedProperty | new
    ensures r.offset == offset, r.size == size, r.default == default, r.deported == deported,
    @sub `dyn ValueStoreTrait` => `Store`
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl SignedProperty | new_from_deported
    ensures
        r matches Ok(p) ==> p.ok() && p.offset == offset && p.size == size,
        r matches Ok(p) ==> forall|b: Seq<u8>| #[trigger] p.value(b) == match deported(key_of(deported_default, offset.0 as int, b), Some(*store), size) { Some(x) => Some(sint(x)), None => None },
    @sub `dyn ValueStoreTrait` => `Store`
    @sub `std::borrow::Cow::Borrowed(default_data)` => `default_data`
    @sub `ASize::from(size as u8 as usize)` => `ASize::from(size.number() as usize)`
    @after `.expect("data_parser has the right size, so should not fail");`
        proof { assert(data_parser.bytes().subrange(0, size.n()) =~= data_parser.bytes()); }
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl FromLayoutProperty for SignedProperty | from_property
    requires p.kind.ok(),
    ensures
        r matches Ok(q) ==> (q is Some <==> p.kind is SignedInt || p.kind is DeportedSignedInt),
        r matches Ok(Some(q)) ==> q.is(*p, *value_storage),
    @sub `impl ValueStorageTrait` => `Storage`
    @sub `/\s*where\s*Self: Sized,/` => ``
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for SignedProperty | create
    requires self.ok(),
    ensures r matches Ok(v) ==> self.value(parser@) == Some(v) && fits_signed(v, self.size.n()),
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<i64>`
    @sub `std::borrow::Cow::Borrowed(value_data)` => `value_data`
    @sub `ASize::from(self.size as u8 as usize)` => `ASize::from(self.size.number() as usize)`
    @start
        proof { if let Some(s) = at(parser@, self.offset.0 as int, self.size.n()) { unle_small(s); } }
    @before `data_parser.read_isized(self.size).unwrap()`
        proof { assert(data_parser.bytes().subrange(0, self.size.n()) =~= data_parser.bytes()); }
    @*/
}

// ---- arrays
pub struct Extend { pub store: Arc<Store>, pub value_id: ValueIdx }
impl Extend {
    /*@fn src/reader/directory_pack/raw_value.rs | impl Extend | new
    ensures r.store == store, r.value_id == value_id,
    @sub `dyn ValueStoreTrait` => `Store`
    @*/
}
pub struct Array { pub size: Option<ASize>, pub base: BaseArray, pub base_len: u8, pub extend: Option<Extend> }
impl Array {
    pub open spec fn ok(&self) -> bool { self.base_len <= 31 && (self.size matches Some(s) ==> self.base_len <= s.0) }
    pub open spec fn view(&self) -> Arr {
        Arr { size: want(self.size), base: self.base.data@.take(self.base_len as int), ext: match self.extend { Some(e) => Some((*e.store, e.value_id.0)), None => None } }
    }
    /*@fn src/reader/directory_pack/raw_value.rs | impl Array | new
    requires base_len <= 31,
    ensures
        r.ok(),
        r@ == arr(want(size), base.data@, base_len as int, match extend { Some(e) => Some((*e.store, e.value_id.0)), None => None }),
    @sub `std::cmp::min` => `core::cmp::min`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl Array | resolve_to_vec
    requires self.ok(),
    ensures
        r is Ok ==> self@.bytes() is Some && final(vec)@ == old(vec)@ + self@.bytes()->0,
    @sub `SmallBytes` => `Vec<u8>`
    @sub `/vec\.reserve\([^;]*\);/` => ``
    @sub `&self.base.data[..self.base_len as usize]` => `start(&self.base.data, self.base_len as usize)`
    @sub `|s| s - ASize::new(self.base_len as usize)` => `|s: ASize| -> (d: ASize) requires s.0 >= self.base_len ensures d.0 == s.0 - self.base_len { s - ASize::new(self.base_len as usize) }`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl Array | size
    ensures r is Some <==> self.size is Some, r matches Some(s) ==> self.size matches Some(z) && s == z.0,
    @sub `|v| v.into_usize()` => `|v: ASize| -> (z: usize) ensures z == v.0 { v.into_usize() }`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl Array | cmp
    requires self.ok(),
    ensures r matches Ok(o) ==> (self@.bytes() matches Some(x) ==> o == lex(x, other@)),
    @sub `pub fn cmp(` => `pub fn ordered(`
    @sub `/\bcmp::Ordering/` => `Ordering`
    @sub `our_value.cmp(other_value)` => `our_value.ordered(other_value)`
    @sub `let our_iter = ArrayIter::new(self)?;` => `let mut our_iter = ArrayIter::new(self)?;`
    @sub `let mut other_iter = other.iter();` => `let mut other_iter = Elems::of(other);`
    @sub `for our_value in our_iter {` => `loop { let our_value = match our_iter.next() { Some(v) => v, None => break };`
    @loop 1
        invariant_except_break
            our_iter.ok(), our_iter.array == self, self@.bytes() matches Some(x) ==> our_iter.rest() is Some && lex(x, other@) == lex(our_iter.rest()->0, other_iter.rest()),
            our_iter.left() >= 0,
        ensures self@.bytes() matches Some(x) ==> lex(x, other@) == lex(Seq::empty(), other_iter.rest()),
        decreases our_iter.left(),
    @*/
}
pub fn start(a: &[u8; 31], n: usize) -> (r: &[u8]) requires n <= 31 ensures r@ == a@.take(n as int) { vstd::slice::slice_subrange(a.as_slice(), 0, n) }
/// lexicographic order of byte strings
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
/// Ord::cmp of the integers (its result as the Ordering of this file)
// trusted: Ord::cmp of u8, u64, i64 (std)
pub trait Ordered: Sized { spec fn n(&self) -> int; fn ordered(&self, o: &Self) -> (r: Ordering) ensures r == num_cmp(self.n(), o.n()); }
pub open spec fn num_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
macro_rules! ordered { ($($t:ident)*) => { verus! { $(
    impl Ordered for $t {
        open spec fn n(&self) -> int { *self as int }
        fn ordered(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    }
)* } } }
ordered! { u8 u64 i64 }
/// the iterator of a slice
// trusted: slice::Iter::next (std)
pub struct Elems<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> Elems<'a> {
    pub open spec fn rest(&self) -> Seq<u8> { self.s@.skip(self.i as int) }
    pub open spec fn ok(&self) -> bool { self.i <= self.s@.len() }
    #[verifier::external_body]
    pub fn of(s: &'a [u8]) -> (r: Elems<'a>) ensures r.rest() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures
            r is None <==> old(self).rest().len() == 0,
            r is None ==> final(self).rest() == old(self).rest(),
            r matches Some(v) ==> *v == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
pub enum ArrayIterMode<'a> { Base { data: &'a [u8], len: usize }, Extend { data: &'a [u8], len: usize }, End }
pub struct ArrayIter<'a> { pub array: &'a Array, pub mode: ArrayIterMode<'a>, pub idx: usize }
impl<'a> ArrayIter<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.array.ok()
        &&& match self.mode {
            ArrayIterMode::Base { data, len } => data@ == self.array.base.data@ && len == self.array.base_len && self.idx < len,
            ArrayIterMode::Extend { data, len } => len == data@.len() && self.idx < len && self.array@.tail() == Some(data@),
            ArrayIterMode::End => true,
        }
    }
    /// what is still to come
    pub open spec fn rest(&self) -> Option<Seq<u8>> {
        match self.mode {
            ArrayIterMode::Base { data, len } => match self.array@.tail() { Some(t) => Some(data@.subrange(self.idx as int, len as int) + t), None => None },
            ArrayIterMode::Extend { data, len } => Some(data@.skip(self.idx as int)),
            ArrayIterMode::End => Some(Seq::empty()),
        }
    }
    /// what bounds the number of steps to come
    pub open spec fn left(&self) -> int {
        match self.mode {
            ArrayIterMode::Base { data, len } => len - self.idx + usize::MAX + 1,
            ArrayIterMode::Extend { data, len } => len - self.idx,
            ArrayIterMode::End => 0,
        }
    }
    pub open spec fn after_base(m: ArrayIterMode, a: Array) -> bool {
        match m {
            ArrayIterMode::Base { data, len } => false,
            ArrayIterMode::Extend { data, len } => a@.tail() == Some(data@) && len == data@.len() && len > 0,
            ArrayIterMode::End => a@.tail() == Some(Seq::<u8>::empty()),
        }
    }
    /*@fn src/reader/directory_pack/raw_value.rs | impl<'a> ArrayIter<'a> | new
    requires array.ok(),
    ensures r matches Ok(it) ==> it.ok() && it.array == array && it.rest() == array@.bytes(),
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl<'a> ArrayIter<'a> | setup_extend
    requires array.ok(),
    ensures r matches Ok(m) ==> Self::after_base(m, *array),
    @sub `|v| v.into_usize() - array.base_len as usize` => `|v: ASize| -> (z: usize) requires v.0 >= array.base_len ensures z == v.0 - array.base_len { v.into_usize() - array.base_len as usize }`
    @before `if data.is_empty()`
        proof { if data@.len() == 0 { assert(data@ =~= Seq::<u8>::empty()); } }
    @sub `known_size.map(ASize::new)` => `known_size.map(|v: usize| -> (z: ASize) ensures z.0 == v { ASize::new(v) })`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl Iterator for ArrayIter<'_> | next
    requires old(self).ok(),
    ensures
        final(self).array == old(self).array,
        r is None ==> old(self).rest() == Some(Seq::<u8>::empty()),
        r matches Some(Ok(v)) ==> final(self).ok() && final(self).left() < old(self).left() && (old(self).rest() is Some <==> final(self).rest() is Some)
            && (old(self).rest() matches Some(x) ==> x.len() > 0 && v == x[0] && final(self).rest() == Some(x.drop_first())),
        final(self).left() >= 0,
    @sub `Option<Self::Item>` => `Option<Result<u8>>`
    @*/
}
pub struct ArrayProperty {
    pub offset: Offset, pub array_len_size: Option<ByteSize>, pub fixed_array_len: u8, pub deported_array_info: Option<(ByteSize, Arc<Store>)>,
    pub default: Option<(ASize, BaseArray, Option<u64>)>,
}
impl ArrayProperty {
    pub open spec fn ok(&self) -> bool {
        self.fixed_array_len <= 31 && (self.array_len_size matches Some(s) ==> s.n() <= 3) && (self.default matches Some(d) ==> (d.2 is Some <==> self.deported_array_info is Some))
    }
    pub open spec fn value(&self, b: Seq<u8>) -> Option<Arr> {
        let key = match self.deported_array_info { Some(d) => Some((d.0, *d.1)), None => None };
        if self.default is Some {
            Some(arr(Some(((self.default->0).0).0 as int), (self.default->0).1.data@, self.fixed_array_len as int, match key { Some(k) => Some((k.1, (self.default->0).2->0)), None => None }))
        } else { array_at(b, self.offset.0 as int, self.array_len_size, self.fixed_array_len as int, key) }
    }
    pub open spec fn is(&self, p: layout::Property, st: Storage) -> bool {
        self.ok() && forall|b: Seq<u8>| p.value(st, b) == #[trigger] self.as_val(b)
    }
    pub open spec fn as_val(&self, b: Seq<u8>) -> Option<Val> { match self.value(b) { Some(v) => Some(Val::Array(v)), None => None } }
    /*@fn src/reader/directory_pack/builder/property.rs | impl ArrayProperty | new
    ensures r.offset == offset, r.array_len_size == array_len_size, r.fixed_array_len == fixed_array_len, r.deported_array_info == deported_array_info, r.default == default,
    @sub `dyn ValueStoreTrait` => `Store`
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl FromLayoutProperty for ArrayProperty | from_property
    requires p.kind.ok(),
    ensures
        r matches Ok(q) ==> (q is Some <==> p.kind is Array),
        r matches Ok(Some(q)) ==> q.is(*p, *value_storage),
    @sub `impl ValueStorageTrait` => `Storage`
    @sub ` as Arc<dyn ValueStoreTrait>` => ``
    @sub `/\s*where\s*Self: Sized,/` => ``
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for ArrayProperty | create
    requires self.ok(),
    ensures r matches Ok(a) ==> a.ok() && self.value(parser@) == Some(a@),
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<Array>`
    @before `Ok(Array::new(`
        proof {
            let (d, n) = (base_array.data@, self.fixed_array_len as int);
            assert forall|k: int| 0 <= k <= n implies #[trigger] d.take(k) == d.take(n).take(k) by { assert(d.take(k) =~= d.take(n).take(k)); }
        }
    @sub `assert!(size as u8 <= 3)` => `runtime_assert(size.number() <= 3)`
    @sub `|(_, store)| Extend::new(Arc::clone(store), value_id.unwrap().into())` => `|d: &(ByteSize, Arc<Store>)| -> (e: Extend) requires value_id is Some ensures e.store == d.1, e.value_id.0 == value_id->0 { let (_, store) = d; Extend::new(Arc::clone(store), value_id.unwrap().into()) }`
    @*/
}

// ---- content addresses
pub struct ContentProperty { pub offset: Offset, pub pack_id_default: Option<PackId>, pub pack_id_size: ByteSize, pub content_id_size: ByteSize }
impl ContentProperty {
    pub open spec fn ok(&self) -> bool { self.pack_id_size.n() <= 2 && self.content_id_size.n() <= 4 }
    pub open spec fn value(&self, b: Seq<u8>) -> Option<(u16, u32)> { content_at(b, self.offset.0 as int, self.pack_id_default, self.pack_id_size, self.content_id_size) }
    pub open spec fn is(&self, p: layout::Property, st: Storage) -> bool { self.ok() && forall|b: Seq<u8>| p.value(st, b) == #[trigger] self.as_val(b) }
    pub open spec fn as_val(&self, b: Seq<u8>) -> Option<Val> { match self.value(b) { Some(v) => Some(Val::Content(v.0, v.1)), None => None } }
    /*@fn src/reader/directory_pack/builder/property.rs | impl ContentProperty | new
    ensures r.offset == offset, r.pack_id_default == pack_id_default, r.pack_id_size == pack_id_size, r.content_id_size == content_id_size,
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl FromLayoutProperty for ContentProperty | from_property
    requires p.kind.ok(),
    ensures
        r matches Ok(q) ==> (q is Some <==> p.kind is ContentAddress),
        r matches Ok(Some(q)) ==> q.is(*p, *_value_storage),
    @sub `impl ValueStorageTrait` => `Storage`
    @sub `/\s*where\s*Self: Sized,/` => ``
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for ContentProperty | create
    requires self.ok(),
    ensures r matches Ok(c) ==> self.value(parser@) == Some((c.pack_id.0, c.content_id.0)),
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<ContentAddress>`
    @*/
}

// ---- any of them
pub enum AnyProperty { ContentAddress(ContentProperty), UnsignedInt(IntProperty), SignedInt(SignedProperty), Array(ArrayProperty) }
impl AnyProperty {
    pub open spec fn ok(&self) -> bool {
        match *self { AnyProperty::ContentAddress(p) => p.ok(), AnyProperty::UnsignedInt(p) => p.ok(), AnyProperty::SignedInt(p) => p.ok(), AnyProperty::Array(p) => p.ok() }
    }
    pub open spec fn value(&self, b: Seq<u8>) -> Option<Val> {
        match *self { AnyProperty::ContentAddress(p) => p.as_val(b), AnyProperty::UnsignedInt(p) => p.as_val(b), AnyProperty::SignedInt(p) => p.as_val(b), AnyProperty::Array(p) => p.as_val(b) }
    }
    /*@fn src/reader/directory_pack/builder/property.rs | impl FromLayoutProperty for AnyProperty | from_property
    requires p.kind.ok(), p.kind.is_value(),
    ensures
        r matches Ok(q) ==> q is Some,
        r matches Ok(Some(q)) ==> q.ok() && forall|b: Seq<u8>| p.value(*value_storage, b) == #[trigger] q.value(b),
    @sub `impl ValueStorageTrait` => `Storage`
    @sub ` as Arc<dyn ValueStoreTrait>` => ``
    @sub `unreachable!()` => `panics()`
    @sub `match &p.kind {` => `match p.kind {`
    @sub `&PropertyKind::` => `PropertyKind::`
    @sub `/\*(value_store_idx|id_size|array_len_size|fixed_array_len|default)\b/` => `\1`
    @sub `/\s*where\s*Self: Sized,/` => ``
    @*/
    /*@fn src/reader/directory_pack/builder/property.rs | impl PropertyBuilderTrait for AnyProperty | create
    requires self.ok(),
    ensures r matches Ok(v) ==> v.ok() && self.value(parser@) == Some(v@),
    @sub `impl RandomParser` => `Region`
    @sub `Result<Self::Output>` => `Result<RawValue>`
    @*/
}
pub enum RawValue { Content(ContentAddress), U8(u8), U16(u16), U32(u32), U64(u64), I8(i8), I16(i16), I32(i32), I64(i64), Array(Array) }
// trusted: Word::get gives what the word stands for now (a number, or the position of another entry)
pub struct WordU(pub u64);
pub struct WordI(pub i64);
impl WordU { pub fn get(&self) -> (r: u64) ensures r == self.0 { self.0 } }
impl WordI { pub fn get(&self) -> (r: i64) ensures r == self.0 { self.0 } }
pub enum Value { Content(ContentAddress), Unsigned(u64), Signed(i64), UnsignedWord(WordU), SignedWord(WordI), Array(Vec<u8>) }
/// how a value compares with a key, where they compare
pub open spec fn compare(v: Val, k: Value) -> Option<Ordering> {
    match k {
        Value::Content(_) => None,
        Value::Unsigned(x) => if v is U { Some(num_cmp(v->U_0 as int, x as int)) } else { None },
        Value::UnsignedWord(x) => if v is U { Some(num_cmp(v->U_0 as int, x.0 as int)) } else { None },
        Value::Signed(x) => if v is I { Some(num_cmp(v->I_0 as int, x as int)) } else { None },
        Value::SignedWord(x) => if v is I { Some(num_cmp(v->I_0 as int, x.0 as int)) } else { None },
        Value::Array(x) => if v is Array && v->Array_0.bytes() is Some { Some(lex(v->Array_0.bytes()->0, x@)) } else { None },
    }
}
impl RawValue {
    pub open spec fn ok(&self) -> bool { *self matches RawValue::Array(a) ==> a.ok() }
    pub open spec fn view(&self) -> Val {
        match *self {
            RawValue::Content(c) => Val::Content(c.pack_id.0, c.content_id.0),
            RawValue::U8(v) => Val::U(v as u64), RawValue::U16(v) => Val::U(v as u64), RawValue::U32(v) => Val::U(v as u64), RawValue::U64(v) => Val::U(v),
            RawValue::I8(v) => Val::I(v as i64), RawValue::I16(v) => Val::I(v as i64), RawValue::I32(v) => Val::I(v as i64), RawValue::I64(v) => Val::I(v),
            RawValue::Array(a) => Val::Array(a@),
        }
    }
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | get
    requires self.ok(),
    ensures
        r matches Ok(v) ==> match self@ {
            Val::Content(p, c) => v matches Value::Content(a) && a.pack_id.0 == p && a.content_id.0 == c,
            Val::U(x) => v == Value::Unsigned(x),
            Val::I(x) => v == Value::Signed(x),
            Val::Array(a) => v matches Value::Array(x) && a.bytes() == Some(x@),
        },
    @sub `SmallBytes` => `Vec`
    @after `a.resolve_to_vec(&mut vec)?`
        proof { if self@->Array_0.bytes() is Some { assert(vec@ =~= self@->Array_0.bytes()->0); } }
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | as_vec
    requires self.ok(), self@ is Array,
    ensures r matches Ok(x) ==> self@->Array_0.bytes() == Some(x@),
    @sub `SmallBytes::new` => `Vec::new`
    @sub `SmallBytes` => `Vec<u8>`
    @sub `panic!()` => `panics()`
    @after `a.resolve_to_vec(&mut vec)?`
        proof { if self@->Array_0.bytes() is Some { assert(vec@ =~= self@->Array_0.bytes()->0); } }
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | as_content
    requires self@ is Content,
    ensures self@ == Val::Content(r.pack_id.0, r.content_id.0),
    @sub `panic!()` => `panics()`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | as_unsigned
    requires self@ is U,
    ensures self@ == Val::U(r),
    @sub `panic!()` => `panics()`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | as_signed
    requires self@ is I,
    ensures self@ == Val::I(r),
    @sub `panic!()` => `panics()`
    @*/
    /*@fn src/reader/directory_pack/raw_value.rs | impl RawValue | partial_cmp
    requires self.ok(),
    ensures
        r matches Ok(o) ==> (o is Some <==> match *other { Value::Content(_) => false, Value::Array(_) => self@ is Array, Value::Unsigned(_) => self@ is U, Value::UnsignedWord(_) => self@ is U, _ => self@ is I }),
        r matches Ok(Some(o)) ==> (self@ is Array ==> self@->Array_0.bytes() is Some) ==> compare(self@, *other) == Some(o),
    @sub `/\bcmp::Ordering/` => `Ordering`
    @sub `.cmp(` => `.ordered(`
    @*/
}
} // verus!
fn main() {}
