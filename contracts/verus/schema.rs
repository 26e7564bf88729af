/*@ C02 C14: schema and entries: the sizing of the properties (PropertySize, ValueCounter, schema Property, Properties and Schema:
process, finalize) covers every entry that was processed: each value fits the width, the default or the inline part its
property gets, all the entries of a store have the same size, and the entries are then written as exactly those values, one
property after the other (layout Properties and Entry serialize_entry); a value that cannot be represented is refused. */
use vstd::prelude::*;
verus! {
/*@types ValueIdx ValueCount u64 ContentIdx ContentCount u32 VariantIdx VariantCount u8 EntryIdx EntryCount u32 ValueStoreIdx ValueStoreCount u8 sizes @*/
/*@include std.inc @*/
/*@include bytes.inc @*/
/*@include bytes_model.inc @*/

/// an assert! of the code that must hold
pub fn runtime_assert(b: bool) requires b {}
/// an assert! or panic! that refuses what cannot be represented: creation fails there
#[verifier::external_body]
pub fn refuse_unless(b: bool) ensures b { assert!(b); }
#[verifier::external_body]
pub fn refuse() -> ! ensures false { panic!(); }

// ---- widths
/// the smallest width that holds v
pub open spec fn need(v: u64) -> ByteSize {
    ByteSize(if v < p256(1) { 1 } else if v < p256(2) { 2 } else if v < p256(3) { 3 } else if v < p256(4) { 4 }
        else if v < p256(5) { 5 } else if v < p256(6) { 6 } else if v < p256(7) { 7 } else { 8 })
}
/// PropertySize<T>: T (u16, u32, u64 or usize) is widened to u64
pub enum PropertySize { Fixed(ByteSize), Auto(u64) }
impl PropertySize {
    pub open spec fn covers(&self, v: int) -> bool {
        match *self { PropertySize::Fixed(w) => w.ok() && v < p256(w.0 as int), PropertySize::Auto(m) => v <= m }
    }
    pub open spec fn ok(&self) -> bool { *self matches PropertySize::Fixed(w) ==> w.ok() }
    pub open spec fn grows(&self, to: PropertySize) -> bool { self.ok() ==> to.ok() && forall|v: int| #[trigger] self.covers(v) ==> to.covers(v) }
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> PropertySize<T> | process
    requires old(self).ok(),
    ensures final(self).covers(v as int), old(self).grows(*final(self)),
    @sub `/\bv: T\b/` => `v: u64`
    @sub `/assert!\(\*(\w+) >= needed_bytes\((\w+)\)\);/` => `refuse_unless(\1.0 >= needed_bytes(\2).0);`
    @sub `cmp::max` => `core::cmp::max`
    @*/
}
impl FromSpecImpl<PropertySize> for ByteSize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: PropertySize) -> ByteSize { match p { PropertySize::Fixed(w) => w, PropertySize::Auto(m) => need(m) } }
}
impl From<PropertySize> for ByteSize {
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> From<PropertySize<T>> for ByteSize | from
    @ret r
    @sub `PropertySize<T>` => `PropertySize`
    @sub `PropertySize::<T>` => `PropertySize`
    @*/
}

// ---- constant values
/// ValueCounter<u64>
pub enum CounterU64 { None, One(u64), Many }
impl CounterU64 {
    pub open spec fn covers(&self, v: u64) -> bool { match *self { CounterU64::None => false, CounterU64::One(x) => x == v, CounterU64::Many => true } }
    pub open spec fn grows(&self, to: CounterU64) -> bool { forall|v: u64| #[trigger] self.covers(v) ==> to.covers(v) }
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> ValueCounter<T> | process
    ensures final(self).covers(v), old(self).grows(*final(self)),
    @sub `/\bv: T\b/` => `v: u64`
    @*/
}
impl FromSpecImpl<CounterU64> for Option<u64> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CounterU64) -> Option<u64> { match v { CounterU64::One(x) => Some(x), _ => None } }
}
impl From<CounterU64> for Option<u64> {
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> From<ValueCounter<T>> for Option<T> | from
    @sub `ValueCounter<T>` => `CounterU64`
    @sub `Option<T>` => `Option<u64>`
    @sub `ValueCounter::` => `CounterU64::`
    @*/
}
/// ValueCounter<i64>
pub enum CounterI64 { None, One(i64), Many }
impl CounterI64 {
    pub open spec fn covers(&self, v: i64) -> bool { match *self { CounterI64::None => false, CounterI64::One(x) => x == v, CounterI64::Many => true } }
    pub open spec fn grows(&self, to: CounterI64) -> bool { forall|v: i64| #[trigger] self.covers(v) ==> to.covers(v) }
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> ValueCounter<T> | process
    ensures final(self).covers(v), old(self).grows(*final(self)),
    @sub `/\bv: T\b/` => `v: i64`
    @*/
}
impl FromSpecImpl<CounterI64> for Option<i64> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CounterI64) -> Option<i64> { match v { CounterI64::One(x) => Some(x), _ => None } }
}
impl From<CounterI64> for Option<i64> {
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> From<ValueCounter<T>> for Option<T> | from
    @sub `ValueCounter<T>` => `CounterI64`
    @sub `Option<T>` => `Option<i64>`
    @sub `ValueCounter::` => `CounterI64::`
    @*/
}
/// ValueCounter<u16>
pub enum CounterU16 { None, One(u16), Many }
impl CounterU16 {
    pub open spec fn covers(&self, v: u16) -> bool { match *self { CounterU16::None => false, CounterU16::One(x) => x == v, CounterU16::Many => true } }
    pub open spec fn grows(&self, to: CounterU16) -> bool { forall|v: u16| #[trigger] self.covers(v) ==> to.covers(v) }
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> ValueCounter<T> | process
    ensures final(self).covers(v), old(self).grows(*final(self)),
    @sub `/\bv: T\b/` => `v: u16`
    @*/
}
impl FromSpecImpl<CounterU16> for Option<u16> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CounterU16) -> Option<u16> { match v { CounterU16::One(x) => Some(x), _ => None } }
}
impl From<CounterU16> for Option<u16> {
    /*@fn src/creator/directory_pack/schema/property.rs | impl<T> From<ValueCounter<T>> for Option<T> | from
    @sub `ValueCounter<T>` => `CounterU16`
    @sub `Option<T>` => `Option<u16>`
    @sub `ValueCounter::` => `CounterU16::`
    @*/
}
/// a magnitude, with its sign bit
pub open spec fn signed_need(v: i64) -> int { if v < 0 { 2 * (-1 - v) } else { 2 * v } }
pub open spec fn fits_signed(v: i64, n: int) -> bool { -(p256(n) / 2) <= v < p256(n) / 2 }
/// two's complement on n bytes
pub open spec fn sle(v: i64, n: int) -> Seq<u8> { le(if v >= 0 { v as u64 } else { (p256(n) + v) as u64 }, n) }
impl Serializer {
    // proved elsewhere: Serializer::write_isized: kani contract of bases/write.rs
    #[verifier::external_body]
    pub fn write_isized(&mut self, value: i64, size: ByteSize) -> (r: IoResult<usize>)
        requires size.ok(), fits_signed(value, size.0 as int),
        ensures r matches Ok(n) ==> n == size.0 && final(self)@ == old(self)@ + sle(value, size.0 as int) && final(self)@.len() == old(self)@.len() + n && final(self)@.len() <= usize::MAX,
    { unimplemented!() }
}
/*@fn src/creator/directory_pack/schema/property.rs | | signed_width
ensures r == signed_need(v),
@start
    proof { assert(v < 0 ==> !v == -1 - v) by (bit_vector); let m: u64 = (if v < 0 { -1 - v } else { v as int }) as u64; assert(m < 0x8000_0000_0000_0000 ==> m << 1 == 2 * m) by (bit_vector); }
@*/

// ---- the values of an entry
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct PN(pub u64);
impl PN {
    #[verifier::external_body]
    pub fn as_str(&self) -> &'static str { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct PackId(pub u16);
impl PackId {
    // proved elsewhere: PackId is a newtype of u16: kani contracts of bases/types/specific_types.rs
    #[verifier::external_body]
    pub fn into_u16(self) -> (r: u16) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_u64(self) -> (r: u64) ensures r == self.0 { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct ContentAddress { pub pack_id: PackId, pub content_id: ContentIdx }
/// a value given as a function: what it gives
// assumed: a Word gives the same value each time it is read during finalisation (C15: positions are final by then)
pub struct WordU { pub v: Ghost<u64> }
impl WordU {
    #[verifier::external_body]
    pub fn get(&self) -> (r: u64) ensures r == self.v@ { unimplemented!() }
}
pub struct WordI { pub v: Ghost<i64> }
impl WordI {
    #[verifier::external_body]
    pub fn get(&self) -> (r: i64) ensures r == self.v@ { unimplemented!() }
}
/// the place of a value in its store, once the store is finalised
pub struct ValueHandle { pub store: Ghost<int>, pub id: Ghost<u64> }
pub uninterp spec fn key_width(store: int) -> ByteSize;
pub open spec fn held(store: StoreHandle, h: ValueHandle) -> bool { key_width(store.store@).ok() && h.id@ < p256(key_width(store.store@).0 as int) }
impl ValueHandle {
    #[verifier::external_body]
    pub fn get(&self) -> (r: ValueIdx) ensures r.0 == self.id@ { unimplemented!() }
}
pub struct StoreHandle { pub store: Ghost<int> }
impl StoreHandle {
    // proved elsewhere: key_size holds every id of the store (held): unit value_store, get
    #[verifier::external_body]
    pub fn key_size(&self) -> (r: ByteSize) ensures r == key_width(self.store@), r.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: StoreHandle) ensures r == *self { unimplemented!() }
}
/// Array and ArrayS<N>
pub struct Array { pub size: usize, pub data: Bytes, pub value_id: ValueHandle }
pub enum Value {
    Content(ContentAddress), Unsigned(u64), Signed(i64), UnsignedWord(WordU), SignedWord(WordI), IndirectArray(ValueHandle),
    Array0(Array), Array1(Array), Array2(Array), Array(Array),
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct VN(pub u64);
impl VN {
    #[verifier::external_body]
    pub fn as_str(&self) -> &'static str { unimplemented!() }
}
pub struct Entry { pub vals: Ghost<Map<PN, Value>>, pub variant: Ghost<Option<VN>> }
impl Entry {
    pub open spec fn val(&self, n: PN) -> Value { self.vals@[n] }
    // assumed: EntryTrait::value gives the same value of a property each time, variant_name the same variant
    #[verifier::external_body]
    pub fn value(&self, n: &PN) -> (r: &Value) ensures *r == self.val(*n) { unimplemented!() }
    #[verifier::external_body]
    pub fn variant_name(&self) -> (r: Option<VN>) ensures r == self.variant@ { unimplemented!() }
}
pub open spec fn val_u(v: Value) -> Option<u64> { match v { Value::Unsigned(x) => Some(x), Value::UnsignedWord(w) => Some(w.v@), _ => None } }
pub open spec fn val_s(v: Value) -> Option<i64> { match v { Value::Signed(x) => Some(x), Value::SignedWord(w) => Some(w.v@), _ => None } }
pub open spec fn val_c(v: Value) -> Option<ContentAddress> { match v { Value::Content(x) => Some(x), _ => None } }
pub open spec fn val_i(v: Value) -> Option<ValueHandle> { match v { Value::IndirectArray(x) => Some(x), _ => None } }
pub open spec fn val_a(v: Value) -> Option<Array> { match v { Value::Array0(a) => Some(a), Value::Array1(a) => Some(a), Value::Array2(a) => Some(a), Value::Array(a) => Some(a), _ => None } }

// ---- the layout
pub mod layout {
use super::*;
/*@const src/creator/directory_pack/layout/property.rs | MAX_FIXED_ARRAY_LEN @*/
#[allow(inconsistent_fields)] pub enum Property {
    VariantId(&'static str),
    Array { array_len_size: Option<ByteSize>, fixed_array_len: u8, deported_info: Option<(ByteSize, StoreHandle)>, name: PN },
    IndirectArray { value_id_size: ByteSize, store_handle: StoreHandle, name: PN },
    ContentAddress { content_id_size: ByteSize, pack_id_size: ByteSize, default: Option<u16>, name: PN },
    UnsignedInt { size: ByteSize, default: Option<u64>, name: PN },
    SignedInt { size: ByteSize, default: Option<i64>, name: PN },
    Padding(u8),
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
impl Property {
    pub open spec fn widths_ok(&self) -> bool {
        match *self {
            Property::Array { array_len_size, deported_info, .. } => (array_len_size matches Some(w) ==> w.ok()) && (deported_info matches Some(d) ==> d.0.ok()),
            Property::IndirectArray { value_id_size, .. } => value_id_size.ok(),
            Property::ContentAddress { content_id_size, pack_id_size, .. } => content_id_size.ok() && pack_id_size.ok(),
            Property::UnsignedInt { size, .. } => size.ok(),
            Property::SignedInt { size, .. } => size.ok(),
            _ => true,
        }
    }
    /// how many bytes of an entry it takes
    pub open spec fn spec_size(&self) -> int {
        match *self {
            Property::VariantId(_) => 1,
            Property::Array { array_len_size, fixed_array_len, deported_info, .. } =>
                (match array_len_size { None => 0int, Some(w) => w.0 as int }) + fixed_array_len + (match deported_info { None => 0int, Some(d) => d.0.0 as int }),
            Property::IndirectArray { value_id_size, .. } => value_id_size.0 as int,
            Property::ContentAddress { content_id_size, pack_id_size, default, .. } => (if default is Some { 0int } else { pack_id_size.0 as int }) + content_id_size.0,
            Property::UnsignedInt { size, default, .. } => if default is Some { 0 } else { size.0 as int },
            Property::SignedInt { size, default, .. } => if default is Some { 0 } else { size.0 as int },
            Property::Padding(n) => n as int,
        }
    }
    /// the value of this property can be written
    pub open spec fn fits(&self, e: Entry) -> bool { self.fits_def(e) }
    pub open spec fn fits_def(&self, e: Entry) -> bool {
        &&& self.widths_ok()
        &&& match *self {
            Property::Array { array_len_size, fixed_array_len, deported_info, name } => val_a(e.val(name)) matches Some(a) && {
                &&& (array_len_size matches Some(w) ==> a.size < p256(w.0 as int))
                &&& a.data@.len() <= fixed_array_len
                &&& (deported_info matches Some(d) ==> a.value_id.id@ < p256(d.0.0 as int))
            },
            Property::IndirectArray { value_id_size, name, .. } => val_i(e.val(name)) matches Some(h) ==> h.id@ < p256(value_id_size.0 as int),
            Property::ContentAddress { content_id_size, pack_id_size, default, name } => val_c(e.val(name)) matches Some(c) && {
                &&& c.content_id.0 < p256(content_id_size.0 as int)
                &&& (default matches Some(d) ==> d == c.pack_id.0)
                &&& (default is None ==> c.pack_id.0 < p256(pack_id_size.0 as int))
            },
            Property::UnsignedInt { size, default, name } => val_u(e.val(name)) matches Some(v) && (default matches Some(d) ==> d == v) && (default is None ==> v < p256(size.0 as int)),
            Property::SignedInt { size, default, name } => val_s(e.val(name)) matches Some(v) && (default matches Some(d) ==> d == v) && (default is None ==> fits_signed(v, size.0 as int)),
            _ => true,
        }
    }
    /// the bytes of this property in an entry
    pub open spec fn enc(&self, variant: Option<VariantIdx>, e: Entry) -> Seq<u8> { self.enc_def(variant, e) }
    pub open spec fn enc_def(&self, variant: Option<VariantIdx>, e: Entry) -> Seq<u8> {
        match *self {
            Property::VariantId(_) => seq![(variant->0).0],
            Property::Array { array_len_size, fixed_array_len, deported_info, name } => {
                let a = val_a(e.val(name))->0;
                (match array_len_size { None => Seq::empty(), Some(w) => le(a.size as u64, w.0 as int) }) + (a.data@ + zeros(fixed_array_len - a.data@.len()))
                    + (match deported_info { None => Seq::empty(), Some(d) => le(a.value_id.id@, d.0.0 as int) })
            },
            Property::IndirectArray { value_id_size, name, .. } => le(val_i(e.val(name))->0.id@, value_id_size.0 as int),
            Property::ContentAddress { content_id_size, pack_id_size, default, name } => {
                let c = val_c(e.val(name))->0;
                (if default is Some { Seq::empty() } else { le(c.pack_id.0 as u64, pack_id_size.0 as int) }) + le(c.content_id.0 as u64, content_id_size.0 as int)
            },
            Property::UnsignedInt { size, default, name } => if default is Some { Seq::empty() } else { le(val_u(e.val(name))->0, size.0 as int) },
            Property::SignedInt { size, default, name } => if default is Some { Seq::empty() } else { sle(val_s(e.val(name))->0, size.0 as int) },
            Property::Padding(n) => zeros(n as int),
        }
    }
    /// and the values they are of the right kind for
    pub open spec fn typed(&self, e: Entry) -> bool { *self matches Property::IndirectArray { name, .. } ==> val_i(e.val(name)) is Some }
    /*@fn src/creator/directory_pack/layout/property.rs | impl<PN: PropertyName> Property<PN> | size
    requires self.widths_ok(),
    ensures r == self.spec_size(),
    @sub `/\*(\w+) as usize as u16/` => `\1.0 as u16`
    @sub `/\*(\w+_size) as u16/` => `\1.0 as u16`
    @sub `/else \{\s*\*size as u16\s*\}/` => `else { size.0 as u16 }`
    @*/
    pub proof fn defs(&self, variant: Option<VariantIdx>, e: Entry)
        ensures self.fits(e) == self.fits_def(e), self.enc(variant, e) == self.enc_def(variant, e),
    {}
    pub proof fn enc_len(&self, variant: Option<VariantIdx>, e: Entry)
        requires self.fits(e), self.typed(e), *self is VariantId ==> variant is Some,
        ensures self.enc(variant, e).len() == self.spec_size(),
    {
        broadcast use bytes_lemmas::lemma_le;
        if let Property::SignedInt { size, default, name } = *self {
            if default is None {
                let v = val_s(e.val(name))->0;
                let u = if v >= 0 { v as u64 } else { (p256(size.0 as int) + v) as u64 };
                assert(u < p256(size.0 as int));
            }
        }
    }
}
#[verifier::external_body]
pub fn wrong_type() -> IoError { unimplemented!() }
impl VariantIdx {
    // proved elsewhere: an index of u8 is written on one byte: kani contracts of bases/types
    #[verifier::external_body]
    pub fn serialize(self, ser: &mut Serializer) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == 1 && final(ser)@ == old(ser)@ + seq![self.0] && final(ser)@.len() == old(ser)@.len() + 1 && final(ser)@.len() <= usize::MAX
    { unimplemented!() }
}
pub open spec fn encs(keys: Seq<&Property>, variant: Option<VariantIdx>, e: Entry, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { encs(keys, variant, e, n - 1) + keys[n - 1].enc(variant, e) } }
pub proof fn add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
/// `vec![0; n]`
pub fn zero_bytes(n: usize) -> (r: Vec<u8>)
    ensures r@ == zeros(n as int), r@.len() == n,
{ let r = vec![0u8; n]; assert(r@ =~= zeros(n as int)); r }
pub proof fn encs_step(keys: Seq<&Property>, variant: Option<VariantIdx>, e: Entry, n: int)
    ensures n <= 0 ==> encs(keys, variant, e, n) == Seq::<u8>::empty(), n > 0 ==> encs(keys, variant, e, n) == encs(keys, variant, e, n - 1) + keys[n - 1].enc(variant, e),
{}
pub open spec fn sizes(keys: Seq<Property>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sizes(keys, n - 1) + keys[n - 1].spec_size() } }
pub struct Properties(pub Vec<Property>);
impl Properties {
    pub open spec fn spec_size(&self) -> int { sizes(self.0@, self.0@.len() as int) }
    pub open spec fn fits(&self, e: Entry) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).fits(e) }

    /*@fn src/creator/directory_pack/layout/properties.rs | impl<PN: PropertyName + 'static> Properties<PN> | serialize_entry
    requires
        keys@.len() <= 0xFFFF,
        forall|i: int| 0 <= i < keys@.len() ==> (#[trigger] keys@[i]).fits(*entry) && (*keys@[i] is VariantId ==> variant_id is Some),
    ensures
        r matches Ok(n) ==> {
            &&& final(ser)@ == old(ser)@ + encs(keys@, variant_id, *entry, keys@.len() as int)
            &&& n == encs(keys@, variant_id, *entry, keys@.len() as int).len()
            &&& forall|i: int| 0 <= i < keys@.len() ==> (#[trigger] keys@[i]).typed(*entry)
        },
    @loop 1 it
        invariant
            keys@.len() <= 0xFFFF, it.seq().len() == keys0.len(), keys0 == keys@,
            forall|i: int| 0 <= i < keys0.len() ==> *(#[trigger] it.seq()[i]) == keys0[i],
            forall|i: int| 0 <= i < keys0.len() ==> (#[trigger] keys0[i]).fits(*entry) && (*keys0[i] is VariantId ==> variant_id is Some),
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] keys0[i]).typed(*entry),
            written + old(ser)@.len() == ser@.len(),
            ser@ == old(ser)@ + encs(keys0, variant_id, *entry, it.index@),
    @start
        hide(le); hide(p256); hide(fits_signed); hide(sle); hide(encs); hide(zeros); hide(Property::fits); hide(Property::enc);
        proof { encs_step(keys@, variant_id, *entry, 0); }
        let ghost keys0 = keys@;
    @attr #[verifier::rlimit(200)]
    @attr #[verifier::spinoff_prover]
    @sub `/<'a, VN: VariantName>/` => ``
    @sub `keys: impl Iterator<Item = &'a Property<PN>>` => `keys: &Vec<&Property>`
    @sub `&dyn EntryTrait<PN, VN>` => `&Entry`
    @sub `Result<usize>` => `IoResult<usize>`
    @sub `/(written \+=\s*ser\.write_usized\(a\.value_id\.get\(\)\.into_u64\(\), \*key_size\)\?;\s*\})/` => `\1 proof { assert(ser@ =~= sb + key.enc(variant_id, *entry)); }`
    @sub `/\}\s*\}\s*Ok\(written\)/` => `} proof { assert(ser@ =~= sb + key.enc(variant_id, *entry)); } } Ok(written)`
    @sub `/vec!\[(0|0x00); ((?:[^\[\]])*)\]/` => `zero_bytes(\2)`
    @sub `for key in keys {` => `for key in keys { let key: &Property = *key; let ghost sb = ser@; proof { encs_step(keys0, variant_id, *entry, it.index@ + 1); assert(key.fits(*entry)); key.defs(variant_id, *entry); }`
    @sub `/entry\.value\(name\)\.as_ref\(\)/` => `entry.value(name)`
    @sub `/Error::wrong_type\(format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\)/` => `wrong_type()`
    @sub `/assert_eq!\(\*array_len_size, None\);/` => `runtime_assert(array_len_size.is_none());`
    @sub `/assert_eq!\(\*(\w+), ([^;]*)\);/` => `runtime_assert(*\1 == \2);`
    @sub `/assert_eq!\((\w+), (\w+)\);/` => `runtime_assert(*\1 == *\2);`
    @sub `assert!(` => `runtime_assert(`
    @*/

    pub open spec fn len_ok(&self) -> bool { self.0@.len() <= 0x8000 && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).widths_ok() }
    /*@fn src/creator/directory_pack/layout/properties.rs | impl<PN: PropertyName> Properties<PN> | entry_size
    requires self.len_ok(), self.spec_size() <= 0xFFFF,
    ensures r == self.spec_size(),
    @sub `/self\.iter\(\)\.map\(\|(\w+)\| \1\.size\(\)\)\.sum::<u16>\(\)/` => `sum_of_sizes(&self.0)`
    @*/
    /*@fn src/creator/directory_pack/layout/properties.rs | impl<PN: PropertyName> Properties<PN> | fill_to_size
    requires old(self).len_ok(), old(self).spec_size() <= size, old(self).0@.len() <= 0x4000,
    ensures
        final(self).len_ok(), final(self).spec_size() == size, final(self).0@.len() >= old(self).0@.len(),
        final(self).0@.take(old(self).0@.len() as int) == old(self).0@,
        forall|i: int| old(self).0@.len() <= i < final(self).0@.len() ==> (#[trigger] final(self).0@[i]) is Padding,
    @loop 1
        invariant
            self.len_ok(), self.spec_size() + padding_size == size, self.0@.len() >= old(self).0@.len(),
            16 * (self.0@.len() - old(self).0@.len()) + padding_size <= size, old(self).0@.len() <= 0x4000,
            self.0@.take(old(self).0@.len() as int) == old(self).0@,
            forall|i: int| old(self).0@.len() <= i < self.0@.len() ==> (#[trigger] self.0@[i]) is Padding,
        decreases padding_size,
    @before `let mut padding_size = size - current_size;`
        proof { sizes_nonneg(self.0@, self.0@.len() as int); assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
    @before `padding_size -= 16;`
            proof { sizes_push(self.0@.drop_last(), self.0@.last()); assert(self.0@.drop_last().push(self.0@.last()) =~= self.0@); assert(self.0@.take(old(self).0@.len() as int) =~= old(self).0@); }
    @sub `self.0.push(Property::Padding(padding_size as u8))` => `let ghost pb = self.0@; self.0.push(Property::Padding(padding_size as u8)); proof { sizes_push(pb, self.0@.last()); assert(self.0@.take(old(self).0@.len() as int) =~= old(self).0@); }`
    @sub `self.0.push(Property::Padding(16));` => `let ghost pb = self.0@; self.0.push(Property::Padding(16)); proof { sizes_push(pb, self.0@.last()); assert(self.0@.take(old(self).0@.len() as int) =~= pb.take(old(self).0@.len() as int)); }`
    @*/
}
pub proof fn sizes_push(a: Seq<Property>, p: Property)
    ensures sizes(a.push(p), a.len() as int + 1) == sizes(a, a.len() as int) + p.spec_size()
{ sizes_prefix(a, a.push(p), a.len() as int); }
pub proof fn sizes_prefix(a: Seq<Property>, b: Seq<Property>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures sizes(a, n) == sizes(b, n),
    decreases n,
{ if n > 0 { sizes_prefix(a, b, n - 1); } }
pub proof fn sizes_nonneg(a: Seq<Property>, n: int)
    requires 0 <= n <= a.len(),
    ensures sizes(a, n) >= 0,
    decreases n,
{ if n > 0 { sizes_nonneg(a, n - 1); } }
pub proof fn sizes_mono(a: Seq<Property>, k: int, n: int)
    requires 0 <= k <= n <= a.len(),
    ensures sizes(a, k) <= sizes(a, n),
    decreases n - k,
{ if k < n { sizes_mono(a, k, n - 1); } }
pub proof fn sizes_bound(a: Seq<Property>, n: int, m: int)
    requires 0 <= n <= a.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).spec_size() <= m,
    ensures sizes(a, n) <= n * m,
    decreases n,
{ if n > 0 { sizes_bound(a, n - 1, m); assert((n - 1) * m + m == n * m) by (nonlinear_arith); } else { assert(0 * m == 0); } }
/// `iter().map(|k| k.size()).sum()`
pub fn sum_of_sizes(v: &Vec<Property>) -> (r: u16)
    requires sizes(v@, v@.len() as int) <= 0xFFFF, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).widths_ok(),
    ensures r == sizes(v@, v@.len() as int),
{
    let mut s: u16 = 0;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), s == sizes(v@, i as int), sizes(v@, v@.len() as int) <= 0xFFFF, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).widths_ok(),
        decreases v@.len() - i,
    {
        proof { sizes_mono(v@, i as int + 1, v@.len() as int); }
        s = s + v[i].size();
        i = i + 1;
    }
    s
}
/// `iter().chain(..)`: the properties, in order
pub fn refs<'a>(a: &'a Vec<Property>) -> (r: Vec<&'a Property>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] r@[i]) == a@[i],
{
    let mut r: Vec<&'a Property> = Vec::new();
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == a@[j],
        decreases a@.len() - i,
    { r.push(&a[i]); i = i + 1; }
    r
}
pub fn refs_chain<'a>(a: &'a Vec<Property>, b: &'a Vec<Property>) -> (r: Vec<&'a Property>)
    ensures r@.len() == a@.len() + b@.len(), forall|i: int| 0 <= i < a@.len() + b@.len() ==> *(#[trigger] r@[i]) == (a@ + b@)[i],
{
    let mut r = refs(a);
    let mut i: usize = 0;
    while i < b.len()
        invariant i <= b@.len(), r@.len() == a@.len() + i, forall|j: int| 0 <= j < a@.len() + i ==> *(#[trigger] r@[j]) == (a@ + b@)[j],
        decreases b@.len() - i,
    { r.push(&b[i]); i = i + 1; }
    r
}
pub proof fn encs_len(keys: Seq<&Property>, variant: Option<VariantIdx>, e: Entry, ps: Seq<Property>, n: int)
    requires
        0 <= n <= keys.len(), ps.len() == keys.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] keys[i]).fits(e) && keys[i].typed(e) && (*keys[i] is VariantId ==> variant is Some) && *keys[i] == ps[i],
    ensures encs(keys, variant, e, n).len() == sizes(ps, n),
    decreases n,
{ if n > 0 { encs_len(keys, variant, e, ps, n - 1); keys[n - 1].enc_len(variant, e); } }

/// `HashMap<VN, VariantIdx>`
// trusted: HashMap::insert, index (std): indexing by an absent key panics
pub struct VariantMap { pub m: Ghost<Map<VN, VariantIdx>> }
impl VariantMap {
    #[verifier::external_body]
    pub fn new() -> (r: VariantMap) ensures r.m@ == Map::<VN, VariantIdx>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: VN, v: VariantIdx) ensures final(self).m@ == old(self).m@.insert(n, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, n: &VN) -> (r: VariantIdx) ensures self.m@.contains_key(*n), r == self.m@[*n] { unimplemented!() }
}
pub struct EntryLayout { pub common: Properties, pub variants: Vec<Properties>, pub variants_map: VariantMap, pub entry_size: u16 }
impl EntryLayout {
    pub open spec fn ok(&self) -> bool {
        &&& self.common.0@.len() <= 0x4000 && forall|i: int| 0 <= i < self.common.0@.len() ==> !((#[trigger] self.common.0@[i]) is VariantId)
        &&& self.variants@.len() == 0 ==> self.common.spec_size() == self.entry_size
        // entries of all variants have the same size
        &&& forall|i: int| 0 <= i < self.variants@.len() ==> (#[trigger] self.variants@[i]).0@.len() <= 0x8000 && self.common.spec_size() + self.variants@[i].spec_size() == self.entry_size
        &&& forall|n: VN| #[trigger] self.variants_map.m@.contains_key(n) ==> self.variants_map.m@[n].0 < self.variants@.len()
    }
    pub open spec fn fits(&self, e: Entry) -> bool {
        &&& self.common.fits(e)
        &&& e.variant@ matches Some(v) ==> (self.variants_map.m@.contains_key(v) ==> self.variants@[self.variants_map.m@[v].0 as int].fits(e))
    }
    /// the properties an entry is made of
    pub open spec fn keys(&self, e: Entry) -> Seq<Property> {
        if self.variants@.len() == 0 { self.common.0@ } else { self.common.0@ + self.variants@[self.variants_map.m@[e.variant@->0].0 as int].0@ }
    }
    pub open spec fn variant(&self, e: Entry) -> Option<VariantIdx> { if self.variants@.len() == 0 { None } else { Some(self.variants_map.m@[e.variant@->0]) } }
    /// the bytes of an entry
    pub open spec fn enc(&self, e: Entry) -> Seq<u8> { enc_all(self.keys(e), self.variant(e), e, self.keys(e).len() as int) }

    /*@fn src/creator/directory_pack/layout/entry.rs | impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> | serialize_entry
    requires self.ok(), self.fits(*entry),
    ensures
        r matches Ok(n) ==> n == self.entry_size && final(ser)@ == old(ser)@ + self.enc(*entry) && final(ser)@.len() == old(ser)@.len() + n,
    @sub `&dyn EntryTrait<PN, VN>` => `&Entry`
    @sub `Result<usize>` => `IoResult<usize>`
    @sub `/\bassert!\(/` => `refuse_unless(`
    @sub `/assert_eq!\(([^,]*), ([^;]*)\);/` => `runtime_assert(\1 == \2);`
    @sub `/self\.variants_map\[((?:[^\[\]]|\[[^\[\]]*\])*)\]/` => `self.variants_map.at(\1)`
    @sub `Properties::serialize_entry(self.common.iter(), None, entry, ser)?` => `{ let keys = refs(&self.common.0); let ghost ser0 = ser@; let w = Properties::serialize_entry(&keys, None, entry, ser)?; proof { self.written(keys@, *entry, ser0, ser@, w as int); } w }`
    @sub `/self\s*\.common\s*\.iter\(\)\s*\.chain\(((?:[^()]|\([^()]*\))*)\.iter\(\)\)/` => `refs_chain(&self.common.0, &\1.0)`
    @sub `Properties::serialize_entry(&mut keys, Some(variant_id), entry, ser)?` => `{ let ghost ser0 = ser@; let w = Properties::serialize_entry(&keys, Some(variant_id), entry, ser)?; proof { self.written(keys@, *entry, ser0, ser@, w as int); } w }`
    @before `let mut keys`
            proof { let ps = self.common.0@ + self.variants@[variant_id.0 as int].0@; assert(forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).fits(*entry)); }
    @*/
    pub proof fn written(&self, keys: Seq<&Property>, e: Entry, before: Seq<u8>, after: Seq<u8>, n: int)
        requires
            self.ok(), keys.len() == self.keys(e).len(), forall|i: int| 0 <= i < keys.len() ==> *(#[trigger] keys[i]) == self.keys(e)[i],
            forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i]).fits(e) && keys[i].typed(e),
            self.variants@.len() > 0 ==> e.variant@ is Some && self.variants_map.m@.contains_key(e.variant@->0),
            after == before + encs(keys, self.variant(e), e, keys.len() as int), n == encs(keys, self.variant(e), e, keys.len() as int).len(),
        ensures n == self.entry_size, after == before + self.enc(e),
    {
        let ps = self.keys(e);
        encs_len(keys, self.variant(e), e, ps, keys.len() as int);
        encs_same(keys, ps, self.variant(e), e, keys.len() as int);
        if self.variants@.len() > 0 {
            let v = self.variants_map.m@[e.variant@->0].0 as int;
            sizes_concat(self.common.0@, self.variants@[v].0@, self.variants@[v].0@.len() as int);
        }
    }
}
pub open spec fn enc_all(keys: Seq<Property>, variant: Option<VariantIdx>, e: Entry, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { enc_all(keys, variant, e, n - 1) + keys[n - 1].enc(variant, e) } }
pub proof fn encs_same(keys: Seq<&Property>, ps: Seq<Property>, variant: Option<VariantIdx>, e: Entry, n: int)
    requires 0 <= n <= keys.len(), keys.len() == ps.len(), forall|i: int| 0 <= i < keys.len() ==> *(#[trigger] keys[i]) == ps[i],
    ensures encs(keys, variant, e, n) == enc_all(ps, variant, e, n),
    decreases n,
{ if n > 0 { encs_same(keys, ps, variant, e, n - 1); } }
pub proof fn sizes_concat(a: Seq<Property>, b: Seq<Property>, n: int)
    requires 0 <= n <= b.len(),
    ensures sizes(a + b, a.len() + n) == sizes(a, a.len() as int) + sizes(b, n),
    decreases n,
{ if n > 0 { sizes_concat(a, b, n - 1); } else { sizes_prefix(a + b, a, a.len() as int); } }
} // mod layout

// ---- the schema
pub mod schema {
use super::*;
#[allow(inconsistent_fields)] pub enum Property {
    UnsignedInt { counter: CounterU64, size: PropertySize, name: PN },
    SignedInt { counter: CounterI64, size: PropertySize, name: PN },
    Array { max_array_size: PropertySize, fixed_array_len: usize, store_handle: StoreHandle, name: PN },
    IndirectArray { store_handle: StoreHandle, name: PN },
    ContentAddress { pack_id_counter: CounterU16, pack_id_size: PropertySize, content_id_size: PropertySize, name: PN },
    Padding(u8),
}
impl Property {
    pub open spec fn ok(&self) -> bool {
        match *self {
            Property::UnsignedInt { size, .. } => size.ok(),
            Property::SignedInt { size, .. } => size.ok(),
            Property::Array { max_array_size, .. } => max_array_size.ok(),
            Property::ContentAddress { pack_id_size, content_id_size, .. } => pack_id_size.ok() && content_id_size.ok(),
            _ => true,
        }
    }
    /// the arrays of the entry were made for this property: ids of its store, inline parts no longer than its own
    pub open spec fn wf(&self, e: Entry) -> bool {
        match *self {
            Property::Array { fixed_array_len, store_handle, name, .. } => val_a(e.val(name)) matches Some(a) ==> held(store_handle, a.value_id) && a.data@.len() <= fixed_array_len,
            Property::IndirectArray { store_handle, name } => val_i(e.val(name)) matches Some(h) ==> held(store_handle, h),
            _ => true,
        }
    }
    /// the value of the entry was taken into account
    pub open spec fn covers(&self, e: Entry) -> bool {
        &&& self.wf(e)
        &&& match *self {
            Property::UnsignedInt { counter, size, name } => val_u(e.val(name)) matches Some(v) && counter.covers(v) && size.covers(v as int),
            Property::SignedInt { counter, size, name } => val_s(e.val(name)) matches Some(v) && counter.covers(v) && size.covers(signed_need(v)),
            Property::Array { max_array_size, name, .. } => val_a(e.val(name)) matches Some(a) && max_array_size.covers(a.size as int),
            Property::ContentAddress { pack_id_counter, pack_id_size, content_id_size, name } =>
                val_c(e.val(name)) matches Some(c) && pack_id_counter.covers(c.pack_id.0) && pack_id_size.covers(c.pack_id.0 as int) && content_id_size.covers(c.content_id.0 as int),
            _ => true,
        }
    }
    pub open spec fn grows(&self, to: Property) -> bool { (self.ok() ==> to.ok()) && forall|e: Entry| (#[trigger] self.wf(e) == to.wf(e)) && (self.covers(e) ==> to.covers(e)) }
    /*@fn src/creator/directory_pack/schema/property.rs | impl<PN: PropertyName> Property<PN> | process
    requires old(self).ok(), old(self).wf(*entry),
    ensures final(self).covers(*entry), old(self).grows(*final(self)),
    @sub `<VN: VariantName>` => ``
    @sub `&dyn EntryTrait<PN, VN>` => `&Entry`
    @sub `/entry\.value\(name\)\.as_ref\(\)/` => `entry.value(name)`
    @sub `/panic!\("[^"]*"\)/` => `refuse()`
    @sub `/(pack_id_size|content_id_size|max_array_size)\.process\(([^;]*)\);/` => `\1.process(\2 as u64);`
    @sub `assert!(` => `refuse_unless(`
    @*/
    /*@fn src/creator/directory_pack/schema/property.rs | impl<PN: PropertyName> Property<PN> | finalize
    requires self.ok(),
    ensures
        !(r is VariantId), r.spec_size() <= 0xFF, r.widths_ok(),
        forall|e: Entry| #[trigger] self.covers(e) ==> r.fits(e),
    @sub `layout::Property<PN>` => `layout::Property`
    @sub `/assert!\(\s*([^,()]*),(?:[^()]|\([^()]*\))*\);/` => `refuse_unless(\1);`
    @*/
}
pub struct Properties(pub Vec<Property>);
impl Properties {
    pub open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).ok() }
    pub open spec fn wf(&self, e: Entry) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf(e) }
    pub open spec fn covers(&self, e: Entry) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).covers(e) }
    pub open spec fn grows(&self, to: Properties) -> bool {
        self.0@.len() == to.0@.len() && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).grows(to.0@[i])
    }
    pub proof fn grows_covers(&self, to: Properties, e: Entry)
        requires self.grows(to),
        ensures self.covers(e) ==> to.covers(e), self.wf(e) == to.wf(e),
    {
        assert forall|i: int| 0 <= i < self.0@.len() implies (self.0@[i].covers(e) ==> (#[trigger] to.0@[i]).covers(e)) && self.0@[i].wf(e) == to.0@[i].wf(e) by { assert(self.0@[i].grows(to.0@[i])); }
        if self.covers(e) { assert forall|i: int| 0 <= i < to.0@.len() implies (#[trigger] to.0@[i]).covers(e) by { assert(self.0@[i].covers(e)); } }
        if self.wf(e) { assert forall|i: int| 0 <= i < to.0@.len() implies (#[trigger] to.0@[i]).wf(e) by { assert(self.0@[i].wf(e)); } }
        if to.wf(e) { assert forall|i: int| 0 <= i < self.0@.len() implies (#[trigger] self.0@[i]).wf(e) by { assert(to.0@[i].wf(e)); } }
    }
    /*@fn src/creator/directory_pack/schema/properties.rs | impl<PN: PropertyName> Properties<PN> | process
    requires old(self).ok(), old(self).wf(*entry),
    ensures final(self).ok(), final(self).covers(*entry), old(self).grows(*final(self)),
    @sub `<VN: VariantName>` => ``
    @sub `&dyn EntryTrait<PN, VN>` => `&Entry`
    @sub `/self\.0\.iter_mut\(\)\.for_each\(\|(\w+)\| ((?:[^()]|\([^()]*\))*)\)/` => `let mut i: usize = 0; while i < self.0.len() { let \1 = &mut self.0[i]; i += 1; \2; }`
    @loop 1
        invariant
            i <= self.0@.len(), self.0@.len() == old(self).0@.len(),
            old(self).ok(), old(self).wf(*entry),
            forall|j: int| #![trigger old(self).0@[j]] #![trigger self.0@[j]] 0 <= j < i ==> old(self).0@[j].grows(self.0@[j]) && self.0@[j].covers(*entry) && self.0@[j].ok(),
            forall|j: int| #![trigger old(self).0@[j]] #![trigger self.0@[j]] i <= j < self.0@.len() ==> self.0@[j] == old(self).0@[j],
        decreases self.0@.len() - i,
    @*/
    /*@fn src/creator/directory_pack/schema/properties.rs | impl<PN: PropertyName> Properties<PN> | finalize
    requires self.ok(), self.0@.len() <= 0x100,
    ensures
        r.len_ok(), r.spec_size() <= 0xFF * r.0@.len(), r.0@.len() == self.0@.len() + (if variant_name is Some { 1int } else { 0 }),
        forall|i: int| 0 <= i < r.0@.len() ==> ((#[trigger] r.0@[i]) is VariantId ==> variant_name is Some),
        forall|e: Entry| #[trigger] self.covers(e) ==> r.fits(e),
    @sub `layout::Properties<PN>` => `layout::Properties`
    @sub `variant_name.map(layout::Property::VariantId)` => `variant_property(variant_name)`
    @sub `/variant\s*\.into_iter\(\)\s*\.chain\(self\.0\.into_iter\(\)\.map\(\|(\w+)\| \1\.finalize\(\)\)\)\s*\.collect\(\)/` => `collect_finalized(variant, self.0)`
    @*/
}
pub fn variant_property(name: Option<&'static str>) -> (r: Option<layout::Property>)
    ensures r is Some == name is Some, r matches Some(p) ==> p is VariantId,
{ match name { None => None, Some(n) => Some(layout::Property::VariantId(n)) } }
/// `variant.into_iter().chain(v.into_iter().map(|p| p.finalize())).collect()`
pub fn collect_finalized(variant: Option<layout::Property>, v: Vec<Property>) -> (r: layout::Properties)
    requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).ok(), v@.len() <= 0x100, variant matches Some(p) ==> p is VariantId,
    ensures
        r.len_ok(), r.spec_size() <= 0xFF * r.0@.len(), r.0@.len() == v@.len() + (if variant is Some { 1int } else { 0 }),
        forall|i: int| 0 <= i < r.0@.len() ==> ((#[trigger] r.0@[i]) is VariantId ==> variant is Some),
        forall|e: Entry| (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).covers(e)) ==> r.fits(e),
{
    let mut r: Vec<layout::Property> = Vec::new();
    let ghost off = if variant is Some { 1int } else { 0int };
    match variant { Some(p) => r.push(p), None => {} }
    for p in it: v
        invariant
            it.seq() == v@, v@.len() <= 0x100,
            forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).ok(),
            off == (if variant is Some { 1int } else { 0int }),
            r@.len() == it.index@ + off,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).spec_size() <= 0xFF && r@[i].widths_ok(),
            off == 1 ==> r@[0] is VariantId,
            forall|i: int| off <= i < r@.len() ==> !((#[trigger] r@[i]) is VariantId),
            forall|e: Entry, i: int| 0 <= i < it.index@ && (#[trigger] v@[i].covers(e)) ==> r@[i + off].fits(e),
    { r.push(p.finalize()); }
    proof { layout::sizes_bound(r@, r@.len() as int, 0xFF); assert(forall|e: Entry, i: int| off <= i < r@.len() && v@[i - off].covers(e) ==> (#[trigger] r@[i].fits(e))); }
    layout::Properties(r)
}
/// `iter().map(|v| v.entry_size()).max().unwrap()`
pub fn max_entry_size(v: &Vec<layout::Properties>) -> (r: u16)
    requires v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).len_ok() && v@[i].spec_size() <= 0xFFFF,
    ensures forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).spec_size() <= r, exists|i: int| 0 <= i < v@.len() && r == (#[trigger] v@[i]).spec_size(),
{
    let mut m = v[0].entry_size();
    let mut i: usize = 1;
    while i < v.len()
        invariant
            1 <= i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).len_ok() && v@[i].spec_size() <= 0xFFFF,
            forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).spec_size() <= m, exists|j: int| 0 <= j < i && m == (#[trigger] v@[j]).spec_size(),
        decreases v@.len() - i,
    {
        let s = v[i].entry_size();
        if s > m { m = s; }
        i = i + 1;
    }
    m
}
/// Fill the properties of a variant: what fits before fits after
pub proof fn filled(a: layout::Properties, b: layout::Properties, e: Entry)
    requires
        a.fits(e), b.0@.len() >= a.0@.len(), b.0@.take(a.0@.len() as int) == a.0@, b.len_ok(),
        forall|i: int| a.0@.len() <= i < b.0@.len() ==> (#[trigger] b.0@[i]) is Padding,
    ensures b.fits(e),
{
    assert forall|i: int| 0 <= i < b.0@.len() implies (#[trigger] b.0@[i]).fits(e) by {
        if i < a.0@.len() { assert(b.0@.take(a.0@.len() as int)[i] == a.0@[i]); assert(a.0@[i].fits(e)); } else { assert(b.0@[i] is Padding); }
    }
}
pub struct Schema { pub common: Properties, pub variants: Vec<(VN, Properties)>, pub sort_keys: Option<Vec<PN>> }
impl Schema {
    /// what the user gave: distinct variants, and no more properties for an entry than a layout counts
    // assumed: the names of the variants differ and an entry has at most 256 properties (more are refused when the layout is written)
    pub open spec fn ok(&self) -> bool {
        &&& self.common.ok() && self.common.0@.len() <= 0x100
        &&& forall|i: int| 0 <= i < self.variants@.len() ==> (#[trigger] self.variants@[i]).1.ok() && self.common.0@.len() + self.variants@[i].1.0@.len() <= 0xFF
        &&& forall|i: int, j: int| 0 <= i < j < self.variants@.len() ==> (#[trigger] self.variants@[i]).0 != (#[trigger] self.variants@[j]).0
    }
    pub open spec fn wf(&self, e: Entry) -> bool {
        &&& self.common.wf(e)
        &&& e.variant@ matches Some(v) ==> forall|i: int| 0 <= i < self.variants@.len() && (#[trigger] self.variants@[i]).0 == v ==> self.variants@[i].1.wf(e)
    }
    pub open spec fn covers(&self, e: Entry) -> bool {
        &&& self.common.covers(e)
        &&& e.variant@ matches Some(v) ==> forall|i: int| 0 <= i < self.variants@.len() && (#[trigger] self.variants@[i]).0 == v ==> self.variants@[i].1.covers(e)
    }
    pub open spec fn grows(&self, to: Schema) -> bool {
        &&& self.common.grows(to.common) && self.variants@.len() == to.variants@.len()
        &&& forall|i: int| 0 <= i < self.variants@.len() ==> (#[trigger] self.variants@[i]).0 == to.variants@[i].0 && self.variants@[i].1.grows(to.variants@[i].1)
    }
    pub proof fn grows_covers(&self, to: Schema, e: Entry)
        requires self.grows(to),
        ensures self.covers(e) ==> to.covers(e), self.wf(e) == to.wf(e),
    {
        self.common.grows_covers(to.common, e);
        assert forall|i: int| 0 <= i < self.variants@.len() implies (self.variants@[i].1.covers(e) ==> (#[trigger] to.variants@[i]).1.covers(e)) && self.variants@[i].1.wf(e) == to.variants@[i].1.wf(e) && self.variants@[i].0 == to.variants@[i].0 by {
            self.variants@[i].1.grows_covers(to.variants@[i].1, e);
        }
        if e.variant@ is Some {
            let v = e.variant@->0;
            if self.covers(e) {
                assert forall|i: int| 0 <= i < to.variants@.len() && (#[trigger] to.variants@[i]).0 == v implies to.variants@[i].1.covers(e) by { assert(self.variants@[i].0 == v); }
            }
            if self.wf(e) {
                assert forall|i: int| 0 <= i < to.variants@.len() && (#[trigger] to.variants@[i]).0 == v implies to.variants@[i].1.wf(e) by { assert(self.variants@[i].0 == v); }
            }
            if to.wf(e) {
                assert forall|i: int| 0 <= i < self.variants@.len() && (#[trigger] self.variants@[i]).0 == v implies self.variants@[i].1.wf(e) by { assert(to.variants@[i].0 == v); }
            }
        }
    }
    /*@fn src/creator/directory_pack/schema/mod.rs | impl<PN: PropertyName, VN: VariantName> Schema<PN, VN> | process
    requires old(self).ok(), old(self).wf(*entry),
    ensures final(self).ok(), final(self).covers(*entry), old(self).grows(*final(self)),
    @sub `&dyn EntryTrait<PN, VN>` => `&Entry`
    @sub `/for \((\w+), (\w+)\) in &mut self\.variants \{/` => `let mut i: usize = 0; while i < self.variants.len() { let \1 = self.variants[i].0; let \2 = &mut self.variants[i].1; i += 1;`
    @sub `/\bvariant_name\.as_ref\(\)/` => `variant_name`
    @loop 1
        invariant_except_break
            forall|j: int| #![trigger old(self).variants@[j]] #![trigger self.variants@[j]] 0 <= j < self.variants@.len() ==> self.variants@[j] == old(self).variants@[j],
            forall|j: int| 0 <= j < i ==> (#[trigger] self.variants@[j]).0 != variant_name,
        invariant
            i <= self.variants@.len(), self.variants@.len() == old(self).variants@.len(),
            old(self).ok(), old(self).wf(*entry), entry.variant@ == Some(variant_name),
            self.common.ok(), self.common.covers(*entry), old(self).common.grows(self.common),
            forall|j: int| #![trigger old(self).variants@[j]] #![trigger self.variants@[j]] 0 <= j < self.variants@.len() ==> old(self).variants@[j].0 == self.variants@[j].0,
        ensures
            forall|j: int| #![trigger old(self).variants@[j]] #![trigger self.variants@[j]] 0 <= j < self.variants@.len() ==> old(self).variants@[j].1.grows(self.variants@[j].1) && self.variants@[j].1.ok(),
            forall|j: int| 0 <= j < self.variants@.len() && (#[trigger] self.variants@[j]).0 == variant_name ==> self.variants@[j].1.covers(*entry),
        decreases self.variants@.len() - i,
    @*/
    /*@fn src/creator/directory_pack/schema/mod.rs | impl<PN: PropertyName, VN: VariantName> Schema<PN, VN> | finalize
    requires self.ok(),
    ensures
        r.ok(),
        forall|e: Entry| #[trigger] self.covers(e) ==> r.fits(e),
    @start
        let ghost s0 = self;
    @loop 1 it
        invariant
            it.seq() == s0.variants@, s0.ok(), s0.variants@.len() <= 0xFF,
            variants_layout@.len() == it.index@,
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] variants_layout@[i]).len_ok() && variants_layout@[i].0@.len() == s0.variants@[i].1.0@.len() + 1
                && variants_layout@[i].spec_size() <= 0xFF * variants_layout@[i].0@.len(),
            forall|e: Entry, i: int| 0 <= i < it.index@ && (#[trigger] s0.variants@[i].1.covers(e)) ==> variants_layout@[i].fits(e),
            forall|i: int| 0 <= i < it.index@ ==> variants_map.m@.contains_key((#[trigger] s0.variants@[i]).0) && variants_map.m@[s0.variants@[i].0].0 == i,
            forall|n: VN| #[trigger] variants_map.m@.contains_key(n) ==> exists|i: int| 0 <= i < it.index@ && (#[trigger] s0.variants@[i]).0 == n,
    @loop 2
        invariant
            i <= variants_layout@.len(), variants_layout@.len() == s0.variants@.len(), vl0.len() == s0.variants@.len(), s0.ok(),
            forall|j: int| 0 <= j < vl0.len() ==> (#[trigger] vl0[j]).len_ok() && vl0[j].0@.len() == s0.variants@[j].1.0@.len() + 1 && vl0[j].spec_size() <= max_variant_size,
            forall|j: int| #![trigger variants_layout@[j]] i <= j < vl0.len() ==> variants_layout@[j] == vl0[j],
            forall|j: int| #![trigger variants_layout@[j]] 0 <= j < i ==> variants_layout@[j].len_ok() && variants_layout@[j].spec_size() == max_variant_size
                && (forall|e: Entry| #[trigger] vl0[j].fits(e) ==> variants_layout@[j].fits(e)),
        decreases variants_layout@.len() - i,
    @after `variant.fill_to_size(max_variant_size)`
                ; proof { let k = i - 1; assert forall|e: Entry| #[trigger] vl0[k].fits(e) implies variants_layout@[k].fits(e) by { filled(vl0[k], variants_layout@[k], e); } }
    @before `let entry_size = if`
        proof { assert(forall|i: int| 0 <= i < variants_layout@.len() ==> (#[trigger] variants_layout@[i]).spec_size() <= 0xFFFF - common_layout.spec_size()); }
    @sub `layout::Entry<PN, VN>` => `layout::EntryLayout`
    @sub `layout::Entry {` => `layout::EntryLayout {`
    @sub `HashMap::new()` => `layout::VariantMap::new()`
    @sub `Vec::new()` => `Vec::<layout::Properties>::new()`
    @sub `/assert!\(\s*([^,()]*\(\)[^,()]*),(?:[^()]|\([^()]*\))*\);/` => `refuse_unless(\1);`
    @sub `/variants_layout\s*\.iter\(\)\s*\.map\(\|(\w+)\| \1\.entry_size\(\)\)\s*\.max\(\)\s*\.unwrap\(\)/` => `max_entry_size(&variants_layout)`
    @sub `/for (\w+) in &mut variants_layout \{/` => `let mut i: usize = 0; let ghost vl0 = variants_layout@; while i < variants_layout.len() { let \1 = &mut variants_layout[i]; i += 1;`
    @*/
}
} // mod schema
} // verus!
fn main() {}
