/*@ C03 C15: entries are compared property by property, and an array as the whole byte string it stands for (Array cmp, cmp_array_s, ArrayS cmp,
cmp_array, Value partial_cmp, FullEntryTrait compare, is_sorted); sorting a store keeps its entries, leaves them in order and tells each of them its
final position, which is what the handle given when it was added says (set_entry_idx, EntryStore add_entry, sort, BasicEntry value, set_idx, get_idx,
Vow, Bound); the stores of a directory are all in order at once, for the same positions, whatever entries refer to (DirectoryPackCreator finalize). */
use vstd::prelude::*;
verus! {
/*@types EntryIdx EntryCount u32 ValueIdx ValueCount u64 EntryStoreIdx EntryStoreCount u32 ValueStoreIdx ValueStoreCount u8 sizes @*/
use std::cmp::Ordering;
/*@include std.inc @*/
// trusted: std::cmp::Ordering::is_le, is_lt, is_ge, is_gt
pub assume_specification[ Ordering::is_lt ](o: Ordering) -> (r: bool) ensures r == (o is Less);
pub assume_specification[ Ordering::is_ge ](o: Ordering) -> (r: bool) ensures r == !(o is Less);
pub assume_specification[ Ordering::is_gt ](o: Ordering) -> (r: bool) ensures r == (o is Greater);
pub assume_specification[ Ordering::is_le ](o: Ordering) -> (r: bool) ensures r == !(o is Greater);
// trusted: assert!, panic!: nothing runs after one that fails
#[verifier::external_body]
pub fn runtime_assert(b: bool) ensures b {}
#[verifier::external_body]
pub fn stop() ensures false { unimplemented!() }

/// the positions of the entries (what the vows were last told)
// trusted: an atomic integer that several handles share (Arc of an Atomic): what is stored last is what is loaded
/// (and the value stores that are finalised)
pub struct Env { pub vows: Ghost<Map<int, u32>>, pub stores: Ghost<Map<int, u8>> }
pub struct SyncCell { pub id: Ghost<int> }
#[verifier::external_body]
pub fn cell_set(c: &SyncCell, value: EntryIdx, env: &mut Env) ensures final(env).vows@ == old(env).vows@.insert(c.id@, value.0), final(env).stores == old(env).stores { unimplemented!() }
#[verifier::external_body]
pub fn cell_get(c: &SyncCell, env: &Env) -> (r: EntryIdx) ensures r.0 == env.vows@[c.id@] { unimplemented!() }
#[verifier::external_body]
pub fn share(c: &SyncCell) -> (r: SyncCell) ensures r == *c { unimplemented!() }
pub struct Vow(pub SyncCell);
pub struct Bound(pub SyncCell);
impl Vow {
    /*@fn src/bases/types/delayed.rs | impl<S> Vow<S> where S: Copy + SyncType + fmt::Debug + PartialEq + 'static, | fulfil
    ensures final(env).vows@ == old(env).vows@.insert(self.0.id@, value.0), final(env).stores == old(env).stores,
    @sub `value: S` => `value: EntryIdx, env: &mut Env`
    @sub `<S as SyncType>::set(&self.0, value)` => `cell_set(&self.0, value, env)`
    @*/
    /*@fn src/bases/types/delayed.rs | impl<S> Vow<S> where S: Copy + SyncType + fmt::Debug + PartialEq + 'static, | get
    ensures r.0 == env.vows@[self.0.id@],
    @sub `&self) -> S` => `&self, env: &Env) -> EntryIdx`
    @sub `<S as SyncType>::to_self(&self.0)` => `cell_get(&self.0, env)`
    @*/
    /*@fn src/bases/types/delayed.rs | impl<S> Vow<S> where S: Copy + SyncType + fmt::Debug + PartialEq + 'static, | bind
    ensures r.0 == self.0,
    @sub `Bound<S>` => `Bound`
    @sub `Arc::clone(` => `share(`
    @*/
}
impl Bound {
    /*@fn src/bases/types/delayed.rs | impl<S> Bound<S> where S: Copy + SyncType + PartialEq, | get
    ensures r.0 == env.vows@[self.0.id@],
    @sub `&self) -> S` => `&self, env: &Env) -> EntryIdx`
    @sub `<S as SyncType>::to_self(&self.0)` => `cell_get(&self.0, env)`
    @*/
}
/// a value known later: some function of the positions
// trusted: Word::get calls its function; a Word from a Bound gives what the Bound gives
pub struct Word<T> { pub val: Ghost<spec_fn(Map<int, u32>) -> T> }
impl<T> Word<T> {
    #[verifier::external_body]
    pub fn get(&self, env: &Env) -> (r: T) ensures r == (self.val@)(env.vows@) { unimplemented!() }
}
/// a value in a store: its id, once the store is finalised
// proved elsewhere: ValueHandle::get, value stores: unit value_store
pub struct ValueHandle { pub id: Ghost<u64> }
impl ValueHandle {
    #[verifier::external_body]
    pub fn get(&self) -> (r: ValueIdx) ensures r.0 == self.id@ { unimplemented!() }
}

// ---- order
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// the order of byte strings
pub open spec fn lexc(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { icmp(0, b.len() as int) } else if b.len() == 0 { Ordering::Greater }
    else if a[0] != b[0] { icmp(a[0] as int, b[0] as int) } else { lexc(a.drop_first(), b.drop_first()) }
}
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a is Equal { b } else { a } }
// trusted: the order of [u8] (std)
#[verifier::external_body]
pub fn slice_cmp(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == lexc(a@, b@) { unimplemented!() }
/// what is kept of an array in an entry: its first bytes, the id of the rest and its size
pub ghost struct Parts { pub data: Seq<u8>, pub id: u64, pub size: int }
pub open spec fn acmp(a: Parts, b: Parts) -> Ordering { then(lexc(a.data, b.data), then(icmp(a.id as int, b.id as int), icmp(a.size, b.size))) }

pub struct Array { pub size: usize, pub data: Vec<u8>, pub value_id: ValueHandle }
pub struct ArrayS<const N: usize> { pub data: [u8; N], pub value_id: ValueHandle, pub size: usize }
impl Array {
    pub open spec fn parts(&self) -> Parts { Parts { data: self.data@, id: self.value_id.id@, size: self.size as int } }
    /*@fn src/creator/directory_pack/value.rs | impl Array | cmp
    ensures r == acmp(self.parts(), other.parts()),
    @sub `cmp::` => ``
    @sub `self.data.cmp(&other.data)` => `slice_cmp(self.data.as_slice(), other.data.as_slice())`
    @*/
    /*@fn src/creator/directory_pack/value.rs | impl Array | cmp_array_s
    ensures r == acmp(self.parts(), other.parts()),
    @sub `cmp::` => ``
    @sub `self.data.as_ref().cmp(other.data.as_slice())` => `slice_cmp(self.data.as_slice(), other.data.as_slice())`
    @*/
}
impl<const N: usize> ArrayS<N> {
    pub open spec fn parts(&self) -> Parts { Parts { data: self.data@, id: self.value_id.id@, size: self.size as int } }
    /*@fn src/creator/directory_pack/value.rs | impl<const N: usize> ArrayS<N> | cmp
    ensures r == acmp(self.parts(), other.parts()),
    @sub `cmp::` => ``
    @sub `self.data.as_slice().cmp(other.data.as_slice())` => `slice_cmp(self.data.as_slice(), other.data.as_slice())`
    @*/
    /*@fn src/creator/directory_pack/value.rs | impl<const N: usize> ArrayS<N> | cmp_array
    ensures r == acmp(self.parts(), other.parts()),
    @sub `cmp::` => ``
    @sub `self.data.as_slice().cmp(&other.data)` => `slice_cmp(self.data.as_slice(), other.data.as_slice())`
    @*/
}
pub struct ContentAddress { pub pack_id: u16, pub content_id: u32 }
pub enum Value {
    Content(ContentAddress), Unsigned(u64), Signed(i64), UnsignedWord(Box<Word<u64>>), SignedWord(Box<Word<i64>>), IndirectArray(Box<ValueHandle>),
    Array0(Box<ArrayS<0>>), Array1(Box<ArrayS<1>>), Array2(Box<ArrayS<2>>), Array(Box<Array>),
}
impl Value {
    pub open spec fn parts(&self) -> Option<Parts> {
        match self { Value::Array0(v) => Some(v.parts()), Value::Array1(v) => Some(v.parts()), Value::Array2(v) => Some(v.parts()), Value::Array(v) => Some(v.parts()), _ => None }
    }
    pub open spec fn unsigned(&self, vows: Map<int, u32>) -> Option<u64> { match self { Value::Unsigned(v) => Some(*v), Value::UnsignedWord(w) => Some((w.val@)(vows)), _ => None } }
    pub open spec fn signed(&self, vows: Map<int, u32>) -> Option<i64> { match self { Value::Signed(v) => Some(*v), Value::SignedWord(w) => Some((w.val@)(vows)), _ => None } }
    /// the order of two values of a property
    pub open spec fn vcmp(&self, other: &Value, vows: Map<int, u32>) -> Option<Ordering> {
        match (self.unsigned(vows), other.unsigned(vows)) { (Some(a), Some(b)) => Some(icmp(a as int, b as int)), _ =>
        match (self.signed(vows), other.signed(vows)) { (Some(a), Some(b)) => Some(icmp(a as int, b as int)), _ =>
        match (self.parts(), other.parts()) { (Some(a), Some(b)) => Some(acmp(a, b)), _ =>
        match (self, other) { (Value::IndirectArray(a), Value::IndirectArray(b)) => Some(icmp(a.id@ as int, b.id@ as int)), _ => None } } } }
    }
    /*@fn src/creator/directory_pack/value.rs | impl PartialOrd for Value | partial_cmp
    ensures r == self.vcmp(other, env.vows@),
    @sub `cmp::` => ``
    @sub `other: &Value)` => `other: &Value, env: &Env)`
    @sub `/Value::(Uns|S)ignedWord\((\w+)\) => Some\(v\.cmp\(&\w+\.get\(\)\)\)/` => `Value::\1ignedWord(\2) => Some(v.cmp(&\2.get(env)))`
    @sub `/Some\(v\.get\(\)\.cmp\(o\)\)/` => `Some(v.get(env).cmp(o))`
    @sub `/(Value::\w+Word\(o\)) => Some\(v\.get\(\)\.cmp\(&o\.get\(\)\)\)/` => `\1 => Some(v.get(env).cmp(&o.get(env)))`
    @*/
}
// ---- the order of arrays is that of the byte strings they stand for
/// an array in a property that keeps up to n bytes in the entry
pub open spec fn stands_for(p: Parts, w: Seq<u8>, n: int) -> bool { p.data == w.take(if n < w.len() { n } else { w.len() as int }) && p.size == w.len() }
pub open spec fn rest(w: Seq<u8>, n: int) -> Seq<u8> { if n < w.len() { w.skip(n) } else { Seq::empty() } }
/// the ids of a finalised store (see spaced in unit value_store): in the order of the values, apart by what the smaller one takes in a plain store
/// and by one at least in an indexed one
pub open spec fn ids_follow(a: Seq<u8>, ia: u64, b: Seq<u8>, ib: u64) -> bool {
    &&& a == b ==> ia == ib
    &&& lexc(a, b) is Less ==> ia <= ib && (a.len() > 0 ==> ia < ib)
    &&& lexc(b, a) is Less ==> ib <= ia && (b.len() > 0 ==> ib < ia)
}
pub proof fn lexc_facts(a: Seq<u8>, b: Seq<u8>)
    ensures (lexc(a, b) is Equal) == (a == b), lexc(a, b) is Less == lexc(b, a) is Greater, lexc(a, a) is Equal, lexc(a, b) is Greater == lexc(b, a) is Less,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lexc_facts(a.drop_first(), b.drop_first());
        lexc_facts(a.drop_first(), a.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    else if a.len() > 0 { lexc_facts(a.drop_first(), a.drop_first()); }
}
pub proof fn lexc_skip(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), a.take(n) == b.take(n),
    ensures lexc(a, b) == lexc(a.skip(n), b.skip(n)),
    decreases n,
{
    if n == 0 { assert(a.skip(0) =~= a); assert(b.skip(0) =~= b); } else {
        assert(a.take(n)[0] == a[0] && b.take(n)[0] == b[0]);
        assert(a.drop_first().take(n - 1) =~= a.take(n).drop_first());
        assert(b.drop_first().take(n - 1) =~= b.take(n).drop_first());
        lexc_skip(a.drop_first(), b.drop_first(), n - 1);
        assert(a.drop_first().skip(n - 1) =~= a.skip(n));
        assert(b.drop_first().skip(n - 1) =~= b.skip(n));
    }
}
/// where the first n bytes differ, they decide
pub proof fn lexc_take(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n,
    ensures ({ let (x, y) = (a.take(if n < a.len() { n } else { a.len() as int }), b.take(if n < b.len() { n } else { b.len() as int })); x != y ==> lexc(a, b) == lexc(x, y) }),
    decreases n,
{
    let (x, y) = (a.take(if n < a.len() { n } else { a.len() as int }), b.take(if n < b.len() { n } else { b.len() as int }));
    if n == 0 || a.len() == 0 || b.len() == 0 { assert(n == 0 ==> x =~= y); if n > 0 && b.len() == 0 { assert(b =~= y); } }
    else if a[0] == b[0] {
        lexc_take(a.drop_first(), b.drop_first(), n - 1);
        let (x1, y1) = (a.drop_first().take(if n - 1 < a.len() - 1 { n - 1 } else { a.len() - 1 }), b.drop_first().take(if n - 1 < b.len() - 1 { n - 1 } else { b.len() - 1 }));
        assert(x.drop_first() =~= x1);
        assert(y.drop_first() =~= y1);
        if x1 == y1 { assert(x =~= seq![x[0]] + x1); assert(y =~= seq![y[0]] + y1); }
    }
}
/// C03: entries are in the order the reader compares them
pub proof fn array_order(a: Parts, wa: Seq<u8>, b: Parts, wb: Seq<u8>, n: int)
    requires 0 <= n, stands_for(a, wa, n), stands_for(b, wb, n), ids_follow(rest(wa, n), a.id, rest(wb, n), b.id),
    ensures acmp(a, b) == lexc(wa, wb),
{
    lexc_facts(a.data, b.data);
    lexc_take(wa, wb, n);
    if a.data == b.data {
        if n <= wa.len() && n <= wb.len() {
            lexc_skip(wa, wb, n);
            let (ra, rb) = (wa.skip(n), wb.skip(n));
            assert(ra =~= rest(wa, n) && rb =~= rest(wb, n));
            lexc_facts(ra, rb);
            if ra == rb { assert(wa.len() == wb.len()); }
        } else {
            assert(a.data.len() == b.data.len());
            assert(wa =~= a.data && wb =~= b.data);
        }
    }
}

// ---- entries
pub type PN = u8;
pub struct Entry { pub names: Vec<PN>, pub values: Vec<Value>, pub idx: Vow }
// trusted: Iterator::position (std)
#[verifier::external_body]
pub fn position_in(v: &Vec<PN>, n: &PN) -> (r: Option<usize>)
    ensures r matches Some(i) ==> i < v@.len() && v@[i as int] == *n && (forall|j: int| 0 <= j < i ==> v@[j] != *n), r is None ==> forall|j: int| 0 <= j < v@.len() ==> v@[j] != *n,
{ unimplemented!() }
impl Entry {
    pub open spec fn id(&self) -> int { self.idx.0.id@ }
    pub open spec fn known(&self, name: PN) -> bool { self.names@.len() == self.values@.len() && exists|i: int| 0 <= i < self.names@.len() && self.names@[i] == name }
    pub open spec fn first(&self, name: PN, i: int) -> bool { 0 <= i < self.names@.len() && self.names@[i] == name && forall|j: int| 0 <= j < i ==> self.names@[j] != name }
    pub open spec fn val(&self, name: PN) -> Value { self.values@[choose|i: int| self.first(name, i)] }
    /*@fn src/creator/directory_pack/mod.rs | impl<PN: PropertyName, VN: VariantName> EntryTrait<PN, VN> for BasicEntry<PN, VN> | value
    requires self.known(*name),
    ensures *r == self.val(*name),
    @sub `MayRef<Value>` => `&Value`
    @sub `self.names.iter().position(|n| n == name)` => `position_in(&self.names, name)`
    @sub `MayRef::Borrowed(&self.values[i])` => `{ proof { assert(self.first(*name, i as int)); } &self.values[i] }`
    @sub `/panic!\([^;]*\),/` => `vstd::pervasive::unreached(),`
    @*/
    /*@fn src/creator/directory_pack/mod.rs | impl<PN: PropertyName, VN: VariantName> EntryTrait<PN, VN> for BasicEntry<PN, VN> | set_idx
    ensures *final(self) == *old(self), final(env).vows@ == old(env).vows@.insert(old(self).id(), idx.0), final(env).stores == old(env).stores,
    @sub `idx: EntryIdx)` => `idx: EntryIdx, env: &mut Env)`
    @sub `fulfil(idx)` => `fulfil(idx, env)`
    @*/
    /*@fn src/creator/directory_pack/mod.rs | impl<PN: PropertyName, VN: VariantName> EntryTrait<PN, VN> for BasicEntry<PN, VN> | get_idx
    ensures r.0.id@ == self.id(),
    @sub `Bound<EntryIdx>` => `Bound`
    @*/
    /// the order of two entries from the k-th key on
    pub open spec fn ecmp(&self, keys: Seq<PN>, other: &Entry, vows: Map<int, u32>, k: int) -> Ordering
        decreases keys.len() - k
    {
        if k < 0 || k >= keys.len() { Ordering::Equal } else {
            match self.val(keys[k]).vcmp(&other.val(keys[k]), vows) { None => Ordering::Greater, Some(c) => if c is Equal { self.ecmp(keys, other, vows, k + 1) } else { c } }
        }
    }
    pub open spec fn keyed(&self, keys: Seq<PN>) -> bool { forall|k: int| 0 <= k < keys.len() ==> self.known(#[trigger] keys[k]) }
    /*@fn src/creator/directory_pack/mod.rs | trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN> + Send | compare
    requires self.keyed(sort_keys@), other.keyed(sort_keys@),
    ensures r == self.ecmp(sort_keys@, other, env.vows@, 0),
    @sub `compare<'i, I>(&self, sort_keys: &'i I, other: &Self) -> std::cmp::Ordering` => `compare(&self, sort_keys: &Vec<PN>, other: &Self, env: &Env) -> Ordering`
    @sub `/where\s*I: IntoIterator<Item = &'i PN> \+ Copy,/` => ` `
    @sub `cmp::` => ``
    @sub `in sort_keys.into_iter()` => `in it: sort_keys`
    @sub `partial_cmp(&other_value)` => `partial_cmp(&other_value, env)`
    @sub `continue` => `()`
    @loop 1
        invariant
            it.seq().len() == sort_keys@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == sort_keys@[k], self.keyed(sort_keys@), other.keyed(sort_keys@),
            self.ecmp(sort_keys@, other, env.vows@, 0) == self.ecmp(sort_keys@, other, env.vows@, it.index@),
    @*/
}
pub open spec fn keyed(entries: Seq<Entry>, keys: Seq<PN>) -> bool { forall|i: int| 0 <= i < entries.len() ==> (#[trigger] entries[i]).keyed(keys) }
pub open spec fn in_order(entries: Seq<Entry>, keys: Seq<PN>, vows: Map<int, u32>, i: int) -> bool { !(entries[i].ecmp(keys, &entries[i + 1], vows, 0) is Greater) }
pub open spec fn sorted(entries: Seq<Entry>, keys: Seq<PN>, vows: Map<int, u32>) -> bool { forall|i: int| 0 <= i < entries.len() - 1 ==> #[trigger] in_order(entries, keys, vows, i) }
pub open spec fn placed(entries: Seq<Entry>, vows: Map<int, u32>) -> bool { forall|i: int| 0 <= i < entries.len() ==> vows[(#[trigger] entries[i]).id()] == i }
pub open spec fn distinct(entries: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < entries.len() ==> (#[trigger] entries[i]).id() != (#[trigger] entries[j]).id() }
pub open spec fn owns(entries: Seq<Entry>, id: int) -> bool { exists|i: int| 0 <= i < entries.len() && (#[trigger] entries[i]).id() == id }
pub open spec fn others_same(entries: Seq<Entry>, a: Map<int, u32>, b: Map<int, u32>) -> bool { forall|id: int| #![trigger a[id]] #![trigger b[id]] !owns(entries, id) ==> a[id] == b[id] }
/// b has the entries of a
pub open spec fn shuffled(a: Seq<Entry>, b: Seq<Entry>) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
    &&& distinct(a) ==> distinct(b)
}
/*@fn src/creator/directory_pack/entry_store.rs | | set_entry_idx
requires distinct(old(entries)@),
ensures
    final(entries)@ == old(entries)@, placed(final(entries)@, final(env).vows@), others_same(old(entries)@, old(env).vows@, final(env).vows@), final(env).stores == old(env).stores,
@sub `set_entry_idx<PN, VN, Entry>(entries: &mut [Entry])` => `set_entry_idx(entries: &mut Vec<Entry>, env: &mut Env)`
@sub `/where\s*PN: PropertyName,\s*VN: VariantName,\s*Entry: FullEntryTrait<PN, VN> \+ Send,/` => ` `
@sub `assert!(` => `runtime_assert(`
@sub `/entries\s*\.par_iter_mut\(\)\s*\.enumerate\(\)\s*\.for_each\(\|\((\w+), (\w+)\)\| (\w+)\.set_idx\((.*)\)\)/` => `let mut n: usize = 0; while n < entries.len() { let ghost (e0, v0) = (entries@, env.vows@); let \1 = n; let \2 = &mut entries[n]; \3.set_idx(\4, env); n += 1; }`
@loop 1
    invariant
        n <= entries@.len(), entries@ == old(entries)@, distinct(entries@), entries@.len() <= u32::MAX,
        forall|i: int| 0 <= i < n ==> env.vows@[(#[trigger] entries@[i]).id()] == i,
        others_same(entries@, old(env).vows@, env.vows@), env.stores == old(env).stores,
    decreases entries@.len() - n,
@after `, env);`
    proof {
        assert(entries@ =~= e0);
        assert(env.vows@ == v0.insert(e0[n as int].id(), n as u32));
        assert forall|id: int| !owns(entries@, id) implies old(env).vows@[id] == env.vows@[id] by { assert(old(env).vows@[id] == v0[id]); if id == entries@[n as int].id() { assert(owns(entries@, id)); } }
        assert forall|i: int| 0 <= i <= n implies env.vows@[(#[trigger] entries@[i]).id()] == i by { if i < n { assert(entries@[i].id() != entries@[n as int].id()); } }
    }
@*/
/*@fn src/creator/directory_pack/entry_store.rs | | is_sorted
requires keyed(entries@, keys@),
ensures r == sorted(entries@, keys@, env.vows@),
@sub `is_sorted<PN, VN, Entry>(entries: &[Entry], keys: &Vec<PN>)` => `is_sorted(entries: &Vec<Entry>, keys: &Vec<PN>, env: &Env)`
@sub `/where\s*PN: PropertyName,\s*VN: VariantName,\s*Entry: FullEntryTrait<PN, VN>,/` => ` `
@sub `/entries\s*\.windows\(2\)\s*\.all\(\|w\| (.*)\)/` => `let mut n: usize = 0; while entries.len() > 1 && n < entries.len() - 1 { let w = vstd::slice::slice_subrange(entries.as_slice(), n, n + 2); if !(\1) { return false; } n += 1; } true`
@sub `compare(&keys, &w[1])` => `compare(keys, &w[1], env)`
@loop 1
    invariant n <= entries@.len(), keyed(entries@, keys@), forall|i: int| 0 <= i < n && i + 1 < entries@.len() ==> #[trigger] in_order(entries@, keys@, env.vows@, i),
    decreases entries@.len() - n,
@before `if !(`
    proof { assert(w@[0] == entries@[n as int]); assert(w@[1] == entries@[n + 1]); assert(in_order(entries@, keys@, env.vows@, n as int) == !(entries@[n as int].ecmp(keys@, &entries@[n + 1], env.vows@, 0) is Greater)); }
@*/

// ---- an entry store
/// proved elsewhere: Schema process, finalize, layout Entry serialize_entry: unit schema (the values of the entries as they are then)
pub struct Layout { pub fit: Ghost<Set<(Entry, Map<int, u32>)>> }
pub struct Schema { pub sort_keys: Option<Vec<PN>>, pub seen: Ghost<Set<(Entry, Map<int, u32>)>> }
impl Schema {
    #[verifier::external_body]
    pub fn process(&mut self, entry: &Entry, env: &Env) ensures final(self).sort_keys == old(self).sort_keys, final(self).seen@ == old(self).seen@.insert((*entry, env.vows@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&self) -> (r: Layout) ensures r.fit@ == self.seen@ { unimplemented!() }
}
pub struct EntryStore { pub entries: Vec<Entry>, pub schema: Schema }
pub struct FinalEntryStore { pub entries: Vec<Entry>, pub layout: Layout }
// trusted: the sort of rayon keeps the elements
#[verifier::external_body]
pub fn sort_by_compare(v: &mut Vec<Entry>, env: &Env) ensures shuffled(old(v)@, final(v)@) { unimplemented!() }
pub proof fn shuffled_trans(a: Seq<Entry>, b: Seq<Entry>, c: Seq<Entry>)
    requires shuffled(a, b), shuffled(b, c),
    ensures shuffled(a, c),
{
    assert forall|i: int| 0 <= i < c.len() implies a.contains(#[trigger] c[i]) by { let j = choose|j: int| 0 <= j < b.len() && b[j] == c[i]; assert(b[j] == c[i]); }
    assert forall|i: int| 0 <= i < a.len() implies c.contains(#[trigger] a[i]) by { let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j] == a[i]); }
}
pub proof fn shuffled_owns(a: Seq<Entry>, b: Seq<Entry>)
    requires shuffled(a, b),
    ensures forall|id: int| owns(a, id) == owns(b, id), forall|keys: Seq<PN>| keyed(a, keys) ==> keyed(b, keys),
{
    assert forall|id: int| owns(a, id) == owns(b, id) by {
        if owns(a, id) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).id() == id; assert(b.contains(a[i])); }
        if owns(b, id) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).id() == id; assert(a.contains(b[i])); }
    }
    assert forall|keys: Seq<PN>| keyed(a, keys) implies keyed(b, keys) by { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).keyed(keys) by { assert(a.contains(b[i])); } }
}
impl EntryStore {
    pub open spec fn ok(&self) -> bool { distinct(self.entries@) && (self.schema.sort_keys matches Some(k) ==> keyed(self.entries@, k@)) }
    pub open spec fn in_place(&self, vows: Map<int, u32>) -> bool { placed(self.entries@, vows) }
    pub open spec fn is_in_order(&self, vows: Map<int, u32>) -> bool { self.schema.sort_keys matches Some(k) ==> sorted(self.entries@, k@, vows) }
    /// the same entries; in the same order where there is no key
    pub open spec fn same(&self, to: EntryStore) -> bool { to.schema == self.schema && shuffled(self.entries@, to.entries@) && (self.schema.sort_keys is None ==> to.entries@ == self.entries@) }
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStore<PN, VN, Entry> where PN: PropertyName, VN: VariantName, Entry: FullEntryTrait<PN, VN>, | new
    ensures r.entries@.len() == 0, r.schema == schema,
    @sub `schema::Schema<PN, VN>` => `Schema`
    @sub `size_hint.unwrap_or(1024)` => `match size_hint { Some(n) => n, None => 1024 }`
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStore<PN, VN, Entry> where PN: PropertyName, VN: VariantName, Entry: FullEntryTrait<PN, VN>, | add_entry
    requires old(self).ok(), !owns(old(self).entries@, entry.id()), old(self).schema.sort_keys matches Some(k) ==> entry.keyed(k@),
    ensures
        final(self).ok(), final(self).entries@ == old(self).entries@.push(entry), final(self).schema == old(self).schema, r.0.id@ == entry.id(),
        others_same(final(self).entries@, old(env).vows@, final(env).vows@), final(env).stores == old(env).stores,
    @sub `mut entry: Entry) -> Bound<EntryIdx>` => `entry: Entry, env: &mut Env) -> Bound`
    @sub `/entry\.set_idx\((.*)\);/` => `let mut entry = entry; entry.set_idx(\1, env);`
    @start
        let ghost the_entry = entry;
        proof {
            let after = self.entries@.push(entry);
            assert forall|i: int, j: int| 0 <= i < j < after.len() implies (#[trigger] after[i]).id() != (#[trigger] after[j]).id() by { if j == self.entries@.len() { assert(after[i] == self.entries@[i]); } }
            assert(after[self.entries@.len() as int] == entry);
            assert(owns(after, entry.id()));
        }
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStore<PN, VN, Entry> where PN: PropertyName, VN: VariantName, Entry: FullEntryTrait<PN, VN>, | len
    ensures r == self.entries@.len(),
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStore<PN, VN, Entry> where PN: PropertyName, VN: VariantName, Entry: FullEntryTrait<PN, VN>, | is_empty
    ensures r == (self.entries@.len() == 0),
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStoreTrait for EntryStore<PN, VN, Entry> where PN: PropertyName + std::fmt::Debug + Sync, VN: VariantName + std::fmt::Debug + Sync + 'static, Entry: FullEntryTrait<PN, VN> + Send + 'static, | sort
    requires old(self).ok(),
    ensures
        final(self).ok(), old(self).same(*final(self)), final(self).in_place(final(env).vows@), final(self).is_in_order(final(env).vows@),
        others_same(old(self).entries@, old(env).vows@, final(env).vows@), final(env).stores == old(env).stores,
    @sub `sort(&mut self)` => `sort(&mut self, env: &mut Env)`
    @sub `set_entry_idx(&mut self.entries)` => `set_entry_idx(&mut self.entries, env)`
    @sub `/let compare = \|a: &Entry, b: &Entry\| a.compare\(&keys, b\);/` => ` `
    @sub `self.entries.par_sort_unstable_by(compare)` => `sort_by_compare(&mut self.entries, env)`
    @sub `is_sorted(&self.entries, keys)` => `is_sorted(&self.entries, keys, env)`
    @sub `/panic!\([^;]*\);/` => `stop();`
    @sub `/debug!\([^;]*\);/` => ` `
    @loop 1
        invariant
            self.schema == old(self).schema, self.schema.sort_keys is Some, self.schema.sort_keys->0@ == keys@, self.ok(), shuffled(old(self).entries@, self.entries@), self.in_place(env.vows@),
            others_same(old(self).entries@, old(env).vows@, env.vows@), env.stores == old(env).stores, watchdog > 0,
        decreases watchdog,
    @after 1 `sort_by_compare(&mut self.entries, env);`
        proof { shuffled_owns(old(self).entries@, self.entries@); }
    @before 2 `sort_by_compare(&mut self.entries, env);`
        let ghost e0 = self.entries@;
    @after 2 `sort_by_compare(&mut self.entries, env);`
        proof { shuffled_trans(old(self).entries@, e0, self.entries@); shuffled_owns(e0, self.entries@); shuffled_owns(old(self).entries@, self.entries@); }
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStoreTrait for EntryStore<PN, VN, Entry> where PN: PropertyName + std::fmt::Debug + Sync, VN: VariantName + std::fmt::Debug + Sync + 'static, Entry: FullEntryTrait<PN, VN> + Send + 'static, | is_sorted
    requires self.ok(),
    ensures r == self.is_in_order(env.vows@),
    @sub `is_sorted(&self)` => `is_sorted(&self, env: &Env)`
    @sub `is_sorted(&self.entries, keys)` => `is_sorted(&self.entries, keys, env)`
    @*/
    /*@fn src/creator/directory_pack/entry_store.rs | impl<PN, VN, Entry> EntryStoreTrait for EntryStore<PN, VN, Entry> where PN: PropertyName + std::fmt::Debug + Sync, VN: VariantName + std::fmt::Debug + Sync + 'static, Entry: FullEntryTrait<PN, VN> + Send + 'static, | finalize
    ensures r.entries@ == self.entries@, forall|i: int| 0 <= i < self.entries@.len() ==> r.layout.fit@.contains((#[trigger] self.entries@[i], env.vows@)),
    @sub `self: Box<Self>) -> Box<dyn WritableTell>` => `self: Box<Self>, env: &Env) -> Box<FinalEntryStore>`
    @sub `in &mut self.entries` => `in it: &self.entries`
    @sub `process(entry)` => `process(entry, env)`
    @sub `/debug!\([^;]*\);/` => ` `
    @loop 1
        invariant
            it.seq().len() == this.entries@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == this.entries@[k], this.entries == self.entries,
            forall|i: int| 0 <= i < it.index@ ==> this.schema.seen@.contains((#[trigger] self.entries@[i], env.vows@)),
    @*/
}

// ---- the stores of a directory
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;
#[derive(Clone, Copy)] pub struct VendorId(pub [u8; 4]);
#[derive(Clone, Copy)] pub struct PackId(pub u16);
pub struct PackFreeData(pub Ghost<int>);
pub struct Index { pub what: Ghost<int> }
/// proved elsewhere: ValueStore finalize: unit value_store
pub struct StoreHandle { pub id: Ghost<int> }
impl StoreHandle {
    #[verifier::external_body]
    pub fn finalize(&self, idx: ValueStoreIdx, env: &mut Env) ensures final(env).vows == old(env).vows, final(env).stores@ == old(env).stores@.insert(self.id@, idx.0) { unimplemented!() }
}
pub struct DirectoryPackCreator { pub app_vendor_id: VendorId, pub pack_id: PackId, pub free_data: PackFreeData, pub value_stores: Vec<StoreHandle>, pub entry_stores: Vec<Box<EntryStore>>, pub indexes: Vec<Index> }
pub struct FinalizedDirectoryPackCreator { pub app_vendor_id: VendorId, pub pack_id: PackId, pub free_data: PackFreeData, pub value_stores: Vec<StoreHandle>, pub entry_stores: Vec<Box<FinalEntryStore>>, pub indexes: Vec<Index> }
// trusted: io::Error::new
#[verifier::external_body]
pub fn too_many() -> IoError { unimplemented!() }
pub open spec fn all_ok(s: Seq<Box<EntryStore>>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).ok() }
pub open spec fn apart(s: Seq<Box<EntryStore>>) -> bool { forall|j: int, k: int, id: int| 0 <= j < s.len() && 0 <= k < s.len() && j != k && #[trigger] owns(s[j].entries@, id) ==> !#[trigger] owns(s[k].entries@, id) }
pub open spec fn all_in_place(s: Seq<Box<EntryStore>>, vows: Map<int, u32>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).in_place(vows) }
pub open spec fn all_in_order(s: Seq<Box<EntryStore>>, vows: Map<int, u32>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).is_in_order(vows) }
pub open spec fn all_same(a: Seq<Box<EntryStore>>, b: Seq<Box<EntryStore>>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).same(*#[trigger] b[k]) }
/// the value stores have their number, one of each value store being there
pub open spec fn numbered(v: Seq<StoreHandle>, stores: Map<int, u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> stores.contains_key((#[trigger] v[i]).id@) && stores[v[i].id@] == i }
pub open spec fn once(v: Seq<StoreHandle>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).id@ != (#[trigger] v[j]).id@ }
pub fn all_sorted(s: &Vec<Box<EntryStore>>, env: &Env) -> (r: bool)
    requires all_ok(s@),
    ensures r == all_in_order(s@, env.vows@),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), all_ok(s@), forall|i: int| 0 <= i < k ==> (#[trigger] s@[i]).is_in_order(env.vows@),
        decreases s@.len() - k,
    {
        assert(s@[k as int].ok());
        if !s[k].is_sorted(env) { return false; }
        k += 1;
    }
    true
}
pub open spec fn finals(s: Seq<Box<EntryStore>>, f: Seq<Box<FinalEntryStore>>, vows: Map<int, u32>) -> bool {
    f.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] f[k]).entries@ == s[k].entries@ && fits_all(f[k], vows)
}
pub open spec fn fits_all(f: Box<FinalEntryStore>, vows: Map<int, u32>) -> bool { forall|i: int| 0 <= i < f.entries@.len() ==> f.layout.fit@.contains((#[trigger] f.entries@[i], vows)) }
// trusted: Iterator::map, collect (std): each store once, in order (EntryStore finalize: see there)
#[verifier::external_body]
pub fn finalize_all(s: Vec<Box<EntryStore>>, env: &Env) -> (r: Vec<Box<FinalEntryStore>>) ensures finals(s@, r@, env.vows@) { unimplemented!() }
/// a store sorted: the others stay as they are
pub proof fn one_sorted(a: Seq<Box<EntryStore>>, b: Seq<Box<EntryStore>>, c: Seq<Box<EntryStore>>, m: int)
    requires all_same(a, b), apart(b), all_ok(b), 0 <= m < b.len(), c == b.update(m, c[m]), b[m].same(*c[m]), c[m].ok(),
    ensures all_same(a, c), apart(c), all_ok(c), forall|id: int| owns(b[m].entries@, id) == owns(c[m].entries@, id),
{
    shuffled_owns(b[m].entries@, c[m].entries@);
    assert(a[m].same(*b[m]));
    shuffled_trans(a[m].entries@, b[m].entries@, c[m].entries@);
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).same(*#[trigger] c[k]) by { assert(a[k].same(*b[k])); }
    assert forall|j: int, k: int, id: int| 0 <= j < c.len() && 0 <= k < c.len() && j != k && #[trigger] owns(c[j].entries@, id) implies !#[trigger] owns(c[k].entries@, id) by {
        assert(owns(b[j].entries@, id));
        assert(!owns(b[k].entries@, id));
    }
}
pub proof fn still_placed(s: Seq<Box<EntryStore>>, m: int, k: int, a: Map<int, u32>, b: Map<int, u32>)
    requires apart(s), 0 <= m < s.len(), 0 <= k < s.len(), k != m, s[k].in_place(a), forall|id: int| !owns(s[m].entries@, id) ==> a[id] == b[id],
    ensures s[k].in_place(b),
{
    assert forall|i: int| 0 <= i < s[k].entries@.len() implies b[(#[trigger] s[k].entries@[i]).id()] == i by {
        let id = s[k].entries@[i].id();
        assert(owns(s[k].entries@, id));
        assert(!owns(s[m].entries@, id));
    }
}
pub proof fn same_refl(s: Seq<Box<EntryStore>>)
    ensures all_same(s, s),
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).same(*s[k]) by {
        let e = s[k].entries@;
        assert forall|i: int| 0 <= i < e.len() implies e.contains(#[trigger] e[i]) by {}
    }
}
impl DirectoryPackCreator {
    /*@fn src/creator/directory_pack/directory_pack.rs | impl DirectoryPackCreator | new
    ensures r.value_stores@.len() == 0, r.entry_stores@.len() == 0, r.indexes@.len() == 0, r.pack_id == pack_id, r.app_vendor_id == app_vendor_id, r.free_data == free_data,
    @sub `vec![]` => `Vec::new()`
    @*/
    /*@fn src/creator/directory_pack/directory_pack.rs | impl DirectoryPackCreator | add_value_store
    ensures final(self).value_stores@ == old(self).value_stores@.push(value_store), final(self).entry_stores == old(self).entry_stores, final(self).indexes == old(self).indexes,
    @*/
    /*@fn src/creator/directory_pack/directory_pack.rs | impl DirectoryPackCreator | add_entry_store
    requires old(self).entry_stores@.len() <= u32::MAX,
    ensures final(self).entry_stores@ == old(self).entry_stores@.push(entry_store), r.0 == old(self).entry_stores@.len(), final(self).value_stores == old(self).value_stores, final(self).indexes == old(self).indexes,
    @sub `Box<dyn EntryStoreTrait>` => `Box<EntryStore>`
    @*/
    /*@fn src/creator/directory_pack/directory_pack.rs | impl DirectoryPackCreator | finalize
    requires all_ok(self.entry_stores@), apart(self.entry_stores@), once(self.value_stores@),
    ensures
        r is Ok == (self.value_stores@.len() <= 255),
        r matches Ok(f) ==> {
            &&& f.app_vendor_id == self.app_vendor_id && f.pack_id == self.pack_id && f.free_data == self.free_data && f.value_stores == self.value_stores && f.indexes == self.indexes
            &&& numbered(self.value_stores@, final(env).stores@, self.value_stores@.len() as int)
            &&& exists|s: Seq<Box<EntryStore>>| #![trigger all_same(self.entry_stores@, s)] all_same(self.entry_stores@, s) && all_ok(s) && all_in_place(s, final(env).vows@) && all_in_order(s, final(env).vows@) && finals(s, f.entry_stores@, final(env).vows@)
        },
    @sub `finalize(mut self)` => `finalize(mut self, env: &mut Env)`
    @sub `std::io::Result` => `IoResult`
    @sub `/info!\([^;]*\);/` => ` `
    @sub `/std::io::Error::new\(\s*std::io::ErrorKind::InvalidInput,\s*format!\([^;]*\),\s*\)\)/` => `too_many())`
    @sub `/for \((\w+), (\w+)\) in &mut self\.value_stores\.iter\(\)\.enumerate\(\) \{(\s*\w+\.finalize\()([^;]*)\);\s*\}/` => `let mut n: usize = 0; while n < self.value_stores.len() { let \1 = n; let \2 = &self.value_stores[n]; \3\4, env); n += 1; }`
    @sub `/for (\w+) in &mut self\.entry_stores \{(\s*\w+\.sort\()\);\s*\}/` => `let mut m: usize = 0; while m < self.entry_stores.len() { let \1 = &mut self.entry_stores[m]; \2env); m += 1; }`
    @sub `/self\.entry_stores\.iter\(\)\.all\(\|(\w+)\| \w+\.is_sorted\(\)\)/` => `all_sorted(&self.entry_stores, env)`
    @sub `/panic!\([^;]*\);/` => `stop();`
    @sub `Vec<Box<dyn WritableTell>>` => `Vec<Box<FinalEntryStore>>`
    @sub `/self\s*\.entry_stores\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| \w+\.finalize\(\)\)\s*\.collect\(\)/` => `finalize_all(self.entry_stores, env)`
    @start
        proof { same_refl(self.entry_stores@); }
    @loop 1
        invariant
            n <= this.value_stores@.len(), this == self, once(self.value_stores@), this.value_stores@.len() <= 255,
            numbered(self.value_stores@, env.stores@, n as int),
        decreases this.value_stores@.len() - n,
    @loop 2
        invariant
            m <= this.entry_stores@.len(), all_ok(this.entry_stores@), apart(this.entry_stores@), all_same(self.entry_stores@, this.entry_stores@),
            this.app_vendor_id == self.app_vendor_id, this.pack_id == self.pack_id, this.free_data == self.free_data, this.value_stores == self.value_stores, this.indexes == self.indexes,
            numbered(self.value_stores@, env.stores@, self.value_stores@.len() as int),
            forall|k: int| 0 <= k < m ==> (#[trigger] this.entry_stores@[k]).in_place(env.vows@),
        decreases this.entry_stores@.len() - m,
    @loop 3
        invariant
            all_ok(this.entry_stores@), apart(this.entry_stores@), all_same(self.entry_stores@, this.entry_stores@),
            this.app_vendor_id == self.app_vendor_id, this.pack_id == self.pack_id, this.free_data == self.free_data, this.value_stores == self.value_stores, this.indexes == self.indexes,
            numbered(self.value_stores@, env.stores@, self.value_stores@.len() as int), watchdog > 0,
            all_in_place(this.entry_stores@, env.vows@),
        decreases watchdog,
    @loop 4
        invariant
            m <= this.entry_stores@.len(), all_ok(this.entry_stores@), apart(this.entry_stores@), all_same(self.entry_stores@, this.entry_stores@),
            this.app_vendor_id == self.app_vendor_id, this.pack_id == self.pack_id, this.free_data == self.free_data, this.value_stores == self.value_stores, this.indexes == self.indexes,
            numbered(self.value_stores@, env.stores@, self.value_stores@.len() as int),
            forall|k: int| 0 <= k < m ==> (#[trigger] this.entry_stores@[k]).in_place(env.vows@),
        decreases this.entry_stores@.len() - m,
    @before 1 `let entry_store = `
        let ghost (s0, v0) = (this.entry_stores@, env.vows@);
    @before 2 `let entry_store = `
        let ghost (s0, v0) = (this.entry_stores@, env.vows@);
    @after 1 `entry_store.sort(env);`
        proof {
            one_sorted(self.entry_stores@, s0, this.entry_stores@, m as int);
            assert forall|k: int| 0 <= k <= m implies (#[trigger] this.entry_stores@[k]).in_place(env.vows@) by { if k < m { assert(s0[k].in_place(v0)); still_placed(s0, m as int, k, v0, env.vows@); } }
        }
    @after 2 `entry_store.sort(env);`
        proof {
            one_sorted(self.entry_stores@, s0, this.entry_stores@, m as int);
            assert forall|k: int| 0 <= k <= m implies (#[trigger] this.entry_stores@[k]).in_place(env.vows@) by { if k < m { assert(s0[k].in_place(v0)); still_placed(s0, m as int, k, v0, env.vows@); } }
        }
    @*/
}
} // verus!
fn main() {}
