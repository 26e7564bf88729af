/*@ C02 C03 C14 C06 C05: value stores: at finalisation every value gets an id under which the written bytes hold exactly that
value, equal values share it and ids follow the lexicographic order; the tail of an indexed store is read back as the
same ends, and nothing else than such a tail is accepted; a value is then exactly the bytes at its id. */
use vstd::prelude::*;
verus! {
/*@types ValueIdx ValueCount u64 ValueStoreIdx ValueStoreCount u8 sizes @*/
/*@include std.inc @*/
/*@include numbers.inc @*/
/*@include bytes_model.inc @*/
/// a panic! of the code: never reached
#[verifier::external_body]
pub fn panics() requires false { unimplemented!() }
/// an assert! of the code: it must hold
pub fn runtime_assert(b: bool) requires b {}

pub struct OutStream { pub data: Ghost<Seq<u8>> }
pub uninterp spec fn crc(s: Seq<u8>) -> Seq<u8>;
impl OutStream {
    // proved elsewhere: a block is written with its checksum: kani contract of Serializer::close (bases/write.rs)
    #[verifier::external_body]
    pub fn write_serializer(&mut self, s: Serializer) -> (r: IoResult<usize>)
        ensures r matches Ok(n) ==> n == s@.len() && final(self).data@ == old(self).data@ + s@ + crc(s@)
    { unimplemented!() }
}

pub struct BaseValueStore {
    pub idx: Option<ValueStoreIdx>,
    pub data: Vec<(Bytes, u64)>,
    pub sorted_indirect: Vec<usize>,
    pub size: Size,
    pub finalized: bool,
}

pub open spec fn val(data: Seq<(Bytes, u64)>, k: int) -> Seq<u8> { data[k].0@ }
pub open spec fn id(data: Seq<(Bytes, u64)>, k: int) -> u64 { data[k].1 }
/// ord is a permutation of 0..n
pub open spec fn perm(ord: Seq<usize>, n: int) -> bool {
    &&& ord.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] ord[i]) < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> ord[i] != ord[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] has(ord, k, n)
}
pub open spec fn has(ord: Seq<usize>, k: int, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] ord[i] == k }
pub open spec fn sorted(data: Seq<(Bytes, u64)>, ord: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < ord.len() ==> lex_le(val(data, ord[i] as int), val(data, ord[j] as int))
}
/// the number of bytes of the first n values, in that order
pub open spec fn total(data: Seq<(Bytes, u64)>, ord: Seq<usize>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total(data, ord, n - 1) + val(data, ord[n - 1] as int).len() } }

/// `v.par_sort_unstable_by_key(|e| &data[*e].0)`
// trusted: rayon's par_sort_unstable_by_key/par_sort_by_key sort (a permutation, in the order of the key); slices compare lexicographically (std)
#[verifier::external_body]
pub fn sort_by_value(v: &mut Vec<usize>, data: &Vec<(Bytes, u64)>)
    requires perm(old(v)@, data@.len() as int),
    ensures perm(final(v)@, data@.len() as int), sorted(data@, final(v)@),
{ unimplemented!() }

impl BaseValueStore {
    /// before the finalisation
    pub open spec fn open_inv(&self) -> bool {
        &&& self.data@.len() == self.sorted_indirect@.len()
        &&& forall|i: int| 0 <= i < self.sorted_indirect@.len() ==> #[trigger] self.sorted_indirect@[i] == i
    }

    /*@fn src/creator/directory_pack/value_store.rs | impl BaseValueStore | add_value
    requires old(self).open_inv(),
    ensures
        final(self).open_inv(), r == old(self).data@.len(),
        final(self).data@.len() == r + 1, final(self).data@.last().0@ == data@,
        final(self).data@.drop_last() =~= old(self).data@,
        final(self).size == old(self).size, final(self).idx == old(self).idx, final(self).finalized == old(self).finalized,
    @sub `impl Into<Box<[u8]>>` => `Bytes`
    @sub `data.into()` => `data`
    @*/

    /*@fn src/creator/directory_pack/value_store.rs | impl BaseValueStore | get
    requires self.finalized, idx < self.data@.len(),
    ensures r.0 == id(self.data@, idx as int)
    @sub `/panic!\("[^"]*"\)/` => `panics()`
    @*/
}

// ---- plain stores
/// the bytes written for the first n values: a value whose index is the one before is written once
pub open spec fn written(data: Seq<(Bytes, u64)>, ord: Seq<usize>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if n >= 2 && ord[n - 1] == ord[n - 2] { written(data, ord, n - 1) }
    else { written(data, ord, n - 1) + val(data, ord[n - 1] as int) }
}
pub proof fn written_same(data: Seq<(Bytes, u64)>, ord: Seq<usize>, data2: Seq<(Bytes, u64)>, ord2: Seq<usize>, n: int)
    requires
        n <= ord.len(), n <= ord2.len(), forall|i: int| 0 <= i < n ==> ord[i] == ord2[i],
        data.len() == data2.len(), forall|k: int| 0 <= k < data.len() ==> val(data, k) == val(data2, k),
        forall|i: int| 0 <= i < n ==> ord[i] < data.len(),
    ensures written(data, ord, n) == written(data2, ord2, n),
    decreases n,
{ if n > 0 { written_same(data, ord, data2, ord2, n - 1); } }

/// value k is found under its id in the bytes b
pub open spec fn found(data: Seq<(Bytes, u64)>, k: int, b: Seq<u8>) -> bool {
    id(data, k) + val(data, k).len() <= b.len() && b.subrange(id(data, k) as int, id(data, k) + val(data, k).len()) == val(data, k)
}

/// equal values share their id, the others follow each other
pub open spec fn spaced(data: Seq<(Bytes, u64)>, i: int, j: int) -> bool {
    if val(data, i) == val(data, j) { id(data, i) == id(data, j) } else { id(data, i) + val(data, i).len() <= id(data, j) }
}
pub proof fn total_mono(data: Seq<(Bytes, u64)>, ord: Seq<usize>, k: int, n: int)
    requires 0 <= k <= n,
    ensures total(data, ord, k) <= total(data, ord, n),
    decreases n - k,
{ if k < n { total_mono(data, ord, k, n - 1); } }
/// the state of the finalisation once k values are placed
pub open spec fn placed(data0: Seq<(Bytes, u64)>, ord: Seq<usize>, data: Seq<(Bytes, u64)>, srt: Seq<usize>, k: int, offset: int) -> bool {
    let n = ord.len() as int;
    let b = written(data, srt, k);
    &&& 0 <= k <= n && data.len() == n && srt.len() == n && data0.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] data[i]).0 == data0[i].0
    &&& forall|i: int| k <= i < n ==> #[trigger] srt[i] == ord[i]
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] srt[i]) < n && has(ord, srt[i] as int, i + 1) && val(data, srt[i] as int) == val(data0, ord[i] as int) && id(data, srt[i] as int) == id(data, ord[i] as int)
    &&& offset == b.len() && 0 <= offset <= total(data0, ord, k)
    &&& forall|i: int| 0 <= i < k ==> found(data, #[trigger] ord[i] as int, b)
    &&& forall|i: int, j: int| 0 <= i <= j < k ==> spaced(data, #[trigger] ord[i] as int, #[trigger] ord[j] as int)
}
pub proof fn place_new(data0: Seq<(Bytes, u64)>, ord: Seq<usize>, data: Seq<(Bytes, u64)>, srt: Seq<usize>, data2: Seq<(Bytes, u64)>, k: int, offset: int)
    requires
        perm(ord, data0.len() as int), sorted(data0, ord), placed(data0, ord, data, srt, k, offset), k < ord.len(),
        k > 0 ==> val(data, srt[k - 1] as int) != val(data, ord[k] as int),
        data2.len() == data.len(), forall|i: int| 0 <= i < data.len() && i != ord[k] ==> data2[i] == data[i],
        data2[ord[k] as int].0 == data[ord[k] as int].0, id(data2, ord[k] as int) == offset,
    ensures placed(data0, ord, data2, srt, k + 1, offset + val(data0, ord[k] as int).len()),
{
    let b = written(data, srt, k);
    written_same(data, srt, data2, srt, k);
    let b2 = written(data2, srt, k + 1);
    assert(b2 =~= b + val(data0, ord[k] as int));
    assert forall|i: int| 0 <= i < k + 1 implies found(data2, #[trigger] ord[i] as int, b2) by {
        let x = ord[i] as int;
        if i < k { assert(found(data, x, b)); }
        assert(b2.subrange(id(data2, x) as int, id(data2, x) + val(data2, x).len()) =~= val(data2, x));
    }
    assert(ord[k] == srt[k]);
    assert(total(data0, ord, k + 1) == total(data0, ord, k) + val(data0, ord[k] as int).len());
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] srt[i]) < ord.len() && has(ord, srt[i] as int, i + 1) && val(data2, srt[i] as int) == val(data0, ord[i] as int) && id(data2, srt[i] as int) == id(data2, ord[i] as int) by {
        if i < k {
            assert(has(ord, srt[i] as int, i + 1));
            let w = choose|w: int| 0 <= w < i + 1 && #[trigger] ord[w] == srt[i];
            assert(ord[w] != ord[k]);
            assert(ord[i] != ord[k]);
        }
    }
    assert forall|i: int, j: int| 0 <= i <= j < k + 1 implies spaced(data2, #[trigger] ord[i] as int, #[trigger] ord[j] as int) by {
        assert(i < k ==> ord[i] != ord[k]);
        assert(j < k ==> ord[j] != ord[k]);
        if j < k { assert(spaced(data, ord[i] as int, ord[j] as int)); }
        else if i < k {
            assert(found(data, ord[i] as int, b));
            let (x, y, z) = (val(data0, ord[i] as int), val(data0, ord[k - 1] as int), val(data0, ord[k] as int));
            assert(data[ord[k] as int].0 == data0[ord[k] as int].0);
            assert(val(data, srt[k - 1] as int) == y);
            assert(lex_le(x, y) && lex_le(y, z));
            if x == z { lex_antisym(x, y); }
        }
    }
}
pub proof fn place_same(data0: Seq<(Bytes, u64)>, ord: Seq<usize>, data: Seq<(Bytes, u64)>, srt: Seq<usize>, data2: Seq<(Bytes, u64)>, srt2: Seq<usize>, k: int, offset: int)
    requires
        perm(ord, data0.len() as int), placed(data0, ord, data, srt, k, offset), 0 < k < ord.len(),
        val(data, srt[k - 1] as int) == val(data, ord[k] as int),
        data2.len() == data.len(), forall|i: int| 0 <= i < data.len() && i != ord[k] ==> data2[i] == data[i],
        data2[ord[k] as int].0 == data[ord[k] as int].0, id(data2, ord[k] as int) == id(data, srt[k - 1] as int),
        srt2 == srt.update(k, srt[k - 1]),
    ensures placed(data0, ord, data2, srt2, k + 1, offset),
{
    let b = written(data, srt, k);
    written_same(data, srt, data2, srt2, k);
    let b2 = written(data2, srt2, k + 1);
    assert(srt2[k] == srt2[k - 1]);
    assert(b2 == b);
    assert(has(ord, srt[k - 1] as int, k));
    let w = choose|w: int| 0 <= w < k && ord[w] == srt[k - 1];
    assert(ord[w] != ord[k]);
    assert(found(data, ord[k - 1] as int, b));
    assert forall|i: int| 0 <= i < k + 1 implies found(data2, #[trigger] ord[i] as int, b2) by {
        let x = ord[i] as int;
        if i < k { assert(found(data, x, b)); } else { assert(found(data, ord[w] as int, b)); }
    }
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] srt2[i]) < ord.len() && has(ord, srt2[i] as int, i + 1) && val(data2, srt2[i] as int) == val(data0, ord[i] as int) && id(data2, srt2[i] as int) == id(data2, ord[i] as int) by {
        if i < k {
            assert(srt2[i] == srt[i]);
            assert(has(ord, srt[i] as int, i + 1));
            let w = choose|w: int| 0 <= w < i + 1 && #[trigger] ord[w] == srt[i];
            assert(ord[w] != ord[k] && ord[i] != ord[k]);
        } else {
            assert(ord[w] == srt2[i]);
            assert(val(data, srt[k - 1] as int) == val(data2, srt[k - 1] as int));
        }
    }
    assert forall|i: int, j: int| 0 <= i <= j < k + 1 implies spaced(data2, #[trigger] ord[i] as int, #[trigger] ord[j] as int) by {
        assert(i < k ==> ord[i] != ord[k]);
        assert(j < k ==> ord[j] != ord[k]);
        assert(id(data, srt[k - 1] as int) == id(data, ord[k - 1] as int));
        assert(val(data, srt[k - 1] as int) == val(data0, ord[k - 1] as int));
        assert(data[ord[k - 1] as int].0 == data0[ord[k - 1] as int].0);
        if j < k { assert(spaced(data, ord[i] as int, ord[j] as int)); }
        else if i < k { assert(spaced(data, ord[i] as int, ord[k - 1] as int)); }
    }
}

pub struct PlainValueStore(pub BaseValueStore);
impl PlainValueStore {
    pub open spec fn bytes(&self) -> Seq<u8> { written(self.0.data@, self.0.sorted_indirect@, self.0.sorted_indirect@.len() as int) }
    pub open spec fn final_inv(&self) -> bool {
        &&& self.0.finalized && self.0.sorted_indirect@.len() == self.0.data@.len()
        &&& forall|i: int| 0 <= i < self.0.data@.len() ==> (#[trigger] self.0.sorted_indirect@[i]) < self.0.data@.len()
        &&& self.0.size.0 == self.bytes().len()
        // every value is written where its id says
        &&& forall|k: int| 0 <= k < self.0.data@.len() ==> found(self.0.data@, k, self.bytes())
    }
    /*@fn src/creator/directory_pack/value_store.rs | impl PlainValueStore | finalize
    requires
        old(self).0.open_inv(),
        // assumed: the values of a store take less than 2^64 bytes of memory
        forall|ord: Seq<usize>| perm(ord, old(self).0.data@.len() as int) ==> total(old(self).0.data@, ord, ord.len() as int) <= u64::MAX,
    ensures
        final(self).final_inv(), final(self).0.idx == Some(idx), final(self).0.data@.len() == old(self).0.data@.len(),
        forall|k: int| 0 <= k < old(self).0.data@.len() ==> val(final(self).0.data@, k) == val(old(self).0.data@, k),
        // the ids follow the order of the values: equal values share theirs, different ones do not unless the smaller is empty
        forall|i: int, j: int| #![auto] 0 <= i < old(self).0.data@.len() && 0 <= j < old(self).0.data@.len()
            && lex_le(val(old(self).0.data@, i), val(old(self).0.data@, j)) ==> spaced(final(self).0.data@, i, j),
    @loop 1
        invariant
            n == ord.len(), n == self.0.sorted_indirect@.len(), next <= n,
            self.0.idx == Some(idx), perm(ord, n), sorted(data0, ord), total(data0, ord, n) <= u64::MAX,
            placed(data0, ord, self.0.data@, self.0.sorted_indirect@, next as int, offset as int),
            next == 0 ==> last_data_key is None, next > 0 ==> last_data_key == Some(self.0.sorted_indirect@[next - 1]),
        decreases n - next,
    @sub `/self\s*\.0\s*\.sorted_indirect\s*\.par_sort_unstable_by_key\(\|e\| &self\.0\.data\[\*e\]\.0\);/` => `sort_by_value(&mut self.0.sorted_indirect, &self.0.data);`
    @sub `/for (\w+) in self\.0\.sorted_indirect\.iter_mut\(\) \{/` => `let mut next: usize = 0; while next < self.0.sorted_indirect.len() { let k = next; next += 1; let ghost data1 = self.0.data@; let ghost srt1 = self.0.sorted_indirect@; let \1 = &mut self.0.sorted_indirect[k];`
    @sub `/assert_ne!\(([^,]*),([^;]*)\);/` => `runtime_assert(\1 != \2);`
    @start
        proof {
            let o = self.0.sorted_indirect@;
            assert forall|k: int| 0 <= k < o.len() implies #[trigger] has(o, k, o.len() as int) by { assert(o[k] == k); }
        }
    @before `data.1 = offset;`
            proof { total_mono(data0, ord, k as int + 1, n); assert(data.0@ == val(data0, ord[k as int] as int)); }
    @before `self.0.size = offset.into();`
        let ghost dfin = self.0.data@;
        let ghost bfin = self.bytes();
        proof {
            assert forall|x: int| 0 <= x < n implies found(self.0.data@, x, self.bytes()) by {
                assert(has(ord, x, n));
                let w = choose|w: int| 0 <= w < n && #[trigger] ord[w] == x;
                assert(found(self.0.data@, ord[w] as int, self.bytes()));
            }
            assert forall|x: int, y: int| #![auto] 0 <= x < n && 0 <= y < n && lex_le(val(data0, x), val(data0, y)) implies spaced(self.0.data@, x, y) by {
                assert(has(ord, x, n) && has(ord, y, n));
                let i = choose|w: int| 0 <= w < n && #[trigger] ord[w] == x;
                let j = choose|w: int| 0 <= w < n && #[trigger] ord[w] == y;
                assert(self.0.data@[x].0 == data0[x].0 && self.0.data@[y].0 == data0[y].0);
                if i > j {
                    assert(lex_le(val(data0, ord[j] as int), val(data0, ord[i] as int)));
                    lex_antisym(val(data0, x), val(data0, y));
                    assert(spaced(self.0.data@, ord[j] as int, ord[i] as int));
                } else {
                    assert(spaced(self.0.data@, ord[i] as int, ord[j] as int));
                }
            }
        }
    @after `self.0.finalized = true;`
        proof { assert(self.0.data@ == dfin && self.bytes() == bfin); assert(self.0.size.0 == offset); assert(self.0.size.0 == self.bytes().len());
            assert(forall|i: int| 0 <= i < self.0.data@.len() ==> (#[trigger] self.0.sorted_indirect@[i]) < self.0.data@.len());
            assert(forall|k: int| 0 <= k < self.0.data@.len() ==> found(dfin, k, bfin));
            assert forall|k: int| 0 <= k < self.0.data@.len() implies found(self.0.data@, k, self.bytes()) by { assert(found(dfin, k, bfin)); }
        }
    @before `let mut offset = 0;`
        let ghost data0 = self.0.data@;
        let ghost ord = self.0.sorted_indirect@;
        let ghost n = self.0.data@.len() as int;
    @before `continue;`
            proof { place_same(data0, ord, data1, srt1, self.0.data@, self.0.sorted_indirect@, k as int, offset as int); }
    @after `last_data_key = Some(*data_key);`
            proof { place_new(data0, ord, data1, srt1, self.0.data@, k as int, offset - val(data0, ord[k as int] as int).len());
                assert(self.0.sorted_indirect@ == srt1); assert(next == k + 1); 
            }
    @*/

    /*@fn src/creator/directory_pack/value_store.rs | impl PlainValueStore | add_value
    requires old(self).0.open_inv(),
    ensures
        final(self).0.open_inv(), r == old(self).0.data@.len(), final(self).0.data@.len() == r + 1, final(self).0.data@.last().0@ == data@,
        final(self).0.data@.drop_last() == old(self).0.data@,
    @sub `impl Into<Box<[u8]>>` => `Bytes`
    @*/

    /*@fn src/creator/directory_pack/value_store.rs | impl PlainValueStore | size
    ensures r == self.0.size
    @*/
    /*@fn src/creator/directory_pack/value_store.rs | impl PlainValueStore | key_size
    ensures r.ok(), self.0.size.0 < p256(r.0 as int)
    @*/
    /*@fn src/creator/directory_pack/value_store.rs | impl PlainValueStore | get
    requires self.0.finalized, idx < self.0.data@.len(),
    ensures
        r.0 == id(self.0.data@, idx as int),
    @*/

    /// an id is stored on key_size bytes
    proof fn id_fits(&self, k: int, w: int)
        requires self.final_inv(), 0 <= k < self.0.data@.len(), self.0.size.0 < p256(w),
        ensures id(self.0.data@, k) < p256(w),
    { assert(found(self.0.data@, k, self.bytes())); }

    /*@fn src/creator/directory_pack/value_store.rs | impl WritableTell for PlainValueStore | write_data
    requires old(self).final_inv(),
    ensures
        *final(self) == *old(self),
        r is Ok ==> final(stream).data@ == old(stream).data@ + old(self).bytes() + crc(old(self).bytes()),
    @loop 1
        invariant
            *self == *old(self), self.final_inv(), next <= self.0.sorted_indirect@.len(),
            serializer@ == written(self.0.data@, self.0.sorted_indirect@, next as int),
            next == 0 ==> last_data_key is None, next > 0 ==> last_data_key == Some(self.0.sorted_indirect@[next - 1]),
            stream.data@ == old(stream).data@,
        decreases self.0.sorted_indirect@.len() - next,
    @sub `&mut dyn OutStream` => `&mut OutStream`
    @sub `Result<()>` => `IoResult<()>`
    @sub `/for (\w+) in &self\.0\.sorted_indirect \{/` => `let mut next: usize = 0; while next < self.0.sorted_indirect.len() { let \1 = &self.0.sorted_indirect[next]; next += 1;`
    @*/

    /*@fn src/creator/directory_pack/value_store.rs | impl WritableTell for PlainValueStore | serialize_tail
    ensures
        *final(self) == *old(self),
        r is Ok ==> final(ser)@ == old(ser)@ + plain_tail(old(self).0.size.0),
    @sub `std::io::Result` => `IoResult`
    @before `Ok(())`
        proof { assert(ser@ =~= old(ser)@ + plain_tail(self.0.size.0)); }
    @*/
}
pub open spec fn plain_tail(size: u64) -> Seq<u8> { seq![0u8] + le(size, 8) }
impl Size {
    // proved elsewhere: Size::serialize: 8 bytes, little-endian: kani contracts of bases/types/size.rs
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>)
        ensures r is Ok ==> final(ser)@ == old(ser)@ + le(self.0, 8)
    { unimplemented!() }
}
impl ByteSize {
    // proved elsewhere: ByteSize::serialize: 1 byte: kani contracts of bases/types/byte_size.rs
    #[verifier::external_body]
    pub fn serialize(&self, ser: &mut Serializer) -> (r: IoResult<usize>)
        ensures r is Ok ==> final(ser)@ == old(ser)@.push(self.0)
    { unimplemented!() }
}

/// `&v[..n]`
// trusted: slicing of a vector (std)
#[verifier::external_body]
pub fn slice_to(v: &Vec<usize>, n: usize) -> (r: &[usize])
    requires n <= v@.len(),
    ensures r@ == v@.subrange(0, n as int)
{ &v[..n] }

// ---- indexed stores
/// `v.position(|(x, _)| data == x)`
// trusted: Iterator::position, ParallelIterator::position_any (std, rayon)
#[verifier::external_body]
pub fn position_of(v: &Vec<(Bytes, u64)>, data: &Bytes) -> (r: Option<usize>)
    ensures
        r matches Some(i) ==> i < v@.len() && val(v@, i as int) == data@,
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> val(v@, i) != data@,
{ unimplemented!() }

pub struct IndexedValueStore(pub BaseValueStore);
pub proof fn total_same(data: Seq<(Bytes, u64)>, ord: Seq<usize>, data2: Seq<(Bytes, u64)>, ord2: Seq<usize>, n: int)
    requires
        n <= ord.len(), n <= ord2.len(), forall|i: int| 0 <= i < n ==> ord[i] == ord2[i] && ord[i] < data.len(),
        data.len() <= data2.len(), forall|k: int| 0 <= k < data.len() ==> val(data, k) == val(data2, k),
    ensures total(data, ord, n) == total(data2, ord2, n), joined(data, ord, n) == joined(data2, ord2, n),
    decreases n,
{ if n > 0 { total_same(data, ord, data2, ord2, n - 1); } }
/// the bytes of the first n values, in that order
pub open spec fn joined(data: Seq<(Bytes, u64)>, ord: Seq<usize>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { joined(data, ord, n - 1) + val(data, ord[n - 1] as int) } }
/// the number of bytes of the values 0..n
pub open spec fn sum_first(data: Seq<(Bytes, u64)>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum_first(data, n - 1) + val(data, n - 1).len() } }
pub proof fn total_remove(data: Seq<(Bytes, u64)>, ord: Seq<usize>, w: int, n: int)
    requires 0 <= w < n <= ord.len(),
    ensures total(data, ord, n) == total(data, ord.remove(w), n - 1) + val(data, ord[w] as int).len(),
    decreases n,
{
    let r = ord.remove(w);
    if w == n - 1 { total_prefix(data, ord, r, n - 1); } else { total_remove(data, ord, w, n - 1); assert(r[n - 2] == ord[n - 1]); }
}
pub proof fn total_prefix(data: Seq<(Bytes, u64)>, ord: Seq<usize>, ord2: Seq<usize>, n: int)
    requires n <= ord.len(), n <= ord2.len(), forall|i: int| 0 <= i < n ==> ord[i] == ord2[i],
    ensures total(data, ord, n) == total(data, ord2, n),
    decreases n,
{ if n > 0 { total_prefix(data, ord, ord2, n - 1); } }
/// the sum of the lengths does not depend on the order
pub proof fn sum_of_perm(data: Seq<(Bytes, u64)>, ord: Seq<usize>, n: int)
    requires perm(ord, n), 0 <= n <= data.len(),
    ensures total(data, ord, n) == sum_first(data, n),
    decreases n,
{
    if n > 0 {
        assert(has(ord, n - 1, n));
        let w = choose|i: int| 0 <= i < n && #[trigger] ord[i] == n - 1;
        let r = ord.remove(w);
        total_remove(data, ord, w, n);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] has(r, k, n - 1) by {
            assert(has(ord, k, n));
            let x = choose|i: int| 0 <= i < n && #[trigger] ord[i] == k;
            if x < w { assert(r[x] == k); } else { assert(r[x - 1] == k); }
        }
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] r[i]) < n - 1 by {
            let x = if i < w { i } else { i + 1 };
            assert(r[i] == ord[x] && ord[x] < n && ord[x] != ord[w]);
        }
        sum_of_perm(data, r, n - 1);
    }
}
pub proof fn joined_len(data: Seq<(Bytes, u64)>, ord: Seq<usize>, n: int)
    ensures joined(data, ord, n).len() == total(data, ord, n), total(data, ord, n) >= 0,
    decreases n,
{ if n > 0 { joined_len(data, ord, n - 1); } }
impl IndexedValueStore {
    pub open spec fn sum(&self) -> int { total(self.0.data@, self.0.sorted_indirect@, self.0.sorted_indirect@.len() as int) }
    pub open spec fn open_inv(&self) -> bool {
        &&& self.0.open_inv()
        &&& forall|i: int, j: int| 0 <= i < j < self.0.data@.len() ==> val(self.0.data@, i) != val(self.0.data@, j)
        &&& self.0.size.0 == self.sum()
    }
    pub proof fn added(before: IndexedValueStore, now: IndexedValueStore)
        requires
            before.open_inv(), now.0.open_inv(), now.0.data@.len() == before.0.data@.len() + 1, now.0.data@.drop_last() =~= before.0.data@,
            now.0.size.0 == before.0.size.0 + now.0.data@.last().0@.len(),
            forall|i: int| 0 <= i < before.0.data@.len() ==> val(before.0.data@, i) != now.0.data@.last().0@,
        ensures now.open_inv(), forall|i: int| 0 <= i < before.0.data@.len() ==> val(now.0.data@, i) == val(before.0.data@, i),
    {
        let n = before.0.data@.len() as int;
        assert forall|i: int| 0 <= i < n implies val(now.0.data@, i) == val(before.0.data@, i) by { assert(now.0.data@.drop_last()[i] == before.0.data@[i]); }
        total_same(before.0.data@, before.0.sorted_indirect@, now.0.data@, now.0.sorted_indirect@, n);
        assert(now.0.sorted_indirect@[n] == n);
    }
    /*@fn src/creator/directory_pack/value_store.rs | impl IndexedValueStore | add_value
    requires old(self).open_inv(), old(self).0.size.0 + data@.len() <= u64::MAX,
    ensures
        final(self).open_inv(), r < final(self).0.data@.len(), val(final(self).0.data@, r as int) == data@,
        forall|i: int| 0 <= i < old(self).0.data@.len() ==> i < final(self).0.data@.len() && val(final(self).0.data@, i) == val(old(self).0.data@, i),
    @sub `impl Into<Box<[u8]>>` => `Bytes`
    @sub `data.into()` => `data`
    @sub `self.0.add_value(data)` => `{ let r = self.0.add_value(data); proof { Self::added(*old(self), *self); } r }`
    @sub `/self\s*\.0\s*\.data\s*\.par_iter\(\)\s*\.position_any\(\|\(existing_data, _\)\| &data == existing_data\)/` => `position_of(&self.0.data, &data)`
    @sub `/self\s*\.0\s*\.data\s*\.iter\(\)\s*\.position\(\|\(existing_data, _\)\| &data == existing_data\)/` => `position_of(&self.0.data, &data)`
    @*/

    pub open spec fn bytes(&self) -> Seq<u8> { joined(self.0.data@, self.0.sorted_indirect@, self.0.data@.len() as int) }
    /// where the i-th value ends
    pub open spec fn end(&self, i: int) -> int { total(self.0.data@, self.0.sorted_indirect@, i + 1) }
    pub open spec fn final_inv(&self) -> bool {
        &&& self.0.finalized && perm(self.0.sorted_indirect@, self.0.data@.len() as int)
        &&& self.0.size.0 == self.sum()
        // the id of a value is its place
        &&& forall|i: int| 0 <= i < self.0.data@.len() ==> id(self.0.data@, (#[trigger] self.0.sorted_indirect@[i]) as int) == i
    }
    /*@fn src/creator/directory_pack/value_store.rs | impl IndexedValueStore | finalize
    requires old(self).open_inv(),
    ensures
        final(self).final_inv(), final(self).0.idx == Some(idx), final(self).0.data@.len() == old(self).0.data@.len(),
        forall|k: int| 0 <= k < old(self).0.data@.len() ==> val(final(self).0.data@, k) == val(old(self).0.data@, k),
        // ids follow the order of the values
        sorted(final(self).0.data@, final(self).0.sorted_indirect@),
    @sub `/self\s*\.0\s*\.sorted_indirect\s*\.par_sort_by_key\(\|e\| &self\.0\.data\[\*e\]\.0\);/` => `sort_by_value(&mut self.0.sorted_indirect, &self.0.data);`
    @sub `/for \((\w+), (\w+)\) in self\.0\.sorted_indirect\.iter\(\)\.enumerate\(\) \{/` => `for \1 in 0..self.0.sorted_indirect.len() { let \2 = &self.0.sorted_indirect[\1];`
    @start
        let ghost idx0 = idx;
        let ghost data0 = self.0.data@;
        let ghost n = data0.len() as int;
        proof {
            let o = self.0.sorted_indirect@;
            assert forall|k: int| 0 <= k < o.len() implies #[trigger] has(o, k, n) by { assert(o[k] == k); }
            sum_of_perm(data0, o, n);
        }
    @loop 1
        invariant
            self.0.idx == Some(idx0), self.0.data@.len() == n, data0.len() == n, perm(self.0.sorted_indirect@, n), sorted(data0, self.0.sorted_indirect@),
            forall|k: int| 0 <= k < n ==> (#[trigger] self.0.data@[k]).0 == data0[k].0,
            self.0.size.0 == sum_first(data0, n),
            forall|i: int| 0 <= i < idx ==> id(self.0.data@, (#[trigger] self.0.sorted_indirect@[i]) as int) == i,
    @before `self.0.finalized = true;`
        proof {
            sum_of_perm(data0, self.0.sorted_indirect@, n);
            total_same(data0, self.0.sorted_indirect@, self.0.data@, self.0.sorted_indirect@, n);
            let o = self.0.sorted_indirect@;
            assert forall|i: int, j: int| 0 <= i <= j < n implies lex_le(val(self.0.data@, o[i] as int), val(self.0.data@, o[j] as int)) by {
                assert(self.0.data@[o[i] as int].0 == data0[o[i] as int].0 && self.0.data@[o[j] as int].0 == data0[o[j] as int].0);
                assert(lex_le(val(data0, o[i] as int), val(data0, o[j] as int)));
            }
        }
    @*/

    /*@fn src/creator/directory_pack/value_store.rs | impl IndexedValueStore | key_size
    ensures r.ok(), self.0.sorted_indirect@.len() < p256(r.0 as int)
    @sub `needed_bytes(self.0.sorted_indirect.len())` => `needed_bytes(self.0.sorted_indirect.len() as u64)`
    @*/
    /*@fn src/creator/directory_pack/value_store.rs | impl IndexedValueStore | get
    requires self.0.finalized, idx < self.0.data@.len(),
    ensures r.0 == id(self.0.data@, idx as int),
    @*/
    /*@fn src/creator/directory_pack/value_store.rs | impl WritableTell for IndexedValueStore | write_data
    requires old(self).final_inv(),
    ensures
        *final(self) == *old(self),
        r is Ok ==> final(stream).data@ == old(stream).data@ + old(self).bytes() + crc(old(self).bytes()),
    @loop 1 it
        invariant
            *self == *old(self), self.final_inv(), it.seq().len() == self.0.sorted_indirect@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0.sorted_indirect@[i],
            serializer@ == joined(self.0.data@, self.0.sorted_indirect@, it.index@),
            stream.data@ == old(stream).data@,
    @sub `&mut dyn OutStream` => `&mut OutStream`
    @sub `Result<()>` => `IoResult<()>`
    @*/
    /// the ends of the values but the last
    pub open spec fn all_ends(&self) -> Seq<u64> { Seq::new(self.0.data@.len(), |i: int| self.end(i) as u64) }
    pub open spec fn tail(&self, w: ByteSize) -> Seq<u8> {
        let n = self.0.data@.len() as int;
        seq![1u8] + le(n as u64, 8) + seq![w.0] + le(self.0.size.0, w.0 as int) + ends(self.all_ends(), w.0 as int, n - 1)
    }
    /*@fn src/creator/directory_pack/value_store.rs | impl WritableTell for IndexedValueStore | serialize_tail
    requires old(self).final_inv(),
    ensures
        *final(self) == *old(self),
        r is Ok ==> exists|w: ByteSize| #![auto] w.ok() && old(self).0.size.0 < p256(w.0 as int) && final(ser)@ == old(ser)@ + old(self).tail(w),
    @sub `std::io::Result` => `IoResult`
    @sub `/&self\.0\.sorted_indirect\[\.\.\(self\.0\.sorted_indirect\.len\(\) - 1\)\]/` => `slice_to(&self.0.sorted_indirect, self.0.sorted_indirect.len() - 1)`
    @loop 1 it
        invariant
            *self == *old(self), self.final_inv(), offset_size.ok(), self.0.size.0 < p256(offset_size.0 as int), self.0.sorted_indirect@.len() > 0,
            it.seq().len() == self.0.sorted_indirect@.len() - 1,
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0.sorted_indirect@[i],
            offset == total(self.0.data@, self.0.sorted_indirect@, it.index@),
            ser@ == before + ends(self.all_ends(), offset_size.0 as int, it.index@),
    @before `if !self.0.sorted_indirect.is_empty()`
        let ghost before = ser@;
    @before `let data = &self.0.data[*idx].0;`
                proof {
                    let o = self.0.sorted_indirect@;
                    total_mono(self.0.data@, o, it.index@ + 1, o.len() as int);
                }
    @before `Ok(())`
        proof { assert(ser@ =~= old(ser)@ + self.tail(offset_size)); }
    @*/
}

// ---- as read
/// the bytes of a checked region, in memory
pub struct CheckReader { pub data: Ghost<Seq<u8>> }
pub enum Cow<'a> { Borrowed(&'a [u8]), Owned(u8) }
impl CheckReader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    // proved elsewhere: CheckReader::get_slice: the asked bytes of the region, an error outside of it: kani contract of bases/reader.rs
    // assumed: a region cut with in_memory (cut_check always asks for it) is on a source that lends its bytes (Cow::Borrowed)
    #[verifier::external_body]
    pub fn get_slice(&self, offset: Offset, size: ASize) -> (r: Result<Cow>)
        ensures
            r is Ok <==> offset.0 + size.0 <= self@.len(),
            r matches Ok(c) ==> c matches Cow::Borrowed(s) && s@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    { unimplemented!() }
}
pub struct Reader { pub data: Ghost<Seq<u8>> }
impl Reader {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
    // proved elsewhere: Reader::cut_check: the asked part of the region, which its checksum follows: kani contracts of bases/reader.rs, bases/io/buffer.rs
    #[verifier::external_body]
    pub fn cut_check(&self, offset: Offset, size: Size, check: BlockCheck) -> (r: Result<CheckReader>)
        ensures
            r matches Ok(x) ==> offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0)
                && (check == BlockCheck::Crc32 ==> offset.0 + size.0 + 4 <= self@.len() && self@.subrange(offset.0 + size.0, offset.0 + size.0 + 4) == crc(x@)),
    { unimplemented!() }
}
impl BlockCheck {
    /*@fn src/bases/block.rs | impl BlockCheck | size
    ensures r == (if *self == BlockCheck::None { 0int } else { 4 })
    @*/
}
#[verifier::external_body]
pub fn format_error() -> Error { unimplemented!() }
// proved elsewhere: Size::parse, Count::parse, ByteSize::parse: kani contracts of bases/types
impl Size {
    #[verifier::external_body]
    pub fn parse(parser: &mut Parser) -> (r: Result<Size>)
        requires old(parser).ok(),
        ensures
            final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
            r is Ok <==> old(parser).has(8),
            r matches Ok(v) ==> v.0 == unle(old(parser).next(8)) && final(parser).pos() == old(parser).pos() + 8,
    { unimplemented!() }
}
impl ValueCount {
    #[verifier::external_body]
    pub fn parse(parser: &mut Parser) -> (r: Result<ValueCount>)
        requires old(parser).ok(),
        ensures
            final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
            r is Ok <==> old(parser).has(8),
            r matches Ok(v) ==> v.0 == unle(old(parser).next(8)) && final(parser).pos() == old(parser).pos() + 8,
    { unimplemented!() }
}
impl ByteSize {
    #[verifier::external_body]
    pub fn parse(parser: &mut Parser) -> (r: Result<ByteSize>)
        requires old(parser).ok(),
        ensures
            final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
            r is Ok <==> old(parser).has(1) && 1 <= old(parser).bytes()[old(parser).pos()] <= 8,
            r matches Ok(v) ==> v.ok() && v.0 == old(parser).bytes()[old(parser).pos()] && final(parser).pos() == old(parser).pos() + 1,
    { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ValueStoreKind { Plain, Indexed }
pub mod read {
use super::*;
pub open spec fn sized(s: Option<ASize>) -> int { match s { Some(a) => a.0 as int, None => 0 } }
pub struct PlainValueStore { pub reader: CheckReader }
pub struct IndexedValueStore { pub value_offsets: Vec<Offset>, pub reader: CheckReader }
impl PlainValueStore {
    /*@fn src/reader/directory_pack/value_store.rs | impl PlainValueStore | get_data
    ensures
        r is Ok <==> (size matches Some(s) && id.0 + s.0 <= self.reader@.len()),
        r matches Ok(b) ==> b@ == self.reader@.subrange(id.0 as int, id.0 + sized(size)),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @sub `/unreachable!\("[^"]*"\)/` => `vstd::pervasive::unreached()`
    @*/
}
impl IndexedValueStore {
    pub open spec fn inv(&self) -> bool {
        &&& 1 <= self.value_offsets@.len() <= 0x1_0000
        &&& forall|i: int, j: int| 0 <= i <= j < self.value_offsets@.len() ==> self.value_offsets@[i].0 <= self.value_offsets@[j].0
        &&& self.value_offsets@.last().0 == self.reader@.len()
    }
    /*@fn src/reader/directory_pack/value_store.rs | impl IndexedValueStore | get_data
    requires self.inv(), id.0 < usize::MAX,
    ensures
        id.0 + 1 >= self.value_offsets@.len() ==> r is Err,
        id.0 + 1 < self.value_offsets@.len() && size is None ==> r is Ok
            && r->Ok_0@ == self.reader@.subrange(self.value_offsets@[id.0 as int].0 as int, self.value_offsets@[id.0 + 1].0 as int),
        r is Ok && size is Some ==> self.value_offsets@[id.0 as int].0 + sized(size) <= self.reader@.len()
            && r->Ok_0@ == self.reader@.subrange(self.value_offsets@[id.0 as int].0 as int, self.value_offsets@[id.0 as int].0 + sized(size)),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @sub `/unreachable!\("[^"]*"\)/` => `vstd::pervasive::unreached()`
    @sub `assert!(` => `runtime_assert(`
    @*/
}
/// where the i-th number of an indexed tail (number 0: the size of the data) starts
#[verifier::opaque]
pub open spec fn at(p: int, w: int, i: int) -> int { p + 10 + i * w }
pub proof fn at_step(p: int, w: int, i: int, n: int)
    requires 0 <= i <= n, 1 <= w,
    ensures at(p, w, 0) == p + 10, at(p, w, 1) == p + 10 + w, at(p, w, i + 1) == at(p, w, i) + w, at(p, w, i) <= at(p, w, n),
{
    reveal(at);
    assert(0 * w == 0 && 1 * w == w);
    assert((i + 1) * w == i * w + w) by (nonlinear_arith);
    assert(i * w <= n * w) by (nonlinear_arith) requires 0 <= i <= n, 1 <= w;
}
pub open spec fn number(s: Seq<u8>, p: int, w: int, i: int) -> u64 { unle(s.subrange(at(p, w, i), at(p, w, i + 1))) }
pub open spec fn start_at(s: Seq<u8>, p: int, w: int, i: int) -> u64 { if i == 0 { 0 } else { number(s, p, w, i) } }
pub open spec fn plain_readable(s: Seq<u8>, p: int) -> bool { p + 9 <= s.len() && s[p] == 0 }
pub open spec fn indexed_readable(s: Seq<u8>, p: int) -> bool {
    let n = unle(s.subrange(p + 1, p + 9)) as int;
    let w = s[p + 9] as int;
    &&& p + 10 <= s.len() && s[p] == 1 && 1 <= w <= 8 && n <= 0xFFFF
    &&& at(p, w, if n == 0 { 1 } else { n }) <= s.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] start_at(s, p, w, i) <= number(s, p, w, 0)
    &&& forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] start_at(s, p, w, i) <= #[trigger] start_at(s, p, w, j)
}

impl ValueStoreKind {
    /*@fn src/reader/directory_pack/value_store.rs | impl Parsable for ValueStoreKind | parse
    requires old(parser).ok(),
    ensures
        final(parser).ok(), final(parser).bytes() == old(parser).bytes(),
        r is Ok <==> old(parser).has(1) && old(parser).bytes()[old(parser).pos()] <= 1,
        r matches Ok(v) ==> final(parser).pos() == old(parser).pos() + 1
            && v == (if old(parser).bytes()[old(parser).pos()] == 0 { ValueStoreKind::Plain } else { ValueStoreKind::Indexed }),
    @sub `&mut impl Parser` => `&mut Parser`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @*/
}
pub enum ValueStoreBuilder { Plain, Indexed(Vec<Offset>) }
impl ValueStoreBuilder {
    /*@fn src/reader/directory_pack/value_store.rs | impl Parsable for ValueStoreBuilder | parse
    requires old(parser).ok(),
    ensures
        r is Ok <==> plain_readable(old(parser).bytes(), old(parser).pos()) || indexed_readable(old(parser).bytes(), old(parser).pos()),
        r matches Ok((b, size)) ==> {
            let s = old(parser).bytes();
            let p = old(parser).pos();
            let n = unle(s.subrange(p + 1, p + 9)) as int;
            let w = s[p + 9] as int;
            match b {
                ValueStoreBuilder::Plain => s[p] == 0 && size.0 == unle(s.subrange(p + 1, p + 9)),
                ValueStoreBuilder::Indexed(v) => {
                    &&& s[p] == 1 && size.0 == number(s, p, w, 0)
                    &&& v@.len() == n + 1
                    &&& forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).0 == start_at(s, p, w, i)
                    &&& v@[n].0 == size.0
                    &&& forall|i: int, j: int| 0 <= i <= j <= n ==> v@[i].0 <= v@[j].0
                }
            }
        },
    @loop 1 it
        invariant
            offset_size.ok(), w == offset_size.0, s == old(parser).bytes(), p == old(parser).pos(), 0 <= p, p + 10 <= s.len(),
            s[p] == 1, w == s[p + 9], value_count == unle(s.subrange(p + 1, p + 9)), value_count <= 0xFFFF,
            data_size.0 == number(s, p, w, 0), at(p, w, 1) <= s.len(),
            parser.ok(), parser.bytes() == s,
            parser.pos() == at(p, w, if it.index@ == 0 { 1 } else { it.index@ as int }),
            it.index@ <= value_count, it.seq().len() == value_count,
            value_offsets@.len() == it.index@,
            first == (it.index@ == 0),
            it.index@ > 0 ==> previous == value_offsets@[it.index@ - 1],
            it.index@ == 0 ==> previous.0 == 0,
            it.index@ > 0 ==> at(p, w, it.index@ as int) <= s.len(),
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] value_offsets@[i]).0 == start_at(s, p, w, i),
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] start_at(s, p, w, i)) <= data_size.0,
            forall|i: int, j: int| 0 <= i <= j < it.index@ ==> #[trigger] start_at(s, p, w, i) <= #[trigger] start_at(s, p, w, j),
            forall|i: int, j: int| 0 <= i <= j < it.index@ ==> value_offsets@[i].0 <= value_offsets@[j].0,
    @before `let data_size: Size = parser.read_usized(offset_size)?.into();`
                proof { at_step(old(parser).pos(), offset_size.0 as int, 0, value_count.0 as int); if value_count.0 > 0 { at_step(old(parser).pos(), offset_size.0 as int, 1, value_count.0 as int); } }
    @before `let mut first = true;`
        let ghost s = old(parser).bytes();
        let ghost p = old(parser).pos();
        let ghost w = offset_size.0 as int;
        proof { at_step(p, w, 0, value_count as int); }
    @before `let value`
            proof {
                at_step(p, w, it.index@ as int, value_count as int);
                at_step(p, w, it.index@ as int + 1, value_count as int);
            }
    @before `if value < previous`
            proof { assert(value.0 == start_at(s, p, w, it.index@)); if it.index@ > 0 { assert(previous.0 == start_at(s, p, w, it.index@ - 1)); } }
    @sub `Result<Self::Output>` => `Result<(ValueStoreBuilder, Size)>`
    @sub `&mut impl Parser` => `&mut Parser`
    @sub `Count::<u64>::parse(parser)?.into()` => `ValueCount::parse(parser)?`
    @sub `let uninit = value_offsets.spare_capacity_mut();` => ``
    @sub `for elem in &mut uninit[0..value_count]` => `for elem in 0..value_count`
    @sub `elem.write(value);` => `value_offsets.push(value);`
    @sub `unsafe { value_offsets.set_len(value_count) }` => ``
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @*/
}
pub enum ValueStore { Plain(PlainValueStore), Indexed(IndexedValueStore) }
impl ValueStore {
    pub open spec fn inv(&self) -> bool { *self matches ValueStore::Indexed(s) ==> s.inv() }
    pub open spec fn data(&self) -> Seq<u8> { match *self { ValueStore::Plain(s) => s.reader@, ValueStore::Indexed(s) => s.reader@ } }
    /*@fn src/reader/directory_pack/value_store.rs | impl DataBlockParsable for ValueStore | finalize
    requires
        // what ValueStoreBuilder::parse ensures
        intermediate.0 matches ValueStoreBuilder::Indexed(v) ==> {
            &&& 1 <= v@.len() <= 0x1_0000
            &&& forall|i: int, j: int| 0 <= i <= j < v@.len() ==> v@[i].0 <= v@[j].0
            &&& v@.last().0 == intermediate.1.0
        },
    ensures
        r matches Ok(store) ==> {
            &&& store.inv()
            // the data_size bytes that precede their checksum and the tail, and that checksum is right
            &&& intermediate.1.0 + 4 <= header_offset.0 <= reader@.len()
            &&& store.data() == reader@.subrange(header_offset.0 - 4 - intermediate.1.0, header_offset.0 - 4)
            &&& reader@.subrange(header_offset.0 - 4, header_offset.0 as int) == crc(store.data())
            &&& match intermediate.0 {
                ValueStoreBuilder::Plain => store is Plain,
                ValueStoreBuilder::Indexed(v) => store matches ValueStore::Indexed(s) && s.value_offsets@ == v@,
            }
        },
    @sub `Result<Self::Output>` => `Result<ValueStore>`
    @sub `|end| end.checked_sub(data_size.into_u64())` => `|end: u64| -> (q: Option<u64>) ensures end < data_size.0 ==> q is None, end >= data_size.0 ==> q == Some((end - data_size.0) as u64) { end.checked_sub(data_size.into_u64()) }`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `format_error()`
    @*/
    /*@fn src/reader/directory_pack/value_store.rs | impl ValueStoreTrait for ValueStore | get_data
    requires self.inv(), id.0 < usize::MAX,
    ensures
        *self matches ValueStore::Plain(s) ==> {
            &&& r is Ok <==> (size matches Some(z) && id.0 + z.0 <= s.reader@.len())
            &&& r matches Ok(b) ==> b@ == s.reader@.subrange(id.0 as int, id.0 + sized(size))
        },
        *self matches ValueStore::Indexed(s) ==> {
            &&& id.0 + 1 >= s.value_offsets@.len() ==> r is Err
            &&& id.0 + 1 < s.value_offsets@.len() && size is None ==> r is Ok
                && r->Ok_0@ == s.reader@.subrange(s.value_offsets@[id.0 as int].0 as int, s.value_offsets@[id.0 + 1].0 as int)
            &&& r is Ok && size is Some ==> s.value_offsets@[id.0 as int].0 + sized(size) <= s.reader@.len()
                && r->Ok_0@ == s.reader@.subrange(s.value_offsets@[id.0 as int].0 as int, s.value_offsets@[id.0 as int].0 + sized(size))
        },
    @*/
}
} // mod read

/// ValueStoreBuilder::parse (whose contract is indexed_readable/start_at) gives back the ends serialize_tail was given
pub proof fn tail_is_read_back(store: IndexedValueStore, w: ByteSize)
    requires
        store.final_inv(), w.ok(), store.0.size.0 < p256(w.0 as int), store.0.data@.len() <= 0xFFFF,
    ensures ({
        let s = store.tail(w);
        let n = store.0.data@.len() as int;
        let ww = w.0 as int;
        &&& read::indexed_readable(s, 0)
        &&& unle(s.subrange(1, 9)) == n && s[9] == w.0
        &&& read::number(s, 0, ww, 0) == store.0.size.0
        // value i goes from the end of the one before to its own
        &&& forall|i: int| 0 < i < n ==> #[trigger] read::start_at(s, 0, ww, i) == store.end(i - 1)
        &&& s.len() == 10 + (if n == 0 { 1 } else { n }) * ww
    }),
{
    broadcast use bytes_lemmas::lemma_le;
    let s = store.tail(w);
    let n = store.0.data@.len() as int;
    let ww = w.0 as int;
    let o = store.0.sorted_indirect@;
    let e = ends(store.all_ends(), ww, n - 1);
    reveal(read::at);
    assert forall|i: int| 0 <= i < n implies #[trigger] store.end(i) <= store.0.size.0 by { total_mono(store.0.data@, o, i + 1, n); }
    assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] store.end(i) <= #[trigger] store.end(j) by { total_mono(store.0.data@, o, i + 1, j + 1); }
    assert forall|i: int| 0 <= i < n - 1 implies store.all_ends()[i] == store.end(i) && store.all_ends()[i] < p256(ww) by { total_mono(store.0.data@, o, 0, i + 1); assert(store.end(i) <= store.0.size.0); }
    if n > 0 { ends_len(store.all_ends(), ww, n - 1); }
    assert((n - 1) * ww + ww == n * ww) by (nonlinear_arith);
    assert(0 * ww == 0 && 1 * ww == ww);
    assert(s[0] == 1 && s[9] == w.0);
    assert(s.subrange(1, 9) =~= le(n as u64, 8));
    assert(s.subrange(10, 10 + ww) =~= le(store.0.size.0, ww));
    assert(n < p256(8)) by (compute);
    assert forall|i: int| 0 < i < n implies #[trigger] read::start_at(s, 0, ww, i) == store.end(i - 1) by {
        ends_at(store.all_ends(), ww, n - 1, i - 1);
        assert((i - 1) * ww + ww == i * ww && i * ww + ww == (i + 1) * ww) by (nonlinear_arith);
        assert(s.subrange(read::at(0, ww, i), read::at(0, ww, i + 1)) =~= e.subrange((i - 1) * ww, (i - 1) * ww + ww));
    }
    assert(read::start_at(s, 0, ww, 0) == 0);
}
} // verus!
fn main() {}
