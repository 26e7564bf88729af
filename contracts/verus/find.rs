/*@ C03: RangeTrait::find, get_entry: over any range and any comparator whose answers are ordered (when it says so),
the lookup returns an entry of the range that compares equal exactly when there is one; linear and binary search
agree on that; an entry past the window is not created, one inside is created at offset + id. */
use vstd::prelude::*;
verus! {
/*@types EntryIdx EntryCount u32 @*/
/*@include ordering.inc @*/

pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;

// assumed: a comparator answers the same thing each time it is asked for the same entry (or fails)
pub trait CompareTrait {
    spec fn spec_ordered(&self) -> bool;
    spec fn at(&self, i: int) -> Ordering;
    fn ordered(&self) -> (r: bool)
        ensures r == self.spec_ordered();
    fn compare_entry(&self, idx: EntryIdx) -> (r: Result<Ordering>)
        ensures r matches Ok(o) ==> o == self.at(idx.0 as int);
}

pub trait BuilderTrait {
    type Entry;
    type Error;
    spec fn entry(&self, i: int) -> Option<Self::Entry>;
    fn create_entry(&self, idx: EntryIdx) -> (r: std::result::Result<Option<Self::Entry>, Self::Error>)
        ensures r matches Ok(e) ==> e == self.entry(idx.0 as int);
}

/// entries are in the order of the comparator: first those before the key, then the equal ones, then the others
pub open spec fn sorted<C: CompareTrait>(c: &C, o: int, n: int) -> bool {
    forall|i: int, j: int| o <= i < j < o + n ==>
        (c.at(j) == Ordering::Less ==> c.at(i) == Ordering::Less) && (c.at(i) == Ordering::Greater ==> c.at(j) == Ordering::Greater)
}

pub trait RangeTrait {
    spec fn n(&self) -> int;
    spec fn o(&self) -> int;
    fn count(&self) -> (r: EntryCount) ensures r.0 == self.n();
    fn offset(&self) -> (r: EntryIdx) ensures r.0 == self.o();

    /*@fn src/reader/directory_pack/range.rs | trait RangeTrait | get_entry
    requires
        // assumed: offset + count of an index fits on 32 bits (both come from a block with a checksum)
        self.o() + self.n() <= u32::MAX,
    ensures
        r matches Ok(e) ==> e == (if id.0 < self.n() { builder.entry(self.o() + id.0) } else { None }),
        id.0 >= self.n() ==> r is Ok,
    @*/

    /*@fn src/reader/directory_pack/range.rs | trait RangeTrait | find
    requires
        self.o() + self.n() <= u32::MAX,
    ensures
        r matches Ok(Some(i)) ==> i.0 < self.n() && comparator.at(self.o() + i.0) == Ordering::Equal,
        r matches Ok(None) ==> (comparator.spec_ordered() ==> sorted(comparator, self.o(), self.n())) ==>
            forall|i: int| self.o() <= i < self.o() + self.n() ==> comparator.at(i) != Ordering::Equal,
    @loop 1
        invariant
            comparator.spec_ordered(),
            self.o() + self.n() <= u32::MAX,
            left.0 + size.0 == right.0,
            left.0 <= right.0 <= self.n(),
            sorted(comparator, self.o(), self.n()) ==> {
                &&& forall|i: int| self.o() <= i < self.o() + left.0 ==> comparator.at(i) == Ordering::Less
                &&& forall|i: int| self.o() + right.0 <= i < self.o() + self.n() ==> comparator.at(i) == Ordering::Greater
            },
        decreases right.0 - left.0
    @loop 2 it
        invariant
            !comparator.spec_ordered(),
            self.o() + self.n() <= u32::MAX,
            it.seq().len() == self.n(),
            forall|j: int| 0 <= j < self.n() ==> it.seq()[j].0 == j,
            forall|i: int| self.o() <= i < self.o() + it.index@ ==> comparator.at(i) != Ordering::Equal,
    @*/
}
}
fn main() {}
