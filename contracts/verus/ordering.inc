/// std::cmp::Ordering (with the equality Verus knows)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Ordering { Less, Equal, Greater }
impl Ordering {
    pub fn is_eq(self) -> (r: bool) ensures r == (self == Ordering::Equal) { match self { Ordering::Equal => true, _ => false } }
    pub fn is_ne(self) -> (r: bool) ensures r == (self != Ordering::Equal) { match self { Ordering::Equal => false, _ => true } }
    pub fn is_lt(self) -> (r: bool) ensures r == (self == Ordering::Less) { match self { Ordering::Less => true, _ => false } }
    pub fn is_gt(self) -> (r: bool) ensures r == (self == Ordering::Greater) { match self { Ordering::Greater => true, _ => false } }
    pub fn is_le(self) -> (r: bool) ensures r == (self != Ordering::Greater) { match self { Ordering::Greater => false, _ => true } }
    pub fn is_ge(self) -> (r: bool) ensures r == (self != Ordering::Less) { match self { Ordering::Less => false, _ => true } }
}
