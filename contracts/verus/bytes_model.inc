/// an array of bytes (Box<[u8]>)
pub struct Bytes { pub v: Ghost<Seq<u8>> }
impl Bytes {
    pub open spec fn view(&self) -> Seq<u8> { self.v@ }
    // trusted: Box<[u8]> (std): len, ==, deref
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Bytes) -> bool { self@ == o@ }
}
impl PartialEq for Bytes {
    #[verifier::external_body]
    fn eq(&self, o: &Bytes) -> bool { unimplemented!() }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// lexicographic order
pub open spec fn lex_le(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{ a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && lex_le(a.drop_first(), b.drop_first())))) }
pub proof fn lex_antisym(a: Seq<u8>, b: Seq<u8>)
    requires lex_le(a, b), lex_le(b, a),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 { assert(a =~= b); } else {
        lex_antisym(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub proof fn lex_refl(a: Seq<u8>)
    ensures lex_le(a, a),
    decreases a.len(),
{ if a.len() > 0 { lex_refl(a.drop_first()); } }
pub proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex_le(a, b), lex_le(b, c),
    ensures lex_le(a, c),
    decreases a.len(),
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
