/*@include bytes.inc @*/
/// the first k ends
pub open spec fn ends(offsets: Seq<u64>, w: int, k: int) -> Seq<u8>
    decreases k
{ if k <= 0 { Seq::empty() } else { ends(offsets, w, k - 1) + le(offsets[k - 1], w) } }

pub proof fn mul_step(w: int, i: int, n: int)
    requires 0 <= i < n, 1 <= w,
    ensures (i + 1) * w == i * w + w, (i + 2) * w == (i + 1) * w + w, 2 * w == w + w, (i + 1) * w <= n * w, (i + 2) * w <= (n + 1) * w, 0 <= i * w,
{
    assert((i + 1) * w == i * w + w) by (nonlinear_arith);
    assert((i + 2) * w == (i + 1) * w + w) by (nonlinear_arith);
    assert((i + 1) * w <= n * w) by (nonlinear_arith) requires 0 <= i < n, 1 <= w;
    assert((i + 2) * w <= (n + 1) * w) by (nonlinear_arith) requires 0 <= i < n, 1 <= w;
    assert(0 <= i * w) by (nonlinear_arith) requires 0 <= i, 1 <= w;
}

pub proof fn ends_len(offsets: Seq<u64>, w: int, k: int)
    requires 1 <= w <= 8, 0 <= k <= offsets.len(), forall|i: int| 0 <= i < k ==> offsets[i] < p256(w),
    ensures ends(offsets, w, k).len() == k * w,
    decreases k,
{
    broadcast use bytes_lemmas::lemma_le;
    if k > 0 {
        ends_len(offsets, w, k - 1);
        assert((k - 1) * w + w == k * w) by (nonlinear_arith);
    } else {
        assert(0 * w == 0);
    }
}

pub proof fn ends_at(offsets: Seq<u64>, w: int, k: int, i: int)
    requires 1 <= w <= 8, 0 <= i < k <= offsets.len(), forall|i: int| 0 <= i < k ==> offsets[i] < p256(w),
    ensures
        i * w + w <= k * w, ends(offsets, w, k).len() == k * w,
        ends(offsets, w, k).subrange(i * w, i * w + w) == le(offsets[i], w),
    decreases k,
{
    broadcast use bytes_lemmas::lemma_le;
    ends_len(offsets, w, k);
    ends_len(offsets, w, k - 1);
    mul_step(w, i, k);
    assert((k - 1) * w + w == k * w) by (nonlinear_arith);
    if i == k - 1 {
        assert(ends(offsets, w, k).subrange(i * w, i * w + w) =~= le(offsets[i], w));
    } else {
        ends_at(offsets, w, k - 1, i);
        assert(i * w + w <= (k - 1) * w);
        assert(ends(offsets, w, k).subrange(i * w, i * w + w) =~= ends(offsets, w, k - 1).subrange(i * w, i * w + w));
    }
}

