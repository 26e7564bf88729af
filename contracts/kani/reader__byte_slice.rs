use crate::verif::*;
#[cfg(any(kani, test))]
use crate::verif::spec_source::*;

//@ C13 C06 internal: ByteSlice::get_slice: exactly the bytes [begin+offset, begin+offset+size) of the source when they are in the region, an error otherwise
contract! {
    fn byte_slice_get_slice() {
        let (source, region, b, e) = any_source();
        let v = ByteSlice { source: &source, region };
        assert!(v.size().into_u64() == e - b);
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= isize::MAX as usize);
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        if ok(v.get_slice(Offset::new(o), n)).is_some() {
            assert!(fits && asked(1, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(!fits && calls() == 0);
            covered!("refused");
        }
    }
}

//@ C13 C06 C02 internal: ByteSlice::read_slice: same contract as get_slice
contract! {
    fn byte_slice_read_slice() {
        let (source, region, b, e) = any_source();
        let v = ByteSlice { source: &source, region };
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= isize::MAX as usize);
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        if ok(v.read_slice(Offset::new(o), n)).is_some() {
            assert!(fits && asked(1, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(!fits && calls() == 0);
            covered!("refused");
        }
        assert!(v.global_offset().into_u64() == b);
    }
}

//@ C13 C06 C02 internal: ByteSlice::create_parser: a parser on the bytes from begin+offset, at most 65535 and never past the end; an error when offset is past the end
contract! {
    fn byte_slice_create_parser() {
        let (source, region, b, e) = any_source();
        let v = ByteSlice { source: &source, region };
        let o: u64 = sym();
        match ok(v.create_parser(Offset::new(o))) {
            Some(p) => {
                assert!(o <= e - b);
                let left = e - b - o;
                let n = if left < 0xFFFF { left } else { 0xFFFF };
                assert!(asked(1, b + o, b + o + n));
                assert!(p.global_offset().into_u64() == b + o);
                std::mem::forget(p);
                covered!("granted");
            }
            None => {
                assert!(o > e - b && calls() == 0);
                covered!("refused");
            }
        }
    }
}

//@ C13 internal: ByteSlice::cut, stream: a cut is the asked sub-range of the same source, a stream starts at its begin
contract! {
    fn byte_slice_conversions() {
        let (source, region, b, e) = any_source();
        let v = ByteSlice::new_from_parts(&source, region);
        assert!(v.size().into_u64() == e - b);
        let (o, n, o2, n2): (u64, u64, u64, u64) = (sym(), sym(), sym(), sym());
        require(b as u128 + o as u128 + n as u128 <= e as u128 && o2 as u128 + n2 as u128 <= n as u128);
        let c = v.cut(Offset::new(o), Size::new(n));
        assert!(c.region.begin().into_u64() == b + o && c.region.end().into_u64() == b + o + n);
        let c2 = c.cut(Offset::new(o2), Size::new(n2));
        assert!(c2.region.begin().into_u64() == b + o + o2 && c2.size().into_u64() == n2);
        assert!(std::sync::Arc::ptr_eq(c2.source, &source));
        let st = c.stream();
        assert!(st.size() == n && st.size_left() == n && st.offset() == 0);
        assert!(calls() == 0);
        std::mem::forget(st);
        covered!("checked");
    }
}

//@ C13 C06 internal: ByteSlice::read_data: fills the buffer with the bytes from begin+offset when they are in the region, an error otherwise
contract! {
    fn byte_slice_read_data() {
        let (source, region, b, e) = any_source();
        let v = ByteSlice { source: &source, region };
        let (o, n): (u64, usize) = (sym(), sym());
        require(n < 1 << 32);
        let mut buf = vec![0_u8; n];
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        let r = ok(RandomParser::read_data(&v, Offset::new(o), &mut buf)).is_some();
        assert!(r == fits);
        if r {
            assert!(asked(3, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(calls() == 0);
            covered!("refused");
        }
        std::mem::forget(buf);
    }
}
