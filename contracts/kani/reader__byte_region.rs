use crate::verif::*;
#[cfg(any(kani, test))]
use crate::verif::spec_source::*;

//@ C13 C06 internal: ByteRegion::get_slice: exactly the bytes [begin+offset, begin+offset+size) of the source when they are in the region, an error otherwise
contract! {
    fn byte_region_get_slice() {
        let (source, region, b, e) = any_source();
        let v = ByteRegion { source, region };
        assert!(v.size().into_u64() == e - b);
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= isize::MAX as usize);
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        if ok(v.get_slice(Offset::new(o), n)).is_some() {
            assert!(fits && asked(1, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(!fits && calls() == 0);
            covered!("refused");
        }
        std::mem::forget(v);
    }
}

//@ C13 C06 C02 internal: ByteRegion::read_slice: same contract as get_slice
contract! {
    fn byte_region_read_slice() {
        let (source, region, b, e) = any_source();
        let v = ByteRegion { source, region };
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= isize::MAX as usize);
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        if ok(v.read_slice(Offset::new(o), n)).is_some() {
            assert!(fits && asked(1, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(!fits && calls() == 0);
            covered!("refused");
        }
        assert!(v.global_offset().into_u64() == b);
        std::mem::forget(v);
    }
}

//@ C13 C06 C02 internal: ByteRegion::create_parser: a parser on the bytes from begin+offset, at most 65535 and never past the end; an error when offset is past the end
contract! {
    fn byte_region_create_parser() {
        let (source, region, b, e) = any_source();
        let v = ByteRegion { source, region };
        let o: u64 = sym();
        match ok(v.create_parser(Offset::new(o))) {
            Some(p) => {
                assert!(o <= e - b);
                let left = e - b - o;
                let n = if left < 0xFFFF { left } else { 0xFFFF };
                assert!(asked(1, b + o, b + o + n));
                assert!(p.global_offset().into_u64() == b + o);
                std::mem::forget(p);
                covered!("granted");
            }
            None => {
                assert!(o > e - b && calls() == 0);
                covered!("refused");
            }
        }
        std::mem::forget(v);
    }
}

//@ C13 internal: ByteRegion::cut, as_slice, stream, From<ByteSlice>: every conversion keeps the source and the range; a cut is the asked sub-range
contract! {
    fn byte_region_conversions() {
        let (source, region, b, e) = any_source();
        let v = ByteRegion { source, region };
        let (o, n): (u64, u64) = (sym(), sym());
        require(b as u128 + o as u128 + n as u128 <= e as u128);
        let c = v.cut(Offset::new(o), Size::new(n));
        assert!(c.region.begin().into_u64() == b + o && c.region.end().into_u64() == b + o + n);
        assert!(std::sync::Arc::ptr_eq(c.source, &v.source));
        let s = v.as_slice();
        assert!(s.region == v.region && std::sync::Arc::ptr_eq(s.source, &v.source));
        let back: ByteRegion = c.into();
        assert!(back.region.begin().into_u64() == b + o && back.region.end().into_u64() == b + o + n);
        assert!(std::sync::Arc::ptr_eq(&back.source, &v.source));
        let st = v.stream();
        assert!(st.size() == e - b && st.size_left() == e - b && st.offset() == 0);
        let st2: ByteStream = back.into();
        assert!(st2.size() == n && st2.size_left() == n && st2.offset() == 0);
        assert!(calls() == 0);
        std::mem::forget((st, st2, v));
        covered!("checked");
    }
}

//@ C13 C06 internal: ByteRegion::read_data: fills the buffer with the bytes from begin+offset when they are in the region, an error otherwise
contract! {
    fn byte_region_read_data() {
        let (source, region, b, e) = any_source();
        let v = ByteRegion { source, region };
        let (o, n): (u64, usize) = (sym(), sym());
        require(n < 1 << 32);
        let mut buf = vec![0_u8; n];
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        let r = ok(RandomParser::read_data(&v, Offset::new(o), &mut buf)).is_some();
        assert!(r == fits);
        if r {
            assert!(asked(3, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(calls() == 0);
            covered!("refused");
        }
        std::mem::forget(buf);
    }
}
