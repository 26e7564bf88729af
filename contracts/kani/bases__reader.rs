use crate::verif::*;
#[cfg(any(kani, test))]
use crate::verif::spec_source::*;

//@ C13 C06 C05 C10 internal: Reader::cut, cut_check, create_stream: the asked range of the source, inside the reader's own range, with the asked checksum verification
contract! {
    fn reader_cuts() {
        let (source, region, b, e) = any_source();
        let r = Reader::new_from_parts(source, region);
        assert!(r.global_offset().into_u64() == b && r.size().into_u64() == e - b);
        let (o, n): (u64, u64) = (sym(), sym());
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        let which: u8 = sym();
        let memory: bool = sym();
        let (offset, size) = (Offset::new(o), Size::new(n));
        let (granted, begin, len, check) = match which {
            0 => match ok(r.cut(offset, size, memory)) {
                Some(c) => { let v = (true, c.global_offset().into_u64(), c.size().into_u64(), 0); std::mem::forget(c); v }
                None => (false, 0, 0, 0),
            },
            1 => match ok(r.cut_check(offset, size, BlockCheck::Crc32)) {
                Some(c) => { let v = (true, c.region.begin().into_u64(), c.region.size().into_u64(), 4); std::mem::forget(c); v }
                None => (false, 0, 0, 0),
            },
            2 => match ok(r.cut_check(offset, size, BlockCheck::None)) {
                Some(c) => { let v = (true, c.region.begin().into_u64(), c.region.size().into_u64(), 0); std::mem::forget(c); v }
                None => (false, 0, 0, 0),
            },
            _ => match ok(r.create_stream(offset, size, memory)) {
                Some(c) => { let v = (true, b + o + c.offset(), c.size(), 0); std::mem::forget(c); v }
                None => (false, 0, 0, 0),
            },
        };
        assert!(granted == fits);
        if granted {
            assert!(begin == b + o && len == n);
            assert!(asked(4, b + o, b + o + n));
            assert!(CHECKED.load(std::sync::atomic::Ordering::Relaxed) == check);
            covered!("granted");
        } else {
            assert!(calls() == 0);
            covered!("refused");
        }
        std::mem::forget(r);
    }
}

//@ C13 C01 internal: Reader::get_byte_slice: the asked range, when it is in the reader's range
contract! {
    fn reader_get_byte_slice() {
        let (source, region, b, e) = any_source();
        let r = Reader::new_from_parts(source, region);
        let (o, n): (u64, u64) = (sym(), sym());
        require(b as u128 + o as u128 + n as u128 <= e as u128);
        let s = r.get_byte_slice(Offset::new(o), Size::new(n));
        assert!(s.region.begin().into_u64() == b + o && s.size().into_u64() == n && calls() == 0);
        covered!("checked");
        std::mem::forget(r);
    }
}

//@ C06 C05 C02 internal: CheckReader::get_slice, create_parser: the asked bytes of the checked range, an error outside of it
contract! {
    fn check_reader_slices() {
        let (source, region, b, e) = any_source();
        let r = CheckReader::new_from_parts(source, region);
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= isize::MAX as usize);
        let fits = b as u128 + o as u128 + n as u128 <= e as u128;
        let which: bool = sym();
        let granted = if which {
            ok(r.get_slice(Offset::new(o), ASize::new(n))).is_some()
        } else {
            match ok(r.create_parser(Offset::new(o), ASize::new(n))) {
                Some(p) => {
                    assert!(p.global_offset().into_u64() == b + o);
                    std::mem::forget(p);
                    true
                }
                None => false,
            }
        };
        assert!(granted == fits);
        if granted {
            assert!(asked(1, b + o, b + o + n as u64));
            covered!("granted");
        } else {
            assert!(calls() == 0);
            covered!("refused");
        }
        std::mem::forget(r);
    }
}
