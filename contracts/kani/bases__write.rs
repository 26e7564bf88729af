use crate::verif::*;

#[cfg(any(kani, test))]
const WIDTHS: [ByteSize; 8] = [
    ByteSize::U1, ByteSize::U2, ByteSize::U3, ByteSize::U4, ByteSize::U5, ByteSize::U6, ByteSize::U7, ByteSize::U8,
];

//@ C02 C01 C14 C15: Serializer::write_usized, Parser::read_usized: for every width and value that fits, little-endian bytes of that width, and the value is read back
contract! {
    #[kani::unwind(10)]
    fn usized_round_trip() {
        let mut i = 0;
        while i < 8 {
            let (w, n) = (WIDTHS[i], i + 1);
            let v: u64 = sym();
            require(n == 8 || v >> (8 * n) == 0);
            let mut s = Serializer::new(BlockCheck::None);
            assert!(ok(s.write_usized(v, w)) == Some(n) && s.len() == n);
            let b = s.close().0;
            assert!(b.len() == n && le(&b) == v);
            let mut p = SliceParser::new(std::borrow::Cow::Borrowed(&b), Offset::zero());
            assert!(ok(p.read_usized(w)) == Some(v));
            std::mem::forget(b);
            i += 1;
        }
        covered!("checked");
    }
}

//@ C02 C14: Serializer::write_isized, Parser::read_isized: for every width and signed value that fits, two's complement little-endian bytes, and the value is read back
contract! {
    #[kani::unwind(10)]
    fn isized_round_trip() {
        let mut i = 0;
        while i < 8 {
            let (w, n) = (WIDTHS[i], i + 1);
            let v: i64 = sym();
            require(n == 8 || (v >= -(1_i64 << (8 * n - 1)) && v < 1_i64 << (8 * n - 1)));
            let mut s = Serializer::new(BlockCheck::None);
            assert!(ok(s.write_isized(v, w)) == Some(n) && s.len() == n);
            let b = s.close().0;
            assert!(b.len() == n);
            let mask = if n == 8 { u64::MAX } else { (1_u64 << (8 * n)) - 1 };
            assert!(le(&b) == v as u64 & mask);
            let mut p = SliceParser::new(std::borrow::Cow::Borrowed(&b), Offset::zero());
            assert!(ok(p.read_isized(w)) == Some(v));
            std::mem::forget(b);
            i += 1;
        }
        covered!("checked");
    }
}

//@ C14 C02: Serializer::write_u8, write_u16, write_u32, write_u64, write_data, Parser::read_u8...: fixed widths, little-endian, in the order of the calls, and read back
contract! {
    #[kani::unwind(20)]
    fn fixed_widths() {
        let (a, b, c, d): (u8, u16, u32, u64) = (sym(), sym(), sym(), sym());
        let x: [u8; 3] = sym_bytes();
        let mut s = Serializer::new(BlockCheck::None);
        assert!(ok(s.write_u8(a)) == Some(1) && ok(s.write_u16(b)) == Some(2) && ok(s.write_data(&x)) == Some(3));
        assert!(ok(s.write_u32(c)) == Some(4) && ok(s.write_u64(d)) == Some(8) && s.len() == 18);
        let v = s.close().0;
        assert!(v.len() == 18 && v[0] == a && le(&v[1..3]) == b as u64 && same(&v[3..6], &x));
        assert!(le(&v[6..10]) == c as u64 && le(&v[10..18]) == d);
        let mut p = SliceParser::new(std::borrow::Cow::Borrowed(&v), Offset::new(5));
        assert!(ok(p.read_u8()) == Some(a) && ok(p.read_u16()) == Some(b));
        let mut y = [0_u8; 3];
        assert!(ok(p.read_data(&mut y)).is_some() && same(&x, &y));
        assert!(ok(p.read_u32()) == Some(c) && ok(p.read_u64()) == Some(d));
        assert!(p.global_offset().into_u64() == 23);
        covered!("checked");
    }
}

//@ C05 C14 C04 bounded[blocks of 0 to 2 bytes]: Serializer::close, assert_slice_crc: the checksum a closed block carries is CRC-32C/MPEG style (poly 1EDC6F41, init FFFFFFFF, no reflection, no xorout), big-endian, and verifies
contract! {
    #[kani::unwind(36)]
    fn closed_block_verifies() {
        let x: [u8; 2] = sym_bytes();
        let mut n = 0;
        while n <= 2 {
            let mut s = Serializer::new(BlockCheck::Crc32);
            assert!(ok(s.write_data(&x[..n])) == Some(n));
            let (mut v, crc) = s.close();
            let crc = crc.unwrap();
            assert!(v.len() == n && same(&v, &x[..n]));
            assert!(u32::from_be_bytes(crc) == spec_crc(&x[..n]));
            v.extend_from_slice(&crc);
            assert!(ok(assert_slice_crc(&v)).is_some());
            std::mem::forget(v);
            n += 1;
        }
        covered!("checked");
    }
}
