use crate::verif::*;

//@ C14 C02 C05: SizedOffset::serialize, parse: offset << 16 | size on 8 bytes, for every size < 2^16 and offset < 2^48, and read back
contract! {
    #[kani::unwind(12)]
    fn sized_offset_round_trip() {
        let (s, o): (u16, u64) = (sym(), sym());
        require(o < 1 << 48);
        let v = SizedOffset::new(ASize::new(s as usize), Offset::new(o));
        let b = written(&v);
        assert!(b.len() == 8 && le(&b) == o << 16 | s as u64);
        assert!(parsed_all::<SizedOffset>(&b).unwrap() == v);
        covered!("checked");
    }
}

//@ C06 C14: SizedOffset::parse: any 8 bytes are accepted without panic
contract! {
    #[kani::unwind(12)]
    fn sized_offset_parse() {
        let b: [u8; 8] = sym_bytes();
        let v = parsed_all::<SizedOffset>(&b).unwrap();
        assert!(v.size.into_u64() == le(&b[0..2]) && v.offset.into_u64() == le(&b[2..8]));
        covered!("checked");
    }
}
