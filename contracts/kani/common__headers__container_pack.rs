use crate::verif::*;

//@ C14 C10: ContainerPackHeader::serialize, parse: the 60 bytes of the layout, and parse gives the header back
contract! {
    #[kani::unwind(62)]
    fn container_header_bytes() {
        let h = ContainerPackHeader::new(Offset::new(sym()), PackCount::from(sym::<u16>()), PackFreeData::from(sym_bytes::<24>()));
        let b = written(&h);
        assert!(b.len() == 60);
        assert!(le(&b[0..8]) == h.pack_locators_pos.into_u64());
        assert!(le(&b[8..10]) == h.pack_count.into_u64());
        assert!(same(&b[10..36], &[0; 26]));
        assert!(same(&b[36..60], &h.free_data[..]));
        match parsed_all::<ContainerPackHeader>(&b) {
            Some(r) => assert!(r == h),
            None => panic!("refused"),
        }
        covered!("checked");
    }
}

//@ C06 C05 C14: ContainerPackHeader::parse: any 60 bytes are accepted, with the fields of the layout
contract! {
    #[kani::unwind(62)]
    fn container_header_parse() {
        let b: [u8; 60] = sym_bytes();
        let h = parsed_all::<ContainerPackHeader>(&b).unwrap();
        assert!(h.pack_locators_pos.into_u64() == le(&b[0..8]) && h.pack_count.into_u64() == le(&b[8..10]));
        assert!(same(&h.free_data[..], &b[36..60]));
        covered!("checked");
    }
}
