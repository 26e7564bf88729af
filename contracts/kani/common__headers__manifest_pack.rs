use crate::verif::*;

//@ C14 C12 C04: ManifestPackHeader::serialize, parse: the 60 bytes of the layout, and parse gives the header back
contract! {
    #[kani::unwind(62)]
    fn manifest_header_bytes() {
        let (size, offset): (u16, u64) = (sym(), sym());
        require(offset < 1 << 48);
        let h = ManifestPackHeader::new(PackFreeData::from(sym_bytes::<24>()), PackCount::from(sym::<u16>()),
            SizedOffset::new(ASize::new(size as usize), Offset::new(offset)));
        let b = written(&h);
        assert!(b.len() == 60);
        assert!(le(&b[0..2]) == h.pack_count.into_u64());
        assert!(le(&b[2..10]) == offset << 16 | size as u64);
        assert!(same(&b[10..36], &[0; 26]));
        assert!(same(&b[36..60], &h.free_data[..]));
        match parsed_all::<ManifestPackHeader>(&b) {
            Some(r) => assert!(r == h),
            None => panic!("refused"),
        }
        covered!("checked");
    }
}

//@ C06 C05 C14: ManifestPackHeader::parse: any 60 bytes are accepted, with the fields of the layout
contract! {
    #[kani::unwind(62)]
    fn manifest_header_parse() {
        let b: [u8; 60] = sym_bytes();
        let h = parsed_all::<ManifestPackHeader>(&b).unwrap();
        assert!(h.pack_count.into_u64() == le(&b[0..2]));
        assert!(h.value_store_posinfo.size.into_u64() == le(&b[2..4]) && h.value_store_posinfo.offset.into_u64() == le(&b[4..10]));
        covered!("checked");
    }
}
