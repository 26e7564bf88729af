use crate::verif::*;

//@ C14 C02: DirectoryPackHeader::serialize, parse: the 60 bytes of the layout, and parse gives the header back
contract! {
    #[kani::unwind(62)]
    fn directory_header_bytes() {
        let h = DirectoryPackHeader::new(
            PackFreeData::from(sym_bytes::<24>()),
            (IndexCount::from(sym::<u32>()), Offset::new(sym())),
            (ValueStoreCount::from(sym::<u8>()), Offset::new(sym())),
            (EntryStoreCount::from(sym::<u32>()), Offset::new(sym())),
        );
        let b = written(&h);
        assert!(b.len() == 60);
        assert!(le(&b[0..8]) == h.index_ptr_pos.into_u64());
        assert!(le(&b[8..16]) == h.entry_store_ptr_pos.into_u64());
        assert!(le(&b[16..24]) == h.value_store_ptr_pos.into_u64());
        assert!(le(&b[24..28]) == h.index_count.into_u64());
        assert!(le(&b[28..32]) == h.entry_store_count.into_u64());
        assert!(b[32] as u64 == h.value_store_count.into_u64());
        assert!(same(&b[33..36], &[0; 3]));
        assert!(same(&b[36..60], &h.free_data[..]));
        match parsed_all::<DirectoryPackHeader>(&b) {
            Some(r) => assert!(r == h),
            None => panic!("refused"),
        }
        covered!("checked");
    }
}

//@ C06 C05 C14: DirectoryPackHeader::parse: any 60 bytes are accepted, with the fields of the layout
contract! {
    #[kani::unwind(62)]
    fn directory_header_parse() {
        let b: [u8; 60] = sym_bytes();
        let h = parsed_all::<DirectoryPackHeader>(&b).unwrap();
        assert!(h.index_ptr_pos.into_u64() == le(&b[0..8]) && h.entry_store_ptr_pos.into_u64() == le(&b[8..16]));
        assert!(h.value_store_ptr_pos.into_u64() == le(&b[16..24]) && h.index_count.into_u64() == le(&b[24..28]));
        assert!(h.entry_store_count.into_u64() == le(&b[28..32]) && h.value_store_count.into_u64() == b[32] as u64);
        covered!("checked");
    }
}
