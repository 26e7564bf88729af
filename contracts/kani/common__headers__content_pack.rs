use crate::verif::*;

//@ C14 C01: ContentPackHeader::serialize, parse: the 60 bytes of the layout, and parse gives the header back
contract! {
    #[kani::unwind(62)]
    fn content_header_bytes() {
        let h = ContentPackHeader::new(PackFreeData::from(sym_bytes::<24>()), Offset::new(sym()), ClusterCount::from(sym::<u32>()),
            Offset::new(sym()), ContentCount::from(sym::<u32>()));
        let b = written(&h);
        assert!(b.len() == 60);
        assert!(le(&b[0..8]) == h.content_ptr_pos.into_u64());
        assert!(le(&b[8..16]) == h.cluster_ptr_pos.into_u64());
        assert!(le(&b[16..20]) == h.content_count.into_u64());
        assert!(le(&b[20..24]) == h.cluster_count.into_u64());
        assert!(same(&b[24..36], &[0; 12]));
        assert!(same(&b[36..60], &h.free_data[..]));
        match parsed_all::<ContentPackHeader>(&b) {
            Some(r) => assert!(r == h),
            None => panic!("refused"),
        }
        covered!("checked");
    }
}

//@ C06 C05 C14: ContentPackHeader::parse: any 60 bytes are accepted, with the fields of the layout
contract! {
    #[kani::unwind(62)]
    fn content_header_parse() {
        let b: [u8; 60] = sym_bytes();
        let h = parsed_all::<ContentPackHeader>(&b).unwrap();
        assert!(h.content_ptr_pos.into_u64() == le(&b[0..8]) && h.cluster_ptr_pos.into_u64() == le(&b[8..16]));
        assert!(h.content_count.into_u64() == le(&b[16..20]) && h.cluster_count.into_u64() == le(&b[20..24]));
        covered!("checked");
    }
}
