use crate::verif::*;

//@ C01 C14: ContentInfo::serialize, parse: cluster index on 20 bits and blob index on 12 bits, packed in a u32, and read back
contract! {
    #[kani::unwind(12)]
    fn content_info_round_trip() {
        let (c, i): (u32, u16) = (sym(), sym());
        // limits of the format: 2^20 clusters, 2^12 blobs in each (see ClusterCreator::is_full)
        require(c < 1 << 20 && i < 1 << 12);
        let b = written(&ContentInfo::new(ClusterIdx::from(c), BlobIdx::from(i)));
        assert!(b.len() == 4 && le(&b) == (c as u64) << 12 | i as u64);
        let r = parsed_all::<ContentInfo>(&b).unwrap();
        assert!(r.cluster_index.into_u32() == c && r.blob_index.into_u16() == i);
        covered!("checked");
    }
}

//@ C06 C14 C05: ContentInfo::parse: any 4 bytes are accepted, with the fields of the layout
contract! {
    #[kani::unwind(12)]
    fn content_info_parse() {
        let b: [u8; 4] = sym_bytes();
        let r = parsed_all::<ContentInfo>(&b).unwrap();
        assert!(r.cluster_index.into_u64() == le(&b) >> 12 && r.blob_index.into_u64() == le(&b) & 0xFFF);
        covered!("checked");
    }
}
