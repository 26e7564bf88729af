use crate::verif::*;

//@ C14 C01 C16 C06: ClusterHeader::serialize, parse: compression byte, offset width, blob count; parse accepts exactly the legal bytes and serialize gives them back
contract! {
    #[kani::unwind(12)]
    fn cluster_header_bytes() {
        let b: [u8; 4] = sym_bytes();
        let right = b[0] <= 3 && b[1] >= 1 && b[1] <= 8;
        match parsed_all::<ClusterHeader>(&b) {
            Some(h) => {
                assert!(right);
                assert!(h.compression as u8 == b[0] && h.offset_size as usize == b[1] as usize);
                assert!(h.blob_count.into_u64() == le(&b[2..4]));
                assert!(same(&written(&h), &b));
                covered!("accepted");
            }
            None => {
                assert!(!right);
                covered!("refused");
            }
        }
    }
}
