use crate::verif::*;

//@ C02 C01 C15: needed_bytes::<u64>: the smallest width, of at least one byte, that holds the value
contract! {
    #[kani::unwind(10)]
    fn needed_bytes_u64() {
        let v: u64 = sym();
        let n = needed_bytes(v) as usize;
        assert!(n >= 1 && n <= 8);
        assert!(n == 8 || v >> (8 * n) == 0, "the value fits");
        assert!(n == 1 || v >> (8 * (n - 1)) != 0, "and not in less");
        covered!("checked");
    }
}

//@ C02 C01: needed_bytes::<usize>, needed_bytes::<u16>: same contract for the other types it is used with
contract! {
    #[kani::unwind(10)]
    fn needed_bytes_others() {
        let v: usize = sym();
        let n = needed_bytes(v) as usize;
        assert!(n >= 1 && n <= 8 && (n == 8 || v >> (8 * n) == 0) && (n == 1 || v >> (8 * (n - 1)) != 0));
        let w: u16 = sym();
        let n = needed_bytes(w) as usize;
        assert!(n == if w < 256 { 1 } else { 2 });
        covered!("checked");
    }
}

//@ C01 C06 C02 C05 C10 internal: ArrayReader::index: an index past the length is an error (no panic), a valid one is parsed at index * element size
contract! {
    #[kani::unwind(16)]
    fn array_reader_index() {
        // a table of 3 content infos, and any index
        let b: [u8; 12] = sym_bytes();
        let reader = CheckReader::new_from_parts(std::sync::Arc::new(b), Region::new(Offset::zero(), Offset::new(12)));
        let a: ArrayReader<crate::common::ContentInfo, u32> = ArrayReader {
            reader,
            length: 3.into(),
            elem_size: ASize::new(4),
            produced_type: PhantomData,
        };
        let i: u32 = sym();
        match ok(a.index(Idx::from(i))) {
            Some(c) => {
                assert!(i < 3);
                let v = le(&b[4 * i as usize..4 * i as usize + 4]);
                assert!(c.cluster_index.into_u64() == v >> 12 && c.blob_index.into_u64() == v & 0xFFF);
                covered!("found");
            }
            None => {
                assert!(i >= 3);
                covered!("refused");
            }
        }
        std::mem::forget(a);
    }
}
