use crate::verif::*;

//@ C14 C06 C04: CheckInfo::parse, serialize: kind 0 (1 byte) or kind 1 and a 32 byte hash (33 bytes); anything else is refused without panic
contract! {
    #[kani::unwind(36)]
    fn check_info_bytes() {
        let b: [u8; 33] = sym_bytes();
        match parsed::<CheckInfo>(&b) {
            Some(c) => {
                assert!(b[0] <= 1);
                assert!(c.b3hash.is_some() == (b[0] == 1));
                if let Some(h) = &c.b3hash {
                    assert!(same(h.as_bytes(), &b[1..33]));
                    assert!(same(&written(&c), &b));
                    covered!("blake3");
                } else {
                    assert!(same(&written(&c), &b[0..1]));
                    covered!("none");
                }
            }
            None => {
                assert!(b[0] > 1);
                covered!("refused");
            }
        }
    }
}

//@ C14 C06: CheckKind::block_size: the size of the check block with its checksum
contract! {
    fn check_kind_block_size() {
        assert!(CheckKind::None.block_size().into_u64() == 5);
        assert!(CheckKind::Blake3.block_size().into_u64() == 37);
        covered!("checked");
    }
}
