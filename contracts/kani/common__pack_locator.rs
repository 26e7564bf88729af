use crate::verif::*;

//@ C10 C14: PackLocator::serialize, parse: uuid, size, offset (32 bytes), and read back
contract! {
    #[kani::unwind(34)]
    fn pack_locator_bytes() {
        let l = PackLocator::new(Uuid::from_bytes(sym_bytes()), Size::new(sym()), Offset::new(sym()));
        let b = written(&l);
        assert!(b.len() == 32);
        assert!(same(&b[0..16], l.uuid.as_bytes()));
        assert!(le(&b[16..24]) == l.pack_size.into_u64() && le(&b[24..32]) == l.pack_pos.into_u64());
        assert!(parsed_all::<PackLocator>(&b).unwrap() == l);
        covered!("checked");
    }
}
