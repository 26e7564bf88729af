use crate::verif::*;

//@ C06 C05: check_region: accepts exactly the regions that, with their checksum, are inside the source
contract! {
    fn check_region_exact() {
        let (b, e, s): (u64, u64, u64) = (sym(), sym(), sym());
        require(b <= e);
        let with_check: bool = sym();
        let check = if with_check { BlockCheck::Crc32 } else { BlockCheck::None };
        let extra = if with_check { 4 } else { 0 };
        let r = ok(check_region(Region::new(Offset::new(b), Offset::new(e)), &check, Size::new(s)));
        assert!(r.is_some() == (e as u128 + extra <= s as u128));
        if r.is_some() { covered!("accepted") } else { covered!("refused") }
    }
}
