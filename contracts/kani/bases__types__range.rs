use crate::verif::*;

//@ C06 C13 C10 C05 C01: Region::try_cut_rel: a cut is granted exactly when it lies in the region, and is then the asked range
contract! {
    fn region_try_cut_rel() {
        let (b, e, o, s): (u64, u64, u64, u64) = (sym(), sym(), sym(), sym());
        require(b <= e);
        let r = Region::new(Offset::new(b), Offset::new(e));
        let fits = b as u128 + o as u128 + s as u128 <= e as u128;
        match ok(r.try_cut_rel(Offset::new(o), Size::new(s))) {
            Some(c) => {
                assert!(fits);
                assert!(c.begin().into_u64() == b + o);
                assert!(c.end().into_u64() == b + o + s);
                assert!(c.size().into_u64() == s);
                covered!("granted");
            }
            None => {
                assert!(!fits);
                covered!("refused");
            }
        }
    }
}

//@ C06 C13: Region::cut_rel: inside the region, a cut is the asked range and does not panic
contract! {
    fn region_cut_rel() {
        let (b, e, o, s): (u64, u64, u64, u64) = (sym(), sym(), sym(), sym());
        require(b <= e && b as u128 + o as u128 + s as u128 <= e as u128);
        let c = Region::new(Offset::new(b), Offset::new(e)).cut_rel(Offset::new(o), Size::new(s));
        assert!(c.begin().into_u64() == b + o && c.size().into_u64() == s);
        covered!("cut");
    }
}

//@ C06 C13: Region::try_cut_rel_asize, ARegion: same contract with an in-memory size
contract! {
    fn region_try_cut_rel_asize() {
        let (b, e, o): (u64, u64, u64) = (sym(), sym(), sym());
        let s: usize = sym();
        // sizes of things in memory (allocations are at most isize::MAX bytes)
        require(b <= e && s <= isize::MAX as usize);
        let r = Region::new(Offset::new(b), Offset::new(e));
        let fits = b as u128 + o as u128 + s as u128 <= e as u128;
        match ok(r.try_cut_rel_asize(Offset::new(o), ASize::new(s))) {
            Some(c) => {
                assert!(fits && c.begin().into_u64() == b + o && c.end().into_u64() == b + o + s as u64);
                assert!(c.size().into_u64() == s as u64);
                covered!("granted");
            }
            None => {
                assert!(!fits);
                covered!("refused");
            }
        }
    }
}
