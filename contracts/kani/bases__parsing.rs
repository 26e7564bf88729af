use crate::verif::*;

//@ C06 C05 C02: SliceParser::read_slice, skip, read_data: from any position, gives the next bytes and advances, or is an error past the end; never panics
contract! {
    #[kani::unwind(12)]
    fn slice_parser_bounds() {
        let b: [u8; 8] = sym_bytes();
        let len: usize = sym();
        let (start, size): (usize, usize) = (sym(), sym());
        // the sizes come from the format: at most 64 KiB
        require(len <= 8 && start <= len && size <= 0xFFFF);
        let mut p = SliceParser { slice: Cow::Borrowed(&b[..len]), global_offset: Offset::zero(), offset: start };
        let which: bool = sym();
        let granted = if which {
            ok(p.skip(size)).is_some()
        } else {
            match ok(p.read_slice(size)) {
                Some(s) => {
                    assert!(same(&s, &b[start..start + size]));
                    true
                }
                None => false,
            }
        };
        assert!(granted == (start + size <= len));
        assert!(p.offset == if granted { start + size } else { start });
        if granted { covered!("granted") } else { covered!("refused") }
    }
}
