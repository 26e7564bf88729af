use crate::verif::*;

//@ C13 C06 C05 bounded[buffers of 0 to 8 bytes]: Source for buffers::get_slice: the bytes of the region when it is inside, an error otherwise
contract! {
    #[kani::unwind(12)]
    fn buffer_get_slice() {
        let len: usize = sym();
        require(len <= 8);
        let data: [u8; 8] = sym_bytes();
        let mut buf = Vec::with_capacity(8);
        buf.extend_from_slice(&data[..len]);
        let (b, e): (u64, u64) = (sym(), sym());
        require(b <= e && e - b < usize::MAX as u64);
        match ok(buf.get_slice(ARegion::new(Offset::new(b), Offset::new(e)), BlockCheck::None)) {
            Some(s) => {
                assert!(e <= len as u64 && same(&s, &data[b as usize..e as usize]));
                covered!("granted");
            }
            None => {
                assert!(e > len as u64);
                covered!("refused");
            }
        }
        std::mem::forget(buf);
    }
}

//@ C13 C06 bounded[buffers of 0 to 8 bytes]: Source for buffers::read, read_exact: the next bytes at any offset, short only at the end; read_exact is an error past the end
contract! {
    #[kani::unwind(12)]
    fn buffer_read() {
        let len: usize = sym();
        require(len <= 8);
        let data: [u8; 8] = sym_bytes();
        let mut buf = Vec::with_capacity(8);
        buf.extend_from_slice(&data[..len]);
        let (o, n): (u64, usize) = (sym(), sym());
        require(n <= 8);
        let mut out = [0_u8; 8];
        if sym() {
            let r = ok(Source::read(&buf, Offset::new(o), &mut out[..n])).unwrap();
            let left = if o > len as u64 { 0 } else { len - o as usize };
            assert!(r == if n < left { n } else { left });
            assert!(r == 0 || same(&out[..r], &data[o as usize..o as usize + r]));
            covered!("read");
        } else if ok(Source::read_exact(&buf, Offset::new(o), &mut out[..n])).is_some() {
            assert!(o as u128 + n as u128 <= len as u128);
            assert!(same(&out[..n], &data[o as usize..o as usize + n]));
            covered!("granted");
        } else {
            assert!(o as u128 + n as u128 > len as u128);
            covered!("refused");
        }
        std::mem::forget(buf);
    }
}

//@ C05 C06 bounded[one byte blocks]: Source for buffers::cut, get_slice: with a checksum asked, a region is granted only if its checksum follows and verifies
contract! {
    #[kani::unwind(36)]
    fn buffer_checked_cut() {
        let data: [u8; 6] = sym_bytes();
        let buf = std::sync::Arc::new(data);
        let (b, e): (u64, u64) = (sym(), sym());
        require(b <= e && e - b <= 1);
        let granted = match ok(buf.cut(Region::new(Offset::new(b), Offset::new(e)), BlockCheck::Crc32, sym())) {
            Some((s, r)) => {
                assert!(r.begin().into_u64() == b && r.end().into_u64() == e);
                std::mem::forget(s);
                true
            }
            None => false,
        };
        let inside = e <= 2;
        assert!(granted == (inside && {
            let (b, e) = (b as usize, e as usize);
            spec_crc(&data[b..e]) == u32::from_be_bytes([data[e], data[e + 1], data[e + 2], data[e + 3]])
        }));
        if granted { covered!("granted") } else { covered!("refused") }
    }
}
