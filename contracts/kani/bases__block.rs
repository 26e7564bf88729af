use crate::verif::*;

//@ C05 C06 C14 bounded[slices of 0 to 6 bytes]: assert_slice_crc: accepts exactly the slices that end with the checksum of what precedes, and never panics
contract! {
    #[kani::unwind(36)]
    fn slice_crc_exact() {
        let x: [u8; 6] = sym_bytes();
        let mut n = 0;
        while n <= 6 {
            let r = ok(assert_slice_crc(&x[..n])).is_some();
            if n < 4 {
                assert!(!r);
            } else {
                let e = spec_crc(&x[..n - 4]);
                assert!(r == (e == u32::from_be_bytes([x[n - 4], x[n - 3], x[n - 2], x[n - 1]])));
                if r { covered!("accepted") } else { covered!("refused") }
            }
            n += 1;
        }
    }
}
