use crate::verif::*;

//@ C12 C14 C02 bounded[strings of 0 to 4 bytes, padded to 5]: PString::serialize_string_padded: length byte, bytes, zero padding up to the fixed size
contract! {
    #[kani::unwind(8)]
    fn pstring_padded() {
        let d: [u8; 4] = sym_bytes();
        let mut n = 0;
        while n <= 4 {
            let mut s = Serializer::new(BlockCheck::None);
            assert!(ok(PBytes::serialize_string_padded(&d[..n], 5, &mut s)) == Some(6));
            let b = s.close().0;
            assert!(b.len() == 6 && b[0] as usize == n && same(&b[1..1 + n], &d[..n]));
            assert!(same(&b[1 + n..], &[0; 5][n..]));
            std::mem::forget(b);
            n += 1;
        }
        covered!("checked");
    }
}
