use crate::verif::*;
#[cfg(any(kani, test))]
use crate::verif::spec_source::*;

//@ C13 C01 C06 internal: ByteStream::read: from any state, reads the next bytes of the range (never past its end), advances by what was read, and size, offset and size_left stay consistent
contract! {
    fn byte_stream_read() {
        let (source, region, b, e) = any_source();
        let at: u64 = sym();
        require(b <= at && at <= e);
        let mut s = ByteStream::new_from_parts(source, region, Offset::new(at));
        assert!(s.offset() == at - b && s.size_left() == e - at && s.size() == e - b);
        let n: usize = sym();
        require(n < 1 << 32);
        let mut buf = vec![0_u8; n];
        let r = ok(s.read(&mut buf));
        let want = if (n as u64) < e - at { n as u64 } else { e - at };
        assert!(asked(2, at, at + want), "asks the source for the next bytes of the range only");
        let got = COUNT.load(std::sync::atomic::Ordering::Relaxed);
        assert!(r == Some(got as usize));
        assert!(s.offset() == at - b + got && s.size_left() == e - at - got && s.size() == e - b);
        // an end of file is answered only at the end of the range
        assert!(got > 0 || n == 0 || at == e);
        if got == 0 { covered!("end") } else if got < want { covered!("short") } else { covered!("full") }
        std::mem::forget((s, buf));
    }
}
