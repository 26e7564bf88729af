// Shared parts of the contract harnesses (module crate::verif, cfg(jubako_verif) only).
//
// `contract!` turns a function into a Kani proof (all values of the symbolic inputs), and, in a native test
// build, into a #[test] that runs the same code on the values of a counterexample (JBKV_VALUES).

// ---- stubs: only what the error messages are made of, never what a contract talks about
pub(crate) fn fake_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
pub(crate) fn fake_capture() -> std::backtrace::Backtrace {
    std::backtrace::Backtrace::disabled()
}

macro_rules! contract {
    ($(#[$a:meta])* fn $n:ident() $b:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(std::fmt::format, crate::verif::fake_format)]
        #[kani::stub(std::backtrace::Backtrace::capture, crate::verif::fake_capture)]
        $(#[$a])*
        fn $n() $b
        #[cfg(all(test, not(kani)))]
        #[test]
        fn $n() {
            crate::verif::native(|| $b)
        }
    };
}
pub(crate) use contract;

/// A point that some symbolic run has to reach (vacuity check).
macro_rules! covered {
    ($what:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $what);
    }};
}
pub(crate) use covered;

/// Precondition.
#[cfg(kani)]
pub(crate) fn require(c: bool) {
    kani::assume(c)
}

#[cfg(kani)]
pub(crate) fn sym<T: kani::Arbitrary>() -> T {
    kani::any()
}
#[cfg(kani)]
pub(crate) fn sym_bytes<const N: usize>() -> [u8; N] {
    let mut a = [0_u8; N];
    let mut i = 0;
    while i < N {
        a[i] = kani::any();
        i += 1;
    }
    a
}

#[cfg(all(test, not(kani)))]
mod native_values {
    use std::cell::RefCell;
    thread_local!(static VALUES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) });
    pub(crate) struct Vacuous;
    pub(crate) fn native(f: impl FnOnce() + std::panic::UnwindSafe) {
        // JBKV_VALUES: hex of the values, in the order they are asked for, separated by commas
        let Ok(v) = std::env::var("JBKV_VALUES") else {
            return;
        };
        let mut v: Vec<Vec<u8>> = v
            .split(',')
            .map(|h| {
                (0..h.len() / 2)
                    .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                    .collect()
            })
            .collect();
        v.reverse();
        VALUES.with(|c| *c.borrow_mut() = v);
        if let Err(e) = std::panic::catch_unwind(f) {
            if e.is::<Vacuous>() {
                println!("VACUOUS");
            } else {
                std::panic::resume_unwind(e);
            }
        }
    }
    pub(crate) fn require(c: bool) {
        if !c {
            std::panic::panic_any(Vacuous);
        }
    }
    pub(crate) trait Sym: Sized {
        fn from(b: Vec<u8>) -> Self;
    }
    macro_rules! sym_int { ($($t:ty),*) => { $(impl Sym for $t {
        fn from(mut b: Vec<u8>) -> Self {
            b.resize(std::mem::size_of::<$t>(), 0);
            <$t>::from_le_bytes(b.try_into().unwrap())
        }
    })* } }
    sym_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Sym for bool {
        fn from(b: Vec<u8>) -> Self {
            b.first().is_some_and(|b| *b & 1 == 1)
        }
    }
    pub(crate) fn sym<T: Sym>() -> T {
        T::from(VALUES.with(|c| c.borrow_mut().pop()).unwrap_or_default())
    }
    pub(crate) fn sym_bytes<const N: usize>() -> [u8; N] {
        std::array::from_fn(|_| sym())
    }
}
#[cfg(all(test, not(kani)))]
pub(crate) use native_values::*;

use crate::bases::*;
use std::borrow::Cow;

/// What `obj` serializes to (without the block checksum); the returned count is the number of bytes written.
#[cfg(any(kani, test))]
pub(crate) fn written(obj: &impl Serializable) -> Vec<u8> {
    let mut s = Serializer::new(BlockCheck::None);
    let n = match obj.serialize(&mut s) {
        Ok(n) => n,
        Err(e) => {
            std::mem::forget(e);
            panic!("serialization failed")
        }
    };
    let b = s.close().0;
    assert!(n == b.len(), "serialize returns the number of bytes written");
    b
}

#[cfg(any(kani, test))]
pub(crate) fn parsed<T: Parsable>(b: &[u8]) -> Option<T::Output> {
    let mut p = SliceParser::new(Cow::Borrowed(b), Offset::zero());
    ok(T::parse(&mut p))
}

/// Like `parsed`, and the parser consumes exactly the slice.
#[cfg(any(kani, test))]
pub(crate) fn parsed_all<T: Parsable>(b: &[u8]) -> Option<T::Output> {
    let mut p = SliceParser::new(Cow::Borrowed(b), Offset::zero());
    let r = ok(T::parse(&mut p));
    if r.is_some() {
        assert!(p.global_offset().into_u64() == b.len() as u64, "every byte of the block is consumed");
    }
    r
}

/// Result to Option; the error is not dropped (its drop glue is of no interest).
pub(crate) fn ok<T, E>(r: std::result::Result<T, E>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

pub(crate) fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

/// Little-endian value of at most 8 bytes.
pub(crate) fn le(b: &[u8]) -> u64 {
    let mut v = 0;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        v = v << 8 | b[i] as u64;
    }
    v
}

// ---- the contract of a Source, as its users see it
//
// A source of `size` bytes. The calls it receives are recorded (ghost state): a view is right when it asks for the
// right range. The implementations of Source are checked against the same contract in their own files.
#[cfg(any(kani, test))]
pub(crate) mod spec_source {
    use super::*;
    use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};
    use std::sync::Arc;

    pub(crate) static CALL: AtomicU8 = AtomicU8::new(0); // 0 none, 1 get_slice, 2 read, 3 read_exact, 4 cut
    pub(crate) static CALLS: AtomicU8 = AtomicU8::new(0);
    pub(crate) static BEGIN: AtomicU64 = AtomicU64::new(0);
    pub(crate) static END: AtomicU64 = AtomicU64::new(0);
    pub(crate) static CHECKED: AtomicU8 = AtomicU8::new(0);
    pub(crate) static MEMORY: AtomicU8 = AtomicU8::new(0);
    pub(crate) static COUNT: AtomicU64 = AtomicU64::new(0);

    fn record(call: u8, begin: u64, end: u64, check: &BlockCheck, memory: bool) {
        CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
        CALL.store(call, Relaxed);
        BEGIN.store(begin, Relaxed);
        END.store(end, Relaxed);
        CHECKED.store(check.size() as u8, Relaxed);
        MEMORY.store(memory as u8, Relaxed);
    }
    /// exactly one call was made, this one
    pub(crate) fn asked(call: u8, begin: u64, end: u64) -> bool {
        CALLS.load(Relaxed) == 1 && CALL.load(Relaxed) == call && BEGIN.load(Relaxed) == begin && END.load(Relaxed) == end
    }
    pub(crate) fn calls() -> u8 {
        CALLS.load(Relaxed)
    }

    pub(crate) struct SpecSource {
        pub size: u64,
    }
    impl Source for SpecSource {
        fn size(&self) -> Size {
            Size::new(self.size)
        }
        fn read(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<usize> {
            let o = offset.into_u64();
            record(2, o, o + buf.len() as u64, &BlockCheck::None, false);
            // short reads are allowed, reads of nothing only at the end or for an empty buffer
            let n: u64 = sym();
            require(n <= buf.len() as u64 && o <= self.size && n <= self.size - o);
            require(n > 0 || buf.is_empty() || o == self.size);
            COUNT.store(n, Relaxed);
            Ok(n as usize)
        }
        fn read_exact(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<()> {
            let o = offset.into_u64();
            record(3, o, o + buf.len() as u64, &BlockCheck::None, false);
            Ok(())
        }
        fn get_slice(&self, region: ARegion, check: BlockCheck) -> Result<Cow<[u8]>> {
            record(1, region.begin().into_u64(), region.end().into_u64(), &check, true);
            Ok(Cow::Borrowed(&[]))
        }
        fn cut(self: Arc<Self>, region: Region, check: BlockCheck, in_memory: bool) -> Result<(Arc<dyn Source>, Region)> {
            record(4, region.begin().into_u64(), region.end().into_u64(), &check, in_memory);
            Ok((self, region))
        }
        fn display(&self) -> String {
            String::new()
        }
    }

    /// any source, and any region of it
    pub(crate) fn any_source() -> (Arc<dyn Source>, Region, u64, u64) {
        let (b, e, size): (u64, u64, u64) = (sym(), sym(), sym());
        require(b <= e && e <= size);
        (Arc::new(SpecSource { size }), Region::new(Offset::new(b), Offset::new(e)), b, e)
    }
}

/// The checksum of the layout, bit by bit.
pub(crate) fn spec_crc(b: &[u8]) -> u32 {
    let mut c = u32::MAX;
    let mut i = 0;
    while i < b.len() {
        c ^= (b[i] as u32) << 24;
        let mut k = 0;
        while k < 8 {
            c = if c >> 31 == 1 { c << 1 ^ 0x1EDC_6F41 } else { c << 1 };
            k += 1;
        }
        i += 1;
    }
    c
}
