/*@ C13 C05 C06 C01: what is read is what the file has at that place: a region cut out of a region is the asked part of it, or nothing
(Range new, new_from_size, begin, end, size, Region try_cut_rel, cut_rel, try_cut_rel_asize, ARegion); a source gives exactly the bytes of a
region of it, after their checksum was verified when they have one, and nothing outside (check_region, assert_slice_crc, the sources in
memory and FileSource: size, read, read_exact, get_slice, cut); Reader (cut, create_stream, get_byte_slice, parse_block_in, parse_block_at,
parse_block_unchecked_at, parse_data_block), CheckReader (create_parser, parse_in, get_slice), ByteSlice and ByteRegion (size, stream, cut, as_slice,
get_slice, create_parser, read_slice, read_data) and ByteStream (size, size_left, offset, read) are windows on these bytes, whatever the
nesting of the cuts, and a window never gives a byte that is outside of it. */
use vstd::prelude::*;
use std::sync::Arc;
verus! {
/*@types sizes @*/
/*@include std.inc @*/
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub type IoResult<T> = std::result::Result<T, Error>;
/// an assert! of the code: it must hold
pub fn runtime_assert(b: bool) requires b {}
/// a panic of the code: it must not be reached
#[verifier::external_body]
pub fn stop<T>() -> (r: T) requires false ensures false { unimplemented!() }

// ---- regions
#[derive(Clone, Copy)] pub struct Region { pub begin: Offset, pub end: Offset }
#[derive(Clone, Copy)] pub struct ARegion(pub Region);
impl Region {
    pub open spec fn ok(&self) -> bool { self.begin.0 <= self.end.0 }
    /// the region is a part of these bytes
    pub open spec fn within(&self, b: Seq<u8>) -> bool { self.begin.0 <= self.end.0 <= b.len() }
    pub open spec fn of(&self, b: Seq<u8>) -> Seq<u8> { b.subrange(self.begin.0 as int, self.end.0 as int) }
    pub open spec fn len(&self) -> int { self.end.0 - self.begin.0 }
    /// the part of it of this size at this offset
    pub open spec fn is_part(&self, o: Region, offset: int, size: int) -> bool {
        &&& self.begin.0 == o.begin.0 + offset && self.end.0 == o.begin.0 + offset + size && self.end.0 <= o.end.0 && self.ok()
    }
    /*@fn src/bases/types/range.rs | impl<T> Range<T> where T: Copy + Sub + PartialOrd, | new
    requires begin.0 <= end.0,
    ensures r.begin == begin, r.end == end,
    @sub `/: T\b/` => `: Offset`
    @sub `debug_assert!(` => `runtime_assert(`
    @*/
    /*@fn src/bases/types/range.rs | impl<T> Range<T> where T: Copy + Sub + PartialOrd, | new_from_size
    requires begin.0 + size.0 <= u64::MAX,
    ensures r.begin == begin, r.end.0 == begin.0 + size.0,
    @sub `/: T\b/` => `: Offset`
    @sub `<S>` => ``
    @sub `: S)` => `: Size)`
    @sub `/where\s*T: Add<S, Output = T>,/` => ``
    @*/
    /*@fn src/bases/types/range.rs | impl<T> Range<T> where T: Copy + Sub + PartialOrd, | begin
    ensures r == self.begin,
    @sub `-> T` => `-> Offset`
    @*/
    /*@fn src/bases/types/range.rs | impl<T> Range<T> where T: Copy + Sub + PartialOrd, | end
    ensures r == self.end,
    @sub `-> T` => `-> Offset`
    @*/
    /*@fn src/bases/types/range.rs | impl<T> Range<T> where T: Copy + Sub + PartialOrd, | size
    requires self.ok(),
    ensures r.0 == self.len(),
    @sub `<T as Sub>::Output` => `Size`
    @*/
    /*@fn src/bases/types/range.rs | impl Region | try_cut_rel
    requires self.ok(),
    ensures
        r is Ok <==> offset.0 + size.0 <= self.len(),
        r matches Ok(x) ==> x.is_part(*self, offset.0 as int, size.0 as int),
    @sub `/begin\.and_then\(\|begin\| begin\.checked_add\(([^()]*\(\))\)\)/` => `begin.and_then(|begin: u64| -> (e: Option<u64>) ensures e == (if begin + size.0 <= u64::MAX { Some((begin + size.0) as u64) } else { None }) { begin.checked_add(\1) })`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @*/
    /*@fn src/bases/types/range.rs | impl Region | cut_rel
    requires self.ok(), offset.0 + size.0 <= self.len(),
    ensures r.is_part(*self, offset.0 as int, size.0 as int),
    @sub `panic!("{e}")` => `stop()`
    @*/
    /*@fn src/bases/types/range.rs | impl Region | try_cut_rel_asize
    requires self.ok(),
    ensures
        r is Ok <==> offset.0 + size.0 <= self.len(),
        r matches Ok(x) ==> x.0.is_part(*self, offset.0 as int, size.0 as int),
    @*/
}
impl ARegion {
    /*@fn src/bases/types/range.rs | impl ARegion | new
    requires begin.0 <= end.0,
    ensures r.0.begin == begin, r.0.end == end,
    @sub `/debug_assert!\([^;]*MAX as u64\);/` => ``
    @sub `debug_assert!(` => `runtime_assert(`
    @*/
    /*@fn src/bases/types/range.rs | impl ARegion | begin
    ensures r == self.0.begin,
    @*/
    /*@fn src/bases/types/range.rs | impl ARegion | end
    ensures r == self.0.end,
    @*/
    /*@fn src/bases/types/range.rs | impl ARegion | size
    requires self.0.ok(),
    ensures r.0 == self.0.len(),
    @*/
}
// impl From<ARegion> for Region, TryFrom<Region> for ARegion: the field; a size fits a usize (64 bits)
impl FromSpecImpl<ARegion> for Region { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ARegion) -> Region { v.0 } }
impl From<ARegion> for Region {
    /*@fn src/bases/types/range.rs | impl From<ARegion> for Region | from
    @*/
}

// ---- checksums
#[derive(Clone, Copy)] pub enum BlockCheck { None, Crc32 }
impl BlockCheck {
    pub open spec fn len(&self) -> int { match self { BlockCheck::None => 0, BlockCheck::Crc32 => 4 } }
    /*@fn src/bases/block.rs | impl BlockCheck | size
    ensures r == self.len(),
    @sub `const fn` => `fn`
    @*/
}
// trusted: crc; what it computes: kani contracts of bases/block.rs
pub uninterp spec fn crc(b: Seq<u8>) -> u32;
pub open spec fn be(b: Seq<u8>) -> int { b[0] * 0x100_0000 + b[1] * 0x1_0000 + b[2] * 0x100 + b[3] }
/// bytes, and their checksum
pub open spec fn crc_ok(b: Seq<u8>) -> bool { b.len() >= 4 && crc(b.take(b.len() - 4)) == be(b.skip(b.len() - 4)) }
pub struct Digest { pub b: Ghost<Seq<u8>> }
impl Digest {
    #[verifier::external_body]
    pub fn new() -> (r: Digest) ensures r.b@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, x: &[u8]) ensures final(self).b@ == old(self).b@ + x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: u32) ensures r == crc(self.b@) { unimplemented!() }
}
// trusted: zerocopy::BE::read_u32
#[verifier::external_body]
pub fn read_be(x: &[u8]) -> (r: u32) requires x@.len() >= 4 ensures r == be(x@) { unimplemented!() }
/*@fn src/bases/block.rs | | assert_slice_crc
ensures r is Ok <==> crc_ok(buf@),
@sub `CRC.digest()` => `Digest::new()`
@sub `BE::read_u32` => `read_be`
@sub `/CorruptedFile \{[^{}]*\}\s*\.into\(\)/` => `Error`
@sub `let found_checksum = checksum.to_be_bytes();` => ``
@before `let checksum =`
    proof { assert(Seq::<u8>::empty() + slice@ =~= slice@); }
@*/
/*@fn src/bases/io/mod.rs | | check_region
ensures r is Ok <==> region.end.0 + block_check.len() <= size.0,
@sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
@*/

// ---- sources
/// a piece of bytes, borrowed or not
pub enum Cow<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> Cow<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn part(&self, from: usize, to: usize) -> (r: &[u8])
        requires from <= to <= self@.len(),
        ensures r@ == self@.subrange(from as int, to as int),
    { unimplemented!() }
}
/// what a source must do, for all of them: it gives exactly the bytes it has there
pub open spec fn reads(b: Seq<u8>, offset: int, buf: Seq<u8>, r: IoResult<usize>) -> bool {
    r matches Ok(n) ==> {
        &&& n <= buf.len() && (n > 0 ==> offset + n <= b.len()) && (forall|i: int| 0 <= i < n ==> #[trigger] buf[i] == b[offset + i])
        // nothing only at the end
        &&& n == 0 ==> buf.len() == 0 || offset >= b.len()
    }
}
pub open spec fn reads_exact(b: Seq<u8>, offset: int, buf: Seq<u8>, r: IoResult<()>) -> bool {
    r is Ok ==> offset + buf.len() <= b.len() && buf == b.subrange(offset, offset + buf.len())
}
pub open spec fn checked(b: Seq<u8>, region: Region, check: BlockCheck) -> bool {
    region.end.0 + check.len() <= b.len() && (check is Crc32 ==> crc_ok(b.subrange(region.begin.0 as int, region.end.0 + 4)))
}
pub open spec fn slices(b: Seq<u8>, region: Region, check: BlockCheck, r: Result<Seq<u8>>) -> bool {
    r matches Ok(s) ==> checked(b, region, check) && s == region.of(b)
}
/// the part of the source stands for the region; a checksum is verified when it is brought in memory
pub open spec fn cuts(b: Seq<u8>, region: Region, check: BlockCheck, in_memory: bool, r: Result<(Seq<u8>, Region)>) -> bool {
    r matches Ok((c, p)) ==> {
        &&& region.end.0 + check.len() <= b.len() && p.within(c) && p.of(c) == region.of(b)
        &&& c.len() <= i64::MAX
        &&& in_memory ==> checked(b, region, check)
    }
}
pub open spec fn seq_of<'a>(r: Result<Cow<'a>>) -> Result<Seq<u8>> { match r { Ok(s) => Ok(s@), Err(e) => Err(e) } }
/// (dyn Source)
pub struct Source { pub b: Ghost<Seq<u8>> }
pub open spec fn cut_of(r: Result<(Arc<Source>, Region)>) -> Result<(Seq<u8>, Region)> { match r { Ok((s, p)) => Ok(((*s)@, p)), Err(e) => Err(e) } }
// proved here for the sources in memory and the files, in unit decoder for what is being decompressed
impl Source {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body]
    pub fn size(&self) -> (r: Size) ensures r.0 == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, offset: Offset, buf: &mut [u8]) -> (r: IoResult<usize>)
        ensures final(buf)@.len() == old(buf)@.len(), reads(self@, offset.0 as int, final(buf)@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&self, offset: Offset, buf: &mut [u8]) -> (r: IoResult<()>)
        ensures final(buf)@.len() == old(buf)@.len(), reads_exact(self@, offset.0 as int, final(buf)@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> (r: Result<Cow<'_>>)
        requires region.0.ok(),
        ensures slices(self@, region.0, block_check, seq_of(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cut(self: Arc<Self>, region: Region, block_check: BlockCheck, in_memory: bool) -> (r: Result<(Arc<Source>, Region)>)
        requires region.ok(),
        ensures cuts((*self)@, region, block_check, in_memory, cut_of(r)),
    { unimplemented!() }
}

// in memory
// (any T: AsRef<[u8]>)
pub struct Buf { pub b: Vec<u8> }
impl Buf {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    // trusted: AsRef of vectors, arrays and maps: their bytes
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= i64::MAX { unimplemented!() }
    // (Arc<T> as Arc<dyn Source>)
    #[verifier::external_body]
    pub fn as_source(self: Arc<Self>) -> (r: Arc<Source>) ensures (*r)@ == (*self)@ { unimplemented!() }
    /*@fn src/bases/io/buffer.rs | impl<T> Source for T where T: AsRef<[u8]> + 'static + Sync + Send + std::fmt::Debug, | size
    ensures r.0 == self@.len(),
    @*/
    /*@fn src/bases/io/buffer.rs | impl<T> Source for T where T: AsRef<[u8]> + 'static + Sync + Send + std::fmt::Debug, | read
    ensures final(buf)@.len() == old(buf)@.len(), reads(self@, offset.0 as int, final(buf)@, r), r is Ok,
    @sub `std::io::Result` => `IoResult`
    @sub `Read::read(&mut slice, buf)` => `read_slice(slice, buf)`
    @*/
    /*@fn src/bases/io/buffer.rs | impl<T> Source for T where T: AsRef<[u8]> + 'static + Sync + Send + std::fmt::Debug, | read_exact
    ensures
        final(buf)@.len() == old(buf)@.len(), reads_exact(self@, offset.0 as int, final(buf)@, r),
        offset.0 + old(buf)@.len() <= self@.len() ==> r is Ok,
    @sub `std::io::Result` => `IoResult`
    @sub `|end| end <= our_size as u64` => `|end: u64| -> (b: bool) ensures b == (end <= our_size) { end <= our_size as u64 }`
    @sub `/std::io::Error::new\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `/buf\.copy_from_slice\(&self\.as_ref\(\)\[(\w+)\.\.(\w+)\]\)/` => `copy_all(buf, &self.as_ref()[\1..\2])`
    @*/
    /*@fn src/bases/io/buffer.rs | impl<T> Source for T where T: AsRef<[u8]> + 'static + Sync + Send + std::fmt::Debug, | get_slice
    requires region.0.ok(),
    ensures slices(self@, region.0, block_check, seq_of(r)), checked(self@, region.0, block_check) ==> r is Ok,
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @*/
    /*@fn src/bases/io/buffer.rs | impl<T> Source for T where T: AsRef<[u8]> + 'static + Sync + Send + std::fmt::Debug, | cut
    requires region.ok(),
    ensures cuts((*self)@, region, block_check, _in_memory, cut_of(r)), checked((*self)@, region, block_check) ==> r is Ok,
    @sub `Arc<dyn Source>` => `Arc<Source>`
    @sub `region.try_into().unwrap()` => `ARegion(region)`
    @sub `Ok((self, region))` => `{ let _ = (&*self).as_ref(); Ok((self.as_source(), region)) }`
    @*/
}
// trusted: impl Read for &[u8], slice::copy_from_slice (std)
#[verifier::external_body]
pub fn read_slice(s: &[u8], buf: &mut [u8]) -> (r: IoResult<usize>)
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r matches Ok(n) && n == (if s@.len() < old(buf)@.len() { s@.len() } else { old(buf)@.len() }),
        r matches Ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == s@[i],
{ unimplemented!() }
#[verifier::external_body]
pub fn copy_all(buf: &mut [u8], s: &[u8]) requires old(buf)@.len() == s@.len() ensures final(buf)@ == s@ { unimplemented!() }

// files
/// the file: its bytes do not change while it is read
// trusted: std::fs::File, io::BufReader, memmap2 read the bytes of the file; Mutex
pub struct File { pub b: Ghost<Seq<u8>>, pub pos: Ghost<int> }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
impl File {
    #[verifier::external_body]
    pub fn seek(&mut self, s: SeekFrom) -> (r: IoResult<u64>)
        requires old(self).b@.len() <= i64::MAX, s matches SeekFrom::End(n) ==> n == 0, !(s is Current),
        ensures
            final(self).b == old(self).b,
            r matches Ok(x) ==> x == final(self).pos@ && final(self).pos@ == (match s { SeekFrom::Start(n) => n as int, _ => old(self).b@.len() as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        ensures final(self).b == old(self).b, final(buf)@.len() == old(buf)@.len(), reads(old(self).b@, old(self).pos@, final(buf)@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        ensures final(self).b == old(self).b, final(buf)@.len() == old(buf)@.len(), reads_exact(old(self).b@, old(self).pos@, final(buf)@, r),
    { unimplemented!() }
    /// take(n).read_to_end(buf): at most n bytes, fewer only at the end
    #[verifier::external_body]
    pub fn read_to_end_up_to(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: IoResult<usize>)
        ensures
            final(self).b == old(self).b,
            r is Ok ==> ({
                let k = if old(self).pos@ + n <= old(self).b@.len() { n as int } else if old(self).pos@ <= old(self).b@.len() { old(self).b@.len() - old(self).pos@ } else { 0 };
                final(buf)@ == old(buf)@ + old(self).b@.subrange(old(self).pos@, old(self).pos@ + k)
            }),
    { unimplemented!() }
}
pub struct Path;
pub struct FileSource { pub source: File, pub path: Path, pub len: u64 }
#[verifier::external_body]
pub fn buffered(n: usize, f: File) -> (r: File) ensures r.b == f.b { unimplemented!() }
#[verifier::external_body]
pub fn no_path() -> Path { unimplemented!() }
pub struct MmapOptions { pub at: Ghost<int>, pub n: Ghost<int> }
impl MmapOptions {
    #[verifier::external_body]
    pub fn new() -> MmapOptions { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, at: u64, n: usize) ensures final(self).at@ == at, final(self).n@ == n { unimplemented!() }
    // a map which goes beyond the file kills the process that reads it
    #[verifier::external_body]
    pub fn map(&self, f: &FileSource) -> (r: IoResult<Buf>)
        requires 0 <= self.at@, 0 <= self.n@, self.at@ + self.n@ <= f@.len(),
        ensures r matches Ok(m) ==> m@ == f@.subrange(self.at@, self.at@ + self.n@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn advise(m: &Buf) -> IoResult<()> { unimplemented!() }
#[verifier::external_body]
pub fn with_bytes(v: Vec<u8>) -> (r: Buf) ensures r@ == v@ { unimplemented!() }
/*@fn src/bases/io/file.rs | | move_to_memory
ensures r,
@sub `const fn` => `fn`
@*/
impl FileSource {
    pub open spec fn view(&self) -> Seq<u8> { self.source.b@ }
    pub open spec fn inv(&self) -> bool { self.len == self@.len() && self@.len() <= i64::MAX }
    // Mutex::lock().unwrap(): the file, wherever it was left
    #[verifier::external_body]
    pub fn locked(&self) -> (r: File) ensures r.b == self.source.b { unimplemented!() }
    #[verifier::external_body]
    pub fn as_source(self: Arc<Self>) -> (r: Arc<Source>) ensures (*r)@ == (*self)@ { unimplemented!() }
    /*@fn src/bases/io/file.rs | impl FileSource | new
    requires source.b@.len() <= i64::MAX,
    ensures r matches Ok(f) ==> f.inv() && f@ == source.b@,
    @sub `std::io::Result` => `IoResult`
    @sub `io::BufReader::with_capacity(` => `buffered(`
    @sub `Mutex::new(source)` => `source`
    @sub `"".into()` => `no_path()`
    @*/
    /*@fn src/bases/io/file.rs | impl Source for FileSource | size
    requires self.inv(),
    ensures r.0 == self@.len(),
    @*/
    /*@fn src/bases/io/file.rs | impl Source for FileSource | read
    requires self.inv(),
    ensures final(buf)@.len() == old(buf)@.len(), reads(self@, offset.0 as int, final(buf)@, r),
    @sub `std::io::Result` => `IoResult`
    @sub `self.lock().unwrap()` => `self.locked()`
    @*/
    /*@fn src/bases/io/file.rs | impl Source for FileSource | read_exact
    requires self.inv(),
    ensures final(buf)@.len() == old(buf)@.len(), reads_exact(self@, offset.0 as int, final(buf)@, r),
    @sub `std::io::Result` => `IoResult`
    @sub `self.lock().unwrap()` => `self.locked()`
    @*/
    /*@fn src/bases/io/file.rs | impl Source for FileSource | get_slice
    requires self.inv(), region.0.ok(),
    ensures slices(self@, region.0, block_check, seq_of(r)),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @sub `/vec!\[0; ([^\]]*)\]/` => `zeroed(\1)`
    @before `buf.truncate(`
        let ghost whole = buf@;
    @after `buf.truncate(`
        proof { assert(buf@ =~= region.0.of(self@)); }
    @*/
    /*@fn src/bases/io/file.rs | impl Source for FileSource | cut
    requires self.inv(), region.ok(),
    ensures cuts((*self)@, region, block_check, in_memory, cut_of(r)),
    @sub `Arc<dyn Source>` => `Arc<Source>`
    @sub `/warn!\([^()]*\);/` => ``
    @sub `Ok((self, region))` => `Ok((self.as_source(), region))`
    @sub `self.lock().unwrap()` => `self.locked()`
    @sub `/f\.by_ref\(\)\s*\.take\(([^;]*)\)\s*\.read_to_end\(&mut buf\)/` => `f.read_to_end_up_to(\1, &mut buf)`
    @sub `/io::Error::from\([^()]*\)\.into\(\)/` => `Error`
    @sub `/mmap_options\s*\.offset\(([^;]*)\)\s*\.len\(([^;]*)\)\s*\.populate\(\);/` => `mmap_options.set(\1, \2);`
    @sub `unsafe { mmap_options.map(self.source.lock().unwrap().get_ref())? }` => `mmap_options.map(&self)?`
    @sub `mmap.advise(Advice::WillNeed)?` => `advise(&mmap)?`
    @sub `assert_slice_crc(&mmap)` => `assert_slice_crc(mmap.as_ref())`
    @sub `Arc::new(buf)` => `held({ proof { let n = full_size.0 - region.len(); assert(buf@ =~= (*self)@.subrange(region.begin.0 as int, region.end.0 + n)); } with_bytes(buf) }, Ghost((*self)@), region)`
    @sub `Arc::new(mmap)` => `held({ proof { let n = full_size.0 - region.len(); assert(mmap@ =~= (*self)@.subrange(region.begin.0 as int, region.end.0 + n)); } mmap }, Ghost((*self)@), region)`
    @*/
}
#[verifier::external_body]
pub fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
/// what was brought in memory is the region (and its checksum)
pub fn held(m: Buf, f: Ghost<Seq<u8>>, region: Region) -> (r: Arc<Source>)
    requires region.ok(), region.end.0 <= f@.len(), exists|k: int| 0 <= k <= 4 && region.end.0 + k <= f@.len() && m@ == #[trigger] f@.subrange(region.begin.0 as int, region.end.0 + k),
    ensures (*r)@ == m@, m@.len() >= region.len(), m@.take(region.len()) == region.of(f@), m@.subrange(0, region.len()) == region.of(f@), m@.len() <= i64::MAX,
{
    let _ = m.as_ref();
    let a = Arc::new(m);
    proof { assert(m@.take(region.len()) =~= region.of(f@)); assert(m@.subrange(0, region.len()) =~= region.of(f@)); }
    a.as_source()
}

// ---- parsers
pub struct SliceParser<'a> { pub slice: Cow<'a>, pub global_offset: Offset, pub offset: usize }
impl<'a> SliceParser<'a> {
    pub open spec fn inv(&self) -> bool { self.offset <= self.slice@.len() <= i64::MAX && self.global_offset.0 + self.slice@.len() <= u64::MAX }
    /// what is left to parse
    pub open spec fn rest(&self) -> Seq<u8> { self.slice@.skip(self.offset as int) }
    /*@fn src/bases/parsing.rs | impl<'a> SliceParser<'a> | new
    requires slice@.len() <= i64::MAX, global_offset.0 + slice@.len() <= u64::MAX,
    ensures r.inv(), r.rest() == slice@, r.global_offset == global_offset,
    @sub `Cow<'a, [u8]>` => `Cow<'a>`
    @start
        proof { assert(slice@.skip(0) =~= slice@); }
    @*/
    // assumed: no one asks a parser for more than half of the address space: the sizes asked are those of fields, at most 65535
    /*@fn src/bases/parsing.rs | impl Parser for SliceParser<'_> | read_slice
    requires old(self).inv(), size <= i64::MAX,
    ensures
        final(self).inv(), r is Ok <==> size <= old(self).rest().len(),
        r matches Ok(s) ==> s@ == old(self).rest().take(size as int) && final(self).rest() == old(self).rest().skip(size as int),
        r is Err ==> *final(self) == *old(self),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `/&self\.slice\[([^\]]*)\.\.([^\]]*)\]/` => `part_of(&self.slice, \1, \2)`
    @sub `Ok(Cow::Borrowed(slice))` => `{ proof { assert(self.slice@.skip(self.offset as int) =~= old(self).rest().skip(size as int)); assert(slice@ =~= old(self).rest().take(size as int)); } Ok(Cow::Borrowed(slice)) }`
    @*/
    /*@fn src/bases/parsing.rs | impl Parser for SliceParser<'_> | read_data
    requires old(self).inv(), old(buf)@.len() <= i64::MAX,
    ensures
        final(self).inv(), final(buf)@.len() == old(buf)@.len(), r is Ok <==> old(buf)@.len() <= old(self).rest().len(),
        r is Ok ==> final(buf)@ == old(self).rest().take(old(buf)@.len() as int) && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `/buf\.copy_from_slice\(&self\.slice\[([^\]]*?)\.\.([^\]]*)\]\)/` => `let upto = \2; copy_all(buf, part_of(&self.slice, \1, upto))`
    @sub `Ok(())` => `{ proof { assert(self.slice@.skip(self.offset as int) =~= old(self).rest().skip(buf@.len() as int)); assert(buf@ =~= old(self).rest().take(buf@.len() as int)); } Ok(()) }`
    @*/
    /*@fn src/bases/parsing.rs | impl Parser for SliceParser<'_> | skip
    requires old(self).inv(), size <= i64::MAX,
    ensures
        final(self).inv(), r is Ok <==> size <= old(self).rest().len(),
        r is Ok ==> final(self).rest() == old(self).rest().skip(size as int),
    @sub `/format_error!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/` => `Error`
    @sub `Ok(())` => `{ proof { assert(self.slice@.skip(self.offset as int) =~= old(self).rest().skip(size as int)); } Ok(()) }`
    @*/
    /*@fn src/bases/parsing.rs | impl Parser for SliceParser<'_> | global_offset
    requires self.inv(),
    ensures r.0 == self.global_offset.0 + self.offset,
    @*/
}
// trusted: slicing of a Cow
#[verifier::external_body]
pub fn part_of<'b>(c: &'b Cow<'_>, from: usize, to: usize) -> (r: &'b [u8])
    requires from <= to <= c@.len(),
    ensures r@ == c@.subrange(from as int, to as int),
{ unimplemented!() }

/// what is parsed
// proved elsewhere: what the parse functions of the structures make of the bytes: kani contracts, other units
pub trait Parsable {
    type Output;
    /// v is what these bytes stand for
    spec fn means(b: Seq<u8>, v: Self::Output) -> bool;
    fn parse(parser: &mut SliceParser<'_>) -> (r: Result<Self::Output>)
        requires old(parser).inv(),
        ensures r matches Ok(v) ==> Self::means(old(parser).rest(), v);
}
pub trait SizedParsable: Parsable { spec fn width() -> usize; fn size_() -> (r: usize) ensures r == Self::width(), r <= 0x10000; }
pub trait DataBlockParsable: Sized {
    type Inner;
    type TailParser: Parsable<Output = Self::Inner>;
    type Output;
    /// v is what the tail of this meaning, at this place, stands for
    spec fn built(i: Self::Inner, at: int, b: Seq<u8>, v: Self::Output) -> bool;
    fn finalize(intermediate: Self::Inner, header_offset: Offset, reader: &Reader) -> (r: Result<Self::Output>)
        requires reader.inv(),
        ensures r matches Ok(v) ==> Self::built(intermediate, header_offset.0 as int, reader@, v);
}

// ---- readers
pub struct Reader { pub source: Arc<Source>, pub region: Region }
pub struct CheckReader { pub source: Arc<Source>, pub region: Region }
/// a region of a source
pub open spec fn window(s: Source, r: Region) -> bool { r.within(s@) && s@.len() <= i64::MAX }
pub proof fn part_of_part(b: Seq<u8>, o: Region, p: Region, offset: int, size: int)
    requires o.within(b), p.is_part(o, offset, size), 0 <= offset, 0 <= size,
    ensures p.within(b), p.of(b) == o.of(b).subrange(offset, offset + size), p.len() == size,
{ assert(p.of(b) =~= o.of(b).subrange(offset, offset + size)); }
impl Reader {
    pub open spec fn inv(&self) -> bool { window(*self.source, self.region) }
    pub open spec fn view(&self) -> Seq<u8> { self.region.of((*self.source)@) }
    /// the checksum of the block of this size at this offset is right; it is in the source, after the block
    pub open spec fn block_ok(&self, offset: int, size: int) -> bool {
        &&& self.region.begin.0 + offset + size + 4 <= (*self.source)@.len()
        &&& crc_ok((*self.source)@.subrange(self.region.begin.0 + offset, self.region.begin.0 + offset + size + 4))
    }
    /*@fn src/bases/reader.rs | impl Reader | new_from_parts
    requires window(*source, region),
    ensures r.inv(), r.source == source, r.region == region,
    @sub `dyn Source` => `Source`
    @*/
    /*@fn src/bases/reader.rs | impl Reader | new_from_arc
    requires size.0 <= (*source)@.len() <= i64::MAX,
    ensures r.inv(), r@ == (*source)@.take(size.0 as int),
    @sub `dyn Source` => `Source`
    @*/
    /*@fn src/bases/reader.rs | impl Reader | global_offset
    ensures r == self.region.begin,
    @*/
    /*@fn src/bases/reader.rs | impl Reader | size
    requires self.inv(),
    ensures r.0 == self@.len(),
    @*/
    /*@fn src/bases/reader.rs | impl Reader | cut_source
    requires self.inv(),
    ensures
        r matches Ok((s, p)) ==> {
            &&& offset.0 + size.0 <= self@.len()
            &&& window(*s, p) && p.of((*s)@) == self@.subrange(offset.0 as int, offset.0 + size.0)
            &&& in_memory && block_check is Crc32 ==> self.block_ok(offset.0 as int, size.0 as int)
        },
    @sub `dyn Source` => `Source`
    @sub `Arc::clone(&self.source).cut(` => `same(&self.source).cut(`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region, offset.0 as int, size.0 as int); }
    @*/
    /*@fn src/bases/reader.rs | impl Reader | cut
    requires self.inv(),
    ensures r matches Ok(x) ==> x.inv() && offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    @*/
    /*@fn src/bases/reader.rs | impl Reader | cut_check
    requires self.inv(),
    ensures r matches Ok(x) ==> {
        &&& x.inv() && offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0)
        // nothing is given before its checksum is verified
        &&& block_check is Crc32 ==> self.block_ok(offset.0 as int, size.0 as int)
    },
    @*/
    /*@fn src/bases/reader.rs | impl Reader | create_stream
    requires self.inv(),
    ensures r matches Ok(x) ==> x.inv() && offset.0 + size.0 <= self@.len() && x@ == self@.subrange(offset.0 as int, offset.0 + size.0) && x.pos() == 0,
    @*/
    /*@fn src/bases/reader.rs | impl Reader | get_byte_slice
    requires self.inv(), offset.0 + size.0 <= self@.len(),
    ensures r.inv(), r@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region, offset.0 as int, size.0 as int); }
    @*/
    /*@fn src/bases/reader.rs | impl Reader | parse_block_in
    requires self.inv(),
    ensures r matches Ok(v) ==> {
        &&& offset.0 + size.0 <= self@.len() && T::means(self@.subrange(offset.0 as int, offset.0 + size.0), v)
        &&& self.block_ok(offset.0 as int, size.0 as int)
    },
    @sub `BlockParsable` => `Parsable`
    @before `check_reader.parse_in`
        proof { assert(check_reader@.subrange(0, size.0 as int) =~= check_reader@); }
    @*/
    /*@fn src/bases/reader.rs | impl Reader | parse_block_at
    requires self.inv(),
    ensures r matches Ok(v) ==> {
        &&& offset.0 + T::width() <= self@.len() && T::means(self@.subrange(offset.0 as int, offset.0 + T::width()), v)
        &&& self.block_ok(offset.0 as int, T::width() as int)
    },
    @sub `SizedBlockParsable` => `SizedParsable`
    @sub `T::SIZE` => `T::size_()`
    @*/
    /*@fn src/bases/reader.rs | impl Reader | parse_block_unchecked_at
    requires self.inv(),
    ensures r matches Ok(v) ==> offset.0 + T::width() <= self@.len() && T::means(self@.subrange(offset.0 as int, offset.0 + T::width()), v),
    @sub `SizedBlockParsable` => `SizedParsable`
    @sub `T::SIZE` => `T::size_()`
    @before `check_reader.parse_in`
        proof { assert(check_reader@.subrange(0, T::width() as int) =~= check_reader@); }
    @*/
    /*@fn src/bases/reader.rs | impl Reader | parse_data_block
    requires self.inv(),
    ensures r matches Ok(v) ==> {
        let (at, n) = (sized_offset.offset.0 as int, sized_offset.size.0 as int);
        &&& at + n <= self@.len() && self.block_ok(at, n)
        &&& exists|i: T::Inner| #[trigger] T::TailParser::means(self@.subrange(at, at + n), i) && T::built(i, at, self@, v)
    },
    @*/
}
#[derive(Clone, Copy)] pub struct SizedOffset { pub size: ASize, pub offset: Offset }
// Arc::clone
#[verifier::external_body]
pub fn same(s: &Arc<Source>) -> (r: Arc<Source>) ensures r == *s { unimplemented!() }
impl CheckReader {
    pub open spec fn inv(&self) -> bool { window(*self.source, self.region) }
    pub open spec fn view(&self) -> Seq<u8> { self.region.of((*self.source)@) }
    /*@fn src/bases/reader.rs | impl CheckReader | new_from_parts
    requires window(*source, region),
    ensures r.inv(), r.source == source, r.region == region,
    @sub `dyn Source` => `Source`
    @*/
    /*@fn src/bases/reader.rs | impl CheckReader | create_parser
    requires self.inv(),
    ensures r matches Ok(p) ==> p.inv() && offset.0 + size.0 <= self@.len() && p.rest() == self@.subrange(offset.0 as int, offset.0 + size.0) && p.global_offset.0 == self.region.begin.0 + offset.0,
    @sub `impl Parser + '_` => `SliceParser<'_>`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region.0, offset.0 as int, size.0 as int); }
    @*/
    /*@fn src/bases/reader.rs | impl CheckReader | parse_in
    requires self.inv(),
    ensures r matches Ok(v) ==> offset.0 + size.0 <= self@.len() && T::means(self@.subrange(offset.0 as int, offset.0 + size.0), v),
    @*/
    /*@fn src/bases/reader.rs | impl CheckReader | get_slice
    requires self.inv(),
    ensures r matches Ok(s) ==> offset.0 + size.0 <= self@.len() && s@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region.0, offset.0 as int, size.0 as int); }
    @*/
}

// ---- what the user gets
pub struct ByteSlice<'s> { pub source: &'s Arc<Source>, pub region: Region }
pub struct ByteRegion { pub source: Arc<Source>, pub region: Region }
pub struct ByteStream { pub source: Arc<Source>, pub region: Region, pub offset: Offset }
impl<'s> ByteSlice<'s> {
    /*@fn src/reader/byte_slice.rs | impl<'s> ByteSlice<'s> | new_from_parts
    requires window(**source, region),
    ensures r.inv(), r.source == source, r.region == region,
    @sub `dyn Source` => `Source`
    @*/
    pub open spec fn inv(&self) -> bool { window(**self.source, self.region) }
    pub open spec fn view(&self) -> Seq<u8> { self.region.of((**self.source)@) }
    /*@fn src/reader/byte_slice.rs | impl<'s> ByteSlice<'s> | size
    requires self.inv(),
    ensures r.0 == self@.len(),
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> ByteSlice<'s> | stream
    requires self.inv(),
    ensures r.inv(), r@ == self@, r.pos() == 0,
    @sub `Arc::clone(` => `same(`
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> ByteSlice<'s> | cut
    requires self.inv(), offset.0 + size.0 <= self@.len(),
    ensures r.inv(), r@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    @after `let region =`
        proof { part_of_part((**self.source)@, self.region, region, offset.0 as int, size.0 as int); }
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> ByteSlice<'s> | get_slice
    requires self.inv(),
    ensures r matches Ok(s) ==> offset.0 + size <= self@.len() && s@ == self@.subrange(offset.0 as int, offset.0 + size),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @after `let region =`
        proof { part_of_part((**self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> RandomParser for ByteSlice<'s> | create_parser
    requires self.inv(),
    // up to 65535 bytes from there on
    ensures r matches Ok(p) ==> offset.0 <= self@.len() && p.inv() && p.rest() == self@.subrange(offset.0 as int, offset.0 + (if self@.len() - offset.0 <= 0xFFFF { self@.len() - offset.0 } else { 0xFFFF })),
    @sub `Self::Parser<'_>` => `SliceParser<'_>`
    @after `let region =`
        proof { part_of_part((**self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> RandomParser for ByteSlice<'s> | global_offset
    ensures r == self.region.begin,
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> RandomParser for ByteSlice<'s> | read_slice
    requires self.inv(),
    ensures r matches Ok(s) ==> offset.0 + size <= self@.len() && s@ == self@.subrange(offset.0 as int, offset.0 + size),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @after `let region =`
        proof { part_of_part((**self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_slice.rs | impl<'s> RandomParser for ByteSlice<'s> | read_data
    requires self.inv(),
    ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> offset.0 + old(buf)@.len() <= self@.len() && final(buf)@ == self@.subrange(offset.0 as int, offset.0 + old(buf)@.len()),
    @sub `/\s*\.map_err\(\|e\| std::io::Error::new\(std::io::ErrorKind::UnexpectedEof, e\)\)/` => ``
    @after `let region =`
        proof { part_of_part((**self.source)@, self.region, region, offset.0 as int, buf@.len() as int); }
    @*/
}
impl ByteRegion {
    pub open spec fn inv(&self) -> bool { window(*self.source, self.region) }
    pub open spec fn view(&self) -> Seq<u8> { self.region.of((*self.source)@) }
    /*@fn src/reader/byte_region.rs | impl ByteRegion | size
    requires self.inv(),
    ensures r.0 == self@.len(),
    @*/
    /*@fn src/reader/byte_region.rs | impl ByteRegion | stream
    requires self.inv(),
    ensures r.inv(), r@ == self@, r.pos() == 0,
    @sub `Arc::clone(` => `same(`
    @*/
    /*@fn src/reader/byte_region.rs | impl ByteRegion | cut
    requires self.inv(), offset.0 + size.0 <= self@.len(),
    ensures r.inv(), r@ == self@.subrange(offset.0 as int, offset.0 + size.0),
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region, offset.0 as int, size.0 as int); }
    @*/
    /*@fn src/reader/byte_region.rs | impl ByteRegion | get_slice
    requires self.inv(),
    ensures r matches Ok(s) ==> offset.0 + size <= self@.len() && s@ == self@.subrange(offset.0 as int, offset.0 + size),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_region.rs | impl RandomParser for ByteRegion | create_parser
    requires self.inv(),
    // up to 65535 bytes from there on
    ensures r matches Ok(p) ==> offset.0 <= self@.len() && p.inv() && p.rest() == self@.subrange(offset.0 as int, offset.0 + (if self@.len() - offset.0 <= 0xFFFF { self@.len() - offset.0 } else { 0xFFFF })),
    @sub `Self::Parser<'_>` => `SliceParser<'_>`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_region.rs | impl RandomParser for ByteRegion | global_offset
    ensures r == self.region.begin,
    @*/
    /*@fn src/reader/byte_region.rs | impl RandomParser for ByteRegion | read_slice
    requires self.inv(),
    ensures r matches Ok(s) ==> offset.0 + size <= self@.len() && s@ == self@.subrange(offset.0 as int, offset.0 + size),
    @sub `Result<Cow<[u8]>>` => `Result<Cow<'_>>`
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region.0, offset.0 as int, size as int); }
    @*/
    /*@fn src/reader/byte_region.rs | impl RandomParser for ByteRegion | read_data
    requires self.inv(),
    ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> offset.0 + old(buf)@.len() <= self@.len() && final(buf)@ == self@.subrange(offset.0 as int, offset.0 + old(buf)@.len()),
    @sub `/\s*\.map_err\(\|e\| std::io::Error::new\(std::io::ErrorKind::UnexpectedEof, e\)\)/` => ``
    @after `let region =`
        proof { part_of_part((*self.source)@, self.region, region, offset.0 as int, buf@.len() as int); }
    @*/

    /*@fn src/reader/byte_region.rs | impl ByteRegion | as_slice
    requires self.inv(),
    ensures r.inv(), r@ == self@,
    @*/
    /*@fn src/reader/byte_region.rs | impl From<ByteSlice<'_>> for ByteRegion | from
    requires byte_slice.inv(),
    ensures r.inv(), r@ == byte_slice@,
    @sub `Arc::clone(` => `same(`
    @*/
}
impl ByteStream {
    pub open spec fn inv(&self) -> bool { window(*self.source, self.region) && self.region.begin.0 <= self.offset.0 <= self.region.end.0 }
    pub open spec fn view(&self) -> Seq<u8> { self.region.of((*self.source)@) }
    pub open spec fn pos(&self) -> int { self.offset.0 - self.region.begin.0 }
    /*@fn src/reader/byte_stream.rs | impl ByteStream | new_from_parts
    requires window(*source, region), region.begin.0 <= offset.0 <= region.end.0,
    ensures r.inv(), r@ == region.of((*source)@), r.pos() == offset.0 - region.begin.0,
    @sub `dyn Source` => `Source`
    @*/
    /*@fn src/reader/byte_stream.rs | impl ByteStream | size_left
    requires self.inv(),
    ensures r == self@.len() - self.pos(),
    @*/
    /*@fn src/reader/byte_stream.rs | impl ByteStream | size
    requires self.inv(),
    ensures r == self@.len(),
    @*/
    /*@fn src/reader/byte_stream.rs | impl ByteStream | offset
    requires self.inv(),
    ensures r == self.pos(),
    @*/
    /*@fn src/reader/byte_stream.rs | impl Read for ByteStream | read
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self)@ == old(self)@, final(buf)@.len() == old(buf)@.len(),
        // the next bytes of the window, nothing of what follows it, nothing only at its end
        r matches Ok(n) ==> {
            &&& n <= old(buf)@.len() && final(self).pos() == old(self).pos() + n
            &&& forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self)@[old(self).pos() + i]
            &&& n == 0 ==> old(buf)@.len() == 0 || old(self).pos() == old(self)@.len()
        },
        r is Err ==> final(self).pos() == old(self).pos(),
    @sub `std::io::Result` => `IoResult`
    @sub `/Err\(std::io::Error::new\([^()]*\)\)/` => `Err(e)`
    @*/
    /*@fn src/reader/byte_stream.rs | impl From<ByteRegion> for ByteStream | from
    requires bregion.inv(),
    ensures r.inv(), r@ == bregion@, r.pos() == 0,
    @*/
}
}
fn main() {}
