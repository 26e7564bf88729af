//! C13: every way of looking at a content shows the bytes of the same range.
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{ByteRegion, ByteSlice, ByteStream};
use std::io::Read;
use std::sync::Arc;

fn off(n: usize) -> jbk::Offset {
    (n as u64).into()
}
fn size(n: usize) -> jbk::Size {
    (n as u64).into()
}

/// A sub range, biased to the edges.
fn sub(r: &mut Rng, len: usize) -> (usize, usize) {
    let o = match r.below(5) {
        0 => 0,
        1 => len,
        2 => r.usize(len + 1),
        3 => 1.min(len),
        _ => r.usize(len + 1),
    };
    let left = len - o;
    let n = match r.below(5) {
        0 => left,
        1 => 0,
        2 => left.saturating_sub(1),
        _ => r.usize(left + 1),
    };
    (o, n)
}

/// Read sizes that partition anything
fn read_size(r: &mut Rng, style: u64) -> usize {
    match style {
        0 => 1 + r.usize(7),
        1 => *r.pick(&[1, 2, 1023, 1024, 1025, 4095, 4096, 4097, 8192]),
        2 => 1 << r.usize(18),
        3 => *r.pick(&[0, 1, 0, 3, 1000]),
        _ => 1 + r.usize(100_000),
    }
}

fn consistent(s: &ByteStream, want: &[u8], pos: usize, what: &str) -> Result<(), String> {
    if s.size() != want.len() as u64 {
        return Err(format!("{what}: stream size() {} for {}", s.size(), want.len()));
    }
    if s.offset() != pos as u64 {
        return Err(format!("{what}: stream offset() {} after {pos} bytes", s.offset()));
    }
    if s.size_left() != (want.len() - pos) as u64 {
        return Err(format!(
            "{what}: stream size_left() {} with {} bytes left",
            s.size_left(),
            want.len() - pos
        ));
    }
    Ok(())
}

/// Advance one stream by one read
fn step(s: &mut ByteStream, want: &[u8], pos: &mut usize, n: usize, what: &str) -> Result<(), String> {
    let mut buf = vec![0x5Au8; n];
    let got = s.read(&mut buf).map_err(|e| format!("{what}: read({n}) at {pos}: {e}"))?;
    let left = want.len() - *pos;
    if got > n.min(left) || (got == 0 && n > 0 && left > 0) {
        return Err(format!("{what}: read({n}) with {left} bytes left answers {got}"));
    }
    if buf[..got] != want[*pos..*pos + got] {
        return Err(format!(
            "{what}: read({n}) at {pos} of {}: {} instead of {}",
            want.len(),
            short(&buf[..got]),
            short(&want[*pos..*pos + got])
        ));
    }
    *pos += got;
    consistent(s, want, *pos, what)
}

fn drain(r: &mut Rng, mut s: ByteStream, want: &[u8], what: &str) -> Result<(), String> {
    let style = if want.len() > 200_000 { *r.pick(&[1, 2, 4]) } else { r.below(5) };
    let mut pos = 0;
    consistent(&s, want, 0, what)?;
    if r.chance(1, 4) {
        let mut v = vec![];
        s.read_to_end(&mut v).map_err(|e| format!("{what}: {e}"))?;
        if v != want {
            return Err(format!("{what}: read_to_end: {}", first_diff(&v, want)));
        }
        return consistent(&s, want, want.len(), what);
    }
    let mut n = 0;
    while pos < want.len() {
        let rs = read_size(r, style);
        step(&mut s, want, &mut pos, rs, what)?;
        n += 1;
        if n > 4000 {
            let mut v = vec![];
            s.read_to_end(&mut v).map_err(|e| format!("{what}: {e}"))?;
            if v != want[pos..] {
                return Err(format!("{what}: the rest: {}", first_diff(&v, &want[pos..])));
            }
            pos = want.len();
        }
    }
    step(&mut s, want, &mut pos, 1 + r.usize(50), what)
}

fn slices(
    r: &mut Rng,
    want: &[u8],
    what: &str,
    get: &dyn Fn(jbk::Offset, usize) -> Result<Vec<u8>, String>,
) -> Result<(), String> {
    for _ in 0..2 {
        let (o, n) = sub(r, want.len());
        let g = get(off(o), n).map_err(|e| format!("{what}: get_slice({o}, {n}): {e}"))?;
        if g != want[o..o + n] {
            return Err(format!(
                "{what}: get_slice({o}, {n}): {} instead of {}",
                short(&g),
                short(&want[o..o + n])
            ));
        }
    }
    // what is past the end cannot be a slice of the content
    if let Ok(g) = get(off(want.len()), 1) {
        return Err(format!("{what}: get_slice past the end answers {}", short(&g)));
    }
    if let Ok(g) = get(off(0), want.len() + 1) {
        return Err(format!("{what}: get_slice longer than the view answers {} bytes", g.len()));
    }
    Ok(())
}

fn check_region(r: &mut Rng, v: &ByteRegion, want: &[u8], depth: usize, what: &str) -> Result<(), String> {
    if v.size() != size(want.len()) {
        return Err(format!("{what}: size() {:?} for {}", v.size(), want.len()));
    }
    drain(r, v.stream(), want, &format!("{what}.stream()"))?;
    slices(r, want, what, &|o, n| {
        v.get_slice(o, n).map(|c| c.to_vec()).map_err(|e| e.to_string())
    })?;
    drain(r, ByteStream::from(v.clone()), want, &format!("ByteStream::from({what})"))?;
    check_slice(r, &v.as_slice(), want, depth, &format!("{what}.as_slice()"), false)?;
    if depth > 0 {
        for _ in 0..2 {
            let (o, n) = sub(r, want.len());
            check_slice(
                r,
                &v.cut(off(o), size(n)),
                &want[o..o + n],
                depth - 1,
                &format!("{what}.cut({o},{n})"),
                true,
            )?;
        }
    }
    Ok(())
}

fn check_slice(
    r: &mut Rng,
    v: &ByteSlice,
    want: &[u8],
    depth: usize,
    what: &str,
    convert: bool,
) -> Result<(), String> {
    if v.size() != size(want.len()) {
        return Err(format!("{what}: size() {:?} for {}", v.size(), want.len()));
    }
    drain(r, v.stream(), want, &format!("{what}.stream()"))?;
    slices(r, want, what, &|o, n| {
        v.get_slice(o, n).map(|c| c.to_vec()).map_err(|e| e.to_string())
    })?;
    if convert {
        let reg = ByteRegion::from(v.clone());
        let d = if depth > 0 && r.bool() { 1 } else { 0 };
        check_region(r, &reg, want, d, &format!("ByteRegion::from({what})"))?;
    }
    if depth > 0 {
        let (o, n) = sub(r, want.len());
        check_slice(
            r,
            &v.cut(off(o), size(n)),
            &want[o..o + n],
            depth - 1,
            &format!("{what}.cut({o},{n})"),
            convert,
        )?;
    }
    Ok(())
}

/// Streams of several contents of one pack, read alternately.
fn interleaved(r: &mut Rng, views: &[(ByteRegion, Arc<Vec<u8>>)]) -> Result<(), String> {
    let mut st: Vec<(ByteStream, &[u8], usize, String)> = vec![];
    for _ in 0..3 {
        let i = r.usize(views.len());
        let (v, w) = &views[i];
        let (o, n) = sub(r, w.len());
        st.push((v.cut(off(o), size(n)).stream(), &w[o..o + n], 0, format!("content {i}.cut({o},{n}).stream()")));
        st.push((v.stream(), w, 0, format!("content {i}.stream()")));
    }
    for _ in 0..60 {
        let k = r.usize(st.len());
        let style = r.below(5);
        let n = read_size(r, style);
        let (s, w, pos, what) = &mut st[k];
        step(s, w, pos, n, &format!("{what} (interleaved)"))?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Source {
    Memory,
    File,
    Mmap,
    EmbeddedFile,
    EmbeddedMmap,
}

fn one(mut r: Rng, comp: Comp, source: Source, big: bool) -> CaseResult {
    let d = Scratch::new("c13");
    let mut contents = vec![];
    let n = 3 + r.usize(6);
    for i in 0..n {
        let len = if big && i == 2 {
            300_000 + r.usize(600_000)
        } else {
            match r.below(8) {
                0 => 0,
                1 => 1,
                2 => *r.pick(&[4095, 4096, 4097, 1023, 1024, 1025]),
                3 => r.usize(40_000),
                _ => r.usize(3000),
            }
        };
        let bytes = if r.bool() { compressible(&mut r, len) } else { r.bytes(len) };
        contents.push(ContentSpec::new(bytes, *r.pick(&[Hint::Yes, Hint::Yes, Hint::No])));
    }
    let p = d.utf8("p.jbkc");
    let (_, addr) = create_content_pack(&contents, comp, 1, &p, &d.0, Arc::new(()))?;
    let file = std::fs::read(&p).map_err(s("read"))?;
    let reader: jbk::Reader = match source {
        Source::Memory => file.into(),
        Source::File => reader_of(p.as_std_path())?,
        Source::Mmap => {
            let f = std::fs::File::open(&p).map_err(s("open"))?;
            unsafe { memmap2::Mmap::map(&f) }.map_err(s("mmap"))?.into()
        }
        Source::EmbeddedFile | Source::EmbeddedMmap => {
            // inside a container pack, hence not at the begin of its source
            let c = d.utf8("c.jbk");
            let f = jbk::creator::AtomicOutFile::new(&c).map_err(s("file"))?;
            let mut w = jbk::creator::ContainerPackCreator::from_file(f, Default::default())
                .map_err(s("container"))?;
            let u = uuid::Uuid::from_slice(&file[10..26]).map_err(s("uuid"))?;
            w.add_pack(u, &mut std::io::Cursor::new(file)).map_err(s("add_pack"))?;
            let f = w.finalize().map_err(s("container finalize"))?;
            jbk::creator::PackRecipient::close_file(f).map_err(s("close"))?;
            let rd: jbk::Reader = if source == Source::EmbeddedFile {
                reader_of(c.as_std_path())?
            } else {
                let f = std::fs::File::open(&c).map_err(s("open"))?;
                unsafe { memmap2::Mmap::map(&f) }.map_err(s("mmap"))?.into()
            };
            let cp = jbk::reader::ContainerPack::new(rd).map_err(s("ContainerPack"))?;
            cp.get_pack_reader(&u).ok_or("pack not found")?
        }
    };
    let pack = jbk::reader::ContentPack::new(reader).map_err(s("ContentPack"))?;
    let mut views = vec![];
    for ((_, c), sp) in addr.iter().zip(&contents) {
        let v = pack
            .get_content((*c).into())
            .map_err(s("get_content"))?
            .ok_or("content not found")?;
        views.push((v, sp.bytes.clone()));
    }
    // the last contents first: a decoder asked for its end before its begin
    let mut order: Vec<usize> = (0..views.len()).collect();
    if r.bool() {
        order.reverse();
    }
    if r.chance(1, 3) {
        interleaved(&mut r, &views)?;
    }
    for i in order {
        let (v, w) = &views[i];
        check_region(&mut r, v, w, 3, &format!("content {i}"))?;
    }
    interleaved(&mut r, &views)?;
    Ok(vec![
        format!("source:{source:?}"),
        format!("comp:{}", comp.tag()),
        format!("{source:?}/{}", comp.tag()),
        if big { "big".into() } else { "small".into() },
    ])
}

pub fn cases(ctx: &mut Ctx) {
    let n = ctx.n(100, 800);
    for comp in Comp::fast() {
        for source in [
            Source::Memory,
            Source::File,
            Source::Mmap,
            Source::EmbeddedFile,
            Source::EmbeddedMmap,
        ] {
            for k in 0..n {
                let id = format!("views/{}/{source:?}/{k}", comp.tag());
                let r = ctx.rng(&id);
                ctx.case(id, move || one(r, comp, source, k % 8 == 3));
            }
        }
    }
}
