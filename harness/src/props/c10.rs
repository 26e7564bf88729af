//! C10: a container reads the same however its packs are packaged.
use crate::model::*;
use crate::util::*;
use crate::view::*;
use jubako as jbk;
use std::path::Path;
use std::sync::Arc;

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

/// Everything must read as written, and verify.
pub fn reads_as_written(im: &Image, handles: Option<&Bounds>, entry: &Path) -> Result<(), String> {
    let c = jbk::reader::Container::new(entry).map_err(s("open"))?;
    if let Some(h) = handles {
        let rd = read_indexes(&im.spec.dir, &c)?;
        verify_directory(&im.spec.dir, h, &rd)?;
    }
    for (a, b) in &im.contents {
        match read_content(&c, *a).map_err(|m| format!("content {a:?}: {m}"))? {
            Some(Some(g)) if g == ***b => {}
            Some(Some(g)) => return Err(format!("content {a:?}: {}", first_diff(&g, b))),
            x => return Err(format!("content {a:?}: found={}", x.is_some())),
        }
    }
    for (id, n) in &im.packs {
        match read_content(&c, (*id, *n))? {
            Some(None) => {}
            _ => return Err(format!("an address past the end of pack {id} answers")),
        }
    }
    if !c.check().map_err(s("check"))? {
        return Err("the container does not verify".into());
    }
    Ok(())
}

/// An image with handles kept, so that entries are compared with what was written.
pub fn make(spec: &ContainerSpec, mode: Mode, extra: &[(u16, Vec<ContentSpec>)]) -> Result<(Image, Bounds), String> {
    make_as(spec, mode, extra, "c.jbk")
}
pub fn make_as(spec: &ContainerSpec, mode: Mode, extra: &[(u16, Vec<ContentSpec>)], name: &str) -> Result<(Image, Bounds), String> {
    let sc = Scratch::new("c10img");
    let inp = Scratch::new("c10in");
    let ex = extra
        .iter()
        .map(|(id, c)| (sc.utf8(&format!("extra{id}.jbkc")), *id, c.clone()))
        .collect();
    let (cr, ea) = create_basic_extra(spec, mode, &sc.utf8(name), &inp.0, Arc::new(()), ex)?;
    let mut contents = vec![];
    for (a, c) in cr.addresses.iter().zip(&spec.contents) {
        contents.push((*a, c.bytes.clone()));
    }
    let mut packs = vec![(1, spec.contents.len() as u32)];
    for ((id, cs), addr) in extra.iter().zip(&ea) {
        packs.push((*id, cs.len() as u32));
        for (a, c) in addr.iter().zip(cs) {
            contents.push((*a, c.bytes.clone()));
        }
    }
    let mut im = Image {
        files: vec![],
        entry: 0,
        spec: spec.clone(),
        contents,
        packs,
        tag: format!("{mode:?}"),
    };
    im.load_as(&sc.0, name)?;
    Ok((im, cr.handles))
}

pub fn gen_spec(r: &mut Rng) -> (ContainerSpec, Vec<(u16, Vec<ContentSpec>)>) {
    let comp = *r.pick(&Comp::fast());
    let mut spec = crate::gen::small_container(r, comp);
    if r.bool() {
        spec.dir = crate::gen::gen_dir(
            r,
            &crate::gen::DirParams { max_entries: 20, sorted: true, refs: true, variants: true },
        )
        .with_full_indexes();
    }
    for _ in 0..r.usize(5) {
        let max = if r.chance(1, 4) { 20_000 } else { 1500 };
        spec.contents.push(crate::gen::gen_content(r, max));
    }
    let ids: &[u16] = *r.pick(&[&[][..], &[2], &[2, 3], &[7], &[9, 3], &[3, 300, 5]]);
    let extra = ids
        .iter()
        .map(|id| (*id, (0..r.usize(4)).map(|_| crate::gen::gen_content(r, 900)).collect()))
        .collect();
    (spec, extra)
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn prefix(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize, 2, 17, 59, 60, 63, 64, 65, 100, 127, 128, 4095, 4096, 5000]);
    match r.below(4) {
        0 => vec![0; n],
        1 => {
            let mut v = b"#!/bin/sh\necho a program with its archive\nexit 0\n".to_vec();
            v.resize(n.max(v.len()), b'\n');
            v
        }
        2 => {
            // looks like a pack, is not
            let mut v = b"jbkC".to_vec();
            v.extend(r.bytes(n + 60));
            v
        }
        _ => r.bytes(n),
    }
}

fn packagings(mut r: Rng) -> CaseResult {
    let (spec, extra) = gen_spec(&mut r);
    let mut marks = vec![];
    for mode in [Mode::One, Mode::Two, Mode::Sep] {
        // the name of the entry file is free
        let name = match r.below(2) {
            0 => "c.jbk",
            _ => *r.pick(&["c.jbkc", "c", "c..jbkd", "c.jbkd", "c.jbkm", "a.b c.x", ".hidden", ".jbkc", "c.jbkc.jbkc", "\u{e9}t\u{e9}.jbkc"]),
        };
        let (im, h) = make_as(&spec, mode, &extra, name).map_err(|m| format!("{mode:?} {name}: {m}"))?;
        marks.push(format!("name:{name}"));
        let sc = Scratch::new("c10");
        im.write(&sc.0);
        reads_as_written(&im, Some(&h), &im.entry_path(&sc.0)).map_err(|m| format!("{mode:?} {name}: {m}"))?;
        marks.push(format!("mode:{mode:?}:extra{}", extra.len()));
        for (n, _) in &im.files {
            if !jbk::tools::open_pack(sc.path(n)).map_err(e)?.check().map_err(e)? {
                return Err(format!("{mode:?}: {n} does not verify"));
            }
        }
        // concat every file, any order
        let mut perms = permutations(im.files.len());
        while perms.len() > 6 {
            let k = r.usize(perms.len());
            perms.swap_remove(k);
        }
        for p in perms {
            let inn: Vec<_> = p.iter().map(|i| sc.path(&im.files[*i].0)).collect();
            let far = Scratch::new("c10far");
            let out = far.utf8("all.jbk");
            jbk::tools::concat(&inn, &out).map_err(|x| format!("{mode:?} concat {p:?}: {x}"))?;
            reads_as_written(&im, Some(&h), out.as_std_path())
                .map_err(|m| format!("{mode:?} concatenated as {p:?}: {m}"))?;
            if !jbk::tools::open_pack(out.as_std_path()).map_err(e)?.check().map_err(e)? {
                return Err("concatenated file does not verify".into());
            }
            marks.push(format!("concat:{mode:?}"));
            // what is recorded as location must not matter: the pack is inside
            for (n, _) in &im.files {
                if n != "all.jbk" {
                    match r.below(3) {
                        0 => std::fs::create_dir_all(far.path(n)).map_err(e)?,
                        1 => std::fs::write(far.path(n), b"not a pack at all, and not to be opened").map_err(e)?,
                        _ => {}
                    }
                }
            }
            reads_as_written(&im, Some(&h), out.as_std_path())
                .map_err(|m| format!("{mode:?} concatenated as {p:?}, junk at the recorded locations: {m}"))?;
            // embedded at the end of another file
            let whole = std::fs::read(out.as_std_path()).map_err(e)?;
            let mut pre = prefix(&mut r);
            pre.extend_from_slice(&whole);
            std::fs::write(far.path("embedded"), &pre).map_err(e)?;
            reads_as_written(&im, Some(&h), &far.path("embedded"))
                .map_err(|m| format!("{mode:?} concatenated, {} bytes before: {m}", pre.len() - whole.len()))?;
            marks.push("embedded".into());
            // concat of a concat
            let out2 = far.utf8("again.jbk");
            jbk::tools::concat(&[far.path("all.jbk")], &out2).map_err(e)?;
            reads_as_written(&im, Some(&h), out2.as_std_path()).map_err(|m| format!("concat of a concat: {m}"))?;
        }
        if im.files.len() > 1 {
            // the entry file with some others, the rest at their location
            let far = Scratch::new("c10part");
            let keep: Vec<usize> = (0..im.files.len()).filter(|i| *i == im.entry || r.bool()).collect();
            let inn: Vec<_> = keep.iter().map(|i| sc.path(&im.files[*i].0)).collect();
            let out = far.utf8("c.jbk");
            jbk::tools::concat(&inn, &out).map_err(e)?;
            for (i, (n, b)) in im.files.iter().enumerate() {
                if !keep.contains(&i) {
                    put(&far.path(n), b);
                }
            }
            reads_as_written(&im, Some(&h), out.as_std_path())
                .map_err(|m| format!("{mode:?} files {keep:?} together, the others apart: {m}"))?;
            marks.push("partly-concatenated".into());
        }
        // any file embedded behind a prefix, in place
        let far = Scratch::new("c10emb");
        for (n, b) in &im.files {
            let mut p = prefix(&mut r);
            p.extend_from_slice(b);
            put(&far.path(n), &p);
        }
        reads_as_written(&im, Some(&h), &im.entry_path(&far.0))
            .map_err(|m| format!("{mode:?} every file behind a prefix: {m}"))?;
        marks.push(format!("prefixed:{mode:?}"));
        // a relative path, another name
        let far = Scratch::new("c10name");
        im.write(&far.0);
        std::fs::rename(im.entry_path(&far.0), far.path("renamed.xyz")).map_err(e)?;
        reads_as_written(&im, Some(&h), &far.path("renamed.xyz"))
            .map_err(|m| format!("{mode:?} renamed entry: {m}"))?;
    }
    marks.sort();
    marks.dedup();
    Ok(marks)
}

/// Identity inside the file first: the pack recorded at a location exists there too, damaged or different.
fn inside_first(mut r: Rng) -> CaseResult {
    let (spec, _) = gen_spec(&mut r);
    let extra: Vec<(u16, Vec<ContentSpec>)> =
        vec![(2, vec![crate::gen::gen_content(&mut r, 600), ContentSpec::new(b"second".to_vec(), Hint::No)])];
    let (im, h) = make(&spec, Mode::Sep, &extra)?;
    let sc = Scratch::new("c10in1");
    im.write(&sc.0);
    let inn: Vec<_> = im.files.iter().map(|f| sc.path(&f.0)).collect();
    let far = Scratch::new("c10in2");
    let out = far.utf8("c.jbk");
    jbk::tools::concat(&inn, &out).map_err(e)?;
    // the same packs stand at their location too, with every content byte flipped
    for (n, b) in &im.files {
        if n == "c.jbk" {
            continue;
        }
        let mut b = b.clone();
        let k = b.len();
        for x in &mut b[130..k - 120] {
            *x ^= 0xFF;
        }
        put(&far.path(n), &b);
    }
    reads_as_written(&im, Some(&h), out.as_std_path()).map_err(|m| format!("same pack inside and (damaged) outside: {m}"))?;
    Ok(vec!["inside-first".into()])
}

pub fn cases(ctx: &mut Ctx) {
    for k in 0..ctx.n(60, 800) {
        let id = format!("pkg-{k}");
        let r = ctx.rng(&id);
        ctx.case(id, move || packagings(r));
        let id = format!("inside-{k}");
        let r = ctx.rng(&id);
        ctx.case(id, move || inside_first(r));
    }
}
