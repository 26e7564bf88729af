//! C02: entries round trip; what cannot be represented makes creation fail.
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;

pub fn dir_marks(spec: &DirSpec) -> Vec<String> {
    let mut m = vec![];
    for v in &spec.value_stores {
        m.push(if *v { "store:indexed".into() } else { "store:plain".into() });
    }
    for st in &spec.stores {
        m.push(format!("variants:{}", st.variants.len()));
        m.push(format!("entries<=2^{}", 64 - (st.entries.len() as u64).leading_zeros()));
        if let Some(k) = &st.sort {
            m.push(format!("sorted-on:{}", k.len()));
        }
        for p in st.common.iter().chain(st.variants.iter().flat_map(|v| v.1.iter())) {
            m.push(match p.kind {
                Kind::U => "prop:uint".into(),
                Kind::S => "prop:sint".into(),
                Kind::C => "prop:content".into(),
                Kind::A { fixed, .. } => format!("prop:array{fixed}"),
            });
        }
        for e in &st.entries {
            for (_, v) in &e.vals {
                match v {
                    Val::U(v) => m.push(format!("u<2^{}", 64 - v.leading_zeros())),
                    Val::S(v) => m.push(format!(
                        "s{}<2^{}",
                        if *v < 0 { "-" } else { "+" },
                        64 - v.unsigned_abs().leading_zeros()
                    )),
                    Val::Ref(..) | Val::SRef(..) => m.push("ref".into()),
                    _ => {}
                }
            }
        }
    }
    m.sort();
    m.dedup();
    m
}

/// Write and read back. Err(Created::..) separates "creation failed" from "wrong".
pub enum Out {
    CreationFailed(String),
    Wrong(String),
}
pub fn write_read(spec: &DirSpec) -> Result<(), Out> {
    let sc = Scratch::new("dir");
    let created = guarded(|| create_dir_only(spec, &sc.0));
    let (m, handles) = match created {
        Ok(x) => x,
        Err(e) => return Err(Out::CreationFailed(e)),
    };
    guarded(|| {
        let c = jbk::reader::Container::new(&m).map_err(s("open"))?;
        let read = read_indexes(spec, &c)?;
        verify_directory(spec, &handles, &read)
    })
    .map_err(Out::Wrong)
}
/// A representable spec: creation must succeed and read back the same.
pub fn must_roundtrip(spec: &DirSpec) -> CaseResult {
    match write_read(spec) {
        Ok(()) => Ok(dir_marks(spec)),
        Err(Out::CreationFailed(e)) => Err(format!("creation failed: {e}")),
        Err(Out::Wrong(e)) => Err(e),
    }
}
/// A spec that the format may not be able to hold: creation fails, or it reads back the same.
pub fn fails_or_roundtrips(spec: &DirSpec) -> CaseResult {
    match write_read(spec) {
        Ok(()) => Ok(vec!["limit:representable".into()]),
        Err(Out::CreationFailed(_)) => Ok(vec!["limit:creation-failed".into()]),
        Err(Out::Wrong(e)) => Err(format!("created, but reads back altered: {e}")),
    }
}

fn p(n: &str, k: Kind) -> PropSpec {
    PropSpec { name: intern(n), kind: k }
}
fn one_store(vs: Vec<bool>, st: StoreSpec) -> DirSpec {
    DirSpec {
        value_stores: vs,
        stores: vec![st],
        indexes: vec![],
        free: [0; 24],
    }
    .with_full_indexes()
}
pub fn column(kind: Kind, vs: Vec<bool>, vals: Vec<Val>) -> DirSpec {
    one_store(
        vs,
        StoreSpec {
            common: vec![p("x", kind)],
            variants: vec![],
            sort: None,
            entries: vals
                .into_iter()
                .map(|v| EntrySpec { variant: None, vals: vec![(intern("x"), v)] })
                .collect(),
        },
    )
}

pub fn cases(ctx: &mut Ctx) {
    // unsigned boundaries: pairs (0, v), (v, v) for every power
    for b in 0..64u32 {
        ctx.case(format!("u-bits-{b}"), move || {
            let v = 1u64 << b;
            for w in [v - 1, v, v + 1, v | (v - 1)] {
                must_roundtrip(&column(Kind::U, vec![], vec![Val::U(0), Val::U(w), Val::U(w / 2)]))
                    .map_err(|e| format!("{w}: {e}"))?;
                must_roundtrip(&column(Kind::U, vec![], vec![Val::U(w), Val::U(w)]))
                    .map_err(|e| format!("constant {w}: {e}"))?;
            }
            Ok(vec![format!("u-bits:{b}")])
        });
        ctx.case(format!("s-bits-{b}"), move || {
            let v = 1u64 << b;
            for w in [v.wrapping_sub(1), v, v.wrapping_add(1)] {
                let w = w as i64;
                for x in [w, w.wrapping_neg(), !w] {
                    for other in [0, -1, 1] {
                        must_roundtrip(&column(Kind::S, vec![], vec![Val::S(other), Val::S(x)]))
                            .map_err(|e| format!("({other},{x}): {e}"))?;
                    }
                    must_roundtrip(&column(Kind::S, vec![], vec![Val::S(x), Val::S(x), Val::S(x)]))
                        .map_err(|e| format!("constant {x}: {e}"))?;
                }
                must_roundtrip(&column(
                    Kind::S,
                    vec![],
                    vec![Val::S(w), Val::S(w.wrapping_neg()), Val::S(w / 2)],
                ))?;
            }
            Ok(vec![format!("s-bits:{b}")])
        });
    }
    ctx.case("int-extremes", || {
        must_roundtrip(&column(Kind::S, vec![], vec![Val::S(i64::MIN), Val::S(i64::MAX), Val::S(0)]))?;
        must_roundtrip(&column(Kind::U, vec![], vec![Val::U(u64::MAX), Val::U(0)]))?;
        for c in [(0u16, 0u32), (255, 255), (256, 256), (65535, 0xFF_FFFF)] {
            must_roundtrip(&column(Kind::C, vec![], vec![Val::C(c.0, c.1), Val::C(0, 0)]))?;
            must_roundtrip(&column(Kind::C, vec![], vec![Val::C(c.0, c.1), Val::C(c.0, 3)]))?;
            must_roundtrip(&column(Kind::C, vec![], vec![Val::C(c.0, c.1), Val::C(c.0, c.1)]))?;
        }
        Ok(vec!["extremes".into()])
    });
    // a content id that needs 4 bytes
    for (i, id) in [0x0100_0000u32, u32::MAX].into_iter().enumerate() {
        ctx.case(format!("content-id-32-{i}"), move || {
            fails_or_roundtrips(&column(Kind::C, vec![], vec![Val::C(1, id), Val::C(1, 0)]))
        });
    }
    // arrays: fixed prefix x length
    for indexed in [false, true] {
        for fixed in 0..=31usize {
            ctx.case(format!("arr-{indexed}-{fixed}"), move || {
                let mut r = Rng::new(fixed as u64);
                let mut vals = vec![];
                for n in 0..=(fixed + 3) {
                    vals.push(Val::A(r.bytes(n)));
                    vals.push(Val::A(vec![0; n]));
                }
                let k = Kind::A { fixed, vs: 0 };
                must_roundtrip(&column(k.clone(), vec![indexed], vals))?;
                for n in [0, 1, fixed, fixed + 1, fixed + 20] {
                    // constant column, and alone
                    let v = Val::A(r.bytes(n));
                    must_roundtrip(&column(k.clone(), vec![indexed], vec![v.clone(); 3]))
                        .map_err(|e| format!("constant of {n}: {e}"))?;
                    must_roundtrip(&column(k.clone(), vec![indexed], vec![v]))?;
                    // constant length, different bytes
                    let vs = (0..4).map(|_| Val::A(r.bytes(n))).collect();
                    must_roundtrip(&column(k.clone(), vec![indexed], vs))
                        .map_err(|e| format!("same length {n}: {e}"))?;
                }
                Ok(vec![format!("array:{fixed}:{indexed}")])
            });
        }
        for (i, n) in [254usize, 255, 256, 257, 65535, 65536, 65537, 70000].into_iter().enumerate() {
            ctx.case(format!("arrlen-{indexed}-{i}"), move || {
                let mut r = Rng::new(n as u64);
                for fixed in [0, 1, 31] {
                    let k = Kind::A { fixed, vs: 0 };
                    let vals = vec![Val::A(r.bytes(n)), Val::A(vec![]), Val::A(r.bytes(5)), Val::A(r.bytes(n))];
                    must_roundtrip(&column(k, vec![indexed], vals))?;
                }
                Ok(vec![format!("arrlen:{n}")])
            });
        }
        // many values: value id widths
        for n in [254usize, 255, 256, 257, 300, 5000] {
            ctx.case(format!("manyvals-{indexed}-{n}"), move || {
                let vals = (0..n).map(|i| Val::A(format!("value {i:05}").into_bytes())).collect();
                must_roundtrip(&column(Kind::A { fixed: 0, vs: 0 }, vec![indexed], vals))?;
                let vals = (0..n).map(|i| Val::A(vec![b'x'; i])).collect();
                if n <= 300 {
                    must_roundtrip(&column(Kind::A { fixed: 1, vs: 0 }, vec![indexed], vals))?;
                }
                Ok(vec![format!("manyvals:{n}")])
            });
        }
    }
    // large arrays
    for (i, n) in [(1usize << 24) - 1, 1 << 24].into_iter().enumerate() {
        for indexed in [false, true] {
            ctx.case(format!("arr16M-{indexed}-{i}"), move || {
                let vals = vec![Val::A(vec![7; n]), Val::A(vec![])];
                fails_or_roundtrips(&column(Kind::A { fixed: 0, vs: 0 }, vec![indexed], vals))
            });
        }
    }
    // shapes that may exceed the format: must fail or read back
    for fixed in [32usize, 33, 64, 255, 256, 300] {
        ctx.case(format!("fixed-{fixed}"), move || {
            let vals = vec![Val::A(vec![1; fixed + 5]), Val::A(vec![2; 3])];
            fails_or_roundtrips(&column(Kind::A { fixed, vs: 0 }, vec![false], vals))
        });
    }
    for n in [255usize, 256, 257, 300] {
        ctx.case(format!("nvs-{n}"), move || {
            let k = Kind::A { fixed: 0, vs: n - 1 };
            fails_or_roundtrips(&column(k, vec![false; n], vec![Val::A(vec![1, 2, 3]), Val::A(vec![9])]))
        });
        ctx.case(format!("nvariants-{n}"), move || {
            let variants: Vec<_> = (0..n)
                .map(|i| (intern(&format!("V{i}")), vec![p(&format!("p{i}"), Kind::U)]))
                .collect();
            let entries = (0..n)
                .map(|i| EntrySpec {
                    variant: Some(i),
                    vals: vec![(intern(&format!("p{i}")), Val::U(i as u64))],
                })
                .collect();
            fails_or_roundtrips(&one_store(
                vec![],
                StoreSpec { common: vec![], variants, sort: None, entries },
            ))
        });
        ctx.case(format!("nprops-{n}"), move || {
            let common: Vec<_> = (0..n).map(|i| p(&format!("p{i}"), Kind::U)).collect();
            let entries = (0..3u64)
                .map(|e| EntrySpec {
                    variant: None,
                    vals: (0..n)
                        .map(|i| (intern(&format!("p{i}")), Val::U(i as u64 * 3 + e)))
                        .collect(),
                })
                .collect();
            fails_or_roundtrips(&one_store(
                vec![],
                StoreSpec { common, variants: vec![], sort: None, entries },
            ))
        });
    }
    // name lengths
    for n in [0usize, 1, 255, 256, 300] {
        ctx.case(format!("namelen-{n}"), move || {
            let name = intern(&"n".repeat(n));
            let st = StoreSpec {
                common: vec![PropSpec { name, kind: Kind::U }],
                variants: vec![],
                sort: None,
                entries: vec![
                    EntrySpec { variant: None, vals: vec![(name, Val::U(1))] },
                    EntrySpec { variant: None, vals: vec![(name, Val::U(2))] },
                ],
            };
            fails_or_roundtrips(&one_store(vec![], st))
        });
        ctx.case(format!("idxnamelen-{n}"), move || {
            let mut d = column(Kind::U, vec![], vec![Val::U(1), Val::U(2)]);
            d.indexes.push(IndexSpec {
                name: "é".repeat(n / 2) + &"i".repeat(n % 2),
                store: 0,
                offset: 0,
                count: 2,
                prop: 0,
                free: [0; 4],
            });
            fails_or_roundtrips(&d)
        });
    }
    // tails over 65535 bytes: an indexed value store with many values
    for n in [20_000usize, 32_700, 32_766, 40_000, 70_000] {
        ctx.case(format!("tail-{n}"), move || {
            let vals = (0..n).map(|i| Val::A((i as u32).to_le_bytes()[..3].to_vec())).collect();
            fails_or_roundtrips(&column(Kind::A { fixed: 0, vs: 0 }, vec![true], vals))
        });
    }
    // entry store tail over 65535 bytes
    ctx.case("tail-entrystore", || {
        let big = |v: usize, i: usize| intern(&format!("{}_{v}_{i}", "x".repeat(240)));
        let variants: Vec<_> = (0..3usize)
            .map(|v| {
                (
                    intern(&format!("V{v}")),
                    (0..100usize).map(|i| PropSpec { name: big(v, i), kind: Kind::U }).collect::<Vec<_>>(),
                )
            })
            .collect();
        let entries = (0..3usize)
            .map(|v| EntrySpec {
                variant: Some(v),
                vals: (0..100usize).map(|i| (big(v, i), Val::U(i as u64 + v as u64))).collect(),
            })
            .collect();
        fails_or_roundtrips(&one_store(vec![], StoreSpec { common: vec![], variants, sort: None, entries }))
    });
    // entries bigger than 65535 bytes
    ctx.case("entry-size", || {
        let common: Vec<_> = (0..250).map(|i| p(&format!("a{i}"), Kind::A { fixed: 31, vs: 0 })).collect();
        let entries = (0..2u8)
            .map(|e| EntrySpec {
                variant: None,
                vals: (0..250u8).map(|i| (intern(&format!("a{i}")), Val::A(vec![i ^ e; 40]))).collect(),
            })
            .collect();
        fails_or_roundtrips(&one_store(
            vec![false],
            StoreSpec { common, variants: vec![], sort: None, entries },
        ))
    });
    // variants: shapes
    for (i, shape) in [
        vec![0usize, 0],
        vec![0, 3],
        vec![3, 0],
        vec![1, 2, 3],
        vec![5, 0, 1, 5],
        vec![0],
        vec![1],
        vec![20, 1],
        vec![1, 20],
    ]
    .into_iter()
    .enumerate()
    {
        for ncommon in [0usize, 1, 2] {
            for konst in [false, true] {
                let shape = shape.clone();
                ctx.case(format!("variants-{i}-{ncommon}-{konst}"), move || {
                    let variants: Vec<(Name, Vec<PropSpec>)> = shape
                        .iter()
                        .enumerate()
                        .map(|(v, n)| {
                            (
                                intern(&format!("V{v}")),
                                (0..*n)
                                    .map(|i| {
                                        let k = match i % 3 {
                                            0 => Kind::U,
                                            1 => Kind::A { fixed: 3, vs: 0 },
                                            _ => Kind::S,
                                        };
                                        p(&format!("v{v}p{i}"), k)
                                    })
                                    .collect(),
                            )
                        })
                        .collect();
                    let common: Vec<_> = (0..ncommon).map(|i| p(&format!("c{i}"), Kind::U)).collect();
                    let mut entries = vec![];
                    for e in 0..(shape.len() * 3) {
                        let v = e % shape.len();
                        let salt = if konst { 7 } else { e as u64 * 97 };
                        let mut vals: Vec<(Name, Val)> = (0..ncommon)
                            .map(|i| (intern(&format!("c{i}")), Val::U(salt + 3)))
                            .collect();
                        for q in &variants[v].1 {
                            vals.push((
                                q.name,
                                match q.kind {
                                    Kind::U => Val::U(salt),
                                    Kind::S => Val::S(-(salt as i64)),
                                    _ => Val::A(format!("{salt}").into_bytes()),
                                },
                            ));
                        }
                        entries.push(EntrySpec { variant: Some(v), vals });
                    }
                    must_roundtrip(&one_store(
                        vec![i % 2 == 0],
                        StoreSpec { common, variants, sort: None, entries },
                    ))
                });
            }
        }
    }
    // variant with only a constant trailing property (zero bytes stored)
    ctx.case("variants-const-tail", || {
        let variants = vec![
            (intern("A"), vec![p("a", Kind::U), p("b", Kind::U)]),
            (intern("B"), vec![p("c", Kind::U)]),
        ];
        let mut entries = vec![];
        for i in 0..6u64 {
            entries.push(if i % 2 == 0 {
                EntrySpec { variant: Some(0), vals: vec![(intern("a"), Val::U(i)), (intern("b"), Val::U(5))] }
            } else {
                EntrySpec { variant: Some(1), vals: vec![(intern("c"), Val::U(9))] }
            });
        }
        must_roundtrip(&one_store(vec![], StoreSpec { common: vec![], variants, sort: None, entries }))
    });
    // empty stores
    ctx.case("empty", || {
        must_roundtrip(&column(Kind::U, vec![], vec![]))?;
        must_roundtrip(&column(Kind::A { fixed: 0, vs: 0 }, vec![true], vec![]))?;
        must_roundtrip(&column(Kind::A { fixed: 3, vs: 0 }, vec![false], vec![]))?;
        must_roundtrip(&column(Kind::A { fixed: 0, vs: 0 }, vec![true], vec![Val::A(vec![]); 3]))?;
        must_roundtrip(&column(Kind::A { fixed: 0, vs: 0 }, vec![false], vec![Val::A(vec![]); 3]))?;
        must_roundtrip(&column(Kind::S, vec![], vec![]))?;
        must_roundtrip(&column(Kind::C, vec![], vec![]))?;
        must_roundtrip(&one_store(
            vec![],
            StoreSpec {
                common: vec![],
                variants: vec![],
                sort: None,
                entries: vec![],
            },
        ))?;
        must_roundtrip(&DirSpec::default())?;
        Ok(vec!["empty-stores".into()])
    });
    // index windows: every (offset, count) of a small store, and windows on the same name table
    ctx.case("windows", || {
        let vals = (0..6).map(|i| Val::U(i * 1000)).collect();
        let mut d = column(Kind::U, vec![], vals);
        for o in 0..=6u32 {
            for c in 0..=(6 - o) {
                d.indexes.push(IndexSpec {
                    name: format!("w{o}-{c}"),
                    store: 0,
                    offset: o,
                    count: c,
                    prop: 0,
                    free: [0; 4],
                });
            }
        }
        must_roundtrip(&d)
    });
    // windows beyond what the store holds must not read
    for n in [255usize, 256, 257, 65535, 65536, 70000] {
        ctx.case(format!("entries-{n}"), move || {
            let vals = (0..n as u64).map(|i| Val::U(i)).collect();
            let mut d = column(Kind::U, vec![], vals);
            d.indexes.push(IndexSpec {
                name: "mid".into(),
                store: 0,
                offset: n as u32 / 2,
                count: n as u32 / 4,
                prop: 0,
                free: [0; 4],
            });
            must_roundtrip(&d)
        });
    }
    // random schemas
    let n = ctx.n(900, 20_000);
    for k in 0..n {
        let mut r = ctx.rng(&format!("rnd-{k}"));
        ctx.case(format!("rnd-{k}"), move || {
            let p = DirParams {
                max_entries: *r.pick(&[3, 10, 40, 150]),
                sorted: k % 4 == 0,
                refs: k % 5 == 0,
                variants: true,
            };
            must_roundtrip(&gen_dir(&mut r, &p))
        });
    }
}
