//! Seeded generators of logical containers.
use crate::model::*;
use crate::util::*;
use std::sync::Arc;

pub fn gen_bytes_len(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => 1 + r.usize(4),
        2 => r.usize(max.min(40) + 1),
        3 => r.usize(max + 1),
        _ => r.usize(12),
    }
    .min(max);
    match r.below(3) {
        0 => r.bytes(n),
        // small alphabet: many duplicates and shared prefixes
        1 => (0..n).map(|_| *r.pick(b"ab")).collect(),
        _ => (0..n).map(|_| *r.pick(&[0u8, 0xFF, b'a', 0x7F, 0x80])).collect(),
    }
}

/// How the values of a column are distributed.
#[derive(Clone)]
enum Col {
    Const(Val),
    Small,
    Wide,
    Bits(u32),
    Arr { max: usize, pool: Vec<Vec<u8>> },
}

fn gen_val(r: &mut Rng, k: &Kind, col: &Col) -> Val {
    if let Col::Const(v) = col {
        return v.clone();
    }
    match k {
        Kind::U => Val::U(match col {
            Col::Small => r.below(200),
            Col::Bits(b) => r.next() >> (64 - b),
            _ => r.magnitude(),
        }),
        Kind::S => Val::S(match col {
            Col::Small => r.below(100) as i64 - 50,
            Col::Bits(b) => ((r.next() >> (64 - b)) as i64).wrapping_sub(1i64 << (b - 1)),
            _ => {
                let v = r.magnitude() as i64;
                if r.bool() {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
        }),
        Kind::C => match col {
            Col::Small => Val::C(1, r.below(200) as u32),
            Col::Bits(b) => Val::C(
                (r.next() >> (64 - (*b).min(16))) as u16,
                (r.next() >> (64 - (*b).min(24))) as u32,
            ),
            _ => Val::C(
                *r.pick(&[0u16, 1, 255, 256, 65535]),
                *r.pick(&[0u32, 255, 256, 65535, 65536, 0xFFFFFF]),
            ),
        },
        Kind::A { .. } => match col {
            Col::Arr { max, pool } => {
                if r.chance(1, 3) && !pool.is_empty() {
                    let mut v = r.pick(pool).clone();
                    if r.chance(1, 3) {
                        v.push(r.below(256) as u8);
                    }
                    Val::A(v)
                } else {
                    Val::A(gen_bytes_len(r, *max))
                }
            }
            _ => Val::A(gen_bytes_len(r, 20)),
        },
    }
}

fn gen_col(r: &mut Rng, k: &Kind) -> Col {
    if let Kind::A { .. } = k {
        let max = *r.pick(&[0usize, 1, 3, 12, 40, 300]);
        let n = r.usize(6);
        let pool = (0..n).map(|_| gen_bytes_len(r, max)).collect();
        let c = Col::Arr { max, pool };
        if r.chance(1, 6) {
            return Col::Const(gen_val(r, k, &c));
        }
        return c;
    }
    let c = match r.below(4) {
        0 => Col::Small,
        1 => Col::Bits(r.range(1, 64) as u32),
        _ => Col::Wide,
    };
    if r.chance(1, 5) {
        return Col::Const(gen_val(r, k, &c));
    }
    c
}

fn gen_kind(r: &mut Rng, nvs: usize) -> Kind {
    match r.below(if nvs > 0 { 6 } else { 3 }) {
        0 => Kind::U,
        1 => Kind::S,
        2 => Kind::C,
        _ => Kind::A {
            fixed: *r.pick(&[0usize, 0, 1, 2, 3, 5, 8, 16, 31]),
            vs: r.usize(nvs),
        },
    }
}

fn gen_props(r: &mut Rng, n: usize, nvs: usize, prefix: &str) -> Vec<PropSpec> {
    (0..n)
        .map(|i| PropSpec {
            name: intern(&format!("{prefix}{i}")),
            kind: gen_kind(r, nvs),
        })
        .collect()
}

pub struct DirParams {
    pub max_entries: usize,
    pub sorted: bool,
    pub refs: bool,
    pub variants: bool,
}

pub fn gen_dir(r: &mut Rng, p: &DirParams) -> DirSpec {
    let nvs = r.usize(4);
    let value_stores: Vec<bool> = (0..nvs).map(|_| r.bool()).collect();
    let nst = 1 + r.usize(2);
    let counts: Vec<usize> = (0..nst)
        .map(|_| match r.below(6) {
            0 => r.usize(3),
            1 => p.max_entries,
            _ => 1 + r.usize(p.max_entries.max(1)),
        })
        .collect();
    let mut stores = vec![];
    for si in 0..nst {
        let ncommon = r.usize(5);
        let common = gen_props(r, ncommon, nvs, "c");
        let nvar = if p.variants && r.bool() { 1 + r.usize(4) } else { 0 };
        let variants: Vec<(Name, Vec<PropSpec>)> = (0..nvar)
            .map(|v| {
                let n = r.usize(4);
                (
                    intern(&format!("var{v}")),
                    gen_props(r, n, nvs, &format!("v{v}_")),
                )
            })
            .collect();
        let keyable: Vec<&PropSpec> = common.iter().filter(|p| p.kind != Kind::C).collect();
        let sort = if p.sorted && !keyable.is_empty() && r.bool() {
            let n = 1 + r.usize(keyable.len().min(3));
            let mut ks: Vec<Name> = vec![];
            for _ in 0..n {
                let k = r.pick(&keyable).name;
                if !ks.contains(&k) {
                    ks.push(k);
                }
            }
            Some(ks)
        } else {
            None
        };
        let cols: Vec<Col> = common.iter().map(|p| gen_col(r, &p.kind)).collect();
        let vcols: Vec<Vec<Col>> = variants
            .iter()
            .map(|(_, ps)| ps.iter().map(|p| gen_col(r, &p.kind)).collect())
            .collect();
        let mut refcols: Vec<Option<usize>> = vec![];
        for c in &common {
            let is_key = sort.as_ref().is_some_and(|s| s.contains(&c.name));
            let target = r.usize(nst);
            refcols.push(
                if p.refs
                    && !is_key
                    && matches!(c.kind, Kind::U | Kind::S)
                    && counts[target] > 0
                    && r.bool()
                {
                    Some(target)
                } else {
                    None
                },
            );
        }
        let mut entries = vec![];
        for _ in 0..counts[si] {
            let variant = if nvar > 0 { Some(r.usize(nvar)) } else { None };
            let mut vals = vec![];
            for ((p, c), rf) in common.iter().zip(&cols).zip(&refcols) {
                let v = match rf {
                    Some(t) => {
                        let e = r.usize(counts[*t]);
                        if p.kind == Kind::U {
                            Val::Ref(*t, e)
                        } else {
                            Val::SRef(*t, e)
                        }
                    }
                    None => gen_val(r, &p.kind, c),
                };
                vals.push((p.name, v));
            }
            if let Some(v) = variant {
                for (p, c) in variants[v].1.iter().zip(&vcols[v]) {
                    vals.push((p.name, gen_val(r, &p.kind, c)));
                }
            }
            entries.push(EntrySpec { variant, vals });
        }
        stores.push(StoreSpec {
            common,
            variants,
            sort,
            entries,
        });
    }
    let mut indexes = vec![];
    for (si, c) in counts.iter().enumerate() {
        for w in 0..r.usize(3) {
            let off = r.usize(c + 1);
            let n = r.usize(c - off + 1);
            indexes.push(IndexSpec {
                name: format!("idx {si}.{w} é"),
                store: si,
                offset: off as u32,
                count: n as u32,
                prop: r.below(256) as u8,
                free: [r.below(256) as u8; 4],
            });
        }
    }
    let mut free = [0u8; 24];
    free.copy_from_slice(&r.bytes(24));
    DirSpec {
        value_stores,
        stores,
        indexes,
        free,
    }
    .with_full_indexes()
}

pub fn gen_content(r: &mut Rng, max: usize) -> ContentSpec {
    let n = match r.below(6) {
        0 => 0,
        1 => 1 + r.usize(3),
        2 => r.range(250, 260) as usize,
        3 => r.usize(max + 1),
        _ => r.usize(600.min(max) + 1),
    };
    let bytes = if r.bool() { r.bytes(n) } else { compressible(r, n) };
    ContentSpec {
        bytes: Arc::new(bytes),
        hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]),
        src: *r.pick(&[Src::Mem, Src::Mem, Src::File, Src::FileRange]),
    }
}

/// A small container with a bit of everything, deterministic in (seed).
pub fn small_container(r: &mut Rng, comp: Comp) -> ContainerSpec {
    let contents: Vec<ContentSpec> = vec![
        ContentSpec::new(compressible(r, 700), Hint::Yes),
        ContentSpec::new(r.bytes(90), Hint::No),
        ContentSpec::new(vec![], Hint::Detect),
        ContentSpec::new(compressible(r, 300), Hint::Yes),
        ContentSpec::new(b"raw text content".to_vec(), Hint::No),
    ];
    let p = |n: &str, k: Kind| PropSpec {
        name: intern(n),
        kind: k,
    };
    let stores = vec![
        StoreSpec {
            common: vec![
                p("name", Kind::A { fixed: 2, vs: 0 }),
                p("addr", Kind::C),
                p("size", Kind::U),
            ],
            variants: vec![
                (intern("file"), vec![p("delta", Kind::S)]),
                (
                    intern("dir"),
                    vec![p("note", Kind::A { fixed: 0, vs: 1 })],
                ),
            ],
            sort: Some(vec![intern("name")]),
            entries: (0..7usize)
                .map(|i| {
                    let mut vals = vec![
                        (
                            intern("name"),
                            Val::A(format!("{}ntry{}", ['z', 'b', 'e', 'a', 'd', 'e', 'c'][i], i).into_bytes()),
                        ),
                        (intern("addr"), Val::C(1, (i % 5) as u32)),
                        (intern("size"), Val::U(100 * i as u64)),
                    ];
                    let variant = i % 2;
                    if variant == 0 {
                        vals.push((intern("delta"), Val::S(-(3 * i as i64))));
                    } else {
                        vals.push((intern("note"), Val::A(vec![b'n'; i])));
                    }
                    EntrySpec {
                        variant: Some(variant),
                        vals,
                    }
                })
                .collect(),
        },
        StoreSpec {
            common: vec![p("k", Kind::U), p("r", Kind::U), p("t", Kind::A { fixed: 0, vs: 0 })],
            variants: vec![],
            sort: None,
            entries: (0..5u64)
                .map(|i| EntrySpec {
                    variant: None,
                    vals: vec![
                        (intern("k"), Val::U(7)),
                        (intern("r"), Val::Ref(0, (i as usize * 3) % 7)),
                        (intern("t"), Val::A(format!("text {i}").into_bytes())),
                    ],
                })
                .collect(),
        },
    ];
    let dir = DirSpec {
        value_stores: vec![false, true],
        stores,
        indexes: vec![IndexSpec {
            name: "window".into(),
            store: 0,
            offset: 2,
            count: 3,
            prop: 1,
            free: [1, 2, 3, 4],
        }],
        free: [7; 24],
    }
    .with_full_indexes();
    ContainerSpec {
        contents,
        comp,
        dir,
    }
}
