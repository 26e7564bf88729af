//! C15: references between entries hold the final position of the entry they refer to.
use crate::model::*;
use crate::util::*;
use jubako::reader;

#[derive(Clone, Copy, Debug)]
enum Graph {
    Forward,
    Backward,
    Own,
    Chain,
    Random,
    Same,
    Other,
}
const GRAPHS: [Graph; 7] = [
    Graph::Forward,
    Graph::Backward,
    Graph::Own,
    Graph::Chain,
    Graph::Random,
    Graph::Same,
    Graph::Other,
];

fn target(r: &mut Rng, g: Graph, st: usize, sizes: &[usize], i: usize, fixed: usize) -> (usize, usize) {
    let n = sizes[st];
    match g {
        Graph::Forward => (st, i + r.usize(n - i)),
        Graph::Backward => (st, r.usize(i + 1)),
        Graph::Own => (st, i),
        Graph::Chain => (st, (i + 1) % n),
        Graph::Random => (st, r.usize(n)),
        Graph::Same => (st, fixed % n),
        Graph::Other => {
            let o = r.usize(sizes.len());
            if sizes[o] == 0 {
                (st, r.usize(n))
            } else {
                (o, r.usize(sizes[o]))
            }
        }
    }
}

fn gen(r: &mut Rng, sizes: &[usize], sorted: &[bool]) -> (DirSpec, Vec<String>) {
    let mut spec = DirSpec {
        value_stores: vec![true],
        ..Default::default()
    };
    let mut marks = vec![];
    for (si, n) in sizes.iter().copied().enumerate() {
        let array_key = r.chance(1, 3);
        let with_variants = r.bool();
        let mut common = vec![PropSpec {
            name: "id",
            kind: Kind::U,
        }];
        if array_key {
            common.push(PropSpec {
                name: "name",
                kind: Kind::A { fixed: 3, vs: 0 },
            });
        } else {
            common.push(PropSpec {
                name: "key",
                kind: Kind::U,
            });
        }
        let nref = 1 + r.usize(3);
        let mut refs = vec![];
        for k in 0..nref {
            let g = *r.pick(&GRAPHS);
            let signed = r.chance(1, 4);
            let name = intern(&format!("ref{k}"));
            // a reference which is there in one entry out of `sparse` only (0 elsewhere)
            let sparse = *r.pick(&[1usize, 1, 7, 1000]);
            refs.push((name, g, signed, sparse, r.usize(n.max(1))));
            let p = PropSpec {
                name,
                kind: if signed { Kind::S } else { Kind::U },
            };
            marks.push(format!("graph:{g:?}/sorted:{}", sorted[si]));
            if !with_variants || k == 0 {
                common.push(p);
            }
        }
        let variants = if with_variants {
            let of = |skip: usize| -> Vec<PropSpec> {
                refs.iter()
                    .enumerate()
                    .filter(|(k, _)| *k != 0 && *k != skip)
                    .map(|(_, x)| PropSpec {
                        name: x.0,
                        kind: if x.2 { Kind::S } else { Kind::U },
                    })
                    .collect()
            };
            marks.push("variants".into());
            vec![("va", of(2)), ("vb", of(1))]
        } else {
            vec![]
        };
        let mut entries = vec![];
        for i in 0..n {
            let variant = if with_variants { Some(r.usize(2)) } else { None };
            let mut vals = vec![("id", Val::U(i as u64))];
            if array_key {
                let l = r.usize(6);
                vals.push(("name", Val::A((0..l).map(|_| *r.pick(b"abc")).collect())));
            } else {
                vals.push(("key", Val::U(r.below(2 * n as u64 + 1))));
            }
            for (k, (name, g, signed, sparse, fixed)) in refs.iter().enumerate() {
                let here = k == 0
                    || variant.map_or(true, |v| {
                        variants[v].1.iter().any(|p: &PropSpec| p.name == *name)
                    });
                if !here {
                    continue;
                }
                let v = if i % sparse == sparse / 2 {
                    let (s, e) = target(r, *g, si, sizes, i, *fixed);
                    if *signed {
                        Val::SRef(s, e)
                    } else {
                        Val::Ref(s, e)
                    }
                } else if *signed {
                    Val::S(-(r.below(2) as i64))
                } else {
                    Val::U(0)
                };
                vals.push((name, v));
            }
            entries.push(EntrySpec { variant, vals });
        }
        spec.stores.push(StoreSpec {
            common,
            variants,
            sort: sorted[si].then(|| {
                if array_key {
                    vec!["name", "id"]
                } else {
                    vec!["key", "id"]
                }
            }),
            entries,
        });
    }
    (spec.with_full_indexes(), marks)
}

fn run(spec: DirSpec) -> Result<(), String> {
    let d = Scratch::new("c15");
    let (m, handles) = create_dir_only(&spec, &d.0)?;
    let c = reader::Container::new(&m).map_err(s("Container::new"))?;
    let read = read_indexes(&spec, &c)?;
    verify_directory(&spec, &handles, &read)
}

/// Entries sorted on the position of their parent, then on their name.
fn tree(mut r: Rng, n: usize, depth: usize) -> CaseResult {
    // entry 0 is the root
    let mut lvl = vec![0usize];
    let mut parent = vec![0usize];
    for i in 1..n {
        let cands: Vec<usize> = (0..i).filter(|k| lvl[*k] < depth).collect();
        let p = *r.pick(&cands);
        parent.push(p);
        lvl.push(lvl[p] + 1);
    }
    // add them in any order
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.usize(i + 1));
    }
    let at: Vec<usize> = (0..n).map(|i| order.iter().position(|x| *x == i).unwrap()).collect();
    let entries = order
        .iter()
        .map(|i| EntrySpec {
            variant: None,
            vals: vec![
                ("id", Val::U(*i as u64)),
                (
                    "name",
                    Val::A(if *i == 0 {
                        vec![]
                    } else {
                        format!("n{:03}", r.below(1000)).into_bytes()
                    }),
                ),
                (
                    "parent",
                    if *i == 0 { Val::U(0) } else { Val::Ref(0, at[parent[*i]]) },
                ),
            ],
        })
        .collect();
    let spec = DirSpec {
        value_stores: vec![false],
        stores: vec![StoreSpec {
            common: vec![
                PropSpec { name: "id", kind: Kind::U },
                PropSpec { name: "name", kind: Kind::A { fixed: 0, vs: 0 } },
                PropSpec { name: "parent", kind: Kind::U },
            ],
            variants: vec![],
            sort: Some(vec!["parent", "name", "id"]),
            entries,
        }],
        ..Default::default()
    }
    .with_full_indexes();
    match guarded(|| run(spec)) {
        Err(e) => Err(e),
        Ok(()) => Ok(vec!["tree".into()]),
    }
}

pub fn cases(ctx: &mut Ctx) {
    for k in 0..ctx.n(400, 4000) {
        let id = format!("small/{k}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let ns = 1 + r.usize(3);
            let sizes: Vec<usize> = (0..ns)
                .map(|_| *r.pick(&[1, 2, 3, 10, 40, 255, 256, 257, 300]))
                .collect();
            let sorted: Vec<bool> = (0..ns).map(|_| r.chance(2, 3)).collect();
            let (spec, mut marks) = gen(&mut r, &sizes, &sorted);
            run(spec)?;
            marks.push(format!("stores:{ns}"));
            Ok(marks)
        });
    }
    for k in 0..ctx.n(24, 120) {
        let id = format!("large/{k}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            // over what the parallel sort does on one thread, and around the widths of a position
            let n = *r.pick(&[2500, 5000, 20_000, 65_535, 65_536, 65_537, 70_000]);
            let sizes = if r.bool() { vec![n] } else { vec![n, 1 + r.usize(3000)] };
            let sorted: Vec<bool> = sizes.iter().map(|_| r.chance(3, 4)).collect();
            let (spec, mut marks) = gen(&mut r, &sizes, &sorted);
            run(spec)?;
            marks.push(format!("entries>={}", if n > 65_000 { 65_000 } else { 2500 }));
            Ok(marks)
        });
    }
    for k in 0..ctx.n(60, 400) {
        let id = format!("tree/{k}");
        let mut r = ctx.rng(&id);
        ctx.case(id, move || {
            let n = 2 + r.usize(60);
            let d = 1 + r.usize(5);
            tree(r, n, d)
        });
    }
}
