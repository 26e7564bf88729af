//! C03: order of sorted stores, and lookups.
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{builder::AnyBuilder, CompareTrait, Range as _};
use std::cmp::Ordering;

/// Same comparisons as PropertyCompare, declared ordered: find() does a binary search.
struct Ordered<C>(C);
impl<C: CompareTrait> CompareTrait for Ordered<C> {
    fn ordered(&self) -> bool {
        true
    }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        self.0.compare_entry(idx)
    }
}

fn value(v: &Val) -> jbk::Value {
    match v {
        Val::U(v) => jbk::Value::Unsigned(*v),
        Val::S(v) => jbk::Value::Signed(*v),
        Val::A(b) => jbk::Value::Array(b.as_slice().into()),
        _ => unreachable!(),
    }
}

fn near(r: &mut Rng, v: &Val) -> Val {
    match v {
        Val::U(x) => Val::U(match r.below(4) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => r.magnitude(),
            _ => x / 2,
        }),
        Val::S(x) => Val::S(match r.below(4) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => r.magnitude() as i64,
            _ => x.wrapping_neg(),
        }),
        Val::A(b) => {
            let mut b = b.clone();
            match r.below(6) {
                0 => b.push(r.below(256) as u8),
                1 => {
                    b.pop();
                }
                2 => b.push(0),
                3 => {
                    if let Some(l) = b.last_mut() {
                        *l = l.wrapping_add(1);
                    }
                }
                4 => {
                    if !b.is_empty() {
                        let i = r.usize(b.len());
                        b[i] ^= 0x80;
                    }
                }
                _ => b = gen_bytes_len(r, 20),
            }
            Val::A(b)
        }
        v => v.clone(),
    }
}

fn lookups(spec: &DirSpec, c: &jbk::reader::Container, read: &[DIndex], r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    for (ii, isp) in spec.indexes.iter().enumerate() {
        let st = &spec.stores[isp.store];
        let Some(keys) = &st.sort else { continue };
        let idx = c
            .get_directory_pack()
            .get_index((ii as u32).into())
            .map_err(s("index"))?;
        let builder: AnyBuilder = builder_for(c, &idx)?;
        // keys: the present ones, and neighbours; also prefixes of the key tuple
        for klen in 1..=keys.len() {
            let ks = &keys[..klen];
            let key_of = |e: &DEntry| -> Vec<Val> { ks.iter().map(|k| e.vals[*k].clone()).collect() };
            let mut cands: Vec<Vec<Val>> = read[ii].entries.iter().map(key_of).collect();
            let base: Vec<Vec<Val>> = st
                .entries
                .iter()
                .map(|e| {
                    ks.iter()
                        .map(|k| e.vals.iter().find(|(n, _)| n == k).unwrap().1.clone())
                        .collect()
                })
                .collect();
            for b in base.iter().take(200) {
                let mut k = b.clone();
                let i = r.usize(klen);
                k[i] = near(r, &k[i]);
                cands.push(k);
                cands.push(b.clone());
            }
            cands.sort();
            cands.dedup();
            for key in cands {
                let want: Vec<usize> = read[ii]
                    .entries
                    .iter()
                    .enumerate()
                    .filter(|(_, e)| key_of(e) == key)
                    .map(|(i, _)| i)
                    .collect();
                let mk = || {
                    builder.new_multiple_property_compare(
                        ks.iter().map(|k| k.to_string()).collect(),
                        key.iter().map(value).collect(),
                    )
                };
                let mut res = vec![];
                res.push(("linear", idx.find(&mk()).map_err(s("find"))?));
                res.push(("binary", idx.find(&Ordered(mk())).map_err(s("find"))?));
                if klen == 1 {
                    let cmp = builder.new_property_compare(ks[0].to_string(), value(&key[0]));
                    res.push(("linear1", idx.find(&cmp).map_err(s("find"))?));
                }
                n += res.len();
                for (mode, got) in res {
                    let got = got.map(|i| i.into_u32() as usize);
                    match got {
                        None if want.is_empty() => {}
                        Some(g) if want.contains(&g) => {}
                        _ => {
                            return Err(format!(
                                "index {:?} (count {}): {mode} search of {key:?} on {ks:?} answers {got:?}, entries with that key: {want:?}",
                                isp.name, isp.count
                            ))
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

pub fn sorted_ok(spec: &DirSpec, r: &mut Rng) -> CaseResult {
    let sc = Scratch::new("c03");
    let (m, handles) = create_dir_only(spec, &sc.0).map_err(|e| format!("creation failed: {e}"))?;
    let c = jbk::reader::Container::new(&m).map_err(s("open"))?;
    let read = read_indexes(spec, &c)?;
    verify_directory(spec, &handles, &read)?;
    let n = lookups(spec, &c, &read, r)?;
    let mut marks = crate::props::c02::dir_marks(spec);
    marks.retain(|m| m.starts_with("sorted") || m.starts_with("entries") || m.starts_with("prop") || m.starts_with("store"));
    if n > 0 {
        marks.push("lookups".into());
    }
    Ok(marks)
}

fn sorted_spec(r: &mut Rng, max: usize) -> DirSpec {
    // a store guaranteed to be sorted
    loop {
        let p = DirParams {
            max_entries: max,
            sorted: true,
            refs: r.chance(1, 4),
            variants: r.chance(1, 3),
        };
        let d = gen_dir(r, &p);
        if d.stores.iter().any(|s| s.sort.is_some() && !s.entries.is_empty()) {
            return d;
        }
    }
}

fn key_column(kind: Kind, vs: Vec<bool>, vals: Vec<Val>) -> DirSpec {
    let mut d = crate::props::c02::column(kind, vs, vals);
    d.stores[0].sort = Some(vec![intern("x")]);
    let n = d.stores[0].entries.len() as u32;
    // some windows
    for (o, c) in [(0, n / 2), (n / 2, n - n / 2), (n / 3, n / 3)] {
        d.indexes.push(IndexSpec {
            name: format!("w{o}-{c}"),
            store: 0,
            offset: o,
            count: c,
            prop: 0,
            free: [0; 4],
        });
    }
    d
}

pub fn cases(ctx: &mut Ctx) {
    for indexed in [false, true] {
        for fixed in [0usize, 1, 2, 3, 5, 8, 31] {
            // duplicates, prefixes of each other, bytes >= 0x80, embedded zeros
            ctx.case(format!("arr-{indexed}-{fixed}"), move || {
                let mut r = Rng::new(fixed as u64 + 99);
                let mut vals = vec![];
                let alpha = [0u8, 1, b'a', 0x7F, 0x80, 0xFF];
                for a in alpha {
                    vals.push(vec![a]);
                    for b in alpha {
                        vals.push(vec![a, b]);
                        vals.push(vec![b'p', a, b'p', b]);
                    }
                }
                vals.push(vec![]);
                for n in 0..40 {
                    vals.push(vec![b'a'; n]);
                }
                // shuffle
                for i in (1..vals.len()).rev() {
                    vals.swap(i, r.usize(i + 1));
                }
                let k = Kind::A { fixed, vs: 0 };
                sorted_ok(&key_column(k.clone(), vec![indexed], vals.iter().cloned().map(Val::A).collect()), &mut r)?;
                vals.extend(vals.clone().into_iter().step_by(3));
                sorted_ok(&key_column(k, vec![indexed], vals.into_iter().map(Val::A).collect()), &mut r)
                    .map(|mut m| {
                        m.push("duplicate-keys".into());
                        m
                    })
            });
        }
        for n in [255usize, 256, 257, 600, 3000] {
            ctx.case(format!("arr-many-{indexed}-{n}"), move || {
                let mut r = Rng::new(n as u64);
                let mut vals: Vec<Val> = (0..n)
                    .map(|i| Val::A(format!("{}{}", ["x", "longer prefix ", "é"][i % 3], i * 7919 % n).into_bytes()))
                    .collect();
                for i in (1..vals.len()).rev() {
                    vals.swap(i, r.usize(i + 1));
                }
                let fixed = n % 4;
                sorted_ok(&key_column(Kind::A { fixed, vs: 0 }, vec![indexed], vals), &mut r)
            });
        }
    }
    for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 100, 257] {
        ctx.case(format!("uint-{n}"), move || {
            let mut r = Rng::new(n as u64);
            for top in [3u64, 300, u64::MAX] {
                let vals = (0..n)
                    .map(|_| Val::U(if top == u64::MAX { r.magnitude() } else { r.below(top) }))
                    .collect();
                sorted_ok(&key_column(Kind::U, vec![], vals), &mut r)?;
            }
            Ok(vec![format!("uint:{n}")])
        });
        ctx.case(format!("sint-{n}"), move || {
            let mut r = Rng::new(n as u64);
            for top in [3u64, 300, u64::MAX] {
                let vals = (0..n)
                    .map(|_| {
                        Val::S(if top == u64::MAX {
                            r.next() as i64 >> r.below(60)
                        } else {
                            r.below(2 * top) as i64 - top as i64
                        })
                    })
                    .collect();
                sorted_ok(&key_column(Kind::S, vec![], vals), &mut r)?;
            }
            Ok(vec![format!("sint:{n}")])
        });
    }
    let n = ctx.n(700, 12_000);
    for k in 0..n {
        let mut r = ctx.rng(&format!("rnd-{k}"));
        ctx.case(format!("rnd-{k}"), move || {
            let max = *r.pick(&[4usize, 12, 40, 120]);
            let d = sorted_spec(&mut r, max);
            sorted_ok(&d, &mut r)
        });
    }
}
