//! C05: damaged metadata is reported, never silently decoded into different values.
use crate::model::*;
use crate::util::*;
use crate::view::*;
use std::sync::Arc;

/// The postcondition of C05 on one damaged image.
pub fn judge(base: &Obs, got: &Obs) -> Result<Vec<String>, String> {
    let mut m = vec![];
    let mut raw_diff: Option<String> = None;
    for (k, v) in got {
        let Ok(v) = v else {
            m.push("error".into());
            continue;
        };
        if k.starts_with("check:") {
            continue;
        }
        let Some(b) = base.get(k) else {
            return Err(format!("{k} reads {v}, which was not there when written"));
        };
        if b.as_ref() == Ok(v) {
            continue;
        }
        if k.starts_with("raw:") {
            raw_diff = Some(k.clone());
        } else {
            return Err(format!("{k} reads {v:?}; written {b:?}"));
        }
    }
    if let Some(k) = raw_diff {
        m.push("raw-differs".into());
        if got.get("check:container") == Some(&Ok("true".into())) {
            return Err(format!("{k} differs from what was written but Container::check succeeds"));
        }
        let id = k[4..].split('.').next().unwrap();
        if got.get(&format!("check:pack{id}")) == Some(&Ok("true".into())) {
            return Err(format!("{k} differs from what was written but the pack check succeeds"));
        }
    }
    if m.is_empty() {
        m.push("identical".into());
    }
    m.sort();
    m.dedup();
    Ok(m)
}

pub fn random_damage(r: &mut Rng, im: &Image, in_place: bool) -> Damage {
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        let f = r.usize(im.files.len());
        let n = im.files[f].1.len();
        let at = r.usize(n);
        ops.push(match r.below(if in_place { 4 } else { 7 }) {
            0 => Op::Xor(f, at, r.range(1, 255) as u8),
            1 => Op::Fill(f, at, 1 + r.usize((n - at).min(300)), *r.pick(&[0, 0, 0xFF, 0x20])),
            2 => Op::Rand(f, at, 1 + r.usize((n - at).min(64)), r.next()),
            3 => Op::Fill(f, at, n, 0),
            4 => Op::Trunc(f, at),
            5 => Op::Append(f, 1 + r.usize(200), r.next()),
            _ => Op::Garbage(f, r.usize(400), r.next()),
        });
    }
    Damage(ops)
}

pub fn cases(ctx: &mut Ctx) {
    let seed = ctx.seed;
    let imgs: Vec<Arc<Image>> = match images(seed, true) {
        Ok(v) => v.into_iter().map(Arc::new).collect(),
        Err(m) => {
            ctx.case("images", move || Err(m));
            return;
        }
    };
    for im in &imgs {
        let base = {
            let sc = Scratch::new("c05b");
            match baseline(im, &sc.0) {
                Ok(b) => Arc::new(b),
                Err(m) => {
                    ctx.case(format!("baseline-{}", im.tag), move || Err(m));
                    continue;
                }
            }
        };
        for f in 0..im.files.len() {
            let n = im.files[f].1.len();
            for lo in (0..n).step_by(200) {
                let (im, base) = (im.clone(), base.clone());
                let thorough = ctx.thorough;
                ctx.case(format!("flip-{}-{f}-{lo}", im.tag), move || {
                    let sc = Scratch::new("c05");
                    let mut b = Bench::new(&im, &sc.0);
                    let mut marks = vec![];
                    for pos in lo..(lo + 200).min(n) {
                        let byte = im.files[f].1[pos];
                        let mut masks = vec![1u8 << (pos % 8), 0xFF];
                        if thorough {
                            masks = (0..8).map(|i| 1 << i).collect();
                            masks.push(0xFF);
                        }
                        if byte != 0 {
                            masks.push(byte); // zeroed
                        }
                        masks.sort();
                        masks.dedup();
                        for m in masks {
                            let d = Damage(vec![Op::Xor(f, pos, m)]);
                            b.set(&d);
                            let got = observe(&im, &sc.0);
                            let mk = judge(&base, &got).map_err(|x| {
                                format!("byte {pos} of {} xor {m:#x}: {x}", im.files[f].0)
                            })?;
                            for k in mk {
                                if !marks.contains(&k) {
                                    marks.push(k);
                                }
                            }
                        }
                    }
                    Ok(marks)
                });
            }
        }
        for k in 0..ctx.n(4, 40) {
            let id = format!("multi-{}-{k}", im.tag);
            let mut r = ctx.rng(&id);
            let (im, base) = (im.clone(), base.clone());
            ctx.case(id, move || {
                let sc = Scratch::new("c05m");
                let mut b = Bench::new(&im, &sc.0);
                for _ in 0..60 {
                    let d = random_damage(&mut r, &im, true);
                    b.set(&d);
                    judge(&base, &observe(&im, &sc.0)).map_err(|x| format!("{}: {x}", d.show()))?;
                }
                Ok(vec!["multi".into()])
            });
        }
    }
    for comp in Comp::fast() {
        for k in 0..ctx.n(2, 8) {
            let id = format!("medium-{}-{k}", comp.tag());
            let mut r = ctx.rng(&id);
            let n = ctx.n(25, 120);
            ctx.case(id, move || {
                let im = medium_image(seed, comp, *r.pick(&[Mode::One, Mode::Two, Mode::Sep]))?;
                let sc = Scratch::new("c05k");
                let base = baseline(&im, &sc.0)?;
                let mut b = Bench::new(&im, &sc.0);
                for _ in 0..n {
                    let d = random_damage(&mut r, &im, true);
                    b.set(&d);
                    judge(&base, &observe(&im, &sc.0)).map_err(|x| format!("{}: {x}", d.show()))?;
                }
                Ok(vec!["medium".into()])
            });
        }
    }
}
