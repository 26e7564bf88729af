#![allow(dead_code)]
mod decode;
mod gen;
mod model;
mod props;
mod util;
mod view;
use util::*;

fn build(ctx: &mut Ctx) {
    match ctx.prop.clone().as_str() {
        "C01" => props::c01::cases(ctx),
        "C02" => props::c02::cases(ctx),
        "C03" => props::c03::cases(ctx),
        "C04" => props::c04::cases(ctx),
        "C05" => props::c05::cases(ctx),
        "C06" => props::c06::cases(ctx),
        "C07" => props::c07::cases(ctx),
        "C08" => props::c08::cases(ctx),
        "C09" => props::c09::cases(ctx),
        "C10" => props::c10::cases(ctx),
        "C11" => props::c11::cases(ctx),
        "C12" => props::c12::cases(ctx),
        "C13" => props::c13::cases(ctx),
        "C14" => props::c14::cases(ctx),
        "C15" => props::c15::cases(ctx),
        "C16" => props::c16::cases(ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3)
        }
    }
}

fn json(rep: &Report) -> String {
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    format!(
        "{{\"evaluations\":{},\"skipped\":{},\"distinct\":{},\"wall\":{:.3},\"marks\":{{{}}},\"samples\":{},\"violations\":{}}}",
        rep.evaluations,
        rep.skipped,
        rep.marks.len(),
        rep.wall,
        rep.marks
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(","),
        list(rep.samples.iter().map(|s| jstr(s)).collect()),
        list(
            rep.violations
                .iter()
                .map(|(i, m)| format!("{{\"case\":{},\"message\":{}}}", jstr(i), jstr(m)))
                .collect()
        )
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    if std::env::var_os("JBKV_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut ctx = Ctx::new(
                &args[2],
                opt("--tier").as_deref() == Some("thorough"),
                seed,
                opt("--case"),
            );
            build(&mut ctx);
            let rep = ctx.run();
            let j = json(&rep);
            match opt("--out") {
                Some(p) => std::fs::write(p, j).unwrap(),
                None => println!("{j}"),
            }
            std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
        }
        Some("c09-zygote") => props::c09::zygote(&args[2..]),
        Some("corpus-make") => props::c14::corpus_make(&args[2..]),
        Some("c06-child") => props::c06::child(&args[2..]),
        _ => {
            eprintln!("usage: jbkv check PROP [--tier quick|thorough] [--seed N] [--case ID] [--out FILE]");
            std::process::exit(3)
        }
    }
}
