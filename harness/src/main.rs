mod autom;
mod dfa;
mod fams;
mod hist;
mod huge;
mod loops;
mod regex;
mod replace;
mod rt;
mod sets;
mod strs;
mod util;
mod world;

use rt::*;

fn usage() -> ! {
    eprintln!("usage: mc PROPERTY --tier quick|thorough --out FILE [--only FAMILY CHUNK] [--deadline S] [--hang S]");
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        usage();
    }
    let prop = args[0].clone();
    let mut tier = Tier::Quick;
    let mut out = String::from("/dev/null");
    let mut only = None;
    let mut deadline = 0;
    let mut hang = 120;
    let mut shard = (0, 1);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = match args[i + 1].as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    _ => usage(),
                };
                i += 2;
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 2;
            }
            "--deadline" => {
                deadline = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--hang" => {
                hang = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--shard" => {
                shard = (args[i + 1].parse().unwrap(), args[i + 2].parse().unwrap());
                i += 3;
            }
            "--only" => {
                only = Some((args[i + 1].clone(), args[i + 2].parse().unwrap()));
                i += 3;
            }
            _ => usage(),
        }
    }
    if deadline == 0 {
        deadline = tier.pick(300, 1200);
    }
    install_panic_hook();
    let ctx = Ctx::new(&prop, tier, only, shard, &out, deadline, hang);
    match prop.as_str() {
        "C07" => hist::c07(&ctx),
        "C10" => replace::c10(&ctx),
        "C11" => sets::c11(&ctx),
        "C12" => sets::c12(&ctx),
        "C15" => loops::c15(&ctx),
        "C01" => regex::c01(&ctx),
        "C02" => regex::c02(&ctx),
        "C03" => regex::c03(&ctx),
        "C05" => regex::c05(&ctx),
        "C16" => regex::c16(&ctx),
        "C18" => regex::c18(&ctx),
        "C19" => regex::c19(&ctx),
        "C04" => autom::c04(&ctx),
        "C13" => autom::c13(&ctx),
        "C14" => autom::c14(&ctx),
        "C06" => strs::c06(&ctx),
        "C08" => strs::c08(&ctx),
        "C09" => strs::c09(&ctx),
        "C17" => strs::c17(&ctx),
        "C20" => sets::c20(&ctx),
        _ => usage(),
    }
    let ok = ctx.finish();
    std::process::exit(if ok { 0 } else { 1 });
}
