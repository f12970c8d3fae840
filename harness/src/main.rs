//! Model checker for compose_spec: `mc run <property>`, `mc replay <file>`, `mc list`.
#![allow(clippy::all)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
#[allow(dead_code)]
mod doc;
mod engine;
mod long;
#[allow(dead_code)]
mod schema;
#[allow(dead_code)]
mod y;
mod rx;

use engine::{Ctx, Replay, Tier};

type Run = fn(&Ctx);

const PROPS: &[(&str, Run, &[&str])] = &[
    ("C01", c01::run, c01::ASSUME),
    ("C02", c02::run, c02::ASSUME),
    ("C03", c03::run, c03::ASSUME),
    ("C04", c04::run, c04::ASSUME),
    ("C05", c05::run, c05::ASSUME),
    ("C06", c06::run, &["the grammars in harness/src/c06.rs are the documented ones"]),
    ("C07", c07::run, c07::ASSUME),
    ("C08", c08::run, c08::ASSUME),
    ("C09", c09::run, &[]),
    ("C10", c10::run, c10::ASSUME),
    ("C11", c11::run, c11::ASSUME),
    ("C12", c12::run, &[]),
    ("C13", c13::run, c13::ASSUME),
    ("C14", c14::run, c14::ASSUME),
    ("C15", c15::run, c15::ASSUME),
    ("C16", c02::c16::run, c02::c16::ASSUME),
    ("C17", c17::run, c17::ASSUME),
    ("C18", c18::run, c18::ASSUME),
    ("C19", c19::run, c19::ASSUME),
    ("C20", c20::run, c20::ASSUME),
    ("C21", c21::run, c21::ASSUME),
];

pub fn assumptions(prop: &str) -> &'static [&'static str] {
    PROPS.iter().find(|p| p.0 == prop).map_or(&[], |p| p.2)
}

fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for p in PROPS {
                println!("{}", p.0);
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("read replay file");
            let r: Replay = serde_yaml::from_str(&text).expect("replay file");
            println!("replaying {} {}", r.property, r.key);
            std::env::set_var("MC_ONLY", &r.key);
            std::env::set_var("VERIF_TIER", &r.tier);
            std::process::exit(supervise(&r.property));
        }
        Some("run") => std::process::exit(supervise(&args[2])),
        Some("alone") => c13::alone(&args[2], &args[3]),
        Some("child") => {
            let prop = PROPS.iter().find(|p| p.0 == args[2]).expect("property");
            engine::install_panic_hook();
            let limit = std::env::var("MC_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(90_000);
            engine::watchdog(prop.0, tier(), limit);
            let ctx = Ctx::new(prop.0, tier());
            std::process::exit(engine::explore(&ctx, prop.1));
        }
        _ => {
            eprintln!("usage: mc run <property> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

/// Run the exploration in a child process, so that an abort (for example a stack overflow) of the
/// code under test becomes a verdict.
fn supervise(prop: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let Some(p) = PROPS.iter().find(|p| p.0 == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let exe = std::env::current_exe().expect("exe");
    let status = std::process::Command::new(exe)
        .arg("child")
        .arg(prop)
        .status()
        .expect("spawn child");
    match (status.code(), status.signal()) {
        (Some(c), _) => c,
        (None, Some(sig @ (6 | 11 | 7 | 4 | 8))) => {
            let path = engine::write_replay(
                p.0,
                tier(),
                "crash",
                &format!("the process under test died with signal {sig}"),
                0,
            );
            println!("VIOLATION property={} replay={}", p.0, path.display());
            println!("  the process under test died with signal {sig}");
            1
        }
        (None, sig) => {
            eprintln!("child ended by {sig:?}");
            2
        }
    }
}
