//! `kv check <ID>`: runs the check of a property. `kv replay <file>`: runs the
//! case of a replay file again. `kv show <file>`: writes its world out.

mod cfgs;
mod checks;
mod conf;
mod core;
mod model;
mod obs;
mod runner;
mod world;

use runner::*;
use std::path::PathBuf;
use world::World;

fn verif() -> String {
    std::env::var("KV_VERIF").unwrap_or_else(|_| "/verif".to_owned())
}

/// A directory of this run's own, removed at the end
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let mut n = 0;
        loop {
            let p = std::env::temp_dir().join(format!("kv-{}-{n}", std::process::id()));
            match std::fs::create_dir(&p) {
                Ok(()) => return Self(std::fs::canonicalize(&p).expect("scratch")),
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => n += 1,
                Err(e) => {
                    eprintln!("cannot create the scratch directory {}: {e}", p.display());
                    std::process::exit(3);
                }
            }
        }
    }
}

/// A hang is no verdict: the run ends with an error of its own
fn watchdog(secs: u64, scratch: PathBuf) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        eprintln!("kv: no verdict after {secs} s, giving up");
        let _ = std::fs::remove_dir_all(&scratch);
        std::process::exit(3);
    });
}

fn opts(property: &str, scratch: &Scratch) -> Opts {
    let env = |n: &str| std::env::var(n).ok();
    Opts {
        property: property.to_owned(),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        threads: 8,
        known_sigs: Default::default(),
        scratch: scratch.0.clone(),
        scale: env("KV_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        trail: std::env::var_os("KV_TRAIL").map(PathBuf::from),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Some(code) = checks::child(&args) {
        std::process::exit(code);
    }
    install_hook();
    let (Some(cmd), Some(what)) = (args.get(1), args.get(2)) else {
        eprintln!("usage: kv check <ID> | replay <file> | show <file>");
        std::process::exit(2);
    };
    let scratch = Scratch::new();
    let code = match cmd.as_str() {
        "check" => {
            let all = checks::all();
            let Some(c) = all.iter().find(|c| c.id == what.as_str()) else {
                eprintln!("no check {what}");
                std::process::exit(2);
            };
            let mut o = opts(what, &scratch);
            if args.iter().any(|a| a == "--thorough") {
                o.thorough = true;
            }
            let Some(shared) = std::env::var_os("KV_WORKER") else {
                let code = supervise(c, &o, &verif(), &args);
                drop_scratch(&scratch);
                std::process::exit(code);
            };
            drop(std::fs::remove_dir(&scratch.0));
            let scratch = Scratch(PathBuf::from(shared));
            o.scratch = scratch.0.clone();
            let secs = std::env::var("KV_WATCHDOG").ok().and_then(|s| s.parse().ok());
            watchdog(secs.unwrap_or(if o.thorough { 6 * 3600 } else { 780 }), scratch.0.clone());
            run_check(c, o, &verif())
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(what).expect("replay file")).expect("replay file");
            let (id, part) = (v["property"].as_str().unwrap(), v["part"].as_str().unwrap());
            let all = checks::all();
            let c = all.iter().find(|c| c.id == id).expect("property");
            let p = c.parts.iter().find(|p| p.name() == part).expect("part");
            let known = Known::load(&format!("{}/KNOWN_FINDINGS.txt", verif()));
            let mut cx = Cx::default();
            cx.known_sigs = known.findings.get(id).map(|f| f.keys().cloned().collect()).unwrap_or_default();
            cx.scratch = scratch.0.clone();
            let ended = std::thread::scope(|s| {
                let run = || p.replay(&v["gene"], &mut cx);
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, run).unwrap().join().expect("replay")
            });
            match ended {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={what}");
                    1
                }
            }
        }
        "show" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(what).expect("replay file")).expect("replay file");
            show(&v["gene"]);
            0
        }
        _ => 2,
    };
    drop_scratch(&scratch);
    std::process::exit(code);
}

fn drop_scratch(s: &Scratch) {
    if std::env::var_os("KV_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(&s.0);
    }
}

fn show(gene: &serde_json::Value) {
    println!("{gene:#}");
    let mut at = gene;
    while at["pkgs"].is_null() {
        at = if at["world"].is_null() { &at["wc"] } else { &at["world"] };
        if at.is_null() {
            return;
        }
    }
    let w = World::decode(&serde_json::from_value(at.clone()).expect("world"));
    for (i, p) in w.pkgs.iter().enumerate() {
        println!("{i}: {} member={} lib={} {:?}", p.id(w.opaque), p.member, p.lib_name, p.lib_kinds);
        println!("   features {:?} resolved {:?}", p.features, w.resolved[i]);
        for (k, d) in p.decls.iter().enumerate() {
            println!(
                "   {}dep {} -> {} {:?} opt={} nodef={} feats={:?} target={:?} req={} rename={:?}",
                if w.active[i].contains(&k) { "*" } else { " " },
                d.toml,
                d.to,
                d.kind,
                d.optional,
                d.nodef,
                d.features,
                d.target.as_ref().map(|t| t.text()),
                d.req,
                d.rename
            );
        }
    }
    let wc: Option<checks::WC> = serde_json::from_value(gene.clone()).ok().or_else(|| serde_json::from_value(gene["wc"].clone()).ok());
    if let Some(wc) = wc {
        println!("{:?}", wc.decode().1);
    }
}
