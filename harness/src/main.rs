mod adapt;
mod cov;
mod engine;
mod gen;
mod guided;
mod model;
mod props;
mod src;

use engine::Opts;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: run|worker|single|replay|serve|list PROPERTY [options]");
        std::process::exit(2);
    }
    let mut o = Opts {
        prop: args.get(2).cloned().unwrap_or_default(),
        seed: 1,
        thorough: false,
        threads: 4,
        out: PathBuf::from("out/result.json"),
        replays: PathBuf::from("replays"),
        known: None,
        deadline_s: 400,
        config: "none".into(),
        scale: 1.0,
        only_phase: None,
        slots: None,
        guided: 1.0,
    };
    let (mut phase, mut idx, mut tape, mut mirror, mut rest) = (String::new(), 0u64, None, None, None);
    let mut i = 3;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.thorough = v == "thorough",
            "--threads" => o.threads = v.parse().unwrap(),
            "--out" => o.out = PathBuf::from(v),
            "--replays" => o.replays = PathBuf::from(v),
            "--known" => o.known = Some(PathBuf::from(v)),
            "--deadline" => o.deadline_s = v.parse().unwrap(),
            "--config" => o.config = v.clone(),
            "--scale" => o.scale = v.parse().unwrap(),
            "--only" => o.only_phase = Some(v.clone()),
            "--slots" => o.slots = Some(PathBuf::from(v)),
            "--phase" => phase = v.clone(),
            "--idx" => idx = v.parse().unwrap(),
            "--tape" => tape = Some(engine::read_tape_file(&PathBuf::from(v))),
            "--rest" => rest = Some(v.parse().unwrap()),
            "--guided" => o.guided = v.parse().unwrap(),
            "--mirror" => mirror = Some(PathBuf::from(v)),
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(2);
            }
        }
        i += 2;
    }
    if let Ok(d) = std::env::var("VERIF_DICT") {
        gen::load_dict(&PathBuf::from(d));
    }
    let get = |id: &str| {
        props::get(id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        })
    };
    let code = match args[1].as_str() {
        "run" => engine::supervise(&get(&o.prop), &o),
        "worker" => engine::worker(&get(&o.prop), &o),
        "single" => engine::single(&get(&o.prop), &o, &phase, idx, tape, rest, mirror, false),
        "replay" => engine::replay(&|id| props::get(id), &o, &PathBuf::from(&args[2])),
        "serve" => props::serve(&o.prop),
        "list" => {
            for id in props::IDS {
                if let Some(p) = props::get(id) {
                    for ph in p.phases {
                        println!("{} {} quick={} thorough={}", id, ph.name, ph.quick, ph.thorough);
                    }
                }
            }
            0
        }
        x => {
            eprintln!("unknown command {x}");
            2
        }
    };
    std::process::exit(code);
}
