mod db;
mod engine;
mod gen;
mod model;
mod props;
mod refimpl;
mod rt;
mod world;

use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

fn prop(id: &str) -> &'static engine::Prop {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn read_tape(path: &str) -> (serde_json::Value, Vec<u64>) {
    let v: serde_json::Value =
        serde_json::from_slice(&std::fs::read(path).expect("cannot read the file")).expect("JSON");
    let t = v["tape"].as_array().expect("tape").iter().map(|x| x.as_u64().unwrap()).collect();
    (v, t)
}

fn main() {
    rt::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match a.get(1).map(String::as_str) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(3).map_or("quick", String::as_str);
            engine::check(prop(&a[2]), tier, seed, &root)
        }
        Some("explore") => {
            engine::explore(prop(&a[2]), &a[3], a[4].parse().unwrap(), Path::new(&a[5]), Path::new(&a[6]));
            0
        }
        Some("index") => engine::run_index(
            prop(&a[2]),
            &a[3],
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            Path::new(&a[6]),
        ),
        Some("shrink") => {
            engine::shrink(
                prop(&a[2]),
                engine::which_of(a[3].parse().unwrap()),
                Path::new(&a[5]),
                a[4] == "thorough",
            );
            0
        }
        Some("shrink1") => {
            let (_, t) = read_tape(&a[5]);
            let o = engine::run_case(
                prop(&a[2]),
                engine::which_of(a[3].parse().unwrap()),
                engine::Input::Tape(t),
                false,
                a[4] == "thorough",
                None,
            );
            i32::from(o.result.is_err())
        }
        Some("replay") => {
            let (v, t) = read_tape(&a[2]);
            let p = prop(v["property"].as_str().expect("property"));
            let path = a[2].clone();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(120));
                println!("failure: {}", engine::NEVER_ENDS);
                println!("VIOLATION property={} replay={path}", p.id);
                std::process::exit(1);
            });
            let o = engine::run_case(
                p,
                engine::which_of(v["code"].as_u64().unwrap_or(0)),
                engine::Input::Tape(t),
                true,
                v["tier"] == "thorough",
                None,
            );
            for n in &o.notes {
                println!("| {n}");
            }
            match o.result {
                Ok(()) => {
                    println!("{}: the property holds on this input", p.id);
                    0
                }
                Err(m) if m == engine::DISCARD => {
                    println!("{}: the input is not a valid case", p.id);
                    0
                }
                Err(m) => {
                    println!("failure: {m}");
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: pbt list | check ID TIER | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
