mod alloc;
mod check;
mod checks;
mod cmp;
mod cost;
mod eat;
mod gen;
mod graft;
mod jsn;
mod pkg;
mod props;
mod reads;
mod saves;
mod spell;
mod threads;
mod toc;
mod util;
mod view;
mod xml;

use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn all() -> impl Iterator<Item = &'static check::Check> {
    checks::ALL.iter().chain(reads::ALL).chain(saves::ALL).chain(toc::ALL).chain(eat::ALL).chain(jsn::ALL).chain(threads::ALL).chain(cost::ALL)
}

fn find(id: &str) -> Option<&'static check::Check> {
    all().find(|c| c.id == id)
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    match arg(1) {
        "check" => {
            let Some(c) = find(arg(2)) else {
                eprintln!("no check for {}", arg(2));
                std::process::exit(2)
            };
            let thorough = arg(3) == "thorough";
            let seed = arg(4).parse().unwrap_or(1);
            std::process::exit(check::check(c, thorough, seed, &root()));
        }
        "work" => {
            let c = find(arg(2)).expect("a check");
            check::work(
                c,
                arg(3) == "thorough",
                arg(4).parse().unwrap_or(1),
                Path::new(arg(5)),
                arg(6).parse().unwrap_or(60.0),
            );
        }
        "replay" => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(arg(2)).expect("a replay file")).expect("a replay file");
            let c = find(v["property"].as_str().unwrap_or("")).expect("a check");
            let dir = root().join("scratch").join(format!("replay-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&dir);
            let thorough = v["thorough"].as_bool().unwrap_or(false);
            let held = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn({
                    let dir = dir.clone();
                    move || check::replay(c, &v, thorough, &dir)
                })
                .unwrap()
                .join()
                .unwrap_or(false);
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(if held { 0 } else { 1 });
        }
        "cost" => cost::serve(&a[2..]),
        "eat" => eat::serve(),
        "race" => threads::race(arg(2).parse().unwrap_or(1), arg(3).parse().unwrap_or(1)),
        "bytes" => saves::bytes(&a[2..]),
        "list" => {
            for c in all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: mon check <property> <tier> <seed> | mon replay <file> | mon list");
            std::process::exit(2);
        }
    }
}
