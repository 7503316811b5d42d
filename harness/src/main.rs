mod ast;
mod dump;
mod engine;
mod gen;
mod model;
mod props;
mod re;
mod real;
mod script;
mod src;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let all = props::all();
    let find = |id: &str| {
        all.iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("unknown property {:?}", id);
            std::process::exit(2)
        })
    };
    engine::silence();
    let code = match arg(0) {
        "check" => {
            let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match arg(2) {
                "thorough" => "thorough",
                "quick" => "quick",
                _ if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") => "thorough",
                _ => "quick",
            };
            engine::check(find(arg(1)), tier, seed, &root, std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()))
        }
        "worker" => engine::worker(find(arg(1)), arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5)),
        "once" => engine::once_main(find(arg(1)), arg(2), false),
        "describe" => engine::once_main(find(arg(1)), arg(2), true),
        "replay" => engine::replay(all, arg(1)),
        "list" => {
            for p in all {
                engine::emit(&format!("{}\n", p.id));
            }
            0
        }
        _ => {
            engine::emit("usage: harness check ID [quick|thorough] | replay FILE | list\n");
            2
        }
    };
    std::process::exit(code);
}
