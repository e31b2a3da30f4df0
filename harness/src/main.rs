mod bulk;
mod cases;
mod clouds;
mod det;
mod faulty;
mod io;
mod mono;
mod plug;
mod sched;
mod track;
mod tree;
mod util;
mod views;
use util::*;

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("command");
    let out = it.next().expect("output directory");
    let rest: Vec<String> = it.collect();
    let a = Args {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        out: out.into(),
        rest,
    };
    std::fs::create_dir_all(&a.out).unwrap();
    quiet_panics();
    watchdog(120);
    match cmd.as_str() {
        "tree-struct" => tree::run(&a, "struct"),
        "tree-knn" => tree::run(&a, "knn"),
        "tree-path" => tree::run(&a, "path"),
        "build-det" => det::run(&a),
        "build-det-child" => det::child(&a),
        "io-save" => io::run(&a),
        "bulk" => bulk::run(&a),
        "glue" => clouds::glue(&a),
        "labels" => clouds::labels(&a),
        "labels-gen" => clouds::labels_gen(&a),
        "dist" => clouds::dist(&a),
        "load" => clouds::load_files(&a),
        "track" => track::run(&a),
        "track-gen" => track::replay(&a),
        "views" => views::run(&a),
        "described" => views::described(&a),
        "plug" => plug::run(&a),
        "plug-pub" => plug::publish(&a),
        "mono-snap" => mono::run(&a, "snap"),
        "mono-hold" => mono::run(&a, "hold"),
        "mono-gen" => mono::replay(&a),
        "mono-ops" => mono::run(&a, "ops"),
        c => {
            eprintln!("unknown command {}", c);
            std::process::exit(64);
        }
    }
    std::process::exit(0);
}
