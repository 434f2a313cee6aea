mod ast;
mod date;
mod dict;
mod engine;
mod gen;
mod model;
mod parse;
mod props;
mod run;
mod src;

use engine::*;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let var = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
    let verif = PathBuf::from(var("SF_VERIF").unwrap_or("/verif".into()));
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let scratch = PathBuf::from(base).join(format!("sfcheck.{}", std::process::id()));
    let env = Env {
        bin: PathBuf::from(var("SF_BIN").expect("SF_BIN")),
        shim: PathBuf::from(var("SF_SHIM").expect("SF_SHIM")),
        verif,
        scratch: scratch.clone(),
        seed: var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        cov: var("SF_COV").is_some(),
        thorough: args.iter().any(|a| a == "thorough"),
    };
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            if text.lines().any(|l| l.starts_with("words=")) {
                dict::set(dict::Dict::of_line(&get("words=")));
            }
            let tape = get("tape=").split(',').filter_map(|x| x.trim().parse().ok()).collect();
            replay(find(&get("property=")).expect("property"), &env, tape)
        }
        Some(id) => match find(id) {
            Some(p) => {
                if let Some(d) = var("SF_SRC") {
                    dict::set(dict::Dict::of_dir(std::path::Path::new(&d)));
                }
                check(p, &env)
            }
            None => {
                eprintln!("no such property: {id}");
                2
            }
        },
        None => 2,
    };
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
