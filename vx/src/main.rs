//! vx: renders a Verus crate from /repo's sources and the contract templates in /verif/contracts.
//!
//! A template is Verus text with `//@` directives. Everything that is executable code of /repo is copied from the
//! source by byte range; the only changes to it are the rewrites listed in `rewrites` of the map this tool writes.
mod render;
mod template;

use std::path::PathBuf;

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut contracts = PathBuf::new();
    let mut root = String::from("root.vx");
    let mut out = PathBuf::new();
    let mut map = PathBuf::new();
    let mut features: Vec<String> = Vec::new();
    let mut demote: Vec<String> = Vec::new();
    let mut vacuity = false;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = val().into(),
            "--contracts" => contracts = val().into(),
            "--root" => root = val(),
            "--out" => out = val().into(),
            "--map" => map = val().into(),
            "--features" => features = val().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--vacuity" => vacuity = true,
            "--demote" => demote = val().split(';').filter(|s| !s.is_empty()).map(String::from).collect(),
            x => panic!("unknown argument {x}"),
        }
    }
    let mut t = template::Template::new(repo, contracts, features, demote, vacuity);
    t.file(&root);
    std::fs::write(out, &t.out).unwrap();
    std::fs::write(map, serde_json::to_string_pretty(&t.map()).unwrap()).unwrap();
}
