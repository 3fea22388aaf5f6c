//! vx: extracts the functions of /repo/src into one Verus crate.
//!
//! usage: vx REPO_SRC SPEC_DIR PRELUDE_DIR OUT.rs MAP.json [--demote KEY]... [--drop-use PATH]...
//!
//! Every rewrite is listed in DESIGN.md ("What the extraction changes").
mod emit;
mod scan;
mod spec;
mod tx;

use std::{collections::BTreeSet, fs, path::Path};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, specs_dir, prelude, out, map) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let mut demote = BTreeSet::new();
    let mut drop_use = BTreeSet::new();
    let mut i = 6;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--demote" => demote.insert(args[i + 1].clone()),
            "--drop-use" => drop_use.insert(args[i + 1].clone()),
            x => panic!("unknown option {}", x),
        };
        i += 2;
    }
    let mut specs = spec::Specs::default();
    let mut names: Vec<_> = fs::read_dir(specs_dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "spec")).collect();
    names.sort();
    for p in names {
        specs.load(&p.file_name().unwrap().to_string_lossy(), &fs::read_to_string(&p).unwrap());
    }
    let krate = scan::load(Path::new(src));
    let effects = scan::effects(&krate, &fs::read_to_string(Path::new(prelude).join("effects.txt")).unwrap());
    let mut e = emit::Emitter::new(specs, effects, demote, drop_use);
    e.consts = scan::str_consts(&krate);
    e.krate(&krate, Path::new(prelude));
    fs::write(out, &e.out).unwrap();
    fs::write(map, e.map_json()).unwrap();
}
