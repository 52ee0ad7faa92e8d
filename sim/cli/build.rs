// Takes the main() of the command line tool as it is in /repo, and makes it callable.
use std::path::Path;

fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let bin = Path::new(&dir).join("../../../repo/bin/tiny-spice.rs");
    println!("cargo:rerun-if-changed={}", bin.display());
    let text = std::fs::read_to_string(&bin).expect("can't read the main program");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        if line.starts_with("fn main(") {
            out += "pub ";
        }
        out += line;
        out += "\n";
    }
    let to = Path::new(&std::env::var("OUT_DIR").unwrap()).join("cli_main.rs");
    std::fs::write(to, out).unwrap();
}
