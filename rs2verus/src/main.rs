//! Mechanical extraction of Rust functions into Verus.
//!
//! usage: rs2verus TEMPLATE SRC_ROOT OUT.rs OUT.json [--vacuity] [--skip=PATH;PATH]
//!
//! TEMPLATE is Verus text.  Lines beginning with `//@@` are directives that are replaced with items taken from the
//! source tree, so that the verified text is the code that runs, after the documented rewrites in `rewrite.rs`.
mod print;
mod rewrite;
mod template;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let vac = args.iter().any(|a| a == "--vacuity");
    let skip = args.iter().filter_map(|a| a.strip_prefix("--skip=")).flat_map(|a| a.split(';')).map(|s| s.to_string()).collect();
    let a: Vec<&String> = args.iter().skip(1).filter(|a| !a.starts_with("--")).collect();
    let text = std::fs::read_to_string(a[0]).expect("template");
    match template::expand(&text, a[1], std::path::Path::new(a[0]).parent().unwrap(), vac, skip) {
        Ok((out, meta)) => {
            std::fs::write(a[2], out).unwrap();
            std::fs::write(a[3], meta).unwrap();
        }
        Err(e) => {
            eprintln!("rs2verus: {e}");
            std::process::exit(4);
        }
    }
}
