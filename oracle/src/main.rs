//! Bounded contract checks ("layer 3"): executes the postconditions of the property contracts on the
//! real crate over systematic and seeded inputs, and writes down the first failing input it meets.
mod ctx;
mod gen;
mod meshprops;
mod domprops;
mod numprops;
mod linprops;
mod fileprops;

use ctx::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).expect("usage: oracle PROP [--seed S] [--n N] [--case K] [--out F]").clone();
    let mut seed = 1u64;
    let mut n: Option<u64> = None;
    let mut only: Option<u64> = None;
    let mut out: Option<String> = None;
    let mut secs = 60.0f64;
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--n" => n = Some(v.parse().unwrap()),
            "--case" => only = Some(v.parse().unwrap()),
            "--out" => {
                std::env::set_var("ORACLE_OUT", &v);
                out = Some(v.clone())
            }
            "--secs" => secs = v.parse().unwrap(),
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    let (f, default_n): (CaseFn, u64) = match prop.as_str() {
        "P01" => (meshprops::p01, 1500),
        "P02" => (meshprops::p02, 1500),
        "P03" => (meshprops::p03, 3000),
        "P04" => (meshprops::p04, 2500),
        "P05" => (meshprops::p05, 4000),
        "P06" => (meshprops::p06, 4000),
        "P07" => (meshprops::p07, 1500),
        "P08" => (meshprops::p08, 1200),
        "P09" => (domprops::p09, 600),
        "P10" => (domprops::p10, 400),
        "P11" => (linprops::p11, 4000),
        "P12" => (linprops::p12, 1500),
        "P13" => (numprops::p13, 1500),
        "P14" => (numprops::p14, 1500),
        "P15" => (fileprops::p15, 250),
        "P16" => (fileprops::p16, 1500),
        "P17" => (domprops::p17, 60),
        "P18" => (linprops::p18, 300),
        "P20" => (numprops::p20, 4000),
        _ => panic!("no bounded check for {prop}"),
    };
    let rep = run(&prop, f, seed, n.unwrap_or(default_n), only, secs);
    let js = rep.to_json();
    if let Some(o) = out {
        std::fs::write(o, js.pretty(2)).unwrap();
    } else {
        println!("{}", js.pretty(2));
    }
    std::process::exit(if rep.fails.is_empty() { 0 } else { 3 });
}
