//! Monitor driver. Modes: run, replay, digest, probe. Results go to the file given with --out.
mod api;
mod core;
mod gen;
mod probe;
mod props;
mod refm;
mod world;

use crate::core::*;
use std::io::Write;
use std::sync::OnceLock;

static OUT: OnceLock<String> = OnceLock::new();

fn write_out(text: &str) {
    if let Some(p) = OUT.get() {
        if let Ok(mut f) = std::fs::File::create(p) {
            let _ = f.write_all(text.as_bytes());
            return;
        }
    }
    eprintln!("{text}");
}

fn render(prop: &str, out: &Outcome, missing: &[String], wall: f64) -> String {
    let mut s = String::from("{");
    s.push_str(&format!("\"property\":{},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3}", jesc(prop), out.cov.cases, out.cov.evals, out.cov.distinct.len(), wall));
    s.push_str(",\"strata\":{");
    s.push_str(&out.strata.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"counters\":{");
    s.push_str(&out.cov.counters.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"worst\":{");
    s.push_str(&out.cov.worst.iter().map(|(k, v)| format!("{}:{:.4}", jesc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&out.cov.samples.iter().map(|k| jesc(k)).collect::<Vec<_>>().join(","));
    s.push_str("],\"violations\":[");
    s.push_str(&out.violations.iter().map(|v| format!("{{\"stratum\":{},\"idx\":{},\"msg\":{}}}", jesc(&v.stratum), v.idx, jesc(&v.msg))).collect::<Vec<_>>().join(","));
    s.push_str("],\"internal\":[");
    s.push_str(&out.internal.iter().map(|k| jesc(k)).collect::<Vec<_>>().join(","));
    s.push_str("],\"missing\":[");
    s.push_str(&missing.iter().map(|k| jesc(k)).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    s
}

fn hang(prop: &str, v: Violation) -> ! {
    let mut o = Outcome::default();
    o.violations.push(v);
    write_out(&render(prop, &o, &[], 0.0));
    unsafe { libc::_exit(1) }
}

struct Opts {
    pos: Vec<String>,
    seed: u64,
    thorough: bool,
    threads: usize,
    scale: f64,
    max_cases: u64,
    only: Option<String>,
    floors: bool,
}

fn parse() -> Opts {
    let mut o = Opts { pos: vec![], seed: 1, thorough: false, threads: 8, scale: 1.0, max_cases: u64::MAX, only: None, floors: true };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match a.as_str() {
            "--seed" => o.seed = val().parse().unwrap_or(1),
            "--tier" => o.thorough = val() == "thorough",
            "--threads" => o.threads = val().parse().unwrap_or(8),
            "--scale" => o.scale = val().parse().unwrap_or(1.0),
            "--max-cases" => o.max_cases = val().parse().unwrap_or(u64::MAX),
            "--only" => o.only = Some(val()),
            "--no-floors" => o.floors = false,
            "--out" => {
                let _ = OUT.set(val());
            }
            _ => o.pos.push(a),
        }
    }
    o
}

fn main() {
    let o = parse();
    install_panic_hook();
    let mode = o.pos.first().cloned().unwrap_or_default();
    let arg = o.pos.get(1).cloned().unwrap_or_default();
    let code = match mode.as_str() {
        "run" => {
            let Some((id, strata)) = props::table(&arg) else {
                eprintln!("unknown property {arg}");
                std::process::exit(2);
            };
            let t0 = std::time::Instant::now();
            let cfg = RunCfg { seed: o.seed, thorough: o.thorough, threads: o.threads, scale: o.scale, max_cases: o.max_cases, only: o.only.clone() };
            let out = run_prop(id, strata, &cfg, hang);
            let mut missing = Vec::new();
            if o.floors && o.only.is_none() && out.violations.is_empty() {
                for st in strata {
                    for n in st.need {
                        if !out.cov.counters.contains_key(*n) {
                            missing.push(format!("{}:{}", st.name, n));
                        }
                    }
                }
                if out.cov.evals == 0 || out.cov.distinct.is_empty() {
                    missing.push("nothing observed".into());
                }
            }
            write_out(&render(id, &out, &missing, t0.elapsed().as_secs_f64()));
            if !out.violations.is_empty() {
                1
            } else if !out.internal.is_empty() || !missing.is_empty() {
                2
            } else {
                0
            }
        }
        "replay" => {
            // replay <prop> <stratum> <idx>
            let Some((id, strata)) = props::table(&arg) else { std::process::exit(2) };
            let sname = o.pos.get(2).cloned().unwrap_or_default();
            let idx: u64 = o.pos.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            let Some(st) = strata.iter().find(|s| s.name == sname) else { std::process::exit(2) };
            let mut cov = Cov::default();
            match run_case(o.seed, id, st, idx, o.thorough, &mut cov, true) {
                CaseEnd::Ok => {
                    eprintln!("case passes");
                    0
                }
                CaseEnd::Violation(m) => {
                    eprintln!("violation: {m}");
                    1
                }
                CaseEnd::Internal(m) => {
                    eprintln!("harness error: {m}");
                    2
                }
            }
        }
        "digest" => {
            // digest <number of programs>
            let n: u64 = arg.parse().unwrap_or(1000);
            write_out(&props::det::digests(o.seed, n));
            0
        }
        "digest-trace" => {
            write_out(&props::det::trace(o.seed, arg.parse().unwrap_or(0)));
            0
        }
        #[cfg(feature = "std")]
        "print-child" => props::misc::print_child(arg.parse().unwrap_or(0)),
        "probe" => {
            let (code, text) = probe::run(&arg);
            write_out(&text);
            code
        }
        _ => {
            eprintln!("usage: vmon run|replay|digest|probe ...");
            2
        }
    };
    std::process::exit(code);
}
