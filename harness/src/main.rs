mod adv;
mod asy;
mod check;
mod evid;
mod ext;
mod fuzz;
mod gen;
mod light;
mod mistake;
mod oracle;
mod scen;
mod sid;
mod sim;
mod sp;
mod spec;
mod surgery;
mod ub;

/// The workloads other than the simulated executions.
pub const UNITS: &[(&str, check::Unit)] = &[("sid", sid::run), ("async", asy::run), ("evid", evid::run), ("fuzz", fuzz::run), ("ext", ext::run), ("mistake", mistake::run), ("ub", ub::run)];

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    check::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check::supervise(
            &args[2..],
            &args[2],
            &arg(&args, "--replays").unwrap_or("/verif/replays".into()),
        ),
        Some("check-inner") => {
            let prop = args[2].clone();
            let tier = arg(&args, "--tier").unwrap_or("quick".into());
            check::check(&check::Args {
                out: arg(&args, "--out").unwrap_or(format!("/verif/evidence/{prop}.json")),
                replays: arg(&args, "--replays").unwrap_or("/verif/replays".into()),
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                secs: arg(&args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(30),
                threads: arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(if prop == "C11" { 20 } else { 8 }),
                extra: arg(&args, "--extra")
                    .and_then(|p| std::fs::read_to_string(p).ok())
                    .and_then(|t| serde_json::from_str(&t).ok()),
                state: arg(&args, "--state"),
                prop,
                tier,
            })
        }
        Some("async-child") => {
            asy::child(args[2].parse().unwrap(), args[3].parse().unwrap(), args.get(4).is_some())
        }
        Some("soak") => check::soak(
            &args[2],
            args[3].parse().unwrap(),
            args[4].parse().unwrap(),
            arg(&args, "--max").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
            &arg(&args, "--state").unwrap_or("/dev/null".into()),
            &arg(&args, "--traces").unwrap_or_default(),
        ),
        Some("replay") => check::replay(&args[2]),
        Some("replay-inner") => check::replay_inner(&args[2]),
        Some("run") => debug_run(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => {
            eprintln!("usage: harness check <property> [options] | replay <file> | run <workload> <from> <count>");
            2
        }
    };
    std::process::exit(code);
}

fn debug_run(unit: &str, from: u64, n: u64) -> i32 {
    let mut total = sim::Mon::default();
    let mut shown = std::collections::BTreeMap::new();
    for seed in from..from + n {
        let o = match check::run_guarded(unit, seed, n == 1) {
            Ok(o) => o,
            Err(e) => {
                println!("seed {seed}: HARNESS PANIC {e}");
                continue;
            }
        };
        for t in &o.text {
            println!("{t}");
        }
        for (p, t) in &o.mon.viol {
            let k = shown.entry(p.clone()).or_insert(0);
            *k += 1;
            if *k <= 5 || n == 1 {
                println!("seed {seed}: {p}: {t}");
            }
        }
        total.merge(o.mon);
    }
    println!("{:#?}", total.stats);
    println!("{shown:?}");
    (!shown.is_empty()) as i32
}
