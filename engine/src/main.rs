mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod selftest;
mod solver;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn path_json(names: &HashMap<u32, String>, r: &PathRec) -> String {
    let inp: Vec<String> = r.inputs.iter().map(|(_, l)| js(l)).collect();
    let obs: Vec<String> = r.obs.iter().map(|(n, v)| format!("[{},{}]", js(n), js(&hex(v)))).collect();
    format!(
        "{{\"entry\":{},\"inputs\":[{}],\"obs\":[{}],\"outcome\":{}}}",
        js(&names[&r.entry]),
        inp.join(","),
        obs.join(","),
        js(&r.outcome)
    )
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("selftest") {
        selftest::run(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(20000));
        return;
    }
    let mut bc = String::new();
    let mut entries = vec![];
    let mut out = String::new();
    let mut time = 300u64;
    let mut steps = 300_000_000u64;
    let mut tier = 0u64;
    let mut jobs = 8usize;
    let mut seed = 1u64;
    let mut samples = 8usize;
    let mut verbose = false;
    let mut solver_to = 60_000u32;
    let mut max_viol = 3;
    let mut stop = false;
    let mut arena = 6_000_000usize;
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--bc" => bc = next(),
            "--entry" => entries.push(next()),
            "--out" => out = next(),
            "--time" => time = next().parse().unwrap(),
            "--steps" => steps = next().parse().unwrap(),
            "--tier" => tier = next().parse().unwrap(),
            "--jobs" => jobs = next().parse().unwrap(),
            "--seed" => seed = next().parse().unwrap(),
            "--samples" => samples = next().parse().unwrap(),
            "--solver-timeout" => solver_to = next().parse().unwrap(),
            "--max-viol" => max_viol = next().parse().unwrap(),
            "--arena" => arena = next().parse().unwrap(),
            "--stop-on-violation" => stop = true,
            "-v" => verbose = true,
            _ => panic!("bad argument {a}"),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = llvm::load(&bc);
    let t1 = Instant::now();
    if let Err(e) = llvm::optimise(m, &entries) {
        eprintln!("sx: {e}");
        std::process::exit(3);
    }
    if let Ok(p) = std::env::var("SX_WRITE_BC") {
        let c = llvm::cs(&p);
        unsafe { llvm::LLVMWriteBitcodeToFile(m, c.as_ptr()) };
    }
    let t2 = Instant::now();
    let module = ir::Module::new(m, &entries);
    let t3 = Instant::now();
    if verbose {
        eprintln!(
            "load {:?} opt {:?} globals {:?} ({} bytes, {} functions); z3 {}",
            t1 - t0,
            t2 - t1,
            t3 - t2,
            module.image.len(),
            module.fnames.len(),
            solver::z3_version()
        );
    }
    let mut queue = vec![];
    let mut names = HashMap::new();
    for e in entries.iter().rev() {
        let id = module.entry[e];
        names.insert(id, e.clone());
        queue.push(Job { entry: id, tokens: vec![], model: vec![] });
    }
    let start = Instant::now();
    let sh = Arc::new(Shared {
        module: module.clone(),
        queue: Mutex::new(queue),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        want: AtomicUsize::new(0),
        active: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        nworkers: jobs,
        results: Mutex::new(Results::default()),
        cfg: Config {
            step_limit: steps,
            tier,
            solver_timeout_ms: solver_to,
            deadline: start + Duration::from_secs(time),
            samples_per_entry: samples,
            seed,
            verbose,
            max_viol,
            stop_on_violation: stop,
            arena_limit: arena,
        },
        cache: solver::Cache::new(),
        paths: AtomicU64::new(0),
    });
    let hs: Vec<_> = (0..jobs)
        .map(|k| {
            let sh = sh.clone();
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn(move || {
                    let mut w = Worker::new(sh, k as u64);
                    w.run();
                    std::mem::forget(w);
                })
                .unwrap()
        })
        .collect();
    if verbose {
        let sh = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(10));
            eprintln!(
                "[{:?}] paths {} queue {} active {}",
                start.elapsed(),
                sh.paths.load(Ordering::Relaxed),
                sh.queue.lock().unwrap().len(),
                sh.active.load(Ordering::Relaxed)
            );
        });
    }
    let mut crashed = false;
    for h in hs {
        if h.join().is_err() {
            crashed = true;
        }
    }
    let r = sh.results.lock().unwrap().clone();
    let timed_out = sh.timed_out.load(Ordering::Relaxed);
    let mut o = String::new();
    let mut viols = vec![];
    for ((e, l), v) in &r.violations {
        let ps: Vec<String> = v.iter().take(max_viol).map(|p| path_json(&names, p)).collect();
        viols.push(format!(
            "{{\"entry\":{},\"label\":{},\"models\":[{}]}}",
            js(&names[e]),
            js(l),
            ps.join(",")
        ));
    }
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let samples: Vec<String> = r.samples.iter().map(|p| path_json(&names, p)).collect();
    let rm: Vec<String> =
        r.reach_models.iter().map(|(k, p)| format!("{}:{}", js(k), path_json(&names, p))).collect();
    let ep: Vec<String> = r.entry_paths.iter().map(|(k, v)| format!("{}:{}", js(&names[k]), v)).collect();
    let funcs: Vec<String> = r
        .funcs
        .iter()
        .enumerate()
        .filter(|(_, x)| **x)
        .map(|(i, _)| js(&module.fnames[i]))
        .collect();
    let _ = write!(
        o,
        "{{\"complete\":{},\"timed_out\":{},\"crashed\":{},\"paths\":{},\"assume_fail\":{},\"panics\":{},\"step_limit\":{},\"errors\":{},\"violations\":[{}],\"samples\":[{}],\"reach\":{},\"reach_models\":{{{}}},\"checks\":{},\"checks_solver\":{},\"checks_trivial\":{},\"check_labels\":{},\"entry_paths\":{{{}}},\"instructions\":{},\"forks\":{},\"max_forks\":{},\"solver\":{{\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"seconds\":{:.3},\"max_ms\":{:.1}}},\"expr_nodes\":{},\"arena_resets\":{},\"wall_s\":{:.2},\"z3\":{},\"functions\":[{}]}}",
        !timed_out && !crashed && r.errors.is_empty(),
        timed_out,
        crashed,
        r.paths,
        r.assume_fail,
        r.panics,
        r.step_limit,
        map(&r.errors),
        viols.join(","),
        samples.join(","),
        map(&r.reach),
        rm.join(","),
        r.checks,
        r.checks_solver,
        r.checks_trivial,
        map(&r.check_labels),
        ep.join(","),
        r.instrs,
        r.forks,
        r.max_forks,
        r.solver.queries,
        r.solver.cache_hits,
        r.solver.sat,
        r.solver.unsat,
        r.solver.unknown,
        r.solver.time_us as f64 / 1e6,
        r.solver.max_us as f64 / 1e3,
        r.nodes,
        r.resets,
        start.elapsed().as_secs_f64(),
        js(&solver::z3_version()),
        funcs.join(",")
    );
    if out.is_empty() {
        println!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
    if verbose {
        eprintln!(
            "paths {} (assume-fail {}, panics {}), instrs {}, forks {}, checks {} (solver {}), errors {:?}, violations {:?}, solver {:?}, nodes {} resets {} wall {:?} timed_out {timed_out}",
            r.paths, r.assume_fail, r.panics, r.instrs, r.forks, r.checks, r.checks_solver, r.errors,
            r.violations.keys().collect::<Vec<_>>(), r.solver, r.nodes, r.resets, start.elapsed()
        );
        eprintln!("reach {:?}", r.reach);
        eprintln!("entry paths {}", ep.join(" "));
        let mut fs: Vec<_> = r.fork_sites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, v) in fs.iter().take(30) {
            eprintln!("  forks {v} in {k}");
        }
    }
    let _ = std::io::Write::flush(&mut std::io::stdout());
    unsafe {
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        _exit(if crashed { 4 } else { 0 });
    }
}
