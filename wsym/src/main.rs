mod expr;
mod interp;
mod ir;
mod solver;

use interp::*;
use std::sync::atomic::Ordering::Relaxed;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
}
fn args_all(args: &[String], name: &str) -> Vec<String> {
    args.iter().enumerate().filter(|(_, a)| *a == name).map(|(i, _)| args[i + 1].clone()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(args)).unwrap().join().unwrap();
}

fn real(args: Vec<String>) {
    let wasm = arg(&args, "--module").expect("--module");
    let entry = arg(&args, "--entry").expect("--entry");
    let out = arg(&args, "--out").expect("--out");
    let params: Vec<u64> = arg(&args, "--params").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let timeout: u64 = arg(&args, "--timeout").map(|s| s.parse().unwrap()).unwrap_or(600);
    let procs: i64 = arg(&args, "--procs").map(|s| s.parse().unwrap()).unwrap_or(8);
    let max_instrs: u64 = arg(&args, "--max-instrs").map(|s| s.parse().unwrap()).unwrap_or(2_000_000_000);
    let max_samples: u64 = arg(&args, "--samples").map(|s| s.parse().unwrap()).unwrap_or(40);
    let max_fails: u64 = arg(&args, "--max-fails").map(|s| s.parse().unwrap()).unwrap_or(1);
    let rlimit: u32 = arg(&args, "--rlimit").map(|s| s.parse().unwrap()).unwrap_or(400_000_000);
    let seed: u64 = arg(&args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let verbose = args.iter().any(|a| a == "--verbose");

    let t0 = std::time::Instant::now();
    let bytes = std::fs::read(&wasm).expect("read module");
    let m = ir::load(&bytes);
    let load_s = t0.elapsed().as_secs_f64();
    let Some(&e) = m.exports.get(&entry) else {
        eprintln!("wsym: no export {entry}");
        std::process::exit(3);
    };
    let sh: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>() + m.funcs.len(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let cov = unsafe { (sh as *const Shared).add(1) as *mut u8 };
    sh.slots.store(procs - 1, Relaxed);
    sh.nprocs.store(1, Relaxed);
    let events = format!("{out}.events");
    let _ = std::fs::remove_file(&events);
    let cfg = Cfg {
        params,
        max_instrs,
        deadline: t0 + std::time::Duration::from_secs(timeout),
        known: args_all(&args, "--known"),
        max_samples,
        out: std::fs::OpenOptions::new().create(true).append(true).open(&events).unwrap(),
        verbose,
        max_fails,
        seed,
    };
    let mut solver = solver::Solver::new(rlimit);
    if let Some(d) = arg(&args, "--dump") {
        solver.dump = Some(std::fs::OpenOptions::new().create(true).append(true).open(d).unwrap());
    }
    solver.slow = arg(&args, "--slow").map(|s| s.parse().unwrap()).unwrap_or(0);
    let pid = std::process::id();
    let mut ex = Exec::new(&m, sh, cov, cfg, solver);
    ex.start(e);
    ex.explore();
    // every process waits for the ones it started
    for c in ex.children.clone() {
        unsafe {
            let mut st = 0;
            let r = libc::waitpid(c, &mut st, 0);
            if r == c && !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                eprintln!("wsym: worker {c} died (status {st:#x})");
                sh.incomplete.fetch_add(1, Relaxed);
            }
        }
    }
    if std::process::id() != pid {
        unsafe { libc::_exit(0) };
    }
    let mut funcs: Vec<String> = vec![];
    let mut icode = 0usize;
    for (i, f) in m.funcs.iter().enumerate() {
        if unsafe { *cov.add(i) } != 0 {
            funcs.push(format!("{:#}", rustc_demangle::demangle(&f.name)));
            icode += f.code.len();
        }
    }
    funcs.sort();
    funcs.dedup();
    let g = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    let reach: Vec<String> = sh.reach.iter().enumerate().filter(|(_, a)| g(a) > 0).map(|(i, a)| format!("\"{}\":{}", i, g(a))).collect();
    let vars: Vec<String> = ex.vars.groups.iter().map(|(n, _, l)| format!("[\"{}\",{}]", esc(n), l)).collect();
    let fl: Vec<String> = funcs.iter().map(|f| format!("\"{}\"", esc(f))).collect();
    let json = format!(
        "{{\"entry\":\"{}\",\"paths_ok\":{},\"paths_fail\":{},\"paths_assumed\":{},\"incomplete\":{},\"instructions\":{},\"branches\":{},\"forks\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"domain_steps\":{},\"max_depth\":{},\"max_nodes\":{},\"processes\":{},\"stopped\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"z3\":\"{}\",\"reach\":{{{}}},\"vars\":[{}],\"code_executed\":{},\"functions\":[{}]}}\n",
        esc(&entry),
        g(&sh.paths_ok),
        g(&sh.paths_fail),
        g(&sh.paths_assumed),
        g(&sh.incomplete),
        g(&sh.instrs),
        g(&sh.branches),
        g(&sh.forks),
        g(&sh.queries),
        g(&sh.cache_hits),
        g(&sh.sat),
        g(&sh.unsat),
        g(&sh.solver_ns) as f64 / 1e9,
        g(&sh.certs),
        g(&sh.maxdepth),
        g(&sh.maxnodes),
        g(&sh.nprocs),
        g(&sh.stop),
        load_s,
        t0.elapsed().as_secs_f64(),
        solver::version(),
        reach.join(","),
        vars.join(","),
        icode,
        fl.join(",")
    );
    std::fs::write(&out, json).unwrap();
    // skip destructors of the large state
    unsafe { libc::_exit(0) };
}
