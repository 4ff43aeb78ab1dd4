mod expr;
mod interp;
mod ir;
mod mem;
mod shared;
mod z3;

use interp::*;
use shared::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    t.join().unwrap();
}

fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "--version" {
        println!("{}", z3::version());
        return;
    }
    let ll = arg(&args, "--ll", "");
    let harness = arg(&args, "--harness", "");
    let out = arg(&args, "--out", "/dev/null");
    let secs: u64 = arg(&args, "--secs", "60").parse().unwrap();
    let procs: i64 = arg(&args, "--procs", "8").parse().unwrap();
    let max_steps: u64 = arg(&args, "--max-steps", "200000000").parse().unwrap();
    let max_samples: u64 = arg(&args, "--samples", "200").parse().unwrap();
    let max_viol: u64 = arg(&args, "--max-viol", "8").parse().unwrap();
    let rlimit: u32 = arg(&args, "--rlimit", "200000000").parse().unwrap();
    // Once something was found the rest of the exploration gets this long.
    let grace: u64 = arg(&args, "--grace", "1000000").parse().unwrap();
    let dump = arg(&args, "--dump-smt", "");
    let start = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("read .ll");
    let m = match ir::Module::load(src) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"harness\":\"{}\",\"fatal\":\"IR: {}\"}}", harness, e.replace('"', "'"));
            std::process::exit(2);
        }
    };
    let load_ms = start.elapsed().as_millis();
    let f = match m.fmap.get(&harness) {
        Some(&f) => f,
        None => {
            println!("{{\"harness\":\"{}\",\"fatal\":\"no such harness\"}}", harness);
            std::process::exit(2);
        }
    };
    let sh = Shared::new();
    let cfg = Config {
        max_steps,
        max_procs: procs,
        deadline: start + Duration::from_secs(secs),
        out: out.clone(),
        rlimit,
        max_samples,
        max_viol,
        dump_smt: if dump.is_empty() { None } else { Some(dump) },
    };
    let names: Vec<String> = m.funcs.iter().map(|f| f.name.clone()).collect();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(format!("{}.cover", out));
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    sh.active.store(1, SeqCst);
    Shared::add(&sh.started, 1);
    let mut ex = Exec::new(m, sh, cfg, harness.clone());
    let mut hard = ex.cfg.deadline + Duration::from_secs(10);
    let mut found = false;
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { setpgid(0, 0) };
        ex.run(f);
    }
    unsafe { setpgid(pid, pid) };
    let mut killed = false;
    // supervise: every orphan is re-parented to this process
    let mut abnormal = 0;
    loop {
        let mut st = 0;
        let r = unsafe { waitpid(-1, &mut st, 1) }; // WNOHANG
        if r < 0 {
            break;
        }
        if r == 0 {
            if !found && sh.viol_written.load(SeqCst) > 0 {
                found = true;
                hard = hard.min(Instant::now() + Duration::from_secs(grace));
            }
            if !killed && Instant::now() > hard {
                killed = true;
                sh.timeout.store(1, SeqCst);
                unsafe { kill(-pid, 9) };
            }
            std::thread::sleep(Duration::from_millis(3));
            continue;
        }
        if st != 0 && !killed {
            abnormal += 1;
        }
    }
    let l = |c: &std::sync::atomic::AtomicU64| c.load(SeqCst);
    let mut funcs = vec![];
    for i in 0..names.len().min(MAXF) {
        if sh.funcs[i / 64].load(SeqCst) >> (i % 64) & 1 == 1 {
            funcs.push(format!("\"{}\"", names[i]));
        }
    }
    let lost = l(&sh.started) - l(&sh.finished).min(l(&sh.started));
    println!(
        "{{\"harness\":\"{}\",\"paths_ok\":{},\"paths_assume\":{},\"paths_panic_ok\":{},\"violations\":{},\"incomplete\":{},\"errors\":{},\"timeout\":{},\"forks\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_domain\":{},\"solver_ms\":{},\"instrs\":{},\"asserts_concrete\":{},\"asserts_solver\":{},\"max_steps\":{},\"sym_vars\":{},\"lost\":{},\"load_ms\":{},\"wall_ms\":{},\"z3\":\"{}\",\"funcs\":[{}]}}",
        harness,
        l(&sh.paths_ok),
        l(&sh.paths_assume),
        l(&sh.paths_panic_ok),
        l(&sh.paths_violation),
        l(&sh.paths_incomplete),
        l(&sh.errors) + abnormal,
        l(&sh.timeout),
        l(&sh.forks),
        l(&sh.q_sat),
        l(&sh.q_unsat),
        l(&sh.q_unknown),
        l(&sh.q_domain),
        l(&sh.q_ns) / 1_000_000,
        l(&sh.instrs),
        l(&sh.asserts_concrete),
        l(&sh.asserts_solver),
        l(&sh.max_steps),
        l(&sh.sym_vars),
        lost,
        load_ms,
        start.elapsed().as_millis(),
        z3::version(),
        funcs.join(",")
    );
}
