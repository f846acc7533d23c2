mod exec;
mod expr;
mod wasm;
mod z3;

use exec::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct JobSpec {
    line: usize,
    entry: String,
    params: Vec<i64>,
    split: (u32, u32),
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut wasm_path = String::new();
    let mut jobs_path = String::new();
    let mut out_path = String::new();
    let mut threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let mut secs = 600.0f64;
    let mut job_secs = 1e9f64;
    let mut warm = "vs_warm".to_string();
    let mut profile = false;
    let mut seed = 1u64;
    let mut samples = 2usize;
    let mut max_mem = 96usize << 20;
    let mut max_viol = 3usize;
    let mut stop_viol = 8usize;
    while let Some(a) = args.next() {
        let mut n = || args.next().unwrap();
        match a.as_str() {
            "--wasm" => wasm_path = n(),
            "--jobs" => jobs_path = n(),
            "--out" => out_path = n(),
            "--threads" => threads = n().parse().unwrap(),
            "--secs" => secs = n().parse().unwrap(),
            "--job-secs" => job_secs = n().parse().unwrap(),
            "--warm" => warm = n(),
            "--profile" => profile = true,
            "--seed" => seed = n().parse().unwrap(),
            "--samples" => samples = n().parse().unwrap(),
            "--max-mem" => max_mem = n().parse::<usize>().unwrap() << 20,
            "--max-viol" => max_viol = n().parse().unwrap(),
            "--stop-viol" => stop_viol = n().parse().unwrap(),
            x => panic!("unknown option {x}"),
        }
    }
    let t0 = Instant::now();
    let bytes = std::fs::read(&wasm_path).expect("wasm file");
    let m = match wasm::parse(&bytes) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("symw: cannot translate {wasm_path}: {e}");
            std::process::exit(2);
        }
    };
    let t_parse = t0.elapsed().as_secs_f64();
    let jobs_txt = std::fs::read_to_string(&jobs_path).expect("jobs file");
    let mut specs = vec![];
    let mut nlines = 0;
    for (line, l) in jobs_txt.lines().enumerate() {
        let mut it = l.split_whitespace();
        let Some(entry) = it.next() else { continue };
        if entry.starts_with('#') {
            continue;
        }
        nlines = line + 1;
        let split: u32 = it.next().unwrap().parse().unwrap();
        let params: Vec<i64> = it.next().map(|p| p.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        for i in 0..split {
            specs.push(JobSpec { line, entry: entry.into(), params: params.clone(), split: (i, split) });
        }
    }
    let total = specs.len();
    let queue = Arc::new(Mutex::new(specs.into_iter().rev().collect::<Vec<_>>()));
    let results: Arc<Mutex<Vec<(JobSpec, JobResult)>>> = Default::default();
    let used: Arc<Mutex<(HashSet<u32>, HashSet<u32>)>> = Default::default();
    let warm_err: Arc<Mutex<Option<String>>> = Default::default();
    let warm_info: Arc<Mutex<f64>> = Default::default();
    let warm_failed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let nviol = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let deadline = t0 + Duration::from_secs_f64(secs);
    let mut hs = vec![];
    for _ in 0..threads.min(total.max(1)) {
        let (m, queue, results, used, warm_err, warm, nviol, warm_info, warm_failed) =
            (m.clone(), queue.clone(), results.clone(), used.clone(), warm_err.clone(), warm.clone(), nviol.clone(), warm_info.clone(), warm_failed.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let tw = Instant::now();
                    let m2 = m.clone();
                    let mut vm = Vm::new(m, max_mem);
                    if let Err(e) = vm.warm_up(&warm) {
                        // the code fails on the warm-up's inputs: run the warm-up as a job, and the others cold
                        eprintln!("symw: warm-up failed: {e}");
                        vm = Vm::new(m2, max_mem);
                        if let Err(e) = vm.warm_up("vs_init") {
                            *warm_err.lock().unwrap() = Some(e);
                            return;
                        }
                        if !warm_failed.swap(true, std::sync::atomic::Ordering::SeqCst) {
                            queue.lock().unwrap().push(JobSpec { line: total, entry: "h_vs_warm".into(), params: vec![0], split: (0, 1) });
                        }
                    }
                    *warm_info.lock().unwrap() = tw.elapsed().as_secs_f64();
                    vm.profile = profile;
                    loop {
                        let Some(j) = queue.lock().unwrap().pop() else { break };
                        if Instant::now() > deadline || nviol.load(std::sync::atomic::Ordering::Relaxed) >= stop_viol {
                            queue.lock().unwrap().push(j);
                            break;
                        }
                        let lim = Limits { deadline, job_secs, path_instrs: 4_000_000_000, max_viol, samples, seed, max_concretise: 0 };
                        let job = Job { entry: j.entry.clone(), params: j.params.clone(), split: j.split };
                        let r = vm.run_job(&job, lim);
                        nviol.fetch_add(r.violations.len(), std::sync::atomic::Ordering::Relaxed);
                        if profile {
                            eprintln!(
                                "job {} {:?} {:?}: paths {} assumed {} forks {} instrs {} queries {} memo {} solver {:.2}s time {:.2}s viol {} err {:?} conc {}",
                                j.entry, j.params, j.split, r.paths, r.assumed_away, r.forks, r.instrs, r.solver_queries, r.memo_hits, r.solver_time, r.secs, r.violations.len(), r.errors, r.concretised
                            );
                            let mut fs: Vec<_> = r.fork_sites.iter().collect();
                            fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
                            for ((f, pc), n) in fs.into_iter().take(25) {
                                eprintln!("   {n:8} forks {}@{pc}", vm.func_name(*f));
                            }
                        }
                        results.lock().unwrap().push((j, r));
                    }
                    let (a, b) = vm.used_sets();
                    let mut u = used.lock().unwrap();
                    u.0.extend(a);
                    u.1.extend(b);
                })
                .unwrap(),
        );
    }
    let mut crashed = false;
    for h in hs {
        if h.join().is_err() {
            crashed = true;
        }
    }
    if let Some(e) = warm_err.lock().unwrap().as_ref() {
        eprintln!("symw: warm-up failed: {e}");
        std::process::exit(2);
    }
    if crashed {
        eprintln!("symw: internal error (worker panicked)");
        std::process::exit(2);
    }
    let res = results.lock().unwrap();
    let left = queue.lock().unwrap().len();
    // aggregate
    let mut o = String::from("{\n");
    let sum = |f: &dyn Fn(&JobResult) -> u64| res.iter().map(|(_, r)| f(r)).sum::<u64>();
    let put = |o: &mut String, k: &str, v: String| {
        o.push_str(&format!("\"{k}\": {v},\n"));
    };
    put(&mut o, "jobs", total.to_string());
    put(&mut o, "job_lines", nlines.to_string());
    put(&mut o, "jobs_not_started", left.to_string());
    put(&mut o, "jobs_exhausted", res.iter().filter(|(_, r)| r.exhausted).count().to_string());
    put(&mut o, "paths", sum(&|r| r.paths).to_string());
    put(&mut o, "assumed_away", sum(&|r| r.assumed_away).to_string());
    put(&mut o, "forks", sum(&|r| r.forks).to_string());
    put(&mut o, "instrs", sum(&|r| r.instrs).to_string());
    put(&mut o, "checks", sum(&|r| r.checks).to_string());
    put(&mut o, "queries", sum(&|r| r.solver_queries).to_string());
    put(&mut o, "sat", sum(&|r| r.solver_sat).to_string());
    put(&mut o, "unsat", sum(&|r| r.solver_unsat).to_string());
    put(&mut o, "unknown", sum(&|r| r.unknown).to_string());
    put(&mut o, "memo_hits", sum(&|r| r.memo_hits).to_string());
    put(&mut o, "solver_seconds", format!("{:.3}", res.iter().map(|(_, r)| r.solver_time).sum::<f64>()));
    put(&mut o, "max_symbolic_bytes", res.iter().map(|(_, r)| r.max_vars).max().unwrap_or(0).to_string());
    put(&mut o, "wall", format!("{:.3}", t0.elapsed().as_secs_f64()));
    put(&mut o, "translate_seconds", format!("{t_parse:.3}"));
    put(&mut o, "warm_seconds", format!("{:.3}", warm_info.lock().unwrap()));
    put(&mut o, "z3", jstr(&z3::version()));
    let mut reach: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, usize, Vec<i64>, String, Vec<u8>)> = BTreeMap::new();
    let mut errors = vec![];
    let mut viol = vec![];
    let mut samp = vec![];
    for (j, r) in res.iter() {
        for (k, n) in &r.reach {
            *reach.entry(k.clone()).or_default() += n;
        }
        for (k, (n, m)) in &r.known {
            let e = known.entry(k.clone()).or_insert((0, j.line, j.params.clone(), j.entry.clone(), m.clone()));
            e.0 += n;
        }
        for e in &r.errors {
            errors.push(format!("{{\"job\": {}, \"params\": {:?}, \"entry\": {}, \"error\": {}}}", j.line, j.params, jstr(&j.entry), jstr(e)));
        }
        for v in &r.violations {
            viol.push(format!(
                "{{\"job\": {}, \"entry\": {}, \"params\": {:?}, \"id\": {}, \"detail\": {}, \"model\": \"{}\"}}",
                j.line, jstr(&j.entry), j.params, jstr(&v.id), jstr(&v.detail), hex(&v.model)
            ));
        }
        for s in &r.samples {
            samp.push(format!(
                "{{\"job\": {}, \"entry\": {}, \"params\": {:?}, \"model\": \"{}\", \"outs\": \"{}\", \"checks\": {}}}",
                j.line, jstr(&j.entry), j.params, hex(&s.model), hex(&s.outs), s.checks
            ));
        }
    }
    put(&mut o, "reach", format!("{{{}}}", reach.iter().map(|(k, n)| format!("{}: {n}", jstr(k))).collect::<Vec<_>>().join(", ")));
    put(
        &mut o,
        "known",
        format!(
            "{{{}}}",
            known
                .iter()
                .map(|(k, (n, l, p, e, m))| format!("{}: {{\"count\": {n}, \"job\": {l}, \"entry\": {}, \"params\": {p:?}, \"model\": \"{}\"}}", jstr(k), jstr(e), hex(m)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
    );
    put(&mut o, "errors", format!("[{}]", errors.join(",\n")));
    put(&mut o, "violations", format!("[{}]", viol.join(",\n")));
    put(&mut o, "samples", format!("[{}]", samp.join(",\n")));
    let not_ex: Vec<String> = res
        .iter()
        .filter(|(_, r)| !r.exhausted)
        .map(|(j, r)| format!("{{\"job\": {}, \"entry\": {}, \"params\": {:?}, \"split\": [{}, {}], \"paths\": {}}}", j.line, jstr(&j.entry), j.params, j.split.0, j.split.1, r.paths))
        .collect();
    put(&mut o, "not_exhausted", format!("[{}]", not_ex.join(",\n")));
    let slow: Vec<String> = {
        let mut v: Vec<_> = res.iter().collect();
        v.sort_by(|a, b| b.1.secs.partial_cmp(&a.1.secs).unwrap());
        v.iter()
            .take(10)
            .map(|(j, r)| format!("{{\"entry\": {}, \"params\": {:?}, \"split\": [{}, {}], \"paths\": {}, \"secs\": {:.2}}}", jstr(&j.entry), j.params, j.split.0, j.split.1, r.paths, r.secs))
            .collect()
    };
    put(&mut o, "slowest", format!("[{}]", slow.join(",\n")));
    let u = used.lock().unwrap();
    let mut f1: Vec<&str> = u.0.iter().map(|&i| m.funcs[i as usize].name.as_str()).collect();
    f1.sort();
    let mut f2: Vec<&str> = u.1.iter().map(|&i| m.funcs[i as usize].name.as_str()).collect();
    f2.sort();
    put(&mut o, "functions_executed", format!("[{}]", f1.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions_symbolic\": [{}]\n}}\n", f2.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    std::fs::write(&out_path, o).expect("write output");
}
