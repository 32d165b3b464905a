mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod solver;

use exec::*;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jpairs(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(n, b)| format!("[{},\"{}\"]", jstr(n), hex(b))).collect();
    format!("[{}]", p.join(","))
}

fn to_json(en: &Engine) -> String {
    let r = &en.res;
    let s = &en.sv.stats;
    let viols: Vec<String> = r
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"model\":{}}}",
                jstr(&v.kind),
                jstr(&v.msg),
                v.stack.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                jpairs(&v.model)
            )
        })
        .collect();
    let samples: Vec<String> = r.samples.iter().map(|v| format!("{{\"model\":{},\"obs\":{}}}", jpairs(&v.model), jpairs(&v.obs))).collect();
    let mut fns: Vec<String> = vec![];
    for f in r.fns.iter() {
        let e = &en.md.fns[*f as usize];
        fns.push(jstr(&e.name));
        if let Some(b) = e.body {
            fns.extend(b.inlined.iter().map(|n| jstr(n)));
        }
    }
    fns.sort();
    fns.dedup();
    let mut reached: Vec<String> = r.reached.iter().map(|x| jstr(x)).collect();
    reached.sort();
    let inc: Vec<String> = r.incomplete.iter().map(|x| jstr(x)).collect();
    format!(
        "{{\"paths\":{},\"infeasible\":{},\"forks\":{},\"decisions\":{},\"steps\":{},\"maxdepth\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"lia\":{},\"finite\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"violations\":[{}],\"samples\":[{}],\"reached\":[{}],\"incomplete\":[{}],\"functions\":[{}]}}",
        r.paths, r.infeasible, r.forks, r.decisions, r.steps, r.maxdepth, s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.lia, s.finite,
        s.time.as_secs_f64(), s.max_time.as_secs_f64(), viols.join(","), samples.join(","), reached.join(","), inc.join(","), fns.join(",")
    )
}

fn main() {
    // deep recursion on expressions needs a large stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut bc = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 600.0f64;
    let mut solver_ms = 60_000u32;
    let mut workers = 1u32;
    let mut max_steps = 400_000_000u64;
    let mut max_viol = 6usize;
    let mut samples = 3usize;
    let mut seed = 1u64;
    let mut verbose = false;
    let mut dump = None;
    let mut i = 1;
    while i < args.len() {
        let k = args[i].as_str();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match k {
            "--bc" => bc = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--timeout" => timeout = v.parse().unwrap(),
            "--solver-ms" => solver_ms = v.parse().unwrap(),
            "--workers" => workers = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--max-viol" => max_viol = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--verbose" => {
                verbose = true;
                i += 1;
                continue;
            }
            _ => {
                eprintln!("unknown option {}", k);
                unsafe { _exit(2) }
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    llvm::open(env!("LLVM_LIB"));
    let md = ir::Module::load(&bc);
    if verbose {
        eprintln!("loaded in {:?}: {} functions, {} globals", t0.elapsed(), md.fns.len(), md.globals.len());
    }
    let fid = match md.fn_by_name.get(&entry) {
        Some(f) => *f,
        None => {
            eprintln!("no function {}", entry);
            unsafe { _exit(2) }
        }
    };
    let mut sv = solver::Solver::new(solver_ms);
    sv.dump = dump;
    let cfg = Config { max_steps, deadline: t0 + Duration::from_secs_f64(timeout), max_viol, verbose, workers, max_samples: samples, seed };
    let mut en = Engine::new(md, sv, cfg);
    let s0 = en.initial(fid);
    en.work.push(s0);
    // shared counters: [active processes, violations found, part number]
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI32 };
    let at = |k: usize| unsafe { &*sh.add(k) };
    at(0).store(1, Ordering::SeqCst);
    let mut kids: Vec<i32> = vec![];
    let mut is_child = false;
    let mut last = Instant::now();
    let mut viols_seen = 0;
    while let Some(st) = en.work.pop() {
        if Instant::now() > en.cfg.deadline {
            en.res.incomplete.push(format!("limit: time ({} states left)", en.work.len() + 1));
            break;
        }
        if en.res.incomplete.len() >= 20 {
            break;
        }
        if at(1).load(Ordering::SeqCst) >= en.cfg.max_viol as i32 {
            en.res.incomplete.push("stopped after violations".into());
            break;
        }
        // hand half of the open states to a new process while there is an idle slot
        if en.cfg.workers > 1 && en.work.len() >= 3 && at(0).load(Ordering::SeqCst) < en.cfg.workers as i32 {
            let n = at(0).fetch_add(1, Ordering::SeqCst);
            if n < en.cfg.workers as i32 {
                let p = unsafe { fork() };
                let mut keep = false;
                let mut mine = vec![];
                let child = p == 0;
                for s in std::mem::take(&mut en.work) {
                    if keep != child {
                        mine.push(s);
                    }
                    keep = !keep;
                }
                en.work = mine;
                if child {
                    is_child = true;
                    kids.clear();
                    en.res = Results::default();
                    let d = en.sv.dumped;
                    en.sv.stats = Default::default();
                    en.sv.dumped = d;
                    viols_seen = 0;
                    continue; // `st` stays with the parent
                } else if p > 0 {
                    kids.push(p);
                } else {
                    at(0).fetch_sub(1, Ordering::SeqCst);
                }
            } else {
                at(0).fetch_sub(1, Ordering::SeqCst);
            }
        }
        en.finish(st);
        if en.res.viols.len() > viols_seen {
            at(1).fetch_add((en.res.viols.len() - viols_seen) as i32, Ordering::SeqCst);
            viols_seen = en.res.viols.len();
        }
        if verbose && last.elapsed() > Duration::from_secs(5) {
            last = Instant::now();
            eprintln!(
                "[{:.0}s] pid {} paths {} open {} forks {} steps {}M queries {} solver {:.1}s exprs {} viol {} inc {}",
                t0.elapsed().as_secs_f64(),
                std::process::id(),
                en.res.paths,
                en.work.len(),
                en.res.forks,
                en.res.steps / 1_000_000,
                en.sv.stats.queries,
                en.sv.stats.time.as_secs_f64(),
                en.ex.nodes.len(),
                en.res.viols.len(),
                en.res.incomplete.len()
            );
        }
    }
    at(0).fetch_sub(1, Ordering::SeqCst);
    let part = at(2).fetch_add(1, Ordering::SeqCst);
    let path = format!("{}.{}", out, part);
    if std::fs::write(&path, to_json(&en)).is_err() {
        unsafe { _exit(4) }
    }
    let mut bad = 0;
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 {
            bad = 5;
        }
    }
    if !is_child && verbose {
        eprintln!("done in {:?}", t0.elapsed());
    }
    unsafe { _exit(bad) }
}
