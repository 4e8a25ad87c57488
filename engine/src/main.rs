mod builtin;
mod exec;
mod expr;
mod ll;
mod mem;
mod sat;
mod val;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn rep_json(r: &Report) -> String {
    let i: Vec<String> = r.inputs.iter().map(|x| x.to_string()).collect();
    let o: Vec<String> = r.obs.iter().map(|x| x.to_string()).collect();
    let s: Vec<String> = r.stack.iter().map(|x| js(x)).collect();
    let n: Vec<String> = r.notes.iter().map(|x| js(x)).collect();
    format!(
        "{{\"kind\":{},\"inputs\":[{}],\"obs\":[{}],\"stack\":[{}],\"notes\":[{}]}}",
        js(&r.kind),
        i.join(","),
        o.join(","),
        s.join(","),
        n.join(",")
    )
}

fn dump(e: &Engine, with_stats: bool, f: &mut dyn Write) {
    let s = &e.st;
    let z = &e.solver.st;
    if with_stats {
        for (k, v) in [
            ("paths", s.paths),
            ("pruned", s.pruned),
            ("panic_allowed", s.panic_allowed),
            ("forks", s.forks),
            ("insts", s.insts),
            ("obligations", s.obligations),
            ("discharged", s.discharged),
            ("incomplete", s.incomplete),
            ("concretized", s.concretized),
            ("queries", z.queries),
            ("sat", z.sat),
            ("unsat", z.unsat),
            ("cache_hits", z.cache_hits),
            ("model_hits", z.model_hits),
            ("solver_us", z.us),
            ("quick_queries", z.quick),
            ("quick_us", z.quick_us),
            ("cross_checked", z.cross),
        ] {
            writeln!(f, "S {} {}", k, v).unwrap();
        }
        writeln!(f, "M max_path_insts {}", s.max_path_insts).unwrap();
        writeln!(f, "M max_inputs {}", s.max_inputs).unwrap();
        writeln!(f, "M max_query_us {}", z.max_us).unwrap();
        for (k, v) in &s.reach {
            writeln!(f, "R {} {}", k, v).unwrap();
        }
        for fu in &e.m.funcs {
            if fu.calls > 0 {
                writeln!(f, "F {} {}", fu.name, fu.calls).unwrap();
            }
        }
    }
    for r in &e.viols {
        writeln!(f, "V {}", rep_json(r)).unwrap();
    }
    for r in &e.samples {
        writeln!(f, "X {}", rep_json(r)).unwrap();
    }
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut args: Vec<u64> = vec![];
    let mut jobs = 1usize;
    let mut max_secs = 600.0f64;
    let mut max_insts = 2_000_000_000u64;
    let mut out = String::new();
    let mut verbose = false;
    let mut samples = 16usize;
    let mut solver_ms = 30000u32;
    let mut seed_states = 0usize;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().unwrap_or_else(|| give_up("missing argument"));
        match a.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--arg" => args.push(nx().parse().unwrap()),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--max-secs" => max_secs = nx().parse().unwrap(),
            "--max-insts" => max_insts = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--samples" => samples = nx().parse().unwrap(),
            "--solver-ms" => solver_ms = nx().parse().unwrap(),
            "--seed-states" => seed_states = nx().parse().unwrap(),
            "-v" => verbose = true,
            x => give_up(&format!("unknown argument {}", x)),
        }
    }
    // deep recursion in expression walks: run on a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        run(ll, entry, args, jobs, max_secs, max_insts, out, verbose, samples, solver_ms, seed_states)
    });
    let code = h.unwrap().join().unwrap_or(3);
    std::process::exit(code);
}

#[allow(clippy::too_many_arguments)]
fn run(
    ll: String,
    entry: String,
    args: Vec<u64>,
    jobs: usize,
    max_secs: f64,
    max_insts: u64,
    out: String,
    verbose: bool,
    samples: usize,
    solver_ms: u32,
    seed_states: usize,
) -> i32 {
    let t0 = Instant::now();
    expr::init();
    let m = ll::Module::load(&ll);
    let load_ms = t0.elapsed().as_millis();
    let cfg = Config {
        max_insts,
        deadline: t0 + Duration::from_secs_f64(max_secs),
        sample_cap: samples,
        max_viol: 8,
        verbose,
    };
    let mut e = Engine::new(m, cfg, solver_ms);
    let s0 = e.initial(&entry, &args);
    e.work.push_back(s0);
    let target = if jobs > 1 { if seed_states > 0 { seed_states } else { jobs * 24 } } else { 0 };
    // phase 1: breadth-first until there is enough to share
    if jobs > 1 {
        // what runs on for long without another fork is put aside for the workers
        let mut aside: Vec<State> = vec![];
        let mut budget = 20_000;
        while e.work.len() + aside.len() < target {
            let st = match e.work.pop_front() {
                Some(s) => s,
                None if aside.is_empty() || aside.len() >= jobs * 2 => break,
                None => {
                    budget *= 16;
                    e.work.extend(aside.drain(..));
                    continue;
                }
            };
            let n = e.work.len();
            if let Some(s) = e.run(st, budget) {
                if e.work.len() > n { e.work.push_back(s) } else { aside.push(s) }
            }
            if Instant::now() > e.cfg.deadline {
                break;
            }
        }
        e.work.extend(aside);
    }
    let mut files = vec![];
    if jobs > 1 && e.work.len() > 1 {
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut std::sync::atomic::AtomicUsize };
        let seeds: Vec<State> = e.work.drain(..).collect();
        // parent's own results first
        let mut buf = vec![];
        dump(&e, true, &mut buf);
        files.push(buf);
        let n = seeds.len();
        let mut pids = vec![];
        for j in 0..jobs {
            let path = format!("{}.w{}", out, j);
            let pid = unsafe { fork() };
            if pid == 0 {
                e.st = Stats::default();
                e.solver.st = Default::default();
                e.viols.clear();
                e.samples.clear();
                e.nsample = 0;
                for f in &mut e.m.funcs {
                    f.calls = 0;
                }
                loop {
                    let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                    if i >= n {
                        break;
                    }
                    e.work.push_back(seeds[i].clone());
                    explore(&mut e);
                }
                let mut f = std::fs::File::create(&path).unwrap();
                let mut buf = vec![];
                dump(&e, true, &mut buf);
                f.write_all(&buf).unwrap();
                unsafe { _exit(0) }
            }
            pids.push((pid, path));
        }
        let mut bad = false;
        for (pid, path) in pids {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                bad = true;
            } else {
                files.push(std::fs::read(&path).unwrap());
            }
            let _ = std::fs::remove_file(&path);
        }
        if bad {
            give_up("a worker failed");
        }
    } else {
        explore(&mut e);
        let mut buf = vec![];
        dump(&e, true, &mut buf);
        files.push(buf);
    }
    // merge
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxs: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach: BTreeMap<String, u64> = BTreeMap::new();
    let mut fns: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols = vec![];
    let mut samp = vec![];
    for f in &files {
        for l in String::from_utf8_lossy(f).lines() {
            let (k, r) = l.split_at(1);
            let r = r.trim_start();
            match k {
                "V" => viols.push(r.to_string()),
                "X" => samp.push(r.to_string()),
                _ => {
                    let (n, v) = r.rsplit_once(' ').unwrap();
                    let v: u64 = v.parse().unwrap();
                    match k {
                        "S" => *sums.entry(n.to_string()).or_insert(0) += v,
                        "M" => {
                            let x = maxs.entry(n.to_string()).or_insert(0);
                            *x = (*x).max(v)
                        }
                        "R" => *reach.entry(n.to_string()).or_insert(0) += v,
                        "F" => *fns.entry(n.to_string()).or_insert(0) += v,
                        _ => {}
                    }
                }
            }
        }
    }
    let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let json = format!(
        "{{\"entry\":{},\"load_ms\":{},\"wall_ms\":{},\"stats\":{{{},{}}},\"reach\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"functions\":{{{}}}}}\n",
        js(&entry),
        load_ms,
        t0.elapsed().as_millis(),
        kv(&sums),
        kv(&maxs),
        kv(&reach),
        viols.join(","),
        samp.join(","),
        kv(&fns)
    );
    if out.is_empty() {
        print!("{}", json);
    } else {
        std::fs::write(&out, json).unwrap();
    }
    0
}

fn explore(e: &mut Engine) {
    while let Some(st) = e.work.pop_back() {
        if e.viols.len() >= e.cfg.max_viol {
            e.work.clear();
            e.st.incomplete += 1;
            break;
        }
        if Instant::now() > e.cfg.deadline {
            e.st.incomplete += 1 + e.work.len() as u64;
            e.work.clear();
            break;
        }
        e.run(st, u64::MAX);
    }
}
