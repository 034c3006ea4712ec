//! symex: symbolic execution of a Rust program's LLVM IR, deciding assertions with z3.
mod exec; mod expr; mod libc; mod ll; mod mem; mod solver;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::time::{Duration, Instant};
use exec::*; use ll::*;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn usleep(us: u32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}
const MAXH: usize = 128;
struct Table { idle: AtomicI64, h: [Shared; MAXH] }

fn flush(x: &mut Exec) {
    let h = x.harness.clone();
    let mut s = String::new();
    let mut put = |k: &str, v: String| { s += &format!("{}\t{}\t{}\n", h, k, v.replace('\n', "\\n").replace('\t', " ")); };
    put("stat", format!("paths={} insns={} forks={} infeasible={} unknown={} queries={} hits={} sat={} unsat={} qunknown={} solver_us={} slow={} cases={} bad={} sha={} terms={}", x.paths, x.insns, x.forks, x.infeasible, x.unknown, x.sol.queries, x.sol.hits, x.sol.sat, x.sol.unsat, x.sol.unknown, x.sol.time_us, x.sol.slow, x.sol.split, x.sol.bad, x.sha_sym, expr::ar().n.len()));
    for (l, (a, b, c, d)) in &x.checks { put("check", format!("{} {} {} {} {}", a, b, c, d, l)); }
    for (l, n) in &x.covers { put("cover", format!("{} {}", n, l)); }
    for (l, n) in &x.vio { put("vio", format!("{} {}", n, l)); }
    for e in &x.errors { put("error", e.clone()); }
    for e in &x.samples { put("sample", e.clone()); }
    let mut pr: Vec<_> = x.prof.iter().map(|(k, v)| (*v, *k)).collect();
    pr.sort_unstable_by_key(|x| std::cmp::Reverse(x.0));
    for (n, (f, pc)) in pr.iter().take(40) { put("prof", format!("{} {}:{}", n, demangle(&x.pr.funcs[*f as usize].name), pc)); }
    for (f, t) in x.touched.iter().enumerate() {
        if !*t { continue; }
        let n = &x.pr.funcs[f].name;
        if !n.contains("12accountmerge") { continue; }
        let d = demangle(n);
        let i = match d.find("accountmerge::") { Some(i) => i, None => continue };
        put("fn", d[i..].to_string());
    }
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/results.tsv", x.outdir)) { let _ = f.write_all(s.as_bytes()); }
}

fn initial(x: &mut Exec, fid: u32) -> State {
    let empty: &'static Func = Box::leak(Box::new(Func { name: "start".into(), id: u32::MAX, nregs: 1, nargs: 0, consts: vec![], code: vec![], frame: 0, lines: vec![] }));
    let mut st = State {
        regs: vec![expr::V::c(0)], frames: vec![], func: empty, base: 0, pc: 0, stk: 0,
        globals: Default::default(), heap: Default::default(), stack: Default::default(), next_heap: 0, sp: 0,
        pcs: vec![], dom: vec![], model: Default::default(), known: Default::default(), inputs: vec![], nseq: 0,
        fs: libc::Fs::new(), catch: vec![], sha: vec![], hash: 0, errno: 0, last_panic: "".into(), notes: vec![], keys: 0, forks: 0,
        fault_budget: 0, fault_kinds: 0, fault_pending: None, sha_salt: 0, checks: 0, rand: 1, spawned: vec![], dep_panic: false, failed: false,
    };
    st.errno = x.alloc(&mut st, 8);
    let f = x.pr.func(fid).expect("harness body");
    match x.enter(&mut st, f, &[], 0, 0) { Ok(()) => {} Err(_) => panic!("start") }
    st
}

fn run_harness(pr: Program, name: &str, shared: &'static Shared, idle: &'static AtomicI64, outdir: &str, deadline: Instant, trace: bool, max_viol: i64, known: Vec<(String, String)>) {
    let fid = pr.funcs.iter().position(|f| f.name == name && f.range.is_some());
    let mut x = Exec {
        pr, sol: solver::Solver::new(), pending: vec![], shared, idle, trace_notes: std::env::var_os("SYMEX_NOTES").is_some(), varmap: Default::default(), paths: 0, insns: 0, forks: 0, infeasible: 0, unknown: 0,
        checks: Default::default(), covers: Default::default(), touched: vec![], prof: Default::default(),
        deadline, outdir: outdir.into(), harness: name.into(), children: vec![], max_viol, known, errors: vec![], is_child: false,
        gcache: Default::default(), trace, no_split: false, vio: Default::default(), samples: vec![], splittable: true, sha_sym: 0, maxcalls: 0,
    };
    match fid {
        None => { x.errors.push("no such harness".into()); shared.errors.fetch_add(1, AcqRel); }
        Some(f) => {
            let st = initial(&mut x, f as u32);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.run(st)));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                x.errors.push(format!("engine failure: {}", m));
                shared.errors.fetch_add(1, AcqRel); shared.stop.store(3, Release);
            }
        }
    }
    flush(&mut x);
    idle.fetch_add(1, AcqRel); // the slot is free while this process waits for its children
    for c in x.children.clone() {
        let mut st = 0;
        unsafe { waitpid(c, &mut st, 0); }
        if st != 0 { shared.errors.fetch_add(1, AcqRel); shared.stop.store(3, Release); eprintln!("{}: worker ended with status {:#x}", name, st); }
    }
    unsafe { _exit(0) }
}

fn main() {
    let mut outdir = "/tmp".to_string();
    let mut hs: Vec<String> = vec![];
    let mut known: Vec<(String, String)> = vec![];
    let (mut budget, mut workers, mut trace, mut files, mut max_viol) = (60.0f64, 8i64, false, vec![], 12i64);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--out" => outdir = it.next().unwrap(),
            "--harness" => hs.extend(it.next().unwrap().split(',').map(|s| s.to_string())),
            "--budget" => budget = it.next().unwrap().parse().unwrap(),
            "--workers" => workers = it.next().unwrap().parse().unwrap(),
            "--max-viol" => max_viol = it.next().unwrap().parse().unwrap(),
            "--known" => for l in std::fs::read_to_string(it.next().unwrap()).unwrap().lines() { if let Some((h, l)) = l.split_once('\t') { known.push((h.to_string(), l.to_string())); } },
            "--trace" => trace = true,
            "--version" => { println!("z3 {}", solver::z3_version()); return; }
            _ if a.ends_with(".ll") => files.push(a),
            d => { // directory: every .ll below
                let mut st = vec![std::path::PathBuf::from(d)];
                while let Some(p) = st.pop() { for e in std::fs::read_dir(&p).unwrap() { let e = e.unwrap().path(); if e.is_dir() { st.push(e) } else if e.extension().map(|x| x == "ll").unwrap_or(false) { files.push(e.to_string_lossy().into_owned()) } } }
            }
        }
    }
    std::panic::set_hook(Box::new(move |i| { if std::env::var_os("SYMEX_PANIC").is_some() { eprintln!("{}", i); } }));
    files.sort();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(budget);
    let mut pr = Program::new();
    for f in &files { pr.load(f).unwrap(); }
    eprintln!("loaded {} modules, {} functions in {:.2}s", files.len(), pr.funcs.len(), t0.elapsed().as_secs_f64());
    let tab: &'static Table = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Table>(), 3, 0x21, -1, 0) as *const Table) };
    tab.idle.store(workers, Release);
    assert!(hs.len() <= MAXH);
    let mut pids: HashMap<i32, (usize, Instant)> = Default::default();
    let mut prs = Some(pr);
    let mut started = vec![];
    for (k, h) in hs.iter().enumerate() {
        loop {
            let v = tab.idle.load(Acquire);
            if v > 0 && tab.idle.compare_exchange(v, v - 1, AcqRel, Relaxed).is_ok() { break; }
            unsafe { usleep(2000); }
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0); }
            let h = h.clone();
            struct Carry(Program); unsafe impl Send for Carry {}
            let pr = Carry(prs.take().unwrap());
            let (od, known) = (outdir.clone(), known.clone());
            let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || { let pr = pr; run_harness(pr.0, &h, &tab.h[k], &tab.idle, &od, deadline, trace, max_viol, known) }).unwrap();
            let _ = t.join();
            unsafe { _exit(9) }
        }
        pids.insert(pid, (k, Instant::now()));
        started.push(Instant::now());
    }
    let mut out = String::new();
    while !pids.is_empty() {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if let Some((k, t)) = pids.remove(&p) {
            let s = &tab.h[k];
            if st != 0 { s.errors.fetch_add(1, AcqRel); eprintln!("{}: ended with status {:#x}", hs[k], st); }
            out += &format!("{}\tstatus\tstop={} viol={} errors={} ms={}\n", hs[k], s.stop.load(Acquire), s.viol.load(Acquire), s.errors.load(Acquire), t.elapsed().as_millis());
        }
    }
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/results.tsv", outdir)).unwrap();
    f.write_all(out.as_bytes()).unwrap();
}
