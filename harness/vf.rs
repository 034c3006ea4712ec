//! What a harness can do. Under the symbolic executor the functions are intrinsics of the engine;
//! in the native replay build they read the counterexample and run the real program.
#![allow(dead_code)]

/// A set of byte values.
#[derive(Clone, Copy)]
pub struct Dom(pub [u8; 32]);
impl Dom {
    pub const fn of(b: &[u8]) -> Dom {
        let mut s = [0u8; 32];
        let mut k = 0;
        while k < b.len() { s[(b[k] / 8) as usize] |= 1 << (b[k] % 8); k += 1; }
        Dom(s)
    }
    pub const fn range(lo: u8, hi: u8) -> Dom {
        let mut s = [0u8; 32];
        let mut k = lo as usize;
        while k <= hi as usize { s[k / 8] |= 1 << (k % 8); k += 1; }
        Dom(s)
    }
    pub const fn or(self, o: Dom) -> Dom {
        let mut s = self.0;
        let mut k = 0;
        while k < 32 { s[k] |= o.0[k]; k += 1; }
        Dom(s)
    }
    pub const fn minus(self, b: &[u8]) -> Dom {
        let mut s = self.0;
        let mut k = 0;
        while k < b.len() { s[(b[k] / 8) as usize] &= !(1 << (b[k] % 8)); k += 1; }
        Dom(s)
    }
}
pub const DIGIT: Dom = Dom::range(b'0', b'9');
pub const ALPHA: Dom = Dom::range(b'a', b'z').or(Dom::range(b'A', b'Z'));
/// Printable ASCII.
pub const PRINT: Dom = Dom::range(32, 126);
/// Printable ASCII, tab, newline, carriage return.
pub const TEXT: Dom = Dom::range(32, 126).or(Dom::of(b"\t\n\r"));
pub const BYTE: Dom = Dom::range(0, 255);

#[cfg(not(test))]
mod imp {
    use super::*;
    extern "C" {
        fn verif_bytes(l: *const u8, ll: usize, out: *mut u8, n: usize, dom: *const u8);
        fn verif_assume(c: bool);
        fn verif_check(c: bool, l: *const u8, ll: usize);
        fn verif_fork(c: bool) -> bool;
        fn verif_cover(l: *const u8, ll: usize);
        fn verif_note(l: *const u8, ll: usize);
        fn verif_call(f: extern "C" fn(*mut u8) -> i32, d: *mut u8) -> i32;
        fn verif_set_args(p: *const u8, n: usize);
        fn verif_fs_reset();
        fn verif_mkdir(p: *const u8, n: usize);
        fn verif_remove(p: *const u8, n: usize);
        fn verif_write_file(p: *const u8, n: usize, d: *const u8, dn: usize);
        fn verif_file_len(p: *const u8, n: usize) -> i64;
        fn verif_file_get(p: *const u8, n: usize, out: *mut u8);
        fn verif_file_count() -> u64;
        fn verif_temp_count() -> u64;
        fn verif_set_hash(h: u64);
        fn verif_faults(kinds: u64, budget: u64);
        fn verif_sha_reset();
        fn verif_dep_panic() -> bool;
    }
    pub fn bytes(label: &str, n: usize, dom: Dom) -> Vec<u8> {
        let mut v = vec![0u8; n];
        unsafe { verif_bytes(label.as_ptr(), label.len(), v.as_mut_ptr(), n, dom.0.as_ptr()); }
        v
    }
    pub fn assume(c: bool) { unsafe { verif_assume(c) } }
    pub fn check(label: &str, c: bool) { unsafe { verif_check(c, label.as_ptr(), label.len()) } }
    /// Case split: the result is concrete.
    pub fn split(c: bool) -> bool { unsafe { verif_fork(c) } }
    pub fn cover(label: &str) { unsafe { verif_cover(label.as_ptr(), label.len()) } }
    pub fn note(s: &[u8]) { unsafe { verif_note(s.as_ptr(), s.len()) } }
    struct Job<'a> { f: Option<&'a mut dyn FnMut()> }
    extern "C" fn tramp(d: *mut u8) -> i32 {
        let j = unsafe { &mut *(d as *mut Job) };
        (j.f.take().unwrap())();
        0
    }
    /// Runs `f`; false if it panicked.
    pub fn survives(f: &mut dyn FnMut()) -> bool {
        let mut j = Job { f: Some(f) };
        unsafe { verif_call(tramp, &mut j as *mut Job as *mut u8) == 0 }
    }
    extern "C" fn run_main(_: *mut u8) -> i32 {
        let code = match crate::main() { Ok(_) => 0, Err(_) => 1 };
        // what the runtime does at exit
        let _ = std::io::Write::flush(&mut std::io::stdout());
        code
    }
    /// Runs the program; its exit status (101: panic, 137: killed).
    pub fn run(args: &[&str]) -> i32 {
        let mut b: Vec<u8> = b"accountmerge\0".to_vec();
        for a in args { b.extend_from_slice(a.as_bytes()); b.push(0); }
        unsafe { verif_set_args(b.as_ptr(), b.len()); }
        unsafe { verif_call(run_main, std::ptr::null_mut()) }
    }
    pub fn reset() { unsafe { verif_fs_reset() } }
    pub fn mkdir(p: &str) { unsafe { verif_mkdir(p.as_ptr(), p.len()) } }
    pub fn remove(p: &str) { unsafe { verif_remove(p.as_ptr(), p.len()) } }
    pub fn write(p: &str, d: &[u8]) { unsafe { verif_write_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) } }
    pub fn program(p: &str, s: &str) { write(p, s.as_bytes()) }
    pub fn exists(p: &str) -> bool { unsafe { verif_file_len(p.as_ptr(), p.len()) != -1 } }
    pub fn read(p: &str) -> Option<Vec<u8>> {
        let n = unsafe { verif_file_len(p.as_ptr(), p.len()) };
        if n < 0 { return None; }
        let mut v = vec![0u8; n as usize];
        unsafe { verif_file_get(p.as_ptr(), p.len(), v.as_mut_ptr()); }
        Some(v)
    }
    pub fn stdin(d: &[u8]) { write("<stdin>", d) }
    pub fn stdout() -> Vec<u8> { read("<stdout>").unwrap() }
    pub fn file_count() -> usize { unsafe { verif_file_count() as usize } }
    /// Files and directories in the directory for temporary files.
    pub fn temp_count() -> usize { unsafe { verif_temp_count() as usize } }
    pub fn hash_order(h: u64) { unsafe { verif_set_hash(h) } }
    pub fn faults(kinds: u64, budget: u64) { unsafe { verif_faults(kinds, budget) } }
    pub fn fresh_digests() { unsafe { verif_sha_reset() } }
    /// The last panic was in the ledger_parser crate.
    pub fn parser_panicked() -> bool { unsafe { verif_dep_panic() } }
    pub const SYMBOLIC: bool = true;
}

#[cfg(test)]
mod imp {
    use super::*;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::path::PathBuf;
    #[derive(Default)]
    pub struct Ctx { pub inputs: VecDeque<(String, Vec<u8>)>, pub dir: PathBuf, pub stdin: Vec<u8>, pub stdout: Vec<u8>, pub failed: Vec<String>, pub faults: u64, pub budget: u64, pub diverged: bool, pub hash: u64, pub stderr: Vec<u8> }
    thread_local! { pub static CTX: RefCell<Ctx> = Default::default(); }
    pub struct Diverged;
    pub fn bytes(label: &str, n: usize, dom: Dom) -> Vec<u8> {
        let r = CTX.with(|c| c.borrow_mut().inputs.pop_front());
        match r {
            Some((l, b)) if l == label && b.len() == n && b.iter().all(|x| dom.0[(*x / 8) as usize] >> (x % 8) & 1 == 1) => b,
            other => { eprintln!("replay: wanted {} ({} bytes), found {:?}", label, n, other); CTX.with(|c| c.borrow_mut().diverged = true); std::panic::panic_any(Diverged) }
        }
    }
    pub fn assume(c: bool) { if !c { eprintln!("replay: assumption does not hold"); CTX.with(|c| c.borrow_mut().diverged = true); std::panic::panic_any(Diverged) } }
    pub fn check(label: &str, c: bool) { if !c { eprintln!("replay: FAILED {}", label); CTX.with(|x| x.borrow_mut().failed.push(label.to_string())); } }
    pub fn split(c: bool) -> bool { c }
    pub fn cover(_: &str) {}
    pub fn note(s: &[u8]) { eprintln!("replay: note {}", String::from_utf8_lossy(s)); }
    pub fn survives(f: &mut dyn FnMut()) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => true,
            Err(e) => { if e.is::<Diverged>() { std::panic::resume_unwind(e); } false }
        }
    }
    pub fn path(p: &str) -> PathBuf { CTX.with(|c| c.borrow().dir.join(p)) }
    pub fn run(args: &[&str]) -> i32 {
        use std::io::Write;
        use std::process::{Command, Stdio};
        let exe = std::env::var("VERIF_EXE").expect("VERIF_EXE");
        let (dir, input) = CTX.with(|c| (c.borrow().dir.clone(), c.borrow().stdin.clone()));
        let mut cmd = Command::new(exe);
        cmd.args(args).current_dir(&dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        cmd.env_remove("RUST_BACKTRACE").env("TMPDIR", temp());
        let _ = std::fs::create_dir_all(temp());
        let (kinds, budget) = CTX.with(|c| (c.borrow().faults, c.borrow().budget));
        if kinds != 0 && budget != 0 {
            // the choices this run of the program consumes
            let f: Vec<String> = CTX.with(|c| { let c = c.borrow(); c.inputs.iter().take_while(|(l, _)| l == "fault").map(|(_, b)| b[0].to_string()).collect() });
            let log = std::env::temp_dir().join(format!("verif-fault-{}", std::process::id()));
            let _ = std::fs::remove_file(&log);
            cmd.env("LD_PRELOAD", std::env::var("VERIF_SHIM").expect("VERIF_SHIM")).env("VERIF_FAULTS", f.join(",")).env("VERIF_FAULT_LOG", &log);
            cmd.env("VERIF_FAULT_DIR", &dir);
        }
        let mut ch = cmd.spawn().expect("spawn");
        let mut si = ch.stdin.take().unwrap();
        let t = std::thread::spawn(move || { let _ = si.write_all(&input); });
        // a run that does not end is stopped, and counts as killed
        let id = ch.id();
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let w = std::thread::spawn(move || { if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { let _ = Command::new("kill").args(["-9", &id.to_string()]).status(); } });
        let out = ch.wait_with_output().unwrap();
        let _ = tx.send(());
        let _ = (t.join(), w.join());
        if kinds != 0 && budget != 0 {
            let log = std::env::temp_dir().join(format!("verif-fault-{}", std::process::id()));
            let n = std::fs::read(&log).map(|b| b.len()).unwrap_or(0);
            let _ = std::fs::remove_file(&log);
            CTX.with(|c| { let mut c = c.borrow_mut(); for _ in 0..n { if let Some((_, b)) = c.inputs.pop_front() { if b[0] != 0 { c.budget -= 1; } } } });
        }
        CTX.with(|c| { c.borrow_mut().stdout = out.stdout.clone(); c.borrow_mut().stderr = out.stderr.clone(); });
        use std::os::unix::process::ExitStatusExt;
        let code = match out.status.code() { Some(c) => c, None => { let s = out.status.signal().unwrap_or(0); if s == 6 { 101 } else { 128 + s } } };
        eprintln!("replay: run {:?} -> {} stderr {:?}", args, code, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>());
        code
    }
    pub fn reset() { let d = CTX.with(|c| { let mut c = c.borrow_mut(); c.stdin.clear(); c.stdout.clear(); c.dir.clone() }); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); let _ = std::fs::remove_dir_all(temp()); }
    pub fn mkdir(p: &str) { std::fs::create_dir_all(path(p)).unwrap(); }
    pub fn remove(p: &str) { let _ = std::fs::remove_file(path(p)); }
    pub fn write(p: &str, d: &[u8]) { eprintln!("replay: file {} = {:?}", p, String::from_utf8_lossy(d)); std::fs::write(path(p), d).unwrap(); }
    pub fn program(p: &str, s: &str) { use std::os::unix::fs::PermissionsExt; std::fs::write(path(p), s).unwrap(); std::fs::set_permissions(path(p), std::fs::Permissions::from_mode(0o755)).unwrap(); }
    pub fn exists(p: &str) -> bool { path(p).exists() }
    pub fn read(p: &str) -> Option<Vec<u8>> { let r = std::fs::read(path(p)).ok(); eprintln!("replay: read {} = {:?}", p, r.as_ref().map(|x| String::from_utf8_lossy(x).into_owned())); r }
    pub fn stdin(d: &[u8]) { eprintln!("replay: stdin = {:?}", String::from_utf8_lossy(d)); CTX.with(|c| c.borrow_mut().stdin = d.to_vec()); }
    pub fn stdout() -> Vec<u8> { let r = CTX.with(|c| c.borrow().stdout.clone()); eprintln!("replay: stdout = {:?}", String::from_utf8_lossy(&r)); r }
    pub fn file_count() -> usize {
        fn walk(d: &std::path::Path) -> usize { std::fs::read_dir(d).map(|r| r.flatten().map(|e| if e.path().is_dir() { walk(&e.path()) } else { 1 }).sum()).unwrap_or(0) }
        walk(&CTX.with(|c| c.borrow().dir.clone()))
    }
    pub fn temp() -> PathBuf { CTX.with(|c| { let mut d = c.borrow().dir.clone().into_os_string(); d.push("-tmp"); d.into() }) }
    pub fn temp_count() -> usize { std::fs::read_dir(temp()).map(|r| r.count()).unwrap_or(0) }
    pub fn hash_order(h: u64) { CTX.with(|c| c.borrow_mut().hash = h) }
    pub fn faults(kinds: u64, budget: u64) { CTX.with(|c| { let mut c = c.borrow_mut(); c.faults = kinds; c.budget = budget; }) }
    pub fn fresh_digests() {}
    pub fn parser_panicked() -> bool { CTX.with(|c| find(&c.borrow().stderr, b"panicked at") && (find(&c.borrow().stderr, b"/ledger-parser-") || find(&c.borrow().stderr, b"/nom-"))) }
    pub const SYMBOLIC: bool = false;
}
pub use imp::*;

/// Stand-ins for the programs `import nationwide-pdf` runs. `pages` files NAME.0, NAME.1… are what
/// the pages of the PDF NAME look like once rendered; recognising a page yields its file as it is,
/// after the header line. (The engine carries out the `#:` line; natively the script is run.)
pub fn gm(name: &str, pages: usize, status: u8) {
    program(name, &format!("#!/bin/sh\n#: gm {pages} {status}\nwhile [ $# -gt 0 ]; do case \"$1\" in -density) shift;; -*|+*) ;; *) w=\"$a\"; a=\"$b\"; b=\"$1\";; esac; shift; done\n[ \"$w\" = convert ] || exit 9\nk=0\nwhile [ $k -lt {pages} ]; do cp \"$a.$k\" \"$(printf \"$b\" $k)\" || exit 8; k=$((k+1)); done\nexit {status}\n"))
}
pub fn tesseract(name: &str, status: u8) {
    program(name, &format!("#!/bin/sh\n#: tesseract {status}\nwhile [ $# -gt 0 ]; do case \"$1\" in -l|--dpi|--psm|--oem|-c) shift;; -*) ;; *) a=\"$b\"; b=\"$c\"; c=\"$1\";; esac; shift; done\n[ \"$c\" = tsv ] || exit 9\nprintf 'level\\tpage_num\\tblock_num\\tpar_num\\tline_num\\tword_num\\tleft\\ttop\\twidth\\theight\\tconf\\ttext\\n' > \"$b.tsv\"\nwhile IFS= read -r f; do cat \"$f\" >> \"$b.tsv\" || exit 8; done < \"$a\"\nexit {status}\n"))
}
pub fn byte(label: &str, dom: Dom) -> u8 { bytes(label, 1, dom)[0] }
/// A number in `0..n`, concrete on every path.
pub fn choose(label: &str, n: u8) -> u8 {
    let b = byte(label, Dom::range(0, n - 1));
    let mut k = 0;
    while k < n - 1 { if split(b == k) { return k; } k += 1; }
    n - 1
}
pub fn flag(label: &str) -> bool { choose(label, 2) == 1 }
/// A string of at most `max` bytes from `dom` (ASCII).
pub fn text(label: &str, min: usize, max: usize, dom: Dom) -> String {
    let n = if min == max { min } else { min + choose(&format!("{label}.len"), (max - min + 1) as u8) as usize };
    String::from_utf8(bytes(label, n, dom)).unwrap()
}
pub fn find(h: &[u8], n: &[u8]) -> bool {
    if n.len() > h.len() { return false; }
    let mut r = false;
    for k in 0..=h.len() - n.len() { r |= &h[k..k + n.len()] == n; }
    r
}

#[cfg(test)]
mod replay {
    use super::imp::*;
    #[test]
    fn verif_replay() {
        let f = match std::env::var("VERIF_REPLAY") { Ok(f) => f, Err(_) => return };
        let text = std::fs::read_to_string(&f).unwrap();
        let mut harness = String::new();
        let mut label = String::new();
        let mut inputs = std::collections::VecDeque::new();
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("harness ") { harness = r.to_string(); }
            if let Some(r) = l.strip_prefix("label ") { label = r.to_string(); }
            if let Some(r) = l.strip_prefix("in ") {
                let k = r.rfind(' ').unwrap();
                let h = r[k + 1..].as_bytes();
                inputs.push_back((r[..k].to_string(), (0..h.len() / 2).map(|k| u8::from_str_radix(std::str::from_utf8(&h[2 * k..2 * k + 2]).unwrap(), 16).unwrap()).collect::<Vec<u8>>()));
            }
        }
        let dir = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        CTX.with(|c| { let mut c = c.borrow_mut(); c.inputs = inputs; c.dir = dir.clone(); });
        let run = super::super::harnesses::lookup(&harness);
        let r = std::panic::catch_unwind(run);
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_dir_all(temp());
        let (failed, diverged) = CTX.with(|c| { let c = c.borrow(); (c.failed.clone(), c.diverged) });
        let crashed = label.starts_with("panic") || label.starts_with("stack overflow");
        if diverged { eprintln!("REPLAY-DIVERGED"); }
        else if failed.contains(&label) || (crashed && r.is_err()) { eprintln!("REPLAY-CONFIRMED {}", label); }
        else if !failed.is_empty() { eprintln!("REPLAY-CONFIRMED-OTHER {:?}", failed); }
        else if r.is_err() { eprintln!("REPLAY-PANIC"); }
        else { eprintln!("REPLAY-NOT-REPRODUCED"); }
    }
}
