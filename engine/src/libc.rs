//! The environment of the program under test: allocator, C library, file system, and the
//! intrinsics a harness uses.
use std::collections::BTreeMap;
use std::rc::Rc;
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;
use crate::mem::Obj;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { File, Dir }
#[derive(Clone)]
pub struct Node { pub kind: Kind, pub ino: usize }
#[derive(Clone)]
pub struct Fd { pub ino: usize, pub pos: usize, pub append: bool, pub wr: bool, pub rd: bool, pub dir: bool, pub at: Option<Rc<Listing>> }
/// An open directory: its path, and its entries at the time it was opened.
pub struct Listing { pub path: String, pub names: Vec<(String, Kind)> }
/// In-memory file system; file contents may hold symbolic bytes.
#[derive(Clone)]
pub struct Fs { pub names: BTreeMap<String, Node>, pub inodes: Vec<Rc<Obj>>, pub fds: Vec<Option<Fd>>, pub cwd: String }
impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs { names: Default::default(), inodes: vec![], fds: vec![], cwd: "/w".into() };
        f.reset();
        f
    }
    pub fn reset(&mut self) {
        self.names.clear(); self.inodes.clear(); self.fds.clear();
        for d in ["/", "/w", "/tmp", "/dev"] { self.names.insert(d.into(), Node { kind: Kind::Dir, ino: 0 }); }
        self.inodes.push(Rc::new(Obj::new(0)));
        for n in ["<stdin>", "<stdout>", "<stderr>"] { self.put(n, Obj::new(0)); }
        for (k, n) in ["<stdin>", "<stdout>", "<stderr>"].iter().enumerate() {
            let ino = self.names[*n].ino;
            self.fds.push(Some(Fd { ino, pos: 0, append: k > 0, wr: k > 0, rd: k == 0, dir: false, at: None }));
        }
    }
    /// Start of a process: the standard streams rewound, output captured afresh, nothing else open.
    pub fn process(&mut self) {
        for n in ["<stdout>", "<stderr>"] { self.put(n, Obj::new(0)); }
        self.fds.clear();
        for (k, n) in ["<stdin>", "<stdout>", "<stderr>"].iter().enumerate() {
            let ino = self.names[*n].ino;
            self.fds.push(Some(Fd { ino, pos: 0, append: k > 0, wr: k > 0, rd: k == 0, dir: false, at: None }));
        }
    }
    pub fn put(&mut self, name: &str, o: Obj) {
        match self.names.get(name) {
            Some(n) if n.kind == Kind::File => { self.inodes[n.ino] = Rc::new(o); }
            _ => { self.inodes.push(Rc::new(o)); self.names.insert(name.into(), Node { kind: Kind::File, ino: self.inodes.len() - 1 }); }
        }
    }
    pub fn path(&self, p: &[u8]) -> String {
        let p = String::from_utf8_lossy(p).into_owned();
        if p.starts_with('<') { return p; }
        let full = if p.starts_with('/') { p } else { format!("{}/{}", self.cwd, p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') { match c { "" | "." => {} ".." => { out.pop(); } c => out.push(c) } }
        format!("/{}", out.join("/"))
    }
    fn parent_ok(&self, p: &str) -> bool {
        let d = match p.rfind('/') { Some(0) | None => "/", Some(k) => &p[..k] };
        matches!(self.names.get(d), Some(n) if n.kind == Kind::Dir)
    }
    fn add_fd(&mut self, fd: Fd) -> u64 {
        match self.fds.iter().position(|x| x.is_none()) { Some(k) => { self.fds[k] = Some(fd); k as u64 } None => { self.fds.push(Some(fd)); self.fds.len() as u64 - 1 } }
    }
    /// The entries of a directory, in an order that is not the alphabetical one.
    fn listing(&self, d: &str) -> Listing {
        let pre = if d == "/" { "/".to_string() } else { format!("{}/", d) };
        let names = self.names.iter().rev().filter_map(|(k, n)| k.strip_prefix(&pre).filter(|r| !r.is_empty() && !r.contains('/')).map(|r| (r.to_string(), n.kind))).collect();
        Listing { path: d.to_string(), names }
    }
    fn fd(&mut self, fd: u64) -> Option<&mut Fd> { self.fds.get_mut(fd as usize).and_then(|f| f.as_mut()) }
}

/// Weak externals the C library need not provide.
pub fn weak_null(n: &str) -> bool {
    matches!(n, "__dso_handle" | "pidfd_spawnp" | "posix_spawn_file_actions_addchdir_np" | "posix_spawn_file_actions_addchdir" | "pidfd_getpid" | "renameat2" | "statx" | "copy_file_range" | "gettid" | "__pthread_get_minstack" | "getrandom")
}

macro_rules! ids { ($($n:ident),*) => { #[allow(non_camel_case_types, clippy::upper_case_acronyms)] #[repr(u32)] #[derive(Clone, Copy, PartialEq)] enum B { _Z, _None, _Name, $($n),* } } }
ids!(Alloc, AllocZ, Dealloc, Realloc, NoShim, Memcmp, Bcmp, Strlen, Malloc, Calloc, Free, CRealloc, Sha1, PanicFmt, DbgStr, HashVal, Memchr, Memrchr);

pub fn builtin(n: &str, defined: bool) -> u32 {
    let r = |b: B| b as u32;
    if n.contains("___rustc") {
        if n.ends_with("___rust_alloc") { return r(B::Alloc); }
        if n.ends_with("___rust_alloc_zeroed") { return r(B::AllocZ); }
        if n.ends_with("___rust_dealloc") { return r(B::Dealloc); }
        if n.ends_with("___rust_realloc") { return r(B::Realloc); }
        if n.contains("___rust_no_alloc_shim") { return r(B::NoShim); }
    }
    match n {
        "memcmp" => return r(B::Memcmp), "bcmp" => return r(B::Bcmp), "strlen" => return r(B::Strlen), "malloc" => return r(B::Malloc), "calloc" => return r(B::Calloc), "free" => return r(B::Free), "realloc" => return r(B::CRealloc),
        "verif_hash_value" => return r(B::HashVal),
        _ => {}
    }
    if n.starts_with("_R") {
        if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("_3std9panicking20rust_panic_with_hook") { return r(B::PanicFmt); }
        if n.contains("3sys4exit18unique_thread_exit") { return r(B::NoShim); }
        if n.contains("4sha18compress8compress") { return r(B::Sha1); }
        if n.contains("4core3fmteNtB") && n.ends_with("5Debug3fmt") { return r(B::DbgStr); }
        if n.ends_with("4core5slice6memchr14memchr_aligned") { return r(B::Memchr); }
        if n.ends_with("4core5slice6memchr15memrchr_aligned") { return r(B::Memrchr); }
    }
    if defined { 1 } else { 2 }
}

fn c(x: u64) -> V { V::c(x) }
fn neg(x: i64) -> V { V::c(x as u64) }

impl Exec {
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> { let a = st.errno; self.store(st, a, 4, c(e)) }
    fn fail(&mut self, st: &mut State, e: u64) -> R<V> { self.set_errno(st, e)?; Ok(neg(-1)) }
    fn lbl(&mut self, st: &mut State, p: V, n: V) -> R<String> {
        let (p, n) = (self.conc(st, p)?, self.conc(st, n)?);
        let b = self.conc_bytes(st, p, n as usize)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn memcmp_v(&mut self, st: &mut State, a: V, b: V, n: V, eq_only: bool) -> R<V> {
        let n = self.conc(st, n)? as usize;
        if n == 0 { return Ok(c(0)); }
        let (a, b) = (self.conc(st, a)?, self.conc(st, b)?);
        let x = self.load_bytes(st, a, n)?;
        let y = self.load_bytes(st, b, n)?;
        if eq_only {
            let mut acc = c(1);
            for k in 0..n {
                let e = veq(8, x[k], y[k]);
                if e.e == 0 && e.lo == 0 { return Ok(c(1)); }
                if e.e != 0 { acc = vand(acc, e); }
            }
            return Ok(vzext(vnot(acc), 32));
        }
        let mut acc = c(0);
        let mut stop = n;
        for k in 0..n { let e = veq(8, x[k], y[k]); if e.e == 0 && e.lo == 0 { stop = k + 1; break; } }
        for k in (0..stop).rev() {
            let e = veq(8, x[k], y[k]);
            if e.e == 0 && e.lo == 1 { continue; }
            let lt = vult(8, x[k], y[k]);
            let d = vite(32, lt, c(0xffff_ffff), c(1));
            acc = vite(32, e, acc, d);
        }
        Ok(acc)
    }
    /// A choice of the environment, drawn once per call even if the instruction is executed again.
    fn fault_choice(&mut self, st: &mut State, kinds: u32) -> R<u8> {
        let k = kinds & st.fault_kinds;
        if st.fault_budget == 0 || st.fault_kinds == 0 || st.catch.is_empty() { return Ok(0); }
        let e = match st.fault_pending {
            Some(e) => e,
            None => {
                let mut dom: Set = [0; 4];
                set_add(&mut dom, 0);
                for b in 1..8 { if k >> b & 1 == 1 { set_add(&mut dom, b as u8); } }
                let v = self.new_input(st, dom);
                st.inputs.push(Input { label: "fault".into(), vars: vec![v] });
                let e = ar().vars[v as usize].0;
                st.fault_pending = Some(e);
                e
            }
        };
        let v = self.conc_e(st, e)? as u8;
        st.fault_pending = None;
        if v != 0 { st.fault_budget -= 1; }
        Ok(v)
    }
    fn crash(&mut self, st: &mut State) -> R<V> { self.unwind(st, 137)?; Err(Stop::Jumped) }

    fn do_write(&mut self, st: &mut State, fd: u64, bytes: Vec<V>) -> R<V> {
        let f = match st.fs.fd(fd) { Some(f) if f.wr => f.clone(), _ => return self.fail(st, 9) };
        let mut n = bytes.len();
        if fd != 2 {
            match self.fault_choice(st, if n > 1 { FK_SHORT | FK_EINTR | FK_ERR | FK_CRASH } else { FK_EINTR | FK_ERR | FK_CRASH })? {
                1 => n = (n + 1) / 2,
                2 => return self.fail(st, 4),
                3 => return self.fail(st, 28),
                4 => return self.crash(st),
                _ => {}
            }
        }
        let o = Rc::make_mut(&mut st.fs.inodes[f.ino]);
        let pos = if f.append { o.data.len() } else { f.pos };
        if o.data.len() < pos + n { o.resize(pos + n); }
        for (k, b) in bytes[..n].iter().enumerate() { o.set_v(pos + k, 1, *b, 8); }
        st.fs.fd(fd).unwrap().pos = pos + n;
        Ok(c(n as u64))
    }
    fn do_read(&mut self, st: &mut State, fd: u64, p: u64, n: usize) -> R<V> {
        let f = match st.fs.fd(fd) { Some(f) if f.rd => f.clone(), _ => return self.fail(st, 9) };
        if f.dir { return self.fail(st, 21); }
        let o = st.fs.inodes[f.ino].clone();
        let mut n = n.min(o.data.len().saturating_sub(f.pos));
        match self.fault_choice(st, if n > 1 { FK_RSHORT | FK_REINTR | FK_RERR } else { FK_REINTR | FK_RERR })? {
            5 => n = (n + 1) / 2,
            6 => return self.fail(st, 4),
            7 => return self.fail(st, 5),
            _ => {}
        }
        let b: Vec<V> = (0..n).map(|k| o.byte(f.pos + k)).collect();
        self.store_bytes(st, p, &b)?;
        st.fs.fd(fd).unwrap().pos += n;
        Ok(c(n as u64))
    }
    fn stat(&mut self, st: &mut State, buf: u64, kind: Kind, ino: usize, mode: Option<u64>) -> R<V> {
        let size = if kind == Kind::File { st.fs.inodes[ino].data.len() as u64 } else { 4096 };
        let mut b = vec![0u8; 128];
        b[8..16].copy_from_slice(&(ino as u64 + 2).to_le_bytes());
        let m = mode.unwrap_or(if kind == Kind::File { 0o100644 } else { 0o40755 }) as u32;
        b[16..20].copy_from_slice(&m.to_le_bytes());
        b[20..24].copy_from_slice(&1u32.to_le_bytes());
        b[48..56].copy_from_slice(&size.to_le_bytes());
        b[56..60].copy_from_slice(&4096u32.to_le_bytes());
        let v: Vec<V> = b.iter().map(|x| c(*x as u64)).collect();
        self.store_bytes(st, buf, &v)?;
        Ok(c(0))
    }
    fn iov(&mut self, st: &mut State, iov: u64, cnt: usize) -> R<Vec<(u64, usize)>> {
        let mut out = vec![];
        for k in 0..cnt {
            let (b, l) = (self.load(st, iov + 16 * k as u64, 8)?, self.load(st, iov + 16 * k as u64 + 8, 8)?);
            let l = self.conc(st, l)? as usize;
            let b = self.conc(st, b)?;
            out.push((b, l));
        }
        Ok(out)
    }
    /// Runs one of the stand-ins for programs (see vf::program): its exit status as waitpid gives it.
    fn program(&mut self, st: &mut State, p: &str, av: &[String]) -> R<Option<u32>> {
        let src = match st.fs.names.get(p) { Some(n) if n.kind == Kind::File => st.fs.inodes[n.ino].clone(), _ => return Ok(None) };
        let b: Vec<u8> = (0..src.data.len()).map(|k| src.byte(k).lo as u8).collect();
        let s = String::from_utf8_lossy(&b).into_owned();
        let spec: Vec<&str> = match s.lines().find_map(|l| l.strip_prefix("#: ")) { Some(l) => l.split(' ').collect(), None => return Err(Stop::Error(format!("{} is not a program", p))) };
        let num = |k: usize| spec[k].parse::<usize>().unwrap();
        let mut pos: Vec<&str> = vec![];
        let mut k = 1;
        while k < av.len() {
            let x = av[k].as_str();
            if matches!(x, "-density" | "-l" | "--dpi" | "--psm" | "--oem" | "-c") { k += 2; continue; }
            if !x.starts_with('-') && !x.starts_with('+') { pos.push(x); }
            k += 1;
        }
        let get = |st: &State, p: &str| -> Option<Obj> { let p = st.fs.path(p.as_bytes()); match st.fs.names.get(&p) { Some(n) if n.kind == Kind::File => Some((*st.fs.inodes[n.ino]).clone()), _ => None } };
        match spec[0] {
            "gm" => {
                if pos.len() != 3 || pos[0] != "convert" { return Ok(Some(9 << 8)); }
                for k in 0..num(1) {
                    let o = match get(st, &format!("{}.{}", pos[1], k)) { Some(o) => o, None => return Ok(Some(8 << 8)) };
                    let to = st.fs.path(numbered(pos[2], k).as_bytes());
                    if !st.fs.parent_ok(&to) { return Ok(Some(7 << 8)); }
                    st.fs.put(&to, o);
                }
                Ok(Some((num(2) as u32) << 8))
            }
            "tesseract" => {
                if pos.len() != 3 || pos[2] != "tsv" { return Ok(Some(9 << 8)); }
                let list = match get(st, pos[0]) { Some(o) => o, None => return Ok(Some(8 << 8)) };
                let list: Vec<u8> = (0..list.data.len()).map(|k| list.byte(k).lo as u8).collect();
                let mut v: Vec<V> = b"level\tpage_num\tblock_num\tpar_num\tline_num\tword_num\tleft\ttop\twidth\theight\tconf\ttext\n".iter().map(|x| c(*x as u64)).collect();
                for l in String::from_utf8_lossy(&list).lines() {
                    let o = match get(st, l) { Some(o) => o, None => return Ok(Some(8 << 8)) };
                    v.extend((0..o.data.len()).map(|k| o.byte(k)));
                }
                let to = st.fs.path(format!("{}.tsv", pos[1]).as_bytes());
                if !st.fs.parent_ok(&to) { return Ok(Some(7 << 8)); }
                let mut o = Obj::new(v.len());
                for (k, x) in v.iter().enumerate() { o.set_v(k, 1, *x, 8); }
                st.fs.put(&to, o);
                Ok(Some((num(1) as u32) << 8))
            }
            x => Err(Stop::Error(format!("program {}", x))),
        }
    }
    fn find_glob(&self, end: &str) -> Option<u64> { self.pr.globs.iter().position(|g| g.name.contains("3std3sys4args") && g.name.contains(end)).map(|g| (GLOBAL_ID + g as u64) << 32 | OFF) }

    fn location(&mut self, st: &mut State, p: u64) -> String {
        (|| -> R<String> {
            let (f, l, ln) = (self.load(st, p, 8)?, self.load(st, p + 8, 8)?, self.load(st, p + 16, 4)?);
            if f.e != 0 || l.e != 0 || l.lo > 300 { return Ok("?".into()); }
            let b = self.conc_bytes(st, f.lo, l.lo as usize)?;
            Ok(format!("{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), ln.lo))
        })().unwrap_or_else(|_| "?".into())
    }

    /// SHA-1 block function. Concrete input: computed. Symbolic input: an injective function with
    /// generic outputs, so equal (state, block) pairs give equal results and different ones different results.
    fn sha1(&mut self, st: &mut State, args: &[V]) -> R<V> {
        let (sp, bp, n) = (self.conc(st, args[0])?, self.conc(st, args[1])?, self.conc(st, args[2])? as usize);
        let mut cur = self.load_bytes(st, sp, 20)?;
        let mut calls: Vec<ShaCall> = vec![];
        let mut fresh = 0;
        for blk in 0..n {
            let mut inp = cur.clone();
            inp.extend(self.load_bytes(st, bp + 64 * blk as u64, 64)?);
            let bytes = |h: &[u32; 5]| -> Vec<V> { h.iter().flat_map(|x| x.to_le_bytes()).map(|x| c(x as u64)).collect() };
            let concrete = inp.iter().all(|v| v.e == 0);
            let out: Vec<V> = if concrete && !st.sha.iter().chain(calls.iter()).any(|p| p.input.iter().any(|v| v.e != 0)) {
                let b: Vec<u8> = inp.iter().map(|v| v.lo as u8).collect();
                let mut h = [0u32; 5];
                for k in 0..5 { h[k] = u32::from_le_bytes(b[4 * k..4 * k + 4].try_into().unwrap()); }
                sha1_block(&mut h, &b[20..]);
                bytes(&h)
            } else {
                let mut found = None;
                let prev: Vec<ShaCall> = st.sha.iter().chain(calls.iter()).cloned().collect();
                for p in &prev {
                    let mut eq = c(1);
                    for (x, y) in p.input.iter().zip(&inp) { let e = veq(8, *x, *y); eq = vand(eq, e); if eq.e == 0 && eq.lo == 0 { break; } }
                    if self.decide(st, eq)? { found = Some(p.output.clone()); break; }
                }
                match found {
                    Some(o) => (*o).clone(),
                    None if concrete => {
                        let b: Vec<u8> = inp.iter().map(|v| v.lo as u8).collect();
                        let mut h = [0u32; 5];
                        for k in 0..5 { h[k] = u32::from_le_bytes(b[4 * k..4 * k + 4].try_into().unwrap()); }
                        sha1_block(&mut h, &b[20..]);
                        bytes(&h)
                    }
                    None => {
                        fresh += 1;
                        // a generic value: the real hash of a counter
                        let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
                        let mut b = [0u8; 64];
                        b[..8].copy_from_slice(b"generic\0");
                        b[8] = prev.len() as u8;
                        b[9] = st.sha_salt;
                        sha1_block(&mut h, &b);
                        bytes(&h)
                    }
                }
            };
            calls.push(ShaCall { input: Rc::new(inp), output: Rc::new(out.clone()) });
            cur = out;
        }
        self.sha_sym += fresh;
        for k in calls { if !st.sha.iter().any(|p| p.input.iter().zip(k.input.iter()).all(|(x, y)| x.e == y.e && x.lo == y.lo)) { st.sha.push(k); } }
        self.store_bytes(st, sp, &cur)?;
        Ok(c(0))
    }

    pub fn builtin(&mut self, st: &mut State, b: u32, fname: &str, args: &[V], dst: u32, nret: u32) -> R<V> {
        let is = |x: B| b == x as u32;
        if is(B::Alloc) || is(B::AllocZ) || is(B::Malloc) {
            let n = self.conc(st, args[0])? as usize;
            if n > 1 << 28 { return Err(Stop::Error(format!("allocation of {} bytes at {}", n, st.where_am_i()))); }
            return Ok(c(self.alloc(st, n)));
        }
        if is(B::Dealloc) || is(B::Free) { let a = self.conc(st, args[0])?; if a != 0 { self.free(st, a)?; } return Ok(c(0)); }
        if is(B::Realloc) { let n = self.conc(st, args[3])? as usize; let a = self.conc(st, args[0])?; return Ok(c(self.realloc(st, a, n)?)); }
        if is(B::CRealloc) { let n = self.conc(st, args[1])? as usize; let a = self.conc(st, args[0])?; return Ok(c(if a == 0 { self.alloc(st, n) } else { self.realloc(st, a, n)? })); }
        if is(B::Calloc) { let n = self.conc(st, args[0])? * self.conc(st, args[1])?; return Ok(c(self.alloc(st, n as usize))); }
        if is(B::NoShim) { return Ok(c(0)); }
        if is(B::Memcmp) { return self.memcmp_v(st, args[0], args[1], args[2], false); }
        if is(B::Bcmp) { return self.memcmp_v(st, args[0], args[1], args[2], true); }
        if is(B::HashVal) { return Ok(c(st.hash)); }
        if is(B::Strlen) {
            let a = self.conc(st, args[0])?;
            let mut n = 0;
            loop { let v = self.load(st, a + n, 1)?; let z = veq(8, v, c(0)); if self.decide(st, z)? { return Ok(c(n)); } n += 1; }
        }
        if is(B::Memchr) || is(B::Memrchr) {
            let x = args[0];
            let (a, n) = (self.conc(st, args[1])?, self.conc(st, args[2])? as usize);
            let b = self.load_bytes(st, a, n)?;
            let mut res = (c(0), c(0));
            for k in 0..n {
                let k = if is(B::Memchr) { k } else { n - 1 - k };
                let e = veq(8, b[k], x);
                if self.decide(st, e)? { res = (c(1), c(k as u64)); break; }
            }
            st.set(dst, res.0); st.set(dst + 1, res.1);
            return Ok(res.0);
        }
        if is(B::Sha1) { return self.sha1(st, args); }
        if is(B::PanicFmt) {
            let name = st.where_am_i();
            // the location is the last argument of panic_fmt (rust_panic_with_hook gets it further in)
            let l = if args.len() == 3 { let p = args[2]; let p = self.conc(st, p)?; self.location(st, p) } else { "?".into() };
            let short: String = name.split(" < ").take(6).collect::<Vec<_>>().join(" < ");
            st.last_panic = Rc::from(format!("panic at {} [{}]", l, short));
            self.panicked(st)?;
            return Err(Stop::Jumped);
        }
        if is(B::DbgStr) {
            let (p, n) = (self.conc(st, args[0])?, self.conc(st, args[1])? as usize);
            let v = self.load_bytes(st, p, n)?;
            if v.iter().any(|x| x.e != 0) { return Ok(c(0)); } // text of an error message: not modelled
            let fid = match self.pr.funcs.iter().position(|f| f.builtin == B::DbgStr as u32 && f.range.is_some()) { Some(f) => f as u32, None => return Err(Stop::Error("str Debug".into())) };
            let f = self.pr.func(fid).unwrap();
            self.enter(st, f, args, dst, nret)?;
            return Err(Stop::Jumped);
        }
        self.named(st, fname, args, dst, nret)
    }

    fn named(&mut self, st: &mut State, n: &str, args: &[V], dst: u32, nret: u32) -> R<V> {
        macro_rules! a { ($k:expr) => { self.conc(st, args[$k])? } }
        let path = |s: &mut Self, st: &mut State, p: u64| -> R<String> { let b = s.cstr(st, p)?; Ok(st.fs.path(&b)) };
        match n {
            // ---------------------------------------------------------------- harness intrinsics
            "verif_dep_panic" => Ok(c(st.dep_panic as u64)),
            "verif_bytes" => {
                // label, len, out, n, domain bitmap
                let l = self.lbl(st, args[0], args[1])?;
                let (out, cnt, dp) = (a!(2), a!(3) as usize, a!(4));
                let bm = self.conc_bytes(st, dp, 32)?;
                let mut dom: Set = [0; 4];
                for k in 0..256 { if bm[k / 8] >> (k % 8) & 1 == 1 { set_add(&mut dom, k as u8); } }
                if set_empty(&dom) { return Err(Stop::Error("empty domain".into())); }
                let mut vars = vec![];
                for k in 0..cnt {
                    let v = self.new_input(st, dom);
                    vars.push(v);
                    let e = ar().vars[v as usize].0;
                    let x = if set_len(&dom) == 1 { c(set_first(&dom).unwrap() as u64) } else { V::of(e) };
                    self.store(st, out + k as u64, 1, x)?;
                }
                st.inputs.push(Input { label: l.into(), vars });
                Ok(c(0))
            }
            "verif_assume" => { self.assume(st, vext(args[0], 0, 1))?; Ok(c(0)) }
            "verif_check" => { let l = self.lbl(st, args[1], args[2])?; self.check(st, vext(args[0], 0, 1), &l)?; Ok(c(0)) }
            "verif_fork" => { let e = vext(args[0], 0, 1); let r = self.decide(st, e)?; Ok(c(r as u64)) }
            "verif_cover" => {
                let l = self.lbl(st, args[0], args[1])?;
                *self.covers.entry(l).or_default() += 1;
                Ok(c(0))
            }
            "verif_note" => {
                // shown with a counterexample, evaluated under the model then current
                let (p, n) = (a!(0), a!(1) as usize);
                let b = self.load_bytes(st, p, n)?;
                let s: Vec<u8> = b.iter().map(|v| if v.e == 0 { v.lo as u8 } else { self.eval(st, v.e) as u8 }).collect();
                let s = String::from_utf8_lossy(&s).into_owned();
                if self.trace_notes { eprintln!("note: {}", s); }
                st.notes.push(s.into());
                if st.notes.len() > 40 { st.notes.remove(0); }
                Ok(c(0))
            }
            "verif_call" => {
                let (f, d) = (a!(0), args[1]);
                let fid = ((f >> 32) - FUNC_ID) as u32;
                st.catch.push(Catch { depth: st.frames.len() });
                let f = match self.pr.func(fid) { Some(f) => f, None => return Err(Stop::Error("verif_call of an undefined function".into())) };
                self.enter(st, f, &[d], dst, nret)?;
                Err(Stop::Jumped)
            }
            "verif_set_args" => {
                let (p, len) = (a!(0), a!(1) as usize);
                let b = self.load_bytes(st, p, len)?;
                let mut starts = vec![0usize];
                for (k, v) in b.iter().enumerate() { if v.e == 0 && v.lo == 0 && k + 1 < len { starts.push(k + 1); } }
                let m = self.alloc(st, len);
                self.store_bytes(st, m, &b)?;
                let av = self.alloc(st, 8 * (starts.len() + 1));
                for (k, s) in starts.iter().enumerate() { self.store(st, av + 8 * k as u64, 8, c(m + *s as u64))?; }
                let (gc, gv) = match (self.find_glob("4ARGC"), self.find_glob("4ARGV")) { (Some(x), Some(y)) => (x, y), _ => return Err(Stop::Error("ARGC/ARGV not found".into())) };
                self.store(st, gc, 8, c(starts.len() as u64))?;
                self.store(st, gv, 8, c(av))?;
                st.fs.process();
                Ok(c(0))
            }
            "verif_fs_reset" => { st.fs.reset(); Ok(c(0)) }
            "verif_mkdir" => { let l = self.lbl(st, args[0], args[1])?; let p = st.fs.path(l.as_bytes()); st.fs.names.insert(p, Node { kind: Kind::Dir, ino: 0 }); Ok(c(0)) }
            "verif_write_file" => {
                let l = self.lbl(st, args[0], args[1])?;
                let (p, n) = (a!(2), a!(3) as usize);
                let b = self.load_bytes(st, p, n)?;
                let mut o = Obj::new(n);
                for (k, v) in b.iter().enumerate() { o.set_v(k, 1, *v, 8); }
                let path = st.fs.path(l.as_bytes());
                st.fs.put(&path, o);
                Ok(c(0))
            }
            "verif_remove" => { let l = self.lbl(st, args[0], args[1])?; let p = st.fs.path(l.as_bytes()); st.fs.names.remove(&p); Ok(c(0)) }
            "verif_file_len" => {
                let l = self.lbl(st, args[0], args[1])?;
                let p = st.fs.path(l.as_bytes());
                Ok(match st.fs.names.get(&p) { Some(nd) if nd.kind == Kind::File => c(st.fs.inodes[nd.ino].data.len() as u64), Some(_) => neg(-2), None => neg(-1) })
            }
            "verif_file_get" => {
                let l = self.lbl(st, args[0], args[1])?;
                let out = a!(2);
                let p = st.fs.path(l.as_bytes());
                let o = match st.fs.names.get(&p) { Some(nd) if nd.kind == Kind::File => st.fs.inodes[nd.ino].clone(), _ => return Err(Stop::Error(format!("no file {}", p))) };
                let b: Vec<V> = (0..o.data.len()).map(|k| o.byte(k)).collect();
                self.store_bytes(st, out, &b)?;
                Ok(c(0))
            }
            "verif_file_count" => Ok(c(st.fs.names.iter().filter(|(k, n)| n.kind == Kind::File && k.starts_with("/w/")).count() as u64)),
            "verif_temp_count" => Ok(c(st.fs.names.keys().filter(|k| k.starts_with("/tmp/")).count() as u64)),
            "verif_set_hash" => { st.hash = a!(0); Ok(c(0)) }
            "verif_faults" => { st.fault_kinds = a!(0) as u32; st.fault_budget = a!(1) as u32; Ok(c(0)) }
            "verif_sha_reset" => { st.sha.clear(); Ok(c(0)) }
            "verif_sha_salt" => { st.sha_salt = a!(0) as u8; Ok(c(0)) }
            // ---------------------------------------------------------------- C library
            "__errno_location" => Ok(c(st.errno)),
            "posix_memalign" => { let n = a!(2) as usize; let p = a!(0); let m = self.alloc(st, n); self.store(st, p, 8, c(m))?; Ok(c(0)) }
            "exit" | "_exit" => { let code = a!(0) & 0xff; self.unwind(st, code)?; Err(Stop::Jumped) }
            "abort" => { if st.last_panic.is_empty() { st.last_panic = Rc::from(format!("abort at {}", st.where_am_i())); } self.panicked(st)?; Err(Stop::Jumped) }
            "getenv" => Ok(c(0)),
            "open64" | "open" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                let fl = a!(1);
                let (acc, creat, excl, trunc, append) = (fl & 3, fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
                if acc != 0 || creat {
                    match self.fault_choice(st, FK_ERR | FK_CRASH)? { 3 => return self.fail(st, 13), 4 => return self.crash(st), _ => {} }
                }
                let nd = st.fs.names.get(&p).cloned();
                let (ino, dir) = match nd {
                    Some(nd) if nd.kind == Kind::Dir => { if acc != 0 || creat { return self.fail(st, 21); } (0, true) }
                    Some(nd) => { if creat && excl { return self.fail(st, 17); } if trunc && acc != 0 { st.fs.inodes[nd.ino] = Rc::new(Obj::new(0)); } (nd.ino, false) }
                    None => { if !creat || !st.fs.parent_ok(&p) { return self.fail(st, 2); } st.fs.put(&p, Obj::new(0)); (st.fs.names[&p].ino, false) }
                };
                let at = if dir { Some(Rc::new(st.fs.listing(&p))) } else if fl & O_DIRECTORY != 0 { return self.fail(st, 20); } else { None };
                Ok(c(st.fs.add_fd(Fd { ino, pos: 0, append, wr: acc != 0, rd: acc != 1, dir, at })))
            }
            // directories: a DIR is its descriptor followed by the entry last read
            "opendir" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                match st.fs.names.get(&p) { Some(n) if n.kind == Kind::Dir => {} Some(_) => { self.set_errno(st, 20)?; return Ok(c(0)); } None => { self.set_errno(st, 2)?; return Ok(c(0)); } }
                let at = Some(Rc::new(st.fs.listing(&p)));
                let f = st.fs.add_fd(Fd { ino: 0, pos: 0, append: false, wr: false, rd: true, dir: true, at });
                let m = self.alloc(st, 320);
                self.store(st, m, 8, c(f))?;
                Ok(c(m))
            }
            "fdopendir" => {
                let f = a!(0);
                match st.fs.fd(f) { Some(d) if d.dir => {} _ => { self.set_errno(st, 20)?; return Ok(c(0)); } }
                let m = self.alloc(st, 320);
                self.store(st, m, 8, c(f))?;
                Ok(c(m))
            }
            "dirfd" => { let d = a!(0); self.load(st, d, 8) }
            "closedir" => { let d = a!(0); let f = self.load(st, d, 8)?; st.fs.fds[f.lo as usize] = None; self.free(st, d)?; Ok(c(0)) }
            "readdir64" => {
                let d = a!(0);
                let f = self.load(st, d, 8)?.lo;
                let e = match st.fs.fd(f) { Some(fd) => { let k = fd.pos; fd.pos += 1; fd.at.as_ref().and_then(|l| l.names.get(k).cloned()) } None => return Err(Stop::Error("readdir of a closed directory".into())) };
                let (name, kind) = match e { Some(e) => e, None => return Ok(c(0)) };
                let mut b = vec![0u8; 20 + name.len()];
                b[0] = 1;
                b[16..18].copy_from_slice(&280u16.to_le_bytes());
                b[18] = if kind == Kind::Dir { 4 } else { 8 };
                b[19..19 + name.len()].copy_from_slice(name.as_bytes());
                let v: Vec<V> = b.iter().map(|x| c(*x as u64)).collect();
                self.store_bytes(st, d + 16, &v)?;
                Ok(c(d + 16))
            }
            "openat64" | "unlinkat" | "fstatat64" | "mkdirat" => {
                let (df, p) = (a!(0), a!(1));
                let b = self.cstr(st, p)?;
                let base = if df as u32 as i32 == -100 || b.first() == Some(&b'/') { None } else { match st.fs.fd(df).and_then(|f| f.at.clone()) { Some(l) => Some(l.path.clone()), None => return self.fail(st, 9) } };
                let full = match base { Some(d) => format!("{}/{}", d, String::from_utf8_lossy(&b)), None => String::from_utf8_lossy(&b).into_owned() };
                let m = self.alloc(st, full.len() + 1);
                let v: Vec<V> = full.bytes().chain([0]).map(|x| c(x as u64)).collect();
                self.store_bytes(st, m, &v)?;
                let mut rest = vec![c(m)];
                rest.extend_from_slice(&args[2..]);
                let to = match n { "openat64" => "open64", "mkdirat" => "mkdir", "fstatat64" => "lstat64", _ => if a!(2) & 0x200 != 0 { "rmdir" } else { "unlink" } };
                let r = self.named(st, to, &rest, dst, nret);
                self.free(st, m)?;
                r
            }
            // programs
            "gnu_get_libc_version" => { let m = self.alloc(st, 8); for (k, x) in b"2.39\0".iter().enumerate() { self.store(st, m + k as u64, 1, c(*x as u64))?; } Ok(c(m)) }
            "posix_spawnattr_init" | "posix_spawn_file_actions_init" | "posix_spawn_file_actions_adddup2" | "posix_spawnattr_setpgroup" | "sigemptyset" | "sigaddset" | "posix_spawnattr_setsigdefault" | "posix_spawnattr_setflags" | "posix_spawnattr_setsigmask" | "posix_spawn_file_actions_destroy" | "posix_spawnattr_destroy" => Ok(c(0)),
            "posix_spawnp" | "posix_spawn" => {
                let (pid, prog, argv) = (a!(0), a!(1), a!(4));
                let name = self.cstr(st, prog)?;
                let mut av: Vec<String> = vec![];
                loop { let p = self.load(st, argv + 8 * av.len() as u64, 8)?; let p = self.conc(st, p)?; if p == 0 { break; } let b = self.cstr(st, p)?; av.push(String::from_utf8_lossy(&b).into_owned()); }
                let code = if name.contains(&b'/') { let p = st.fs.path(&name); self.program(st, &p, &av)? } else { None };
                match code { None => Ok(c(2)), Some(x) => { st.spawned.push(x); self.store(st, pid, 4, c(5000 + st.spawned.len() as u64 - 1))?; Ok(c(0)) } }
            }
            "waitpid" => {
                let (p, s) = (a!(0) as u32 as u64, a!(1));
                let k = p.wrapping_sub(5000) as usize;
                if k >= st.spawned.len() { return self.fail(st, 10); }
                let x = st.spawned[k];
                if s != 0 { self.store(st, s, 4, c(x as u64))?; }
                Ok(c(p))
            }
            "close" => { let f = a!(0); if st.fs.fd(f).is_none() { return self.fail(st, 9); } st.fs.fds[f as usize] = None; Ok(c(0)) }
            "read" => { let (f, p, n) = (a!(0), a!(1), a!(2) as usize); self.do_read(st, f, p, n) }
            "readv" => { let (f, p, n) = (a!(0), a!(1), a!(2) as usize); let v = self.iov(st, p, n)?; match v.iter().find(|x| x.1 > 0) { Some((b, l)) => { let (b, l) = (*b, *l); self.do_read(st, f, b, l) } None => Ok(c(0)) } }
            "write" => { let (f, p, n) = (a!(0), a!(1), a!(2) as usize); let b = self.load_bytes(st, p, n)?; self.do_write(st, f, b) }
            "writev" => {
                let (f, p, n) = (a!(0), a!(1), a!(2) as usize);
                let v = self.iov(st, p, n)?;
                let mut b = vec![];
                for (p, l) in v { b.extend(self.load_bytes(st, p, l)?); }
                self.do_write(st, f, b)
            }
            "fsync" | "fdatasync" => Ok(c(0)),
            "ftruncate64" => {
                let (f, n) = (a!(0), a!(1) as usize);
                let fd = match st.fs.fd(f) { Some(f) if f.wr => f.clone(), _ => return self.fail(st, 9) };
                match self.fault_choice(st, FK_ERR | FK_CRASH)? { 3 => return self.fail(st, 28), 4 => return self.crash(st), _ => {} }
                Rc::make_mut(&mut st.fs.inodes[fd.ino]).resize(n);
                Ok(c(0))
            }
            "lseek64" => {
                let (f, o, w) = (a!(0), a!(1) as i64, a!(2));
                let len = match st.fs.fd(f) { Some(fd) => { let i = fd.ino; let d = fd.dir; if f < 3 || d { return self.fail(st, 29); } st.fs.inodes[i].data.len() as i64 } None => return self.fail(st, 9) };
                let fd = st.fs.fd(f).unwrap();
                let p = match w { 0 => o, 1 => fd.pos as i64 + o, _ => len + o };
                if p < 0 { return self.fail(st, 22); }
                fd.pos = p as usize;
                Ok(c(p as u64))
            }
            "fstat64" => {
                let (f, buf) = (a!(0), a!(1));
                let fd = match st.fs.fd(f) { Some(f) => f.clone(), None => return self.fail(st, 9) };
                self.stat(st, buf, if fd.dir { Kind::Dir } else { Kind::File }, fd.ino, if f < 3 { Some(0o10600) } else { None })
            }
            "stat64" | "lstat64" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                let buf = a!(1);
                match st.fs.names.get(&p).cloned() { Some(nd) => self.stat(st, buf, nd.kind, nd.ino, None), None => self.fail(st, 2) }
            }
            "realpath" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                if !st.fs.names.contains_key(&p) { self.set_errno(st, 2)?; return Ok(c(0)); }
                let m = self.alloc(st, p.len() + 1);
                let v: Vec<V> = p.bytes().chain([0]).map(|x| c(x as u64)).collect();
                self.store_bytes(st, m, &v)?;
                Ok(c(m))
            }
            "getcwd" => {
                let (p, n) = (a!(0), a!(1) as usize);
                let s = st.fs.cwd.clone();
                if s.len() + 1 > n { self.set_errno(st, 34)?; return Ok(c(0)); }
                let v: Vec<V> = s.bytes().chain([0]).map(|x| c(x as u64)).collect();
                self.store_bytes(st, p, &v)?;
                Ok(c(p))
            }
            "mkdir" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                if st.fs.names.contains_key(&p) { return self.fail(st, 17); }
                if !st.fs.parent_ok(&p) { return self.fail(st, 2); }
                match self.fault_choice(st, FK_ERR | FK_CRASH)? { 3 => return self.fail(st, 13), 4 => return self.crash(st), _ => {} }
                st.fs.names.insert(p, Node { kind: Kind::Dir, ino: 0 });
                Ok(c(0))
            }
            "unlink" => {
                let p = a!(0);
                let p = path(self, st, p)?;
                match self.fault_choice(st, FK_ERR | FK_CRASH)? { 3 => return self.fail(st, 13), 4 => return self.crash(st), _ => {} }
                match st.fs.names.get(&p) { Some(n) if n.kind == Kind::File => { st.fs.names.remove(&p); Ok(c(0)) } Some(_) => self.fail(st, 21), None => self.fail(st, 2) }
            }
            "rmdir" => { let p = a!(0); let p = path(self, st, p)?; match st.fs.names.get(&p) { Some(n) if n.kind == Kind::Dir => { if !st.fs.listing(&p).names.is_empty() { return self.fail(st, 39); } st.fs.names.remove(&p); Ok(c(0)) } _ => self.fail(st, 2) } }
            "rename" => {
                let (x, y) = (a!(0), a!(1));
                let (x, y) = (path(self, st, x)?, path(self, st, y)?);
                match self.fault_choice(st, FK_ERR | FK_CRASH)? { 3 => return self.fail(st, 13), 4 => return self.crash(st), _ => {} }
                match st.fs.names.get(&x).cloned() {
                    Some(nd) if nd.kind == Kind::File => { if !st.fs.parent_ok(&y) { return self.fail(st, 2); } st.fs.names.remove(&x); st.fs.names.insert(y, nd); Ok(c(0)) }
                    Some(_) => self.fail(st, 22),
                    None => self.fail(st, 2),
                }
            }
            "chmod" | "fchmod" | "chown" | "fchown" | "futimens" | "flock" => Ok(c(0)),
            "fcntl" => Ok(c(0)),
            "isatty" => { self.set_errno(st, 25)?; Ok(c(0)) }
            "ioctl" => self.fail(st, 25),
            "readlink" => self.fail(st, 22),
            "clock_gettime" => { let p = a!(1); self.store(st, p, 8, c(1_700_000_000))?; self.store(st, p + 8, 8, c(0))?; Ok(c(0)) }
            "getrandom" => {
                let (p, n) = (a!(0), a!(1) as usize);
                let v: Vec<V> = (0..n).map(|k| { st.rand = st.rand.wrapping_mul(1664525).wrapping_add(1013904223); c(((st.rand >> 16) as u64 + k as u64) & 0xff) }).collect();
                self.store_bytes(st, p, &v)?;
                Ok(c(n as u64))
            }
            "syscall" => {
                let k = a!(0);
                if k == 278 { // getrandom
                    let (p, n) = (a!(1), a!(2) as usize);
                    let v: Vec<V> = (0..n).map(|k| { st.rand = st.rand.wrapping_mul(1664525).wrapping_add(1013904223); c(((st.rand >> 16) as u64 + k as u64) & 0xff) }).collect();
                    self.store_bytes(st, p, &v)?;
                    return Ok(c(n as u64));
                }
                if k == 178 { return Ok(c(1)); } // gettid
                if k == 98 { return Ok(c(0)); } // futex
                self.fail(st, 38)
            }
            "getpid" | "gettid" => Ok(c(4242)),
            "getuid" => Ok(c(0)),
            "sysconf" => Ok(c(4096)),
            "__xpg_strerror_r" => { let (p, n) = (a!(1), a!(2)); if n > 4 { for (k, x) in b"err\0".iter().enumerate() { self.store(st, p + k as u64, 1, c(*x as u64))?; } } Ok(c(0)) }
            "pthread_key_create" => { let p = a!(0); st.keys += 1; let k = st.keys; self.store(st, p, 4, c(k))?; Ok(c(0)) }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "pthread_attr_destroy" | "sched_yield" | "sigaction" | "signal" | "prctl" | "poll" | "dl_iterate_phdr" | "pthread_setname_np" => Ok(c(0)),
            "pthread_self" => Ok(c(1)),
            "_Unwind_Backtrace" => Ok(c(5)),
            _ => Err(Stop::Error(format!("external function {} called at {}", n, st.where_am_i()))),
        }
    }
}
const O_DIRECTORY: u64 = 0o200000;
pub const FK_SHORT: u32 = 2;
pub const FK_EINTR: u32 = 4;
pub const FK_ERR: u32 = 8;
pub const FK_CRASH: u32 = 16;
pub const FK_RSHORT: u32 = 32;
pub const FK_REINTR: u32 = 64;
pub const FK_RERR: u32 = 128;

pub fn sha1_block(h: &mut [u32; 5], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 { w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
    for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
    let [mut a, mut bb, mut cc, mut d, mut e] = *h;
    for (i, wi) in w.iter().enumerate() {
        let (f, k) = match i / 20 { 0 => ((bb & cc) | (!bb & d), 0x5A827999), 1 => (bb ^ cc ^ d, 0x6ED9EBA1), 2 => ((bb & cc) | (bb & d) | (cc & d), 0x8F1BBCDC), _ => (bb ^ cc ^ d, 0xCA62C1D6u32) };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
        e = d; d = cc; cc = bb.rotate_left(30); bb = a; a = t;
    }
    for (x, y) in h.iter_mut().zip([a, bb, cc, d, e]) { *x = x.wrapping_add(y); }
}

/// The name with its `%d` or `%0Nd` filled in, as GraphicsMagick does.
fn numbered(name: &str, k: usize) -> String {
    let (i, rest) = match name.find('%') { Some(i) => (i, &name[i + 1..]), None => return name.to_string() };
    let n = rest.bytes().take_while(|c| c.is_ascii_digit()).count();
    if rest.as_bytes().get(n) != Some(&b'd') { return name.to_string(); }
    let width: usize = rest[..n].parse().unwrap_or(0);
    format!("{}{:0w$}{}", &name[..i], k, &rest[n + 1..], w = width)
}
