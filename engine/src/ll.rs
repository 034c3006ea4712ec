//! Textual LLVM IR -> bytecode.
use std::collections::HashMap;
use std::rc::Rc;
use crate::expr::{Fx, V};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Struct(Rc<Vec<Ty>>, bool), Arr(u64, Rc<Ty>), Fn, Other }
use Ty::*;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ptr | F64 => 8, F32 => 4,
            Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Arr(_, t) => t.align(), _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Int(w) => { let b = (*w as u64 + 7) / 8; round(b, self.align()) }
            Ptr | F64 => 8, F32 => 4,
            Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() { if !p { o = round(o, t.align()); } o += t.size(); }
                if *p { o } else { round(o, self.align()) }
            }
            Arr(n, t) => n * t.size(), _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() { if !p { o = round(o, t.align()); } if j as u64 == i { return o; } o += t.size(); }
                panic!("field")
            }
            Arr(_, t) => i * t.size(), _ => panic!("field_off"),
        }
    }
    pub fn field(&self, i: u64) -> &Ty { match self { Struct(f, _) => &f[i as usize], Arr(_, t) => t, _ => panic!("field of {:?}", self) } }
    pub fn nfields(&self) -> u64 { match self { Struct(f, _) => f.len() as u64, Arr(n, _) => *n, _ => 0 } }
    /// Flattened scalar leaves: (type, byte offset).
    pub fn leaves(&self, off: u64, out: &mut Vec<(Ty, u64)>) {
        match self {
            Struct(..) | Arr(..) => for i in 0..self.nfields() { self.field(i).leaves(off + self.field_off(i), out); },
            Void => {}
            t => out.push((t.clone(), off)),
        }
    }
    pub fn nslots(&self) -> u32 { let mut v = vec![]; self.leaves(0, &mut v); v.len() as u32 }
    pub fn bits(&self) -> u16 { match self { Int(w) => *w, Ptr | F64 => 64, F32 => 32, t => panic!("bits of {:?}", t) } }
}
pub fn round(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

pub const GLOBAL_ID: u64 = 1;
pub const FUNC_ID: u64 = 0x1000_0000;
pub const HEAP_ID: u64 = 0x2000_0000;
pub const STACK_ID: u64 = 0x4000_0000;
pub const OFF: u64 = 0x10000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Opd(pub u32);
impl Opd { pub const C: u32 = 0x8000_0000; }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Mov, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }
#[derive(Clone, Debug)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, Opd)>, pub par: bool }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Opd) }
#[derive(Clone, Debug)]
pub struct CallSite { pub callee: Callee, pub args: Vec<Opd>, pub dst: u32, pub nret: u32, pub retw: u16 }

#[derive(Clone, Debug)]
pub enum Op {
    Bin { k: crate::expr::K, w: u16, d: u32, a: Opd, b: Opd, ovf: u8 },
    FBin { k: u8, w: u16, d: u32, a: Opd, b: Opd },
    FCmp { k: u8, w: u16, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u16, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: u16, to: u16, d: u32, a: Opd },
    Select { w: u16, d: u32, c: Opd, a: Opd, b: Opd },
    Load { w: u16, sz: u8, d: u32, p: Opd, off: u32 },
    Store { w: u16, sz: u8, v: Opd, p: Opd, off: u32 },
    Gep { d: u32, base: Opd, off: i64, terms: Box<[(Opd, u16, u64)]> },
    Gep1 { d: u32, base: Opd, off: i64 },
    Alloca { d: u32, off: u32 },
    Mov { d: u32, a: Opd },
    Call(Box<CallSite>),
    Intr { id: Intr, w: u16, d: u32, args: Box<[Opd]> },
    CmpXchg { w: u16, sz: u8, d: u32, p: Opd, c: Opd, n: Opd },
    AtomicRmw { k: u8, w: u16, sz: u8, d: u32, p: Opd, v: Opd },
    Br(Box<Edge>),
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { w: u16, v: Opd, cases: Box<HashMap<u128, u32, Fx>>, edges: Box<[Edge]>, def: u32 },
    Ret(Box<[Opd]>),
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Memcpy, Memset, Assume, Umin, Umax, Smin, Smax, AddOv(bool), SubOv(bool), MulOv(bool), USubSat, UAddSat, SSubSat, SAddSat,
    Fshl, Fshr, Ctlz, Cttz, Ctpop, Bswap, Bitreverse, Abs, Ucmp, Scmp, Trap, Nop, Mov, FAbs, CopySign, FtoUiSat(u16), FtoSiSat(u16),
}

pub struct Func { pub name: String, pub id: u32, pub nregs: u32, pub nargs: u32, pub consts: Vec<V>, pub code: Vec<Op>, pub frame: u32, pub lines: Vec<u32> }

pub struct FnInfo { pub name: String, pub module: usize, pub range: Option<(usize, usize)>, pub body: Option<Rc<Func>>, pub builtin: u32 }
pub struct GlobInfo { pub name: String, pub module: usize, pub range: Option<(usize, usize)>, pub is_const: bool }

pub struct Module { pub text: &'static str, pub name: String, pub local: HashMap<&'static str, Sym, Fx>, pub types: HashMap<&'static str, &'static str, Fx>, pub tcache: HashMap<String, Ty, Fx> }
#[derive(Clone, Copy, Debug)]
pub enum Sym { F(u32), G(u32) }

pub struct Program {
    pub mods: Vec<Module>, pub funcs: Vec<FnInfo>, pub globs: Vec<GlobInfo>,
    pub ext: HashMap<&'static str, Sym, Fx>, pub aliases: HashMap<(usize, &'static str), &'static str, Fx>,
}

fn unq(s: &'static str) -> &'static str { if s.starts_with('"') { &s[1..s.len() - 1] } else { s } }

/// End of a symbol name starting at `i` (after @ or %).
fn name_end(b: &[u8], i: usize) -> usize {
    if b[i] == b'"' { let mut j = i + 1; while b[j] != b'"' { j += 1; } return j + 1; }
    let mut j = i;
    while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) { j += 1; }
    j
}

impl Program {
    pub fn new() -> Self { Program { mods: vec![], funcs: vec![], globs: vec![], ext: Default::default(), aliases: Default::default() } }

    pub fn load(&mut self, path: &str) -> std::io::Result<()> {
        let text: &'static str = Box::leak(std::fs::read_to_string(path)?.into_boxed_str());
        let mi = self.mods.len();
        self.mods.push(Module { text, name: path.to_string(), local: Default::default(), types: Default::default(), tcache: Default::default() });
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let eol = match memchr(b'\n', &b[i..]) { Some(k) => i + k, None => b.len() };
            match b[i] {
                b'%' => {
                    let e = name_end(b, i + 1);
                    let name = unq(&text[i + 1..e]);
                    if let Some(rest) = text[e..eol].strip_prefix(" = type ") { self.mods[mi].types.insert(name, rest); }
                }
                b'@' => {
                    let e = name_end(b, i + 1);
                    let name = unq(&text[i + 1..e]);
                    let rest = &text[e + 3..eol];
                    let local = rest.starts_with("private") || rest.starts_with("internal");
                    if let Some(p) = find_word(rest, "alias") {
                        // alias <ty>, ptr @target
                        let at = rest[p..].rfind('@').unwrap() + p;
                        let te = name_end(rest.as_bytes(), at + 1);
                        let target = unq(&rest[at + 1..te]);
                        self.aliases.insert((mi, name), target);
                        if !local { self.aliases.entry((usize::MAX, name)).or_insert(target); }
                    } else {
                        let gid = self.globs.len() as u32;
                        let external = rest.starts_with("external") || rest.starts_with("extern_weak");
                        let (kw, is_const) = match (find_word(rest, "global"), find_word(rest, "constant")) {
                            (Some(g), Some(c)) => if g < c { (g + 7, false) } else { (c + 9, true) },
                            (Some(g), None) => (g + 7, false), (None, Some(c)) => (c + 9, true), _ => panic!("global {}", &text[i..eol.min(i + 200)]),
                        };
                        let start = e + 3 + kw;
                        let range = if external { None } else { Some((start, eol)) };
                        if external {
                            // resolved through ext at use; remember as undefined
                            self.mods[mi].local.entry(name).or_insert(Sym::G(u32::MAX));
                        } else {
                            self.globs.push(GlobInfo { name: name.to_string(), module: mi, range, is_const });
                            self.mods[mi].local.insert(name, Sym::G(gid));
                            if !local { self.ext.entry(name).or_insert(Sym::G(gid)); }
                        }
                    }
                }
                b'd' if text[i..].starts_with("define ") => {
                    let at = i + memchr(b'@', &b[i..eol]).unwrap();
                    let e = name_end(b, at + 1);
                    let name = unq(&text[at + 1..e]);
                    let mut j = eol + 1;
                    // body ends at a line that is exactly "}"
                    loop {
                        let k = j + memchr(b'\n', &b[j..]).unwrap_or(b.len() - j);
                        if k - j == 1 && b[j] == b'}' { j = k; break; }
                        j = k + 1;
                    }
                    let head = &text[i..at];
                    let local = head.contains(" internal ") || head.contains(" private ");
                    let fid = self.funcs.len() as u32;
                    self.funcs.push(FnInfo { name: name.to_string(), module: mi, range: Some((i, j)), body: None, builtin: 0 });
                    self.mods[mi].local.insert(name, Sym::F(fid));
                    if !local { self.ext.entry(name).or_insert(Sym::F(fid)); }
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
            i = eol + 1;
        }
        Ok(())
    }

    /// Resolves a symbol used in module `mi`.
    pub fn resolve(&mut self, mi: usize, name: &'static str) -> Sym {
        let mut name = name;
        for _ in 0..8 {
            if let Some(&s) = self.mods[mi].local.get(name) { if !matches!(s, Sym::G(u32::MAX)) { return s; } }
            if let Some(&s) = self.ext.get(name) { self.mods[mi].local.insert(name, s); return s; }
            if let Some(&t) = self.aliases.get(&(mi, name)).or_else(|| self.aliases.get(&(usize::MAX, name))) { name = t; continue; }
            break;
        }
        if let Some(Sym::G(u32::MAX)) = self.mods[mi].local.get(name) {
            // external global without a definition: null for weak symbols, else a zeroed cell
            let gid = self.globs.len() as u32;
            self.globs.push(GlobInfo { name: name.to_string(), module: mi, range: None, is_const: false });
            self.ext.insert(name, Sym::G(gid));
            return Sym::G(gid);
        }
        // external function
        let fid = self.funcs.len() as u32;
        self.funcs.push(FnInfo { name: name.to_string(), module: mi, range: None, body: None, builtin: 0 });
        self.ext.insert(name, Sym::F(fid));
        Sym::F(fid)
    }
    pub fn sym_addr(&mut self, mi: usize, name: &'static str) -> u64 {
        match self.resolve(mi, name) {
            Sym::F(f) => {
                // weak externals that the system need not provide are null
                if self.funcs[f as usize].range.is_none() && crate::libc::weak_null(&self.funcs[f as usize].name) { return 0; }
                (FUNC_ID + f as u64) << 32 | OFF
            }
            Sym::G(g) => {
                if self.globs[g as usize].range.is_none() && crate::libc::weak_null(&self.globs[g as usize].name) { return 0; }
                (GLOBAL_ID + g as u64) << 32 | OFF
            }
        }
    }

    pub fn func(&mut self, fid: u32) -> Option<Rc<Func>> {
        let f = &self.funcs[fid as usize];
        if let Some(b) = &f.body { return Some(b.clone()); }
        let (s, e) = f.range?;
        let mi = f.module;
        let name = f.name.clone();
        let text = &self.mods[mi].text[s..e];
        let mut p = P { pr: self, mi, t: text.as_bytes(), s: text, i: 0, regs: Default::default(), nregs: 0, consts: vec![], cmap: Default::default(), code: vec![], lines: vec![], frame: 0 };
        let func = Rc::new(p.function(name, fid));
        self.funcs[fid as usize].body = Some(func.clone());
        Some(func)
    }

    /// Initial bytes of a global.
    pub fn global_bytes(&mut self, g: u32) -> Vec<u8> {
        let gi = &self.globs[g as usize];
        let mi = gi.module;
        let (s, e) = match gi.range { Some(r) => r, None => return vec![0; 64] };
        let text = &self.mods[mi].text[s..e];
        let mut p = P { pr: self, mi, t: text.as_bytes(), s: text, i: 0, regs: Default::default(), nregs: 0, consts: vec![], cmap: Default::default(), code: vec![], lines: vec![], frame: 0 };
        let ty = p.ty();
        let mut out = vec![0u8; ty.size() as usize];
        p.init(&ty, 0, &mut out);
        out
    }
}
pub fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    extern "C" { fn memchr(s: *const u8, c: i32, n: usize) -> *const u8; }
    let r = unsafe { memchr(b.as_ptr(), c as i32, b.len()) };
    if r.is_null() { None } else { Some(r as usize - b.as_ptr() as usize) }
}
fn find_word(s: &str, w: &str) -> Option<usize> {
    // only within the leading keyword run
    let mut i = 0;
    let b = s.as_bytes();
    while i < b.len() {
        let mut j = i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') { j += 1; }
        if j == i { if b[j] == b'(' { while b[j] != b')' { j += 1; } i = j + 1; continue; } if b[j] == b' ' { i += 1; continue; } return None; }
        if &s[i..j] == w { return Some(i); }
        i = j;
    }
    None
}

struct P<'a> {
    pr: &'a mut Program, mi: usize, t: &'static [u8], s: &'static str, i: usize,
    regs: HashMap<&'static str, (u32, u32), Fx>, nregs: u32, consts: Vec<V>, cmap: HashMap<(u64, u64), u32, Fx>,
    code: Vec<Op>, lines: Vec<u32>, frame: u32,
}

enum Val { Flat(Vec<Opd>) }

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.t.len() {
            match self.t[self.i] { b' ' | b'\n' | b'\t' => self.i += 1,
                b';' => { while self.i < self.t.len() && self.t[self.i] != b'\n' { self.i += 1; } }
                _ => break }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.t.len() { self.t[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn want(&mut self, c: u8) { if !self.eat(c) { let e = (self.i + 80).min(self.t.len()); panic!("expected {:?} at {:?}", c as char, String::from_utf8_lossy(&self.t[self.i..e])); } }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || matches!(self.t[self.i], b'_' | b'.')) { self.i += 1; }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'static str { let k = { self.ws(); self.i }; let w = self.word(); self.i = k; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    fn skip_line(&mut self) { while self.i < self.t.len() && self.t[self.i] != b'\n' { self.i += 1; } }
    fn name(&mut self) -> &'static str {
        // after % or @
        let e = name_end(self.t, self.i);
        let n = unq(&self.s[self.i..e]);
        self.i = e;
        n
    }
    fn parens(&mut self) {
        // skip a balanced (...) group
        let mut d = 0;
        loop {
            match self.t[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 { self.ws(); let st = self.i; while self.t[self.i].is_ascii_digit() { self.i += 1; } self.s[st..self.i].parse().unwrap() }

    fn ty(&mut self) -> Ty {
        let t = self.ty0();
        // function type suffix:  ret (params)
        if self.peek() == b'(' && self.i > 0 {
            // only treated as a function type by callers that check; leave it
        }
        t
    }
    fn ty0(&mut self) -> Ty {
        match self.peek() {
            b'{' => { self.i += 1; self.fields(false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let t = self.fields(true); self.want(b'>'); t }
                else { self.num(); self.word(); let _ = self.ty0(); self.want(b'>'); Other }
            }
            b'[' => { self.i += 1; let n = self.num(); assert_eq!(self.word(), "x"); let t = self.ty0(); self.want(b']'); Arr(n, Rc::new(t)) }
            b'%' => {
                self.i += 1;
                let n = self.name();
                if let Some(t) = self.pr.mods[self.mi].tcache.get(n) { return t.clone(); }
                let txt = self.pr.mods[self.mi].types[n];
                let mut p = P { pr: self.pr, mi: self.mi, t: txt.as_bytes(), s: txt, i: 0, regs: Default::default(), nregs: 0, consts: vec![], cmap: Default::default(), code: vec![], lines: vec![], frame: 0 };
                let t = if txt.starts_with("opaque") { Other } else { p.ty0() };
                self.pr.mods[self.mi].tcache.insert(n.to_string(), t.clone());
                t
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Void, "ptr" => Ptr, "float" => F32, "double" => F64, "half" | "fp128" | "metadata" | "label" | "token" => Other,
                    _ => if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 { Int(w[1..].parse().unwrap()) }
                         else { let e = (self.i + 60).min(self.t.len()); panic!("type? {:?} {:?}", w, String::from_utf8_lossy(&self.t[self.i..e])) }
                }
            }
        }
    }
    fn fields(&mut self, packed: bool) -> Ty {
        let mut v = vec![];
        if !self.eat(b'}') { loop { v.push(self.ty0()); if !self.eat(b',') { break; } } self.want(b'}'); }
        Struct(Rc::new(v), packed)
    }

    fn konst(&mut self, v: V) -> Opd {
        let n = self.consts.len() as u32;
        let k = *self.cmap.entry((v.lo, v.hi)).or_insert(n);
        if k == n { self.consts.push(v); }
        Opd(Opd::C | k)
    }
    fn slot(&mut self, name: &'static str, n: u32) -> u32 {
        if let Some(&(s, k)) = self.regs.get(name) { assert!(k == n, "slot count of {}", name); return s; }
        let s = self.nregs;
        self.nregs += n;
        self.regs.insert(name, (s, n));
        s
    }
    fn tmp(&mut self) -> u32 { self.nregs += 1; self.nregs - 1 }

    /// Constant scalar: integer, pointer expression ...
    fn cscalar(&mut self, ty: &Ty) -> Option<V> {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let n = self.name(); let a = self.pr.sym_addr(self.mi, n); Some(V::c(a)) }
            c if c.is_ascii_digit() || c == b'-' || self.t[self.i..].starts_with(b"f0x") => {
                let st = self.i;
                self.i += 1;
                while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || matches!(self.t[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                let s = &self.s[st..self.i];
                match ty {
                    F64 => Some(V::c(if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("f0x")) { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() })),
                    F32 if s.starts_with("f0x") => Some(V::c(u32::from_str_radix(&s[3..], 16).unwrap() as u64)),
                    F32 => Some(V::c((if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32 } else { s.parse::<f64>().unwrap() as f32 }).to_bits() as u64)),
                    Int(w) => {
                        let v = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() };
                        Some(V::c128(v & crate::expr::mask(*w)))
                    }
                    Other => Some(V::c(0)),
                    t => panic!("const {} of {:?}", s, t),
                }
            }
            _ => {
                let w = self.peek_word();
                match w {
                    "true" => { self.word(); Some(V::c(1)) }
                    "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => { self.word(); Some(V::c(0)) }
                    "getelementptr" => {
                        self.word();
                        loop { let k = self.peek_word(); if k == "inbounds" || k == "nuw" || k == "nusw" { self.word(); } else if k == "inrange" { self.word(); self.ws(); self.parens(); } else { break; } }
                        self.want(b'(');
                        let ety = self.ty0();
                        self.want(b',');
                        let _ = self.ty0();
                        let base = self.cscalar(&Ptr).unwrap().lo;
                        let mut off = 0u64; let mut cur = ety; let mut first = true;
                        while self.eat(b',') {
                            let t = self.ty0();
                            let v = self.cscalar(&t).unwrap();
                            let ix = crate::expr::sx(v.u128(), t.bits()) as u64;
                            if first { off = off.wrapping_add(ix.wrapping_mul(cur.size())); first = false; }
                            else { off = off.wrapping_add(cur.field_off(ix)); cur = cur.field(ix).clone(); }
                        }
                        self.want(b')');
                        Some(V::c(base.wrapping_add(off)))
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "addrspacecast" => {
                        self.word(); self.want(b'(');
                        let t = self.ty0();
                        let v = self.cscalar(&t).unwrap();
                        assert_eq!(self.word(), "to");
                        let t2 = self.ty0();
                        self.want(b')');
                        Some(V::c128(v.u128() & crate::expr::mask(t2.bits())))
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        self.word();
                        loop { let k = self.peek_word(); if k == "nuw" || k == "nsw" { self.word(); } else { break; } }
                        self.want(b'(');
                        let t = self.ty0(); let a = self.cscalar(&t).unwrap(); self.want(b',');
                        let t = self.ty0(); let b = self.cscalar(&t).unwrap(); self.want(b')');
                        use crate::expr::K::*;
                        let k = match w { "add" => Add, "sub" => Sub, "xor" => Xor, "and" => And, "or" => Or, "mul" => Mul, _ => Shl };
                        Some(V::c128(crate::expr::fold(k, t.bits(), a.u128(), b.u128())))
                    }
                    _ => None,
                }
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> Vec<Opd> {
        match self.peek() {
            b'%' => { self.i += 1; let n = self.name(); let k = ty.nslots(); let s = self.slot(n, k); (0..k).map(|j| Opd(s + j)).collect() }
            _ => match ty {
                Struct(..) | Arr(..) => {
                    let w = self.peek_word();
                    if matches!(w, "undef" | "poison" | "zeroinitializer") { self.word(); let z = self.konst(V::c(0)); return vec![z; ty.nslots() as usize]; }
                    let close = match self.peek() { b'{' => { self.i += 1; b'}' } b'[' => { self.i += 1; b']' } b'<' => { self.i += 1; self.want(b'{'); b'}' }
                        b'c' => { let mut by = vec![0u8; ty.size() as usize]; self.init(ty, 0, &mut by); return by.into_iter().map(|x| self.konst(V::c(x as u64))).collect(); }
                        c => panic!("aggregate {:?}", c as char) };
                    let mut out = vec![];
                    if !self.eat(close) { loop { let t = self.ty0(); out.extend(self.val(&t)); if !self.eat(b',') { break; } } self.want(close); }
                    if let Struct(_, true) = ty { self.want(b'>'); }
                    out
                }
                _ => { let v = self.cscalar(ty); match v { Some(v) => vec![self.konst(v)], None => { let e = (self.i + 80).min(self.t.len()); panic!("value {:?}", String::from_utf8_lossy(&self.t[self.i..e])) } } }
            },
        }
    }
    fn val1(&mut self, ty: &Ty) -> Opd { self.val(ty)[0] }

    fn init(&mut self, ty: &Ty, off: usize, out: &mut [u8]) {
        let w = self.peek_word();
        if matches!(w, "undef" | "poison" | "zeroinitializer") { self.word(); return; }
        match ty {
            Struct(..) => {
                let packed = self.eat(b'<');
                self.want(b'{');
                let mut k = 0;
                if !self.eat(b'}') {
                    loop { let t = self.ty0(); self.init(&t, off + ty.field_off(k) as usize, out); k += 1; if !self.eat(b',') { break; } }
                    self.want(b'}');
                }
                if packed { self.want(b'>'); }
            }
            Arr(_, et) => {
                if self.peek() == b'c' {
                    self.i += 1; self.want(b'"');
                    let mut o = off;
                    while self.t[self.i] != b'"' {
                        if self.t[self.i] == b'\\' && self.t[self.i + 1] == b'\\' { out[o] = b'\\'; self.i += 2; }
                        else if self.t[self.i] == b'\\' { out[o] = u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap(); self.i += 3; }
                        else { out[o] = self.t[self.i]; self.i += 1; }
                        o += 1;
                    }
                    self.i += 1;
                    return;
                }
                self.want(b'[');
                let es = et.size() as usize;
                let mut k = 0;
                if !self.eat(b']') { loop { let t = self.ty0(); self.init(&t, off + k * es, out); k += 1; if !self.eat(b',') { break; } } self.want(b']'); }
            }
            t => {
                let v = self.cscalar(t).expect("init scalar").u128();
                let n = t.size() as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }

    /// Skips parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_lowercase() { return; }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "nocapture" | "signext" | "zeroext" | "inreg" | "nofree" | "returned"
                | "immarg" | "nest" | "swiftself" | "dead_on_unwind" | "writable" | "allocptr" | "allocalign" | "noext" => { self.word(); }
                "align" => { self.word(); if self.peek() == b'(' { self.parens(); } else { self.num(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "captures" | "initializes" | "dead_on_return" | "memory" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "byref"
                    => { self.word(); if self.peek() == b'(' { self.parens(); } }
                _ => return,
            }
        }
    }

    fn function(&mut self, name: String, id: u32) -> Func {
        // header
        while self.t[self.i] != b'@' { self.i += 1; }
        self.i += 1;
        self.name();
        self.want(b'(');
        let mut nargs = 0;
        let mut unnamed = 0usize;
        if !self.eat(b')') {
            loop {
                if self.peek() == b'.' { self.i += 3; break; }
                let t = self.ty0();
                self.attrs();
                let n = t.nslots();
                let nm = if self.peek() == b'%' { self.i += 1; self.name() } else { let s = Box::leak(unnamed.to_string().into_boxed_str()); s };
                unnamed += 1;
                let s = self.slot(nm, n);
                debug_assert_eq!(s, nargs);
                nargs += n;
                if !self.eat(b',') { break; }
            }
            self.want(b')');
        }
        while self.t[self.i] != b'\n' { self.i += 1; }
        // blocks
        let mut starts: HashMap<&'static str, u32, Fx> = Default::default();
        let mut phis: HashMap<&'static str, Vec<(u32, Vec<(Vec<Opd>, &'static str)>)>, Fx> = Default::default();
        let mut cur: &'static str = "";
        // the entry block may be unlabelled
        self.ws();
        if !self.is_label() { cur = Box::leak(nargs_label(unnamed).into_boxed_str()); starts.insert(cur, 0); }
        // edges are patched afterwards: they are recorded as (code index, which, from, to)
        let mut pend: Vec<(usize, &'static str, Vec<&'static str>)> = vec![];
        loop {
            self.ws();
            if self.i >= self.t.len() || self.t[self.i] == b'}' { break; }
            if self.is_label() {
                let n = if self.t[self.i] == b'"' { self.name() } else { self.name() };
                self.want(b':');
                starts.insert(n, self.code.len() as u32);
                cur = n;
                self.skip_line();
                continue;
            }
            let st = self.i;
            let ncode = self.code.len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.instr(cur, &mut phis, &mut pend)));
            if r.is_err() {
                self.i = st;
                self.code.truncate(ncode);
                let end = st + memchr(b'\n', &self.t[st..]).unwrap_or(self.t.len() - st);
                let msg = self.s[st..end].to_string();
                // still allocate the destination so that later uses parse
                self.code.push(Op::Unsupported(msg.into_boxed_str()));
            }
            if !self.t[st..].starts_with(b"switch") { self.i = st; }
            self.skip_line();
            while self.lines.len() < self.code.len() { self.lines.push(st as u32); }
        }
        // patch edges
        for (ci, from, tos) in pend {
            let mut edges = vec![];
            for to in tos {
                let target = starts[to];
                let mut moves = vec![];
                if let Some(ps) = phis.get(to) {
                    for (d, inc) in ps {
                        let (v, _) = inc.iter().find(|(_, l)| *l == from).unwrap_or_else(|| panic!("phi edge {} -> {}", from, to));
                        for (k, o) in v.iter().enumerate() { if *o != Opd(d + k as u32) { moves.push((d + k as u32, *o)); } }
                    }
                }
                let par = moves.iter().any(|(_, s)| moves.iter().any(|(d, _)| Opd(*d) == *s));
                edges.push(Edge { target, moves, par });
            }
            match &mut self.code[ci] {
                Op::Br(e) => **e = edges.remove(0),
                Op::CondBr { t, f, .. } => { **f = edges.remove(1); **t = edges.remove(0); }
                Op::Switch { edges: es, .. } => *es = edges.into_boxed_slice(),
                _ => {}
            }
        }
        Func { name, id, nregs: self.nregs, nargs, consts: std::mem::take(&mut self.consts), code: std::mem::take(&mut self.code), frame: self.frame, lines: std::mem::take(&mut self.lines) }
    }
    fn is_label(&mut self) -> bool {
        let b = self.t;
        let i = self.i;
        if i >= b.len() || !(b[i].is_ascii_alphanumeric() || matches!(b[i], b'"' | b'_' | b'.' | b'$' | b'-')) { return false; }
        let e = name_end(b, i);
        e < b.len() && b[e] == b':'
    }

    fn instr(&mut self, cur: &'static str, phis: &mut HashMap<&'static str, Vec<(u32, Vec<(Vec<Opd>, &'static str)>)>, Fx>, pend: &mut Vec<(usize, &'static str, Vec<&'static str>)>) {
        use crate::expr::K;
        let mut dn: Option<&'static str> = None;
        if self.peek() == b'%' { self.i += 1; dn = Some(self.name()); self.want(b'='); }
        let mut op = self.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = self.word(); }
        macro_rules! dst { ($n:expr) => { match dn { Some(n) => self.slot(n, $n), None => self.tmp() } } }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(self.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") { self.word(); }
                let t = self.ty0();
                let a = self.val1(&t); self.want(b','); let b = self.val1(&t);
                let k = match op { "add" => K::Add, "sub" => K::Sub, "mul" => K::Mul, "udiv" => K::UDiv, "sdiv" => K::SDiv, "urem" => K::URem, "srem" => K::SRem,
                    "and" => K::And, "or" => K::Or, "xor" => K::Xor, "shl" => K::Shl, "lshr" => K::LShr, _ => K::AShr };
                let d = dst!(1);
                self.code.push(Op::Bin { k, w: t.bits(), d, a, b, ovf: 0 });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(self.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { self.word(); }
                let t = self.ty0(); let a = self.val1(&t); self.want(b','); let b = self.val1(&t);
                let d = dst!(1);
                let k = match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 };
                self.code.push(Op::FBin { k, w: t.bits(), d, a, b });
            }
            "fneg" => { let t = self.ty0(); let a = self.val1(&t); let d = dst!(1); self.code.push(Op::FBin { k: 5, w: t.bits(), d, a, b: a }); }
            "fcmp" => {
                let p = self.word();
                let t = self.ty0(); let a = self.val1(&t); self.want(b','); let b = self.val1(&t);
                let d = dst!(1);
                let k = match p { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "ueq" => 8, "ugt" => 9, "uge" => 10, "ult" => 11, "ule" => 12, "une" => 13, "uno" => 14, _ => 15 };
                self.code.push(Op::FCmp { k, w: t.bits(), d, a, b });
            }
            "icmp" => {
                if self.peek_word() == "samesign" { self.word(); }
                let p = self.word();
                let t = self.ty0(); let a = self.val1(&t); self.want(b','); let b = self.val1(&t);
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let d = dst!(1);
                self.code.push(Op::ICmp { p, w: t.bits(), d, a, b });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoaddr" => {
                while matches!(self.peek_word(), "nuw" | "nsw" | "nneg") { self.word(); }
                let t = self.ty0(); let a = self.val1(&t);
                assert_eq!(self.word(), "to");
                let t2 = self.ty0();
                let d = dst!(1);
                let (from, to) = (t.bits(), t2.bits());
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                    _ => if from > to { Cast::Trunc } else if from < to { Cast::ZExt } else { Cast::Mov } };
                self.code.push(Op::Cast { k, from, to, d, a });
            }
            "freeze" => { let t = self.ty0(); let v = self.val(&t); let d = dst!(v.len() as u32); for (k, o) in v.iter().enumerate() { self.code.push(Op::Mov { d: d + k as u32, a: *o }); } }
            "select" => {
                while matches!(self.peek_word(), "nnan" | "ninf" | "nsz" | "fast") { self.word(); }
                let ct = self.ty0(); let c = self.val1(&ct); self.want(b',');
                let t = self.ty0(); let a = self.val(&t); self.want(b','); let t2 = self.ty0(); let b = self.val(&t2);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let d = dst!(a.len() as u32);
                for k in 0..a.len() { self.code.push(Op::Select { w: lv[k].0.bits(), d: d + k as u32, c, a: a[k], b: b[k] }); }
            }
            "alloca" => {
                let t = self.ty0();
                let mut n = 1; let mut al = 16u64;
                while self.eat(b',') {
                    if self.eat_word("align") { al = self.num(); } else { let it = self.ty0(); let v = self.cscalar(&it).expect("dynamic alloca"); n = v.lo; }
                }
                let off = round(self.frame as u64, al.max(1));
                self.frame = (off + t.size() * n) as u32;
                let d = dst!(1);
                self.code.push(Op::Alloca { d, off: off as u32 });
            }
            "load" => {
                while matches!(self.peek_word(), "volatile" | "atomic") { self.word(); }
                let t = self.ty0(); self.want(b','); let _ = self.ty0(); let p = self.val1(&Ptr);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                let d = dst!(lv.len() as u32);
                for (k, (lt, off)) in lv.iter().enumerate() { self.code.push(Op::Load { w: lt.bits(), sz: ((lt.bits() + 7) / 8) as u8, d: d + k as u32, p, off: *off as u32 }); }
            }
            "store" => {
                while matches!(self.peek_word(), "volatile" | "atomic") { self.word(); }
                let t = self.ty0(); let v = self.val(&t); self.want(b','); let _ = self.ty0(); let p = self.val1(&Ptr);
                let mut lv = vec![]; t.leaves(0, &mut lv);
                for (k, (lt, off)) in lv.iter().enumerate() { self.code.push(Op::Store { w: lt.bits(), sz: ((lt.bits() + 7) / 8) as u8, v: v[k], p, off: *off as u32 }); }
            }
            "getelementptr" => {
                loop { let k = self.peek_word(); if matches!(k, "inbounds" | "nuw" | "nusw") { self.word(); } else { break; } }
                let ety = self.ty0(); self.want(b',');
                let _ = self.ty0(); let base = self.val1(&Ptr);
                let mut off = 0i64; let mut terms: Vec<(Opd, u16, u64)> = vec![]; let mut cur = ety; let mut first = true;
                while self.peek() == b',' {
                    let save = self.i;
                    self.i += 1;
                    if self.peek() == b'!' { self.i = save; break; }
                    let t = self.ty0();
                    let v = self.val1(&t);
                    let c = if v.0 & Opd::C != 0 { Some(crate::expr::sx(self.consts[(v.0 & !Opd::C) as usize].u128(), t.bits()) as i64) } else { None };
                    let esz = if first { cur.size() } else { match &cur { Arr(_, e) => e.size(), _ => 0 } };
                    match c {
                        Some(k) => { if first { off = off.wrapping_add(k.wrapping_mul(esz as i64)); } else { off = off.wrapping_add(match &cur { Arr(_, e) => k.wrapping_mul(e.size() as i64), c => c.field_off(k as u64) as i64 }); } }
                        None => terms.push((v, t.bits(), esz)),
                    }
                    if !first { let k = c.unwrap_or(0).max(0) as u64; let nx = match &cur { Arr(_, e) => (**e).clone(), c => c.field(k).clone() }; cur = nx; }
                    first = false;
                }
                let d = dst!(1);
                if terms.is_empty() { self.code.push(Op::Gep1 { d, base, off }); } else { self.code.push(Op::Gep { d, base, off, terms: terms.into_boxed_slice() }); }
            }
            "phi" => {
                while matches!(self.peek_word(), "nnan" | "ninf" | "nsz" | "fast") { self.word(); }
                let t = self.ty0();
                let d = dst!(t.nslots());
                let mut inc = vec![];
                loop {
                    self.want(b'[');
                    let v = self.val(&t); self.want(b','); self.want(b'%'); let l = self.name(); self.want(b']');
                    inc.push((v, l));
                    let save = self.i;
                    if !self.eat(b',') { break; }
                    if self.peek() != b'[' { self.i = save; break; }
                }
                phis.entry(cur).or_default().push((d, inc));
            }
            "extractvalue" => {
                let t = self.ty0(); let v = self.val(&t);
                let (mut o, mut c) = (0u32, t);
                loop {
                    let save = self.i;
                    if !self.eat(b',') { break; }
                    if !self.peek().is_ascii_digit() { self.i = save; break; }
                    let k = self.num();
                    for j in 0..k { o += c.field(j).nslots(); }
                    let n = c.field(k).clone(); c = n;
                }
                let n = c.nslots();
                let d = dst!(n);
                for k in 0..n { self.code.push(Op::Mov { d: d + k, a: v[(o + k) as usize] }); }
            }
            "insertvalue" => {
                let t = self.ty0(); let v = self.val(&t); self.want(b',');
                let t2 = self.ty0(); let nv = self.val(&t2);
                let (mut o, mut c) = (0u32, t.clone());
                loop {
                    let save = self.i;
                    if !self.eat(b',') { break; }
                    if !self.peek().is_ascii_digit() { self.i = save; break; }
                    let k = self.num();
                    for j in 0..k { o += c.field(j).nslots(); }
                    let n = c.field(k).clone(); c = n;
                }
                let n = t.nslots();
                let d = dst!(n);
                for k in 0..n {
                    let src = if k >= o && k < o + nv.len() as u32 { nv[(k - o) as usize] } else { v[k as usize] };
                    self.code.push(Op::Mov { d: d + k, a: src });
                }
            }
            "cmpxchg" => {
                while matches!(self.peek_word(), "weak" | "volatile") { self.word(); }
                let _ = self.ty0(); let p = self.val1(&Ptr); self.want(b',');
                let t = self.ty0(); let c = self.val1(&t); self.want(b','); let t = self.ty0(); let n = self.val1(&t);
                let d = dst!(2);
                self.code.push(Op::CmpXchg { w: t.bits(), sz: ((t.bits() + 7) / 8) as u8, d, p, c, n });
            }
            "atomicrmw" => {
                while matches!(self.peek_word(), "volatile") { self.word(); }
                let k = self.word();
                let _ = self.ty0(); let p = self.val1(&Ptr); self.want(b','); let t = self.ty0(); let v = self.val1(&t);
                let d = dst!(1);
                let k = match k { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "max" => 6, "min" => 7, "umax" => 8, "umin" => 9, "nand" => 10, _ => panic!("rmw") };
                self.code.push(Op::AtomicRmw { k, w: t.bits(), sz: ((t.bits() + 7) / 8) as u8, d, p, v });
            }
            "fence" => {}
            "unreachable" => self.code.push(Op::Unreachable),
            "ret" => { let t = self.ty0(); let v = if t == Void { vec![] } else { self.val(&t) }; self.code.push(Op::Ret(v.into_boxed_slice())); }
            "br" => {
                if self.eat_word("label") {
                    self.want(b'%'); let l = self.name();
                    pend.push((self.code.len(), cur, vec![l]));
                    self.code.push(Op::Br(Box::new(Edge { target: 0, moves: vec![], par: false })));
                } else {
                    let t = self.ty0(); let c = self.val1(&t);
                    self.want(b','); assert!(self.eat_word("label")); self.want(b'%'); let a = self.name();
                    self.want(b','); assert!(self.eat_word("label")); self.want(b'%'); let b = self.name();
                    pend.push((self.code.len(), cur, vec![a, b]));
                    let e = || Box::new(Edge { target: 0, moves: vec![], par: false });
                    self.code.push(Op::CondBr { c, t: e(), f: e() });
                }
            }
            "switch" => {
                let t = self.ty0(); let v = self.val1(&t);
                self.want(b','); assert!(self.eat_word("label")); self.want(b'%'); let dl = self.name();
                let mut labels = vec![dl]; let mut cases: HashMap<u128, u32, Fx> = Default::default();
                self.want(b'[');
                while !self.eat(b']') {
                    let t = self.ty0(); let c = self.cscalar(&t).unwrap(); self.want(b','); assert!(self.eat_word("label")); self.want(b'%'); let l = self.name();
                    let k = match labels.iter().position(|x| *x == l) { Some(k) => k, None => { labels.push(l); labels.len() - 1 } };
                    cases.insert(c.u128(), k as u32);
                }
                pend.push((self.code.len(), cur, labels));
                self.code.push(Op::Switch { w: t.bits(), v, cases: Box::new(cases), edges: Box::new([]), def: 0 });
            }
            "call" => self.call(dn),
            _ => panic!("instr {}", op),
        }
    }

    fn call(&mut self, dn: Option<&'static str>) {
        while matches!(self.peek_word(), "fastcc" | "coldcc" | "ccc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "preserve_mostcc" | "preserve_allcc" | "tailcc") { self.word(); }
        if self.eat_word("cc") { self.num(); }
        self.attrs();
        let rt = self.ty0();
        if self.peek() == b'(' { self.parens(); } // function type
        if self.eat_word("asm") {
            let nret = rt.nslots();
            if let Some(n) = dn { self.slot(n, nret); }
            // inline asm: only compiler barriers are accepted
            self.ws();
            while matches!(self.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { self.word(); }
            self.want(b'"');
            if self.t[self.i] == b'"' { 
                // empty template: outputs are passed through
                return self.code.push(Op::Unsupported("asm barrier".into()));
            }
            panic!("asm");
        }
        let callee_name: Option<&'static str>;
        let mut callee_opd = Opd(0);
        if self.peek() == b'@' { self.i += 1; callee_name = Some(self.name()); } else { callee_name = None; callee_opd = self.val1(&Ptr); }
        self.want(b'(');
        let mut args: Vec<Opd> = vec![]; let mut tys: Vec<Ty> = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty0();
                if t == Other {
                    // metadata or label argument: skip to the next comma / paren at depth 0
                    let mut d = 0;
                    loop { match self.t[self.i] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} } self.i += 1; }
                } else {
                    self.attrs();
                    let v = self.val(&t);
                    let mut lv = vec![]; t.leaves(0, &mut lv);
                    for (k, o) in v.into_iter().enumerate() { args.push(o); tys.push(lv[k].0.clone()); }
                }
                if !self.eat(b',') { break; }
            }
            self.want(b')');
        }
        let nret = rt.nslots();
        let d = match dn { Some(n) => self.slot(n, nret), None => { let s = self.nregs; self.nregs += nret; s } };
        if let Some(n) = callee_name {
            if let Some(rest) = n.strip_prefix("llvm.") {
                if let Some(op) = self.intrinsic(rest, d, &args, &tys, &rt) { self.code.push(op); }
                return;
            }
        }
        let callee = match callee_name {
            Some(n) => match self.pr.resolve(self.mi, n) { Sym::F(f) => Callee::Fn(f), Sym::G(_) => panic!("call of a global") },
            None => Callee::Ptr(callee_opd),
        };
        let retw = if nret == 1 { let mut lv = vec![]; rt.leaves(0, &mut lv); lv[0].0.bits() } else { 0 };
        self.code.push(Op::Call(Box::new(CallSite { callee, args, dst: d, nret, retw })));
    }

    fn intrinsic(&mut self, n: &str, d: u32, args: &[Opd], tys: &[Ty], rt: &Ty) -> Option<Op> {
        use Intr::*;
        let base = |s: &str| n == s || n.starts_with(&format!("{}.", s));
        let w = tys.first().map(|t| match t { Int(w) => *w, Ptr | F64 => 64, F32 => 32, _ => 0 }).unwrap_or(0);
        let a = |k: usize| -> Box<[Opd]> { args[..k].to_vec().into_boxed_slice() };
        let mk = |id: Intr, k: usize| Some(Op::Intr { id, w, d, args: a(k) });
        if base("lifetime.start") || base("lifetime.end") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || base("invariant.start") || base("invariant.end") || base("prefetch") || base("donothing") || base("sideeffect") || base("fake.use") { return None; }
        if base("memcpy") || base("memmove") || base("memcpy.inline") { return mk(Memcpy, 3); }
        if base("memset") { return mk(Memset, 3); }
        if base("assume") { return None; }
        if base("umin") { return mk(Umin, 2); } if base("umax") { return mk(Umax, 2); }
        if base("smin") { return mk(Smin, 2); } if base("smax") { return mk(Smax, 2); }
        if base("uadd.with.overflow") { return mk(AddOv(false), 2); } if base("sadd.with.overflow") { return mk(AddOv(true), 2); }
        if base("usub.with.overflow") { return mk(SubOv(false), 2); } if base("ssub.with.overflow") { return mk(SubOv(true), 2); }
        if base("umul.with.overflow") { return mk(MulOv(false), 2); } if base("smul.with.overflow") { return mk(MulOv(true), 2); }
        if base("usub.sat") { return mk(USubSat, 2); } if base("uadd.sat") { return mk(UAddSat, 2); }
        if base("ssub.sat") { return mk(SSubSat, 2); } if base("sadd.sat") { return mk(SAddSat, 2); }
        if base("fshl") { return mk(Fshl, 3); } if base("fshr") { return mk(Fshr, 3); }
        if base("ctlz") { return mk(Ctlz, 1); } if base("cttz") { return mk(Cttz, 1); } if base("ctpop") { return mk(Ctpop, 1); }
        if base("bswap") { return mk(Bswap, 1); } if base("bitreverse") { return mk(Bitreverse, 1); }
        if base("abs") { return mk(Abs, 1); }
        if base("ucmp") || base("scmp") { let rw = rt.bits(); return Some(Op::Intr { id: if base("ucmp") { Ucmp } else { Scmp }, w: w | rw << 8, d, args: a(2) }); }
        if base("trap") || base("debugtrap") { return mk(Trap, 0); }
        if base("threadlocal.address") || base("expect") || base("launder.invariant.group") || base("strip.invariant.group") || base("ssa.copy") { return mk(Mov, 1); }
        if base("is.constant") { let z = self.konst(V::c(0)); return Some(Op::Mov { d, a: z }); }
        if base("fabs") { return mk(FAbs, 1); }
        if base("copysign") { return mk(CopySign, 2); }
        if base("fptoui.sat") { return mk(FtoUiSat(rt.bits()), 1); } if base("fptosi.sat") { return mk(FtoSiSat(rt.bits()), 1); }
        Some(Op::Unsupported(format!("llvm.{}", n).into_boxed_str()))
    }
}
fn nargs_label(n: usize) -> String { n.to_string() }
#[allow(dead_code)] fn _unused(v: Val) { let Val::Flat(_) = v; }
