//! The symbolic interpreter.
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use crate::libc::Fs;

#[derive(Clone)]
pub struct Frame { pub func: &'static Func, pub base: u32, pub pc: u32, pub sp: u32, pub stk: u32, pub dst: u32, pub nret: u32 }
#[derive(Clone)]
pub struct Catch { pub depth: usize }
#[derive(Clone)]
pub struct Input { pub label: Rc<str>, pub vars: Vec<u32> }
#[derive(Clone)]
pub struct ShaCall { pub input: Rc<Vec<V>>, pub output: Rc<Vec<V>> }

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>, pub frames: Vec<Frame>, pub func: &'static Func, pub base: usize, pub pc: usize, pub stk: u32,
    pub globals: Region, pub heap: Region, pub stack: Region, pub next_heap: u32, pub sp: u32,
    pub pcs: Vec<E>, pub dom: Vec<Option<Set>>, pub model: Rc<Vec<u8>>, pub known: HashMap<E, u128, Fx>,
    pub inputs: Vec<Input>, pub nseq: u32,
    pub fs: Fs, pub catch: Vec<Catch>, pub sha: Vec<ShaCall>, pub hash: u64,
    pub errno: u64, pub last_panic: Rc<str>, pub notes: Vec<Rc<str>>, pub keys: u64, pub forks: u32,
    pub fault_budget: u32, pub fault_kinds: u32, pub fault_pending: Option<E>, pub sha_salt: u8, pub checks: u32, pub rand: u32, pub spawned: Vec<u32>, pub dep_panic: bool, pub failed: bool,
}

pub enum Stop {
    /// the path ended normally
    Done,
    /// assumption violated / nothing feasible
    Infeasible,
    /// the state was rewritten; execute the current instruction again
    Retry,
    /// control already transferred: do not advance the program counter
    Jumped,
    Error(String),
}
pub type R<T> = Result<T, Stop>;

pub struct Shared { pub stop: std::sync::atomic::AtomicI64, pub viol: std::sync::atomic::AtomicI64, pub paths: std::sync::atomic::AtomicI64, pub errors: std::sync::atomic::AtomicI64 }

pub struct Exec {
    pub pr: Program, pub sol: Solver, pub pending: Vec<State>, pub shared: &'static Shared, pub idle: &'static std::sync::atomic::AtomicI64, pub trace_notes: bool,
    pub varmap: HashMap<(u32, Set), u32, Fx>,
    pub paths: u64, pub insns: u64, pub forks: u64, pub infeasible: u64, pub unknown: u64,
    pub checks: BTreeMap<String, (u64, u64, u64, u64)>, // label -> (decided concretely, solver unsat, violated, unknown)
    pub covers: BTreeMap<String, u64>, pub touched: Vec<bool>, pub prof: HashMap<(u32, u32), u64, Fx>,
    pub deadline: Instant, pub outdir: String, pub harness: String, pub children: Vec<i32>, pub max_viol: i64, pub known: Vec<(String, String)>, pub errors: Vec<String>, pub is_child: bool,
    pub gcache: HashMap<u32, Rc<Obj>, Fx>, pub trace: bool, pub no_split: bool, pub vio: BTreeMap<String, u64>, pub samples: Vec<String>, pub splittable: bool,
    pub sha_sym: u64, pub maxcalls: usize,
}

#[inline(always)] fn obj_of(a: u64) -> (u64, u64) { (a >> 32, (a & 0xffff_ffff).wrapping_sub(OFF)) }

impl State {
    #[inline(always)] pub fn get(&self, o: Opd) -> V {
        unsafe { if o.0 & Opd::C != 0 { *self.func.consts.get_unchecked((o.0 & !Opd::C) as usize) } else { *self.regs.get_unchecked(self.base + o.0 as usize) } }
    }
    #[inline(always)] pub fn set(&mut self, d: u32, v: V) { unsafe { *self.regs.get_unchecked_mut(self.base + d as usize) = v; } }
    pub fn domain(&self, v: u32) -> Set { match self.dom.get(v as usize) { Some(Some(s)) => *s, _ => ar().vars[v as usize].1 } }
    pub fn where_am_i(&self) -> String {
        let mut s = format!("{}:{}", demangle(&self.func.name), self.pc);
        for f in self.frames.iter().rev().take(12) { s += &format!(" < {}:{}", demangle(&f.func.name), f.pc); }
        s
    }
}
pub fn demangle(n: &str) -> String {
    // cheap: the identifiers of a v0 symbol
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 && !b[i - 1].is_ascii_digit() {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(k) = n[i..j].parse::<usize>() {
                let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
                if k > 1 && st + k <= b.len() && n.is_char_boundary(st + k) && (b[st].is_ascii_alphabetic() || b[st] == b'_') { out.push(&n[st..st + k]); i = st + k; continue; }
            }
            i = j;
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out[out.len().saturating_sub(6)..].join("::") }
}

impl Exec {
    // ---------------------------------------------------------------- memory
    fn fault(&mut self, st: &mut State, a: u64) -> R<()> {
        // first touch of a global
        let (id, _) = obj_of(a);
        if id >= GLOBAL_ID && id < FUNC_ID && ((id - GLOBAL_ID) as usize) < self.pr.globs.len() {
            let g = (id - GLOBAL_ID) as u32;
            let o = match self.gcache.get(&g) {
                Some(o) => o.clone(),
                None => {
                    let data = self.pr.global_bytes(g);
                    let o = Rc::new(Obj { data, sym: None, ro: self.pr.globs[g as usize].is_const });
                    self.gcache.insert(g, o.clone());
                    o
                }
            };
            st.globals.set(g as usize, Some(o));
            return Ok(());
        }
        Err(Stop::Error(format!("bad address {:#x} at {}", a, st.where_am_i())))
    }
    #[inline(always)] fn peek<'s>(&mut self, st: &'s mut State, a: u64, sz: usize) -> R<(&'s Obj, usize)> {
        let (id, off) = obj_of(a);
        for _ in 0..2 {
            let o = if id >= STACK_ID { st.stack.get((id - STACK_ID) as usize) } else if id >= HEAP_ID { st.heap.get((id - HEAP_ID) as usize) } else { st.globals.get((id.wrapping_sub(GLOBAL_ID)) as usize) };
            if let Some(o) = o {
                if (off as usize).saturating_add(sz) > o.data.len() { return Err(Stop::Error(format!("out of bounds {:#x}+{} (size {}) at {}", a, sz, o.data.len(), st.where_am_i()))); }
                // reborrow through a raw pointer: the loop confuses the borrow checker
                let p = o as *const Obj;
                return Ok((unsafe { &*p }, off as usize));
            }
            self.fault(st, a)?;
        }
        Err(Stop::Error(format!("bad address {:#x} at {}", a, st.where_am_i())))
    }
    #[inline(always)] fn poke<'s>(&mut self, st: &'s mut State, a: u64, sz: usize) -> R<(&'s mut Obj, usize)> {
        let (id, off) = obj_of(a);
        for _ in 0..2 {
            let o = if id >= STACK_ID { st.stack.get_mut((id - STACK_ID) as usize) } else if id >= HEAP_ID { st.heap.get_mut((id - HEAP_ID) as usize) } else { st.globals.get_mut((id.wrapping_sub(GLOBAL_ID)) as usize) };
            if let Some(o) = o {
                let p = o as *mut Obj;
                let o = unsafe { &mut *p };
                if (off as usize).saturating_add(sz) > o.data.len() { return Err(Stop::Error(format!("out of bounds write {:#x}+{} (size {}) at {}", a, sz, o.data.len(), st.where_am_i()))); }
                if o.ro { return Err(Stop::Error(format!("write to constant {:#x} at {}", a, st.where_am_i()))); }
                return Ok((o, off as usize));
            }
            self.fault(st, a)?;
        }
        Err(Stop::Error(format!("bad address {:#x} at {}", a, st.where_am_i())))
    }
    pub fn load(&mut self, st: &mut State, a: u64, sz: usize) -> R<V> { let (o, off) = self.peek(st, a, sz)?; Ok(o.get_v(off, sz)) }
    pub fn store(&mut self, st: &mut State, a: u64, sz: usize, v: V) -> R<()> { let (o, off) = self.poke(st, a, sz)?; o.set_v(off, sz, v, sz as u16 * 8); Ok(()) }
    pub fn load_bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.peek(st, a, n)?;
        Ok((0..n).map(|k| o.byte(off + k)).collect())
    }
    pub fn store_bytes(&mut self, st: &mut State, a: u64, b: &[V]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.poke(st, a, b.len())?;
        for (k, v) in b.iter().enumerate() { o.set_v(off + k, 1, *v, 8); }
        Ok(())
    }
    /// Concrete bytes (symbolic ones are made concrete by case split).
    pub fn conc_bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let v = self.load_bytes(st, a, n)?;
        let mut out = vec![];
        for x in v { out.push(self.conc(st, x)? as u8); }
        Ok(out)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        loop { let v = self.load(st, a + out.len() as u64, 1)?; let c = self.conc(st, v)? as u8; if c == 0 { return Ok(out); } out.push(c); }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.peek(st, s, n)?;
        let data: Vec<u8>;
        let mut small = [0u8; 64];
        let sym: Option<Vec<E>> = if o.has_sym(off, n) { Some(o.sym.as_ref().unwrap()[off..off + n].to_vec()) } else { None };
        let src: &[u8] = if n <= 64 { small[..n].copy_from_slice(&o.data[off..off + n]); &small[..n] } else { data = o.data[off..off + n].to_vec(); &data };
        let (o, off) = self.poke(st, d, n)?;
        o.data[off..off + n].copy_from_slice(src);
        match sym {
            Some(s) => { let len = o.data.len(); o.sym.get_or_insert_with(|| Box::new(vec![0; len]))[off..off + n].copy_from_slice(&s); }
            None => if let Some(os) = &mut o.sym { for x in &mut os[off..off + n] { *x = 0; } },
        }
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u64 {
        let id = st.next_heap;
        st.next_heap += 1;
        st.heap.set(id as usize, Some(Rc::new(Obj::new(n))));
        (HEAP_ID + id as u64) << 32 | OFF
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        let (id, off) = obj_of(a);
        if id < HEAP_ID || id >= STACK_ID || off != 0 || st.heap.get((id - HEAP_ID) as usize).is_none() { return Err(Stop::Error(format!("bad free {:#x} at {}", a, st.where_am_i()))); }
        st.heap.set((id - HEAP_ID) as usize, None);
        Ok(())
    }
    pub fn realloc(&mut self, st: &mut State, a: u64, n: usize) -> R<u64> {
        let (id, off) = obj_of(a);
        if id < HEAP_ID || id >= STACK_ID || off != 0 { return Err(Stop::Error(format!("bad realloc {:#x}", a))); }
        match st.heap.get_mut((id - HEAP_ID) as usize) { Some(o) => { o.resize(n); Ok(a) } None => Err(Stop::Error("realloc of freed".into())) }
    }

    // ---------------------------------------------------------------- constraints
    pub fn new_input(&mut self, st: &mut State, dom: Set) -> u32 {
        let seq = st.nseq;
        st.nseq += 1;
        let v = match self.varmap.get(&(seq, dom)) { Some(v) => *v, None => { let v = ar().new_var(dom); self.varmap.insert((seq, dom), v); v } };
        let m = Rc::make_mut(&mut st.model);
        if m.len() <= v as usize { m.resize(v as usize + 1, 0); }
        m[v as usize] = set_first(&dom).unwrap();
        v
    }
    fn fix_model(st: &mut State) { let n = ar().vars.len(); if st.model.len() < n { Rc::make_mut(&mut st.model).resize(n, 0); } }
    pub fn eval(&mut self, st: &mut State, e: E) -> u128 { Self::fix_model(st); ar().eval(e, &st.model) }
    /// Adds a constraint that `model` satisfies.
    pub fn add(&mut self, st: &mut State, e: E, model: Rc<Vec<u8>>) {
        st.model = model;
        self.add1(st, e);
    }
    fn add1(&mut self, st: &mut State, e: E) {
        let k = ar().key(e);
        match k.k {
            K::Const => {}
            K::And => { self.add1(st, k.a); self.add1(st, k.b); }
            K::InSet => {
                let v = k.a as usize;
                if st.dom.len() <= v { st.dom.resize(v + 1, None); }
                let d = st.domain(k.a);
                st.dom[v] = Some(set_and(&d, &ar().sets[k.imm as usize]));
            }
            K::Xor if ar().cval(k.b) == Some(1) && ar().key(k.a).k == K::Or => {
                let o = ar().key(k.a);
                let (x, y) = (ar().not(o.a), ar().not(o.b));
                self.add1(st, x); self.add1(st, y);
            }
            _ => { if !st.pcs.contains(&e) { st.pcs.push(e); } }
        }
    }
    /// Is `e` consistent with the path condition? Returns a model of both.
    pub fn feas(&mut self, st: &mut State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(c) = ar().cval(e) { return Ok(if c == 1 { Some(st.model.clone()) } else { None }); }
        if self.eval(st, e) == 1 { return Ok(Some(st.model.clone())); }
        let k = ar().key(e);
        if k.k == K::InSet {
            let d = set_and(&st.domain(k.a), &ar().sets[k.imm as usize]);
            // no value is left: the solver confirms it
            if set_empty(&d) { let x = ar().in_set(k.a, st.domain(k.a)); return self.confirm(vec![x, e]); }
            let touching: Vec<E> = st.pcs.iter().copied().filter(|c| ar().sup(*c).binary_search(&k.a).is_ok()).collect();
            let mut m: Vec<u8> = (*st.model).clone();
            if touching.is_empty() { m[k.a as usize] = set_first(&d).unwrap(); return Ok(Some(Rc::new(m))); }
            for v in set_iter(&d).into_iter().take(12) {
                m[k.a as usize] = v;
                if touching.iter().all(|c| ar().eval(*c, &m) == 1) { return Ok(Some(Rc::new(m))); }
            }
        } else {
            // all variables fixed: the evaluation above was the answer
            let sup = ar().sup(e).clone();
            if sup.iter().all(|v| set_len(&st.domain(*v)) == 1) {
                let mut cs: Vec<E> = sup.iter().map(|v| { let d = st.domain(*v); ar().in_set(*v, d) }).collect();
                cs.push(e);
                return self.confirm(cs);
            }
            if k.k == K::And {
                // a conjunct may already be impossible by itself
                let mut stack = vec![e];
                while let Some(x) = stack.pop() {
                    let kx = ar().key(x);
                    if kx.k == K::And { stack.push(kx.a); stack.push(kx.b); }
                    else if kx.k == K::InSet { let d = set_and(&st.domain(kx.a), &ar().sets[kx.imm as usize]); if set_empty(&d) { let y = ar().in_set(kx.a, st.domain(kx.a)); return self.confirm(vec![y, x]); } }
                }
            }
        }
        // the constraints connected to e
        let mut vars: Vec<u32> = ar().sup(e).to_vec();
        let mut cs: Vec<E> = vec![e];
        let mut used = vec![false; st.pcs.len()];
        loop {
            let mut grew = false;
            for (i, c) in st.pcs.iter().enumerate() {
                if used[i] { continue; }
                let s = ar().sup(*c).clone();
                if s.iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true; grew = true; cs.push(*c);
                    for v in s.iter() { if let Err(p) = vars.binary_search(v) { vars.insert(p, *v); } }
                }
            }
            if !grew { break; }
        }
        for v in &vars { if let Some(Some(s)) = st.dom.get(*v as usize) { let x = ar().in_set(*v, *s); if ar().cval(x).is_none() { cs.push(x); } } }
        match self.sol.check(&cs) {
            Res::Unsat => Ok(None),
            Res::Sat(vals) => {
                let mut m = (*st.model).clone();
                if m.len() < ar().vars.len() { m.resize(ar().vars.len(), 0); }
                for (v, x) in vals { m[v as usize] = x; }
                Ok(Some(Rc::new(m)))
            }
            Res::Unknown => { self.unknown += 1; Ok(None) }
        }
    }
    /// What the domains of the variables rule out is put to the solver as well.
    fn confirm(&mut self, mut cs: Vec<E>) -> R<Option<Rc<Vec<u8>>>> {
        cs.retain(|x| ar().cval(*x) != Some(1));
        match self.sol.check(&cs) {
            Res::Sat(_) => panic!("the solver disagrees with the domains of the variables"),
            Res::Unsat => Ok(None),
            Res::Unknown => { self.unknown += 1; Ok(None) }
        }
    }
    pub fn conc(&mut self, st: &mut State, v: V) -> R<u64> { if v.e == 0 { Ok(v.lo) } else { self.conc_e(st, v.e).map(|x| x as u64) } }
    /// Value of `e` on this path; alternatives are queued (they execute the current instruction again).
    pub fn conc_e(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(c) = ar().cval(e) { return Ok(c); }
        if let Some(v) = st.known.get(&e) { return Ok(*v); }
        let v = self.eval(st, e);
        let w = ar().w(e);
        let c = ar().cst(w, v);
        let eq = ar().eq(e, c);
        let ne = ar().not(eq);
        if let Some(m) = self.feas(st, ne)? {
            let mut o = self.fork(st);
            self.add(&mut o, ne, m);
            self.push(o);
            let m = st.model.clone();
            self.add(st, eq, m);
        }
        st.known.insert(e, v);
        Ok(v)
    }
    pub fn conc_o(&mut self, st: &mut State, o: Opd) -> R<u64> {
        let v = st.get(o);
        if v.e == 0 { return Ok(v.lo); }
        let x = self.conc_e(st, v.e)?;
        if o.0 & Opd::C == 0 { st.set(o.0, V::c128(x)); }
        Ok(x as u64)
    }
    fn fork(&mut self, st: &mut State) -> State {
        self.forks += 1;
        st.forks += 1;
        *self.prof.entry((st.func.id, st.pc as u32)).or_default() += 1;
        st.clone()
    }
    fn push(&mut self, st: State) { self.pending.push(st); }
    /// Decides a condition for this path, queueing the other outcome (which re-executes the instruction).
    pub fn decide(&mut self, st: &mut State, c: V) -> R<bool> {
        if c.e == 0 { return Ok(c.lo & 1 == 1); }
        let v = self.eval(st, c.e) == 1;
        let n = ar().not(c.e);
        let (mine, other) = if v { (c.e, n) } else { (n, c.e) };
        if let Some(m) = self.feas(st, other)? {
            let mut o = self.fork(st);
            self.add(&mut o, other, m);
            self.push(o);
            let m = st.model.clone();
            self.add(st, mine, m);
        }
        Ok(v)
    }

    fn load_sym(&mut self, st: &mut State, e: E, sz: usize) -> R<V> {
        if let Some(v) = st.known.get(&e) { let a = *v as u64; return self.load(st, a, sz); }
        let sup = ar().sup(e).clone();
        if sup.len() == 1 {
            if let Some(t) = ar().tab(e) {
                let var = sup[0];
                let dom = st.domain(var);
                let vals = set_iter(&dom);
                let mut groups: Vec<(V, Set)> = vec![];
                let mut konst = true;
                for b in vals {
                    let a = t[b as usize];
                    let (id, _) = obj_of(a);
                    let r = match self.load(st, a, sz) {
                        Ok(r) => r,
                        // an address no value of this path leads to
                        Err(x) => { let mut s = [0; 4]; set_add(&mut s, b); let q = ar().in_set(var, s); if self.feas(st, q)?.is_none() { continue; } return Err(x); }
                    };
                    if !(id < FUNC_ID && st.globals.get((id - GLOBAL_ID) as usize).map(|o| o.ro).unwrap_or(false)) { konst = false; }
                    match groups.iter_mut().find(|(g, _)| g.lo == r.lo && g.hi == r.hi && g.e == r.e) { Some((_, s)) => set_add(s, b), None => { let mut s = [0; 4]; set_add(&mut s, b); groups.push((r, s)); } }
                }
                if groups.len() == 1 { return Ok(groups[0].0); }
                let ptrs = sz == 8 && groups.iter().any(|(g, _)| g.e == 0 && g.lo >> 32 != 0);
                if (konst && !ptrs) || sz == 1 {
                    groups.sort_by_key(|(_, s)| std::cmp::Reverse(set_len(s)));
                    let mut acc = groups[0].0;
                    for (r, s) in &groups[1..] { let c = ar().in_set(var, *s); acc = vite(sz as u16 * 8, V::of(c), *r, acc); }
                    return Ok(acc);
                }
                // split on the loaded value
                let mv = st.model[var as usize];
                let (r, s) = *groups.iter().find(|(_, s)| set_has(s, mv)).unwrap();
                let mine = ar().in_set(var, s);
                let other = ar().not(mine);
                if let Some(m) = self.feas(st, other)? {
                    let mut o = self.fork(st);
                    self.add(&mut o, other, m);
                    self.push(o);
                    let m = st.model.clone();
                    self.add(st, mine, m);
                }
                return Ok(r);
            }
        }
        // constant table indexed by a bounded expression
        let n = ar().n[e as usize];
        let (id, _) = obj_of(n.lo as u64);
        if n.hi - n.lo <= 8 * 512 && id == obj_of(n.hi as u64).0 && id >= GLOBAL_ID && id < FUNC_ID {
            let _ = self.peek(st, n.lo as u64, sz);
            if let Some(o) = st.globals.get((id - GLOBAL_ID) as usize) {
                if o.ro {
                    let base = ar().cst(64, n.lo);
                    let off = ar().bin(K::Sub, e, base);
                    let sh = sz.trailing_zeros() as u16;
                    let lowz = sh == 0 || { let l = ar().extract(off, 0, sh); ar().cval(l) == Some(0) };
                    if sz.is_power_of_two() && lowz {
                        let cnt = ((n.hi - n.lo) as usize >> sh) + 1;
                        if cnt <= 512 {
                            let o = o.clone();
                            let st0 = (n.lo as u64 & 0xffff_ffff) as usize - OFF as usize;
                            let leaf: Vec<V> = (0..cnt).map(|k| { let p = st0 + (k << sh); if p + sz <= o.data.len() { o.get_v(p, sz) } else { V::c(0) } }).collect();
                            let bits = (usize::BITS - (cnt - 1).leading_zeros()) as u16;
                            fn mux(off: E, sh: u16, bit: u16, lo: usize, leaf: &[V], w: u16) -> V {
                                if lo >= leaf.len() { return leaf[leaf.len() - 1]; }
                                if bit == 0 { return leaf[lo]; }
                                let b = bit - 1;
                                let f = mux(off, sh, b, lo, leaf, w);
                                let t = mux(off, sh, b, lo + (1 << b), leaf, w);
                                let c = ar().extract(off, sh + b, 1);
                                vite(w, V::of(c), t, f)
                            }
                            return Ok(mux(off, sh, bits, 0, &leaf, sz as u16 * 8));
                        }
                    }
                }
            }
        }
        let a = self.conc_e(st, e)? as u64;
        self.load(st, a, sz)
    }

    // ---------------------------------------------------------------- calls
    pub fn enter(&mut self, st: &mut State, f: Rc<Func>, args: &[V], dst: u32, nret: u32) -> R<()> {
        let f: &'static Func = unsafe { &*Rc::as_ptr(&f) }; // bodies are never dropped (held by Program)
        if st.frames.len() > 3000 { return Err(Stop::Error(format!("STACK-OVERFLOW {}", st.where_am_i()))); }
        if self.touched.len() <= f.id as usize { self.touched.resize(f.id as usize + 1, false); }
        self.touched[f.id as usize] = true;
        st.frames.push(Frame { func: st.func, base: st.base as u32, pc: st.pc as u32 + 1, sp: st.sp, stk: st.stk, dst, nret });
        let nb = st.regs.len();
        st.regs.resize(nb + f.nregs as usize, V { lo: 0, hi: 0, e: 0 });
        debug_assert!(args.len() >= f.nargs as usize, "{} args {} {}", f.name, args.len(), f.nargs);
        for k in 0..f.nargs as usize { st.regs[nb + k] = args[k]; }
        st.base = nb; st.func = f; st.pc = 0;
        if f.frame > 0 {
            st.stk = st.sp;
            st.stack.set(st.sp as usize, Some(Rc::new(Obj::new(f.frame as usize))));
            st.sp += 1;
        }
        Ok(())
    }
    pub fn leave(&mut self, st: &mut State, vals: &[V]) -> R<()> {
        let fr = match st.frames.pop() { Some(f) => f, None => return Err(Stop::Done) };
        st.regs.truncate(st.base);
        while st.sp > fr.sp { st.sp -= 1; st.stack.set(st.sp as usize, None); }
        st.func = fr.func; st.base = fr.base as usize; st.pc = fr.pc as usize; st.stk = fr.stk;
        for k in 0..(fr.nret as usize).min(vals.len()) { st.set(fr.dst + k as u32, vals[k]); }
        if let Some(c) = st.catch.last() { if st.frames.len() == c.depth { st.catch.pop(); } }
        if st.frames.is_empty() && st.base == 0 && st.func.code.is_empty() { return Err(Stop::Done); }
        Ok(())
    }
    /// Unwinds to the innermost `verif_call`, which returns `code`.
    pub fn unwind(&mut self, st: &mut State, code: u64) -> R<()> {
        let c = match st.catch.last() { Some(c) => c.clone(), None => return Err(Stop::Done) };
        while st.frames.len() > c.depth + 1 {
            let fr = st.frames.pop().unwrap();
            st.regs.truncate(st.base);
            while st.sp > fr.sp { st.sp -= 1; st.stack.set(st.sp as usize, None); }
            st.func = fr.func; st.base = fr.base as usize; st.pc = fr.pc as usize; st.stk = fr.stk;
        }
        self.leave(st, &[V::c(code)])?;
        Err(Stop::Jumped)
    }

    fn take(&mut self, st: &mut State, e: &Edge) {
        if e.par {
            let v: Vec<V> = e.moves.iter().map(|(_, s)| st.get(*s)).collect();
            for ((d, _), x) in e.moves.iter().zip(v) { st.set(*d, x); }
        } else { for (d, s) in &e.moves { let v = st.get(*s); st.set(*d, v); } }
        st.pc = e.target as usize;
    }

    // ---------------------------------------------------------------- main loop
    pub fn run(&mut self, init: State) {
        self.pending.push(init);
        while let Some(mut st) = self.pending.pop() {
            if self.shared.stop.load(std::sync::atomic::Ordering::Relaxed) != 0 { self.pending.clear(); break; }
            let r = self.run_path(&mut st);
            match r {
                Stop::Done => {
                    self.paths += 1;
                    if self.samples.len() < 3 && !st.failed {
                        let s = self.describe(&mut st);
                        self.samples.push(s);
                        if st.checks > 0 { let n = format!("{}/{}-{}-{}.sample", self.outdir, self.harness, std::process::id(), self.samples.len()); self.save(&mut st, "none", &n); }
                    }
                }
                Stop::Infeasible => self.infeasible += 1,
                Stop::Error(m) => {
                    if let Some(rest) = m.strip_prefix("STACK-OVERFLOW") {
                        // unbounded recursion is a crash of the program under test
                        let _ = self.violation(&mut st, &format!("stack overflow {}", rest), None);
                    } else { self.error(m, &mut st); }
                }
                _ => {}
            }
        }
    }
    pub fn error(&mut self, m: String, st: &mut State) {
        let d = self.describe(st);
        self.errors.push(format!("{} [{}]", m, d));
        self.shared.errors.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if self.errors.len() > 20 { self.shared.stop.store(3, std::sync::atomic::Ordering::Relaxed); }
    }
    pub fn describe(&mut self, st: &mut State) -> String {
        Self::fix_model(st);
        let mut s = String::new();
        for i in &st.inputs {
            let b: Vec<u8> = i.vars.iter().map(|v| st.model[*v as usize]).collect();
            let t: String = b.iter().map(|c| if (32..127).contains(c) && *c != b'\\' { (*c as char).to_string() } else { format!("\\x{:02x}", c) }).collect();
            s += &format!("{}=\"{}\" ", i.label, t);
        }
        s
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0x3fff == 0 {
                self.insns += 0x4000;
                if Instant::now() > self.deadline { self.shared.stop.store(1, std::sync::atomic::Ordering::Relaxed); }
                if self.shared.stop.load(std::sync::atomic::Ordering::Relaxed) != 0 { return Stop::Infeasible; }
            }
            if !self.pending.is_empty() && self.splittable && self.idle.load(std::sync::atomic::Ordering::Relaxed) > 0 { self.split(st); }
            match self.step(st) {
                Ok(()) => st.pc += 1,
                Err(Stop::Jumped) | Err(Stop::Retry) => {}
                Err(s) => { self.insns += n & 0x3fff; return s; }
            }
        }
    }
    /// Hands the oldest queued state to a new process if a worker is idle.
    fn split(&mut self, st: &mut State) {
        use std::sync::atomic::Ordering::*;
        let v = self.idle.load(Relaxed);
        if v <= 0 || self.idle.compare_exchange(v, v - 1, AcqRel, Relaxed).is_err() { return; }
        extern "C" { fn fork() -> i32; }
        let pid = unsafe { fork() };
        if pid < 0 { self.idle.fetch_add(1, AcqRel); self.splittable = false; return; }
        if pid > 0 { self.children.push(pid); self.pending.remove(0); return; }
        // child
        self.is_child = true;
        self.children.clear();
        let mine = self.pending.swap_remove(0);
        self.pending.clear();
        self.paths = 0; self.insns = 0; self.forks = 0; self.infeasible = 0; self.unknown = 0; self.checks.clear(); self.covers.clear(); self.prof.clear(); self.errors.clear(); self.samples.clear(); self.vio.clear();
        for t in self.touched.iter_mut() { *t = false; }
        self.sol.queries = 0; self.sol.hits = 0; self.sol.time_us = 0; self.sol.sat = 0; self.sol.unsat = 0; self.sol.unknown = 0; self.sol.split = 0; self.sol.bad = 0; self.sol.slow = 0; self.sha_sym = 0;
        *st = mine;
    }

    #[inline(always)]
    fn step(&mut self, st: &mut State) -> R<()> {
        let func: &'static Func = st.func;
        let op = unsafe { func.code.get_unchecked(st.pc) };
        if self.trace { eprintln!("{:>4} {} {:?}", st.pc, demangle(&func.name), op); }
        match op {
            Op::Mov { d, a } => { let v = st.get(*a); st.set(*d, v); }
            Op::Bin { k, w, d, a, b, .. } => {
                let (x, y) = (st.get(*a), st.get(*b));
                if x.e == 0 && y.e == 0 && *w == 64 {
                    let r = match k {
                        K::Add => x.lo.wrapping_add(y.lo), K::Sub => x.lo.wrapping_sub(y.lo), K::And => x.lo & y.lo, K::Or => x.lo | y.lo, K::Xor => x.lo ^ y.lo,
                        K::Mul => x.lo.wrapping_mul(y.lo), K::Shl if y.lo < 64 => x.lo << y.lo, K::LShr if y.lo < 64 => x.lo >> y.lo,
                        _ => fold(*k, 64, x.lo as u128, y.lo as u128) as u64,
                    };
                    st.set(*d, V::c(r));
                } else { let r = vbin(*k, *w, x, y); st.set(*d, r); }
            }
            Op::ICmp { p, w, d, a, b } => {
                let (x, y) = (st.get(*a), st.get(*b));
                let r = if x.e == 0 && y.e == 0 && *w <= 64 {
                    let s = 64 - *w as u32;
                    let (sx_, sy_) = (((x.lo << s) as i64), ((y.lo << s) as i64));
                    V::c(match p { Pred::Eq => x.lo == y.lo, Pred::Ne => x.lo != y.lo, Pred::Ugt => x.lo > y.lo, Pred::Uge => x.lo >= y.lo, Pred::Ult => x.lo < y.lo, Pred::Ule => x.lo <= y.lo,
                        Pred::Sgt => sx_ > sy_, Pred::Sge => sx_ >= sy_, Pred::Slt => sx_ < sy_, Pred::Sle => sx_ <= sy_ } as u64)
                } else {
                    match p { Pred::Eq => veq(*w, x, y), Pred::Ne => vnot(veq(*w, x, y)), Pred::Ugt => vult(*w, y, x), Pred::Uge => vnot(vult(*w, x, y)), Pred::Ult => vult(*w, x, y), Pred::Ule => vnot(vult(*w, y, x)),
                        Pred::Sgt => vslt(*w, y, x), Pred::Sge => vnot(vslt(*w, x, y)), Pred::Slt => vslt(*w, x, y), Pred::Sle => vnot(vslt(*w, y, x)) }
                };
                st.set(*d, r);
            }
            Op::Gep1 { d, base, off } => {
                let b = st.get(*base);
                let r = if b.e == 0 { V::c(b.lo.wrapping_add(*off as u64)) } else { vbin(K::Add, 64, b, V::c(*off as u64)) };
                st.set(*d, r);
            }
            Op::Gep { d, base, off, terms } => {
                let mut acc = st.get(*base);
                if *off != 0 { acc = vbin(K::Add, 64, acc, V::c(*off as u64)); }
                for (o, w, sc) in terms.iter() {
                    let mut t = st.get(*o);
                    if *w < 64 { t = vsext(t, *w, 64); }
                    if t.e == 0 && acc.e == 0 { acc = V::c(acc.lo.wrapping_add(t.lo.wrapping_mul(*sc))); }
                    else { let m = vbin(K::Mul, 64, t, V::c(*sc)); acc = vbin(K::Add, 64, acc, m); }
                }
                st.set(*d, acc);
            }
            Op::Load { w, sz, d, p, off } => {
                let a = st.get(*p);
                let sz = *sz as usize;
                let mut v = if a.e == 0 { self.load(st, a.lo + *off as u64, sz)? } else { let e = vbin(K::Add, 64, a, V::c(*off as u64)); self.load_sym(st, e.ex(64), sz)? };
                if *w as usize != sz * 8 { v = vext(v, 0, *w); }
                st.set(*d, v);
            }
            Op::Store { w, sz, v, p, off } => {
                let a = self.conc_o(st, *p)?;
                let mut x = st.get(*v);
                let sz = *sz as usize;
                if *w as usize != sz * 8 { x = vzext(x, sz as u16 * 8); }
                let (o, of) = self.poke(st, a + *off as u64, sz)?;
                o.set_v(of, sz, x, sz as u16 * 8);
            }
            Op::Cast { k, from, to, d, a } => {
                let x = st.get(*a);
                let r = match k {
                    Cast::Mov => x,
                    Cast::Trunc => vext(x, 0, *to),
                    Cast::ZExt => vzext(x, *to),
                    Cast::SExt => vsext(x, *from, *to),
                    _ => {
                        let v = self.conc_o(st, *a)?;
                        let f = |v: u64, w: u16| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                        let g = |x: f64, w: u16| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
                        match k {
                            Cast::FpTrunc | Cast::FpExt => V::c(g(f(v, *from), *to)),
                            Cast::FpToUi => V::c(f(v, *from) as u64 & mask(*to) as u64), Cast::FpToSi => V::c(f(v, *from) as i64 as u64 & mask(*to) as u64),
                            Cast::UiToFp => V::c(if *to == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() }),
                            _ => { let s = sx(v as u128, *from) as i64; V::c(if *to == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() }) }
                        }
                    }
                };
                st.set(*d, r);
            }
            Op::Select { w, d, c, a, b } => { let c = st.get(*c); let r = vite(*w, c, st.get(*a), st.get(*b)); st.set(*d, r); }
            Op::Alloca { d, off } => { let v = V::c((STACK_ID + st.stk as u64) << 32 | (OFF + *off as u64)); st.set(*d, v); }
            Op::Br(e) => { self.take(st, e); return Err(Stop::Jumped); }
            Op::CondBr { c, t, f } => {
                let c = st.get(*c);
                let b = if c.e == 0 { c.lo & 1 == 1 } else { self.decide(st, c)? };
                self.take(st, if b { t } else { f });
                return Err(Stop::Jumped);
            }
            Op::Switch { w, v, cases, edges, .. } => {
                let x = st.get(*v);
                if x.e == 0 {
                    let k = cases.get(&x.u128()).copied().unwrap_or(0);
                    self.take(st, &edges[k as usize]);
                } else {
                    let val = self.eval(st, x.e);
                    let k = cases.get(&val).copied().unwrap_or(0);
                    let mut cond = ar().cst(1, 0);
                    for (c, t) in cases.iter() { if (*t == k) == (k != 0) && (k != 0 || *t != 0) { let cc = ar().cst(*w, *c); let q = ar().eq(x.e, cc); cond = ar().bin(K::Or, cond, q); } }
                    if k == 0 { cond = ar().not(cond); }
                    if self.eval(st, cond) != 1 { return Err(Stop::Error("switch condition".into())); }
                    let taken = self.decide(st, V::of(cond))?;
                    debug_assert!(taken);
                    self.take(st, &edges[k as usize]);
                }
                return Err(Stop::Jumped);
            }
            Op::Call(cs) => return self.call(st, cs),
            Op::Ret(vals) => {
                let v: [V; 4];
                let vs: &[V] = match vals.len() { 0 => &[], 1 => { v = [st.get(vals[0]), V::c(0), V::c(0), V::c(0)]; &v[..1] } 2 => { v = [st.get(vals[0]), st.get(vals[1]), V::c(0), V::c(0)]; &v[..2] }
                    _ => { let o: Vec<V> = vals.iter().map(|x| st.get(*x)).collect(); self.leave(st, &o)?; return Err(Stop::Jumped); } };
                self.leave(st, vs)?;
                return Err(Stop::Jumped);
            }
            Op::Intr { id, w, d, args } => return self.intr(st, *id, *w, *d, args),
            Op::CmpXchg { w, sz, d, p, c, n } => {
                let a = self.conc_o(st, *p)?;
                let old = self.load(st, a, *sz as usize)?;
                let eq = veq(*w, old, st.get(*c));
                let b = self.decide(st, eq)?;
                if b { let nv = st.get(*n); self.store(st, a, *sz as usize, nv)?; }
                st.set(*d, old); st.set(*d + 1, V::c(b as u64));
            }
            Op::AtomicRmw { k, w, sz, d, p, v } => {
                let a = self.conc_o(st, *p)?;
                let old = self.load(st, a, *sz as usize)?;
                let x = st.get(*v);
                let n = match k { 0 => x, 1 => vbin(K::Add, *w, old, x), 2 => vbin(K::Sub, *w, old, x), 3 => vbin(K::And, *w, old, x), 4 => vbin(K::Or, *w, old, x), 5 => vbin(K::Xor, *w, old, x),
                    6 => vite(*w, vslt(*w, old, x), x, old), 7 => vite(*w, vslt(*w, old, x), old, x), 8 => vite(*w, vult(*w, old, x), x, old), 9 => vite(*w, vult(*w, old, x), old, x),
                    _ => vbin(K::Xor, *w, vbin(K::And, *w, old, x), V::c128(mask(*w))) };
                self.store(st, a, *sz as usize, n)?;
                st.set(*d, old);
            }
            Op::FBin { k, w, d, a, b } => {
                let (x, y) = (self.conc_o(st, *a)?, self.conc_o(st, *b)?);
                let r = if *w == 32 {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, _ => -x }).to_bits() as u64
                } else {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match k { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, _ => -x }).to_bits()
                };
                st.set(*d, V::c(r));
            }
            Op::FCmp { k, w, d, a, b } => {
                let (x, y) = (self.conc_o(st, *a)?, self.conc_o(st, *b)?);
                let f = |v: u64| if *w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match k { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un || x == y, 9 => un || x > y, 10 => un || x >= y, 11 => un || x < y, 12 => un || x <= y, 13 => x != y, 14 => un, _ => true };
                st.set(*d, V::c(r as u64));
            }
            Op::Unreachable => return Err(Stop::Error(format!("reached unreachable at {}", st.where_am_i()))),
            Op::Unsupported(s) => {
                if &**s == "asm barrier" { return Ok(()); }
                return Err(Stop::Error(format!("unsupported: {} at {}", s, st.where_am_i())));
            }
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, cs: &'static CallSite) -> R<()> {
        let fid = match &cs.callee {
            Callee::Fn(f) => *f,
            Callee::Ptr(p) => {
                let a = self.conc_o(st, *p)?;
                let (id, off) = obj_of(a);
                if off != 0 || id < FUNC_ID || id >= HEAP_ID { return Err(Stop::Error(format!("call of {:#x} at {}", a, st.where_am_i()))); }
                (id - FUNC_ID) as u32
            }
        };
        let mut buf = [V { lo: 0, hi: 0, e: 0 }; 16];
        let big: Vec<V>;
        let args: &[V] = if cs.args.len() <= 16 { for (k, a) in cs.args.iter().enumerate() { buf[k] = st.get(*a); } &buf[..cs.args.len()] } else { big = cs.args.iter().map(|a| st.get(*a)).collect(); &big };
        self.call_fid(st, fid, args, cs.dst, cs.nret)?;
        // a builtin answers in 64 bits: what the program sees is as wide as the type it declares
        if cs.nret == 1 && cs.retw < 64 {
            let v = st.get(Opd(cs.dst));
            if v.e == 0 { st.set(cs.dst, V::c128(v.u128() & mask(cs.retw))); }
        }
        Ok(())
    }
    pub fn call_fid(&mut self, st: &mut State, fid: u32, args: &[V], dst: u32, nret: u32) -> R<()> {
        let mut b = self.pr.funcs[fid as usize].builtin;
        if b == 0 {
            b = crate::libc::builtin(&self.pr.funcs[fid as usize].name, self.pr.funcs[fid as usize].range.is_some());
            self.pr.funcs[fid as usize].builtin = b;
        }
        if b > 1 {
            let fname = if b == 2 { self.pr.funcs[fid as usize].name.clone() } else { String::new() };
            let r = self.builtin(st, b, &fname, args, dst, nret)?;
            if nret > 0 { st.set(dst, r); }
            return Ok(());
        }
        match self.pr.func(fid) {
            Some(f) => { self.enter(st, f, args, dst, nret)?; Err(Stop::Jumped) }
            None => Err(Stop::Error(format!("call of undefined function {} at {}", self.pr.funcs[fid as usize].name, st.where_am_i()))),
        }
    }

    fn intr(&mut self, st: &mut State, id: Intr, w: u16, d: u32, args: &'static [Opd]) -> R<()> {
        use Intr::*;
        let a = |st: &State, k: usize| st.get(args[k]);
        match id {
            Memcpy => {
                let n = self.conc_o(st, args[2])? as usize;
                if n == 0 { return Ok(()); }
                let s = self.conc_o(st, args[1])?;
                let t = self.conc_o(st, args[0])?;
                self.memcpy(st, t, s, n)?;
            }
            Memset => {
                let n = self.conc_o(st, args[2])? as usize;
                if n == 0 { return Ok(()); }
                let t = self.conc_o(st, args[0])?;
                let v = a(st, 1);
                let (o, off) = self.poke(st, t, n)?;
                if v.e == 0 {
                    o.data[off..off + n].fill(v.lo as u8);
                    if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
                } else { for k in 0..n { o.set_v(off + k, 1, v, 8); } }
            }
            Assume | Nop => {}
            Trap => {
                if st.last_panic.is_empty() { st.last_panic = Rc::from(format!("trap at {}", st.where_am_i())); }
                return self.panicked(st);
            }
            Mov => { let v = a(st, 0); st.set(d, v); }
            Umin | Umax | Smin | Smax => {
                let (x, y) = (a(st, 0), a(st, 1));
                let lt = if matches!(id, Umin | Umax) { vult(w, x, y) } else { vslt(w, x, y) };
                let r = if matches!(id, Umin | Smin) { vite(w, lt, x, y) } else { vite(w, lt, y, x) };
                st.set(d, r);
            }
            AddOv(s) | SubOv(s) => {
                let (x, y) = (a(st, 0), a(st, 1));
                let k = if matches!(id, AddOv(_)) { K::Add } else { K::Sub };
                let r = vbin(k, w, x, y);
                let ov = if !s {
                    if k == K::Sub { vult(w, x, y) }
                    else if w < 128 { let f = vbin(K::Add, w + 1, vzext(x, w + 1), vzext(y, w + 1)); vext(f, w, 1) }
                    else { vult(w, r, x) }
                } else if w < 128 {
                    let f = vbin(k, w + 1, vsext(x, w, w + 1), vsext(y, w, w + 1));
                    vnot(veq(w + 1, f, vsext(r, w, w + 1)))
                } else {
                    let (sa, sb, sr) = (vext(x, w - 1, 1), vext(y, w - 1, 1), vext(r, w - 1, 1));
                    let same = veq(1, sa, sb);
                    let c = if k == K::Add { same } else { vnot(same) };
                    vand(c, vnot(veq(1, sa, sr)))
                };
                st.set(d, r); st.set(d + 1, ov);
            }
            MulOv(s) => {
                let (mut x, mut y) = (a(st, 0), a(st, 1));
                if w > 64 {
                    if x.e != 0 || y.e != 0 {
                        let hx = if x.e != 0 { ar().n[x.e as usize].hi } else { x.u128() };
                        let hy = if y.e != 0 { ar().n[y.e as usize].hi } else { y.u128() };
                        let lim = mask(if s { w - 1 } else { w });
                        if hx <= lim && hy <= lim && hx.checked_mul(hy).map(|p| p <= lim).unwrap_or(false) {
                            let r = vbin(K::Mul, w, x, y);
                            st.set(d, r); st.set(d + 1, V::c(0));
                            return Ok(());
                        }
                        if x.e != 0 { x = V::c128(self.conc_e(st, x.e)?); }
                        if y.e != 0 { y = V::c128(self.conc_e(st, y.e)?); }
                    }
                    let r = x.u128().wrapping_mul(y.u128()) & mask(w);
                    let ov = if s { let (p, q) = (sx(x.u128(), w), sx(y.u128(), w)); match p.checked_mul(q) { Some(z) => sx(z as u128 & mask(w), w) != z, None => true } }
                             else { match x.u128().checked_mul(y.u128()) { Some(z) => z & !mask(w) != 0, None => true } };
                    st.set(d, V::c128(r)); st.set(d + 1, V::c(ov as u64));
                    return Ok(());
                }
                let r = vbin(K::Mul, w, x, y);
                let ov = if s {
                    let small = |v: V| if v.e != 0 { ar().n[v.e as usize].hi < 1u128 << (w - 1) } else { v.lo < 1u64 << (w - 1) };
                    if small(x) && small(y) {
                        let f = vbin(K::Mul, 2 * w, vzext(x, 2 * w), vzext(y, 2 * w));
                        vnot(vult(2 * w, f, V::c128(1u128 << (w - 1))))
                    } else {
                        let f = vbin(K::Mul, 2 * w, vsext(x, w, 2 * w), vsext(y, w, 2 * w));
                        vnot(veq(2 * w, f, vsext(r, w, 2 * w)))
                    }
                } else { let f = vbin(K::Mul, 2 * w, vzext(x, 2 * w), vzext(y, 2 * w)); vnot(veq(w, vext(f, w, w), V::c(0))) };
                st.set(d, r); st.set(d + 1, ov);
            }
            USubSat => { let (x, y) = (a(st, 0), a(st, 1)); let r = vite(w, vult(w, x, y), V::c(0), vbin(K::Sub, w, x, y)); st.set(d, r); }
            UAddSat => { let (x, y) = (a(st, 0), a(st, 1)); let r = vbin(K::Add, w, x, y); let r = vite(w, vult(w, r, x), V::c128(mask(w)), r); st.set(d, r); }
            SSubSat | SAddSat => {
                let (x, y) = (a(st, 0), a(st, 1));
                let k = if id == SAddSat { K::Add } else { K::Sub };
                let f = vbin(k, w + 1, vsext(x, w, w + 1), vsext(y, w, w + 1));
                let r = vext(f, 0, w);
                let ov = vnot(veq(w + 1, f, vsext(r, w, w + 1)));
                let neg = vext(f, w, 1);
                let r = vite(w, ov, vite(w, neg, V::c128(1u128 << (w - 1)), V::c128(mask(w) >> 1)), r);
                st.set(d, r);
            }
            Fshl | Fshr => {
                let s = (self.conc_o(st, args[2])? % w as u64) as u16;
                let (x, y) = (a(st, 0), a(st, 1));
                let r = if s == 0 { if id == Fshl { x } else { y } } else {
                    let k = if id == Fshl { s } else { w - s };
                    // high w bits of (x:y) << k
                    vconcat(vext(x, 0, w - k), w - k, vext(y, w - k, k), k)
                };
                st.set(d, r);
            }
            Ctlz | Cttz => {
                let x = a(st, 0);
                let r = if x.e == 0 {
                    let v = x.u128();
                    V::c(if v == 0 { w as u64 } else if id == Ctlz { (v.leading_zeros() as u16 - (128 - w)) as u64 } else { v.trailing_zeros() as u64 })
                } else {
                    let mut acc = V::c(w as u64);
                    for k in 0..w {
                        let (bit, val) = if id == Ctlz { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                        acc = vite(w, vext(x, bit, 1), V::c(val as u64), acc);
                    }
                    acc
                };
                st.set(d, r);
            }
            Ctpop => {
                let x = a(st, 0);
                let mut acc = V::c(0);
                if x.e == 0 { acc = V::c(x.u128().count_ones() as u64); } else { for k in 0..w { acc = vbin(K::Add, w, acc, vzext(vext(x, k, 1), w)); } }
                st.set(d, acc);
            }
            Bswap => {
                let x = a(st, 0);
                let mut acc = vext(x, 0, 8);
                for k in 1..w / 8 { acc = vconcat(acc, 8 * k, vext(x, 8 * k, 8), 8); }
                st.set(d, acc);
            }
            Bitreverse => {
                let x = a(st, 0);
                let mut acc = vext(x, 0, 1);
                for k in 1..w { acc = vconcat(acc, k, vext(x, k, 1), 1); }
                st.set(d, acc);
            }
            Abs => { let x = a(st, 0); let r = vite(w, vslt(w, x, V::c(0)), vbin(K::Sub, w, V::c(0), x), x); st.set(d, r); }
            Ucmp | Scmp => {
                let (w, rw) = (w & 0xff, w >> 8);
                let (x, y) = (a(st, 0), a(st, 1));
                let lt = if id == Ucmp { vult(w, x, y) } else { vslt(w, x, y) };
                let r = vite(rw, lt, V::c128(mask(rw)), vite(rw, veq(w, x, y), V::c(0), V::c(1)));
                st.set(d, r);
            }
            FAbs => { let v = self.conc_o(st, args[0])?; st.set(d, V::c(v & (mask(w) as u64 >> 1))); }
            CopySign => { let (x, y) = (self.conc_o(st, args[0])?, self.conc_o(st, args[1])?); let s = 1u64 << (w - 1); st.set(d, V::c(x & !s & mask(w) as u64 | y & s)); }
            FtoUiSat(to) => { let v = self.conc_o(st, args[0])?; let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) }; let m = mask(to); let r = (f as u128).min(m); st.set(d, V::c128(r)); }
            FtoSiSat(to) => { let v = self.conc_o(st, args[0])?; let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) }; let h = (mask(to) >> 1) as i128; let r = (f as i128).clamp(-h - 1, h); st.set(d, V::c128(r as u128 & mask(to))); }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- verdicts
    pub fn panicked(&mut self, st: &mut State) -> R<()> {
        // in which crate: the innermost function of the journal parser or of the program itself
        st.dep_panic = false;
        let names: Vec<&'static Func> = std::iter::once(st.func).chain(st.frames.iter().rev().map(|f| f.func)).collect();
        for f in names {
            if ["13ledger_parser5parse", "13ledger_parser6parser", "13ledger_parser10serializer"].iter().any(|x| f.name.contains(x)) { st.dep_panic = true; break; }
            if f.name.contains("12accountmerge") { break; }
        }
        if !st.catch.is_empty() { return self.unwind(st, 101); }
        let m = st.last_panic.clone();
        self.violation(st, &format!("panic: {}", m), None)?;
        Err(Stop::Done)
    }
    pub fn violation(&mut self, st: &mut State, label: &str, model: Option<Rc<Vec<u8>>>) -> R<()> {
        if let Some(m) = model { st.model = m; }
        st.failed = true;
        *self.vio.entry(label.to_string()).or_default() += 1;
        let n = self.vio[label];
        let known = self.known.iter().any(|(h, l)| *h == self.harness && l == label);
        let tot = if known { n as i64 } else { self.shared.viol.fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
        if n <= 3 {
            let name = format!("{}/{}-{}-{}{}.replay", self.outdir, self.harness, std::process::id(), if known { "k" } else { "" }, self.vio.values().sum::<u64>());
            self.save(st, label, &name);
        }
        if known { return Ok(()); }
        if tot + 1 >= self.max_viol { self.shared.stop.store(2, std::sync::atomic::Ordering::Relaxed); }
        Ok(())
    }
    fn save(&mut self, st: &mut State, label: &str, name: &str) {
        Self::fix_model(st);
        let mut s = format!("harness {}\nlabel {}\n", self.harness, label.replace('\n', " "));
        s += &format!("# {}\n", self.describe(st).replace('\n', "\\n"));
        if !st.last_panic.is_empty() { s += &format!("# panic: {}\n", st.last_panic.replace('\n', " ")); }
        for n in &st.notes { s += &format!("# note: {}\n", n.replace('\n', "\\n")); }
        for i in &st.inputs {
            let h: String = i.vars.iter().map(|v| format!("{:02x}", st.model[*v as usize])).collect();
            s += &format!("in {} {}\n", i.label, h);
        }
        let _ = std::fs::write(name, s);
    }
    /// An assertion of the harness.
    pub fn check(&mut self, st: &mut State, c: V, label: &str) -> R<()> {
        st.checks += 1;
        let ent = |s: &mut Self| -> *mut (u64, u64, u64, u64) { s.checks.entry(label.to_string()).or_default() as *mut _ };
        if c.e == 0 {
            if c.lo & 1 == 1 { unsafe { (*ent(self)).0 += 1; } return Ok(()); }
            unsafe { (*ent(self)).2 += 1; }
            self.violation(st, label, None)?;
            return Err(Stop::Done);
        }
        let neg = ar().not(c.e);
        let unk = self.unknown;
        match self.feas(st, neg)? {
            None => { if self.unknown > unk { unsafe { (*ent(self)).3 += 1; } } else { unsafe { (*ent(self)).1 += 1; } } Ok(()) }
            Some(m) => {
                unsafe { (*ent(self)).2 += 1; }
                let mut o = st.clone();
                self.violation(&mut o, label, Some(m))?;
                // go on where the assertion holds
                match self.feas(st, c.e)? { Some(m) => { self.add(st, c.e, m); Ok(()) } None => Err(Stop::Done) }
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: V) -> R<()> {
        if c.e == 0 { return if c.lo & 1 == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
        match self.feas(st, c.e)? { Some(m) => { self.add(st, c.e, m); Ok(()) } None => Err(Stop::Infeasible) }
    }
}
