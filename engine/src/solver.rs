//! z3 behind a cache; the only place where satisfiability is decided by search.
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use crate::expr::*;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    ERR.with(|x| x.set(true));
}
thread_local! { static ERR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn z3_version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone)]
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    ctx: P, s: P, nlits: usize,
    bv: HashMap<E, P, Fx>, bo: HashMap<E, P, Fx>, lits: HashMap<E, P, Fx>,
    cache: HashMap<Vec<E>, Res, Fx>,
    pub queries: u64, pub hits: u64, pub time_us: u64, pub unknown: u64, pub sat: u64, pub unsat: u64,
    pub timeout_ms: u32, pub slow: u64, pub split: u64, heavy: HashMap<E, bool>, pub bad: u64, quick: P, normal: P,
    doms: std::collections::HashSet<u32>,
}

unsafe fn params(ctx: P, ms: u32) -> P {
    let p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    let n = CString::new("rlimit").unwrap();
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, n.as_ptr()), ms);
    p
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut s = Solver { ctx, s: std::ptr::null_mut(), nlits: 0, bv: Default::default(), bo: Default::default(), lits: Default::default(), cache: Default::default(),
                queries: 0, hits: 0, time_us: 0, unknown: 0, sat: 0, unsat: 0, timeout_ms: 20000, slow: 0, split: 0, heavy: Default::default(), bad: 0, quick: std::ptr::null_mut(), normal: std::ptr::null_mut(), doms: Default::default() };
            s.fresh();
            s
        }
    }
    unsafe fn fresh(&mut self) {
        if !self.s.is_null() { Z3_solver_dec_ref(self.ctx, self.s); }
        if self.nlits > 0 {
            // a new context: the old one keeps every term it ever built
            Z3_del_context(self.ctx);
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            self.bv.clear(); self.bo.clear();
        }
        let logic = CString::new(std::env::var("SYMEX_LOGIC").unwrap_or("QF_FD".into())).unwrap();
        self.s = if logic.as_bytes() == b"simple" { Z3_mk_simple_solver(self.ctx) } else { Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, logic.as_ptr())) };
        Z3_solver_inc_ref(self.ctx, self.s);
        self.quick = params(self.ctx, 100_000);
        self.normal = params(self.ctx, 3_000_000);
        let p = self.normal;
        Z3_solver_set_params(self.ctx, self.s, p);
        self.lits.clear();
        self.doms.clear();
        self.nlits = 0;
    }
    unsafe fn num(&self, w: u16, v: u128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w as c_uint))
    }
    unsafe fn ranges(&mut self, var: u32, s: &Set) -> Vec<P> {
        let c = self.ctx;
        let v = self.to_bv(ar().vars[var as usize].0);
        let vals = set_iter(s);
        let mut out = vec![]; let mut i = 0;
        while i < vals.len() {
            let mut j = i;
            while j + 1 < vals.len() && vals[j + 1] == vals[j] + 1 { j += 1; }
            let (a, b) = (self.num(8, vals[i] as u128), self.num(8, vals[j] as u128));
            out.push(if i == j { Z3_mk_eq(c, v, a) } else {
                let mut cs = vec![];
                if vals[i] != 0 { cs.push(Z3_mk_bvule(c, a, v)); }
                if vals[j] != 255 { cs.push(Z3_mk_bvule(c, v, b)); }
                Z3_mk_and(c, cs.len() as c_uint, cs.as_ptr())
            });
            i = j + 1;
        }
        out
    }
    /// Static domain of a variable as an assumption literal.
    unsafe fn dom_lit(&mut self, var: u32) -> Option<P> {
        let d = ar().vars[var as usize].1;
        if d == FULL { return None; }
        let r = self.ranges(var, &d);
        Some(if r.len() == 1 { r[0] } else { Z3_mk_or(self.ctx, r.len() as c_uint, r.as_ptr()) })
    }
    fn to_bool(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let k = ar().key(e);
        let c = self.ctx;
        let r = unsafe {
            match k.k {
                K::Const => if k.imm == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                K::InSet => {
                    let set = ar().sets[k.imm as usize];
                    let dom = ar().vars[k.a as usize].1;
                    let out = set_and(&set_not(&set), &dom);
                    // membership, or non-membership of the rest of the static domain (which is asserted)
                    let (p, n) = (self.ranges(k.a, &set), self.ranges(k.a, &out));
                    if p.len() <= n.len() { if p.len() == 1 { p[0] } else { Z3_mk_or(c, p.len() as c_uint, p.as_ptr()) } }
                    else { let o = if n.len() == 1 { n[0] } else { Z3_mk_or(c, n.len() as c_uint, n.as_ptr()) }; Z3_mk_not(c, o) }
                }
                K::And => { let a = [self.to_bool(k.a), self.to_bool(k.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                K::Or => { let a = [self.to_bool(k.a), self.to_bool(k.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                K::Xor => { if ar().cval(k.b) == Some(1) { let a = self.to_bool(k.a); Z3_mk_not(c, a) } else { let (a, b) = (self.to_bool(k.a), self.to_bool(k.b)); Z3_mk_xor(c, a, b) } }
                K::Ite => { let (a, b, d) = (self.to_bool(k.a), self.to_bool(k.b), self.to_bool(k.c)); Z3_mk_ite(c, a, b, d) }
                K::Eq => { if ar().w(k.a) == 1 { let (a, b) = (self.to_bool(k.a), self.to_bool(k.b)); Z3_mk_eq(c, a, b) } else { let (a, b) = (self.to_bv(k.a), self.to_bv(k.b)); Z3_mk_eq(c, a, b) } }
                K::Ult => { let (a, b) = (self.to_bv(k.a), self.to_bv(k.b)); Z3_mk_bvult(c, a, b) }
                K::Slt => { let (a, b) = (self.to_bv(k.a), self.to_bv(k.b)); Z3_mk_bvslt(c, a, b) }
                _ => { let b = self.to_bv(e); let one = self.num(1, 1); Z3_mk_eq(c, b, one) }
            }
        };
        self.bo.insert(e, r);
        r
    }
    fn to_bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let k = ar().key(e);
        let c = self.ctx;
        let r = unsafe {
            match k.k {
                K::Const => self.num(k.w, k.imm),
                K::Var => { let n = CString::new(format!("v{}", k.a)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8)) }
                K::Eq | K::Ult | K::Slt | K::InSet => { let b = self.to_bool(e); let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(c, b, o, z) }
                K::Ite => { let a = self.to_bool(k.a); let (b, d) = (self.to_bv(k.b), self.to_bv(k.c)); Z3_mk_ite(c, a, b, d) }
                K::Extract => { let a = self.to_bv(k.a); Z3_mk_extract(c, k.imm as c_uint + k.w as c_uint - 1, k.imm as c_uint, a) }
                K::ZExt => { let a = self.to_bv(k.a); Z3_mk_zero_ext(c, (k.w - ar().w(k.a)) as c_uint, a) }
                K::SExt => { let a = self.to_bv(k.a); Z3_mk_sign_ext(c, (k.w - ar().w(k.a)) as c_uint, a) }
                op => {
                    let (a, b) = (self.to_bv(k.a), self.to_bv(k.b));
                    match op {
                        K::Add => Z3_mk_bvadd(c, a, b), K::Sub => Z3_mk_bvsub(c, a, b), K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b), K::SDiv => Z3_mk_bvsdiv(c, a, b), K::URem => Z3_mk_bvurem(c, a, b), K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b), K::Or => Z3_mk_bvor(c, a, b), K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b), K::LShr => Z3_mk_bvlshr(c, a, b), K::AShr => Z3_mk_bvashr(c, a, b),
                        K::Concat => Z3_mk_concat(c, a, b), _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn lit(&mut self, e: E) -> P {
        if let Some(&p) = self.lits.get(&e) { return p; }
        let b = self.to_bool(e);
        unsafe {
            let n = CString::new(format!("p{}", e)).unwrap();
            let p = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bool_sort(self.ctx));
            Z3_solver_assert(self.ctx, self.s, Z3_mk_implies(self.ctx, p, b));
            self.lits.insert(e, p);
            self.nlits += 1;
            p
        }
    }
    fn hard(&mut self, e: E) -> bool {
        if let Some(x) = self.heavy.get(&e) { return *x; }
        let k = ar().key(e);
        let r = match k.k {
            K::Const | K::Var | K::InSet => false,
            K::Mul | K::UDiv | K::SDiv | K::URem | K::SRem if k.w >= 64 => true,
            K::Ite => self.hard(k.a) || self.hard(k.b) || self.hard(k.c),
            K::Extract | K::ZExt | K::SExt => self.hard(k.a),
            _ => self.hard(k.a) || self.hard(k.b),
        };
        self.heavy.insert(e, r);
        r
    }
    unsafe fn values(&mut self, s: P, vars: &[u32]) -> Vec<(u32, u8)> {
        let m = Z3_solver_get_model(self.ctx, s);
        let mut out = vec![];
        for v in vars {
            let a = self.to_bv(ar().vars[*v as usize].0);
            let mut res: P = std::ptr::null_mut();
            let mut n = 0u64;
            if !Z3_model_eval(self.ctx, m, a, true, &mut res) || !Z3_get_numeral_uint64(self.ctx, res, &mut n) { panic!("model value"); }
            out.push((*v, n as u8));
        }
        out
    }
    /// Case distinction over all values of few variables, for what z3 does not decide quickly.
    fn combos(key: &[E], vars: &[u32]) -> (Vec<Vec<u8>>, u64) {
        let doms: Vec<Vec<u8>> = vars.iter().map(|v| {
            let mut d = ar().vars[*v as usize].1;
            for e in key { let k = ar().key(*e); if k.k == K::InSet && k.a == *v { d = set_and(&d, &ar().sets[k.imm as usize]); } }
            set_iter(&d)
        }).collect();
        let mut n: u64 = 1;
        for d in &doms { n = n.saturating_mul(d.len() as u64); }
        (doms, n)
    }
    fn cases(key: &[E], vars: &[u32]) -> Option<Res> {
        let (doms, n) = Self::combos(key, vars);
        if n > 20000 { return None; }
        let mut m = vec![0u8; ar().vars.len()];
        for mut k in 0..n {
            for (v, d) in vars.iter().zip(&doms) { m[*v as usize] = d[(k % d.len() as u64) as usize]; k /= d.len() as u64; }
            if key.iter().all(|e| ar().eval(*e, &m) == 1) { return Some(Res::Sat(vars.iter().map(|v| (*v, m[*v as usize])).collect())); }
        }
        Some(Res::Unsat)
    }
    /// Satisfiability of the conjunction of `cs` (static domains of the variables included by the caller).
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable(); key.dedup();
        if let Some(r) = self.cache.get(&key) { self.hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut vars: Vec<u32> = key.iter().flat_map(|e| ar().sup(*e).iter().copied().collect::<Vec<_>>()).collect();
        vars.sort_unstable(); vars.dedup();
        let r = unsafe {
            if self.nlits > 4000 { self.fresh(); }
            // wide products and divisions of few bytes: not worth a circuit
            let (_, n) = Self::combos(&key, &vars);
            if n <= 256 && key.iter().any(|e| self.hard(*e)) {
                let r = Self::cases(&key, &vars).unwrap();
                self.split += 1;
                self.time_us += t0.elapsed().as_micros() as u64;
                match &r { Res::Sat(_) => self.sat += 1, _ => self.unsat += 1 }
                self.cache.insert(key, r.clone());
                return r;
            }
            let ls: Vec<P> = key.iter().map(|e| self.lit(*e)).collect();
            for v in &vars { if self.doms.insert(*v) { if let Some(p) = self.dom_lit(*v) { Z3_solver_assert(self.ctx, self.s, p); } } }
            Z3_solver_set_params(self.ctx, self.s, if n <= 1000 { self.quick } else { self.normal });
            let mut rc = Z3_solver_check_assumptions(self.ctx, self.s, ls.len() as c_uint, ls.as_ptr());
            let mut s = self.s;
            if rc == 1 {
                // the model has to satisfy the constraints
                let vals = self.values(self.s, &vars);
                let mut m = vec![0u8; ar().vars.len()];
                for (v, x) in &vals { m[*v as usize] = *x; }
                if !key.iter().all(|e| ar().eval(*e, &m) == 1) { rc = 0; self.bad += 1; }
            }
            if rc == 0 {
                // a solver that was interrupted is not used again
                self.fresh();
                if let Some(r) = Self::cases(&key, &vars) {
                    self.split += 1;
                    self.time_us += t0.elapsed().as_micros() as u64;
                    match &r { Res::Sat(_) => self.sat += 1, _ => self.unsat += 1 }
                    self.cache.insert(key, r.clone());
                    return r;
                }
                // inconclusive: once more with a fresh solver and tactics
                self.slow += 1;
                let logic = CString::new("QF_BV").unwrap();
                s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, logic.as_ptr()));
                Z3_solver_inc_ref(self.ctx, s);
                let p = params(self.ctx, 300_000_000);
                Z3_solver_set_params(self.ctx, s, p);
                for e in &key { let b = self.to_bool(*e); Z3_solver_assert(self.ctx, s, b); }
                for v in &vars { if let Some(p) = self.dom_lit(*v) { Z3_solver_assert(self.ctx, s, p); } }
                rc = Z3_solver_check(self.ctx, s);
            }
            if ERR.with(|x| x.get()) { panic!("z3 reported an error"); }
            match rc {
                1 => {
                    let out = self.values(s, &vars);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        match &r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        if std::env::var_os("SYMEX_SLOWQ").is_some() && us > 200_000 {
            eprintln!("slow query {} ms, {} constraints:", us / 1000, key.len());
            for e in &key { eprintln!("   {}", ar().show(*e)); }
        }
        if self.cache.len() > 200_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
}
