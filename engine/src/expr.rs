//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 = none (concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum K {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Concat, Extract, ZExt, SExt, Ite, InSet,
}
use K::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key { pub k: K, pub w: u16, pub a: E, pub b: E, pub c: E, pub imm: u128 }

#[derive(Clone, Copy)]
pub struct Node { pub key: Key, pub sup: u32, pub lo: u128, pub hi: u128 }

/// A possibly symbolic machine value. `e == 0`: concrete, value in (hi:lo).
#[derive(Clone, Copy, Debug)]
pub struct V { pub lo: u64, pub hi: u64, pub e: E }

impl V {
    #[inline(always)] pub fn c(v: u64) -> V { V { lo: v, hi: 0, e: 0 } }
    #[inline(always)] pub fn c128(v: u128) -> V { V { lo: v as u64, hi: (v >> 64) as u64, e: 0 } }
    #[inline(always)] pub fn s(e: E) -> V { V { lo: 0, hi: 0, e } }
    #[inline(always)] pub fn is_c(&self) -> bool { self.e == 0 }
    #[inline(always)] pub fn u128(&self) -> u128 { (self.hi as u128) << 64 | self.lo as u128 }
}

pub type Set = [u64; 4];
pub fn set_has(s: &Set, v: u8) -> bool { s[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn set_add(s: &mut Set, v: u8) { s[(v >> 6) as usize] |= 1 << (v & 63) }
pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn set_len(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 { if a[i] != 0 { return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8); } }
    None
}
pub fn set_iter(a: &Set) -> Vec<u8> { (0..=255u8).filter(|v| set_has(a, *v)).collect() }
pub const FULL: Set = [!0u64; 4];

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Key, E, Fx>,
    sups: Vec<Rc<[u32]>>,
    supmap: HashMap<Rc<[u32]>, u32, Fx>,
    supun: HashMap<(u32, u32), u32, Fx>,
    pub vars: Vec<(E, Set)>,          // var index -> (expr, static domain)
    pub sets: Vec<Set>,
    setmap: HashMap<Set, u32, Fx>,
    tabs: HashMap<E, Rc<[u64; 256]>, Fx>,
    gen: u32,
    memo: Vec<(u32, u128)>,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
pub type Fx = std::hash::BuildHasherDefault<FxH>;
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) {
        for ch in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..ch.len()].copy_from_slice(ch);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
#[inline(always)]
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            let mut a = Box::new(Arena {
                n: vec![], map: Default::default(), sups: vec![], supmap: Default::default(),
                supun: Default::default(), vars: vec![], sets: vec![], setmap: Default::default(),
                tabs: Default::default(), gen: 0, memo: vec![],
            });
            a.n.push(Node { key: Key { k: Const, w: 0, a: 0, b: 0, c: 0, imm: 0 }, sup: 0, lo: 0, hi: 0 });
            let empty: Rc<[u32]> = Rc::from(vec![]);
            a.sups.push(empty.clone());
            a.supmap.insert(empty, 0);
            ARENA = Box::into_raw(a);
        }
        &mut *ARENA
    }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

pub fn fold(k: K, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match k {
        Add => a.wrapping_add(b), Sub => a.wrapping_sub(b), Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        And => a & b, Or => a | b, Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = b.min(w as u128 - 1) as u32; (sx(a, w) >> s) as u128 }
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    #[inline(always)] pub fn w(&self, e: E) -> u16 { self.n[e as usize].key.w }
    #[inline(always)] pub fn key(&self, e: E) -> Key { self.n[e as usize].key }
    #[inline(always)] pub fn sup(&self, e: E) -> &Rc<[u32]> { &self.sups[self.n[e as usize].sup as usize] }
    pub fn cval(&self, e: E) -> Option<u128> { let k = &self.n[e as usize].key; if k.k == Const { Some(k.imm) } else { None } }

    fn sup_id(&mut self, s: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(s);
        if let Some(&i) = self.supmap.get(&r) { return i; }
        let i = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.supmap.insert(r, i);
        i
    }
    pub fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.supun.get(&k) { return r; }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        let r = self.sup_id(v);
        self.supun.insert(k, r);
        r
    }
    pub fn set_id(&mut self, s: Set) -> u32 {
        if let Some(&i) = self.setmap.get(&s) { return i; }
        let i = self.sets.len() as u32;
        self.sets.push(s); self.setmap.insert(s, i);
        i
    }
    pub fn new_var(&mut self, dom: Set) -> u32 {
        let idx = self.vars.len() as u32;
        let e = self.n.len() as u32;
        let sup = self.sup_id(vec![idx]);
        let vals = set_iter(&dom);
        let (lo, hi) = (vals[0] as u128, *vals.last().unwrap() as u128);
        self.n.push(Node { key: Key { k: Var, w: 8, a: idx, b: 0, c: 0, imm: 0 }, sup, lo, hi });
        self.vars.push((e, dom));
        idx
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        self.raw(Key { k: Const, w, a: 0, b: 0, c: 0, imm: v })
    }
    fn raw(&mut self, key: Key) -> E {
        if let Some(&e) = self.map.get(&key) { return e; }
        let (mut sup, mut lo, mut hi) = (0u32, 0u128, mask(key.w));
        match key.k {
            Const => { lo = key.imm; hi = key.imm; }
            Var => unreachable!(),
            InSet => { sup = self.n[self.vars[key.a as usize].0 as usize].sup; }
            _ => {
                for x in [key.a, key.b, key.c] { if x != 0 { let s = self.n[x as usize].sup; sup = self.sup_union(sup, s); } }
                let r = |s: &Self, x: E| (s.n[x as usize].lo, s.n[x as usize].hi);
                let m = mask(key.w);
                match key.k {
                    Add => { let (a, b) = (r(self, key.a), r(self, key.b));
                        if let Some(h) = a.1.checked_add(b.1) { if h <= m { lo = a.0 + b.0; hi = h; } }
                        if b.0 == b.1 && lo == 0 && hi == m { let neg = b.0.wrapping_neg() & m; if a.0 >= neg { lo = a.0 - neg; hi = a.1 - neg; } } }
                    Sub => { let (a, b) = (r(self, key.a), r(self, key.b)); if a.0 >= b.1 { lo = a.0 - b.1; hi = a.1 - b.0; } }
                    Mul => { let (a, b) = (r(self, key.a), r(self, key.b));
                        if let Some(h) = a.1.checked_mul(b.1) { if h <= m { lo = a.0 * b.0; hi = h; } } }
                    UDiv => { let (a, b) = (r(self, key.a), r(self, key.b)); if b.0 > 0 { lo = a.0 / b.1; hi = a.1 / b.0; } }
                    URem => { let (a, b) = (r(self, key.a), r(self, key.b)); if b.0 > 0 { hi = a.1.min(b.1 - 1); } }
                    And => { let (a, b) = (r(self, key.a), r(self, key.b)); hi = a.1.min(b.1); }
                    Or => { let (a, b) = (r(self, key.a), r(self, key.b)); lo = a.0.max(b.0);
                        let x = a.1 | b.1; hi = if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u16) }; }
                    Xor => { let (a, b) = (r(self, key.a), r(self, key.b));
                        let x = a.1 | b.1; hi = if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u16) }; }
                    Shl => { let (a, b) = (r(self, key.a), r(self, key.b));
                        if b.0 == b.1 && b.0 < key.w as u128 && a.1 <= (m >> b.0) { lo = a.0 << b.0; hi = a.1 << b.0; } }
                    LShr => { let (a, b) = (r(self, key.a), r(self, key.b));
                        if b.0 == b.1 && b.0 < 128 { lo = a.0 >> b.0; hi = a.1 >> b.0; } else { hi = a.1; } }
                    Concat => { let (a, b) = (r(self, key.a), r(self, key.b)); let s = self.w(key.b); lo = a.0 << s | b.0; hi = a.1 << s | b.1; }
                    Extract => { let a = r(self, key.a); let h = a.1 >> key.imm;
                        if h <= m { lo = a.0 >> key.imm; hi = h; } }
                    ZExt => { let a = r(self, key.a); lo = a.0; hi = a.1; }
                    SExt => { let a = r(self, key.a); let w0 = self.w(key.a); if a.1 < 1u128 << (w0 - 1) { lo = a.0; hi = a.1; } }
                    Ite => { let (a, b) = (r(self, key.b), r(self, key.c)); lo = a.0.min(b.0); hi = a.1.max(b.1); }
                    _ => {}
                }
            }
        }
        let e = self.n.len() as u32;
        self.n.push(Node { key, sup, lo, hi });
        self.map.insert(key, e);
        if key.k != Const && key.k != InSet {
            if lo == hi && key.k != Var {
                let c = self.raw(Key { k: Const, w: key.w, a: 0, b: 0, c: 0, imm: lo });
                self.map.insert(key, c);
                return c;
            }
            if key.w == 1 && self.sups[sup as usize].len() == 1 {
                // canonical form: membership of the single variable in a set
                let v = self.sups[sup as usize][0];
                if let Some(t) = self.tab(e) {
                    let mut s: Set = [0; 4];
                    for i in 0..256 { if t[i] & 1 == 1 { set_add(&mut s, i as u8); } }
                    let r = self.in_set(v, s);
                    self.map.insert(key, r);
                    return r;
                }
            }
        }
        e
    }
    pub fn in_set(&mut self, v: u32, s: Set) -> E {
        let dom = self.vars[v as usize].1;
        let s = set_and(&s, &dom);
        if set_empty(&s) { return self.cst(1, 0); }
        if s == dom { return self.cst(1, 1); }
        let id = self.set_id(s);
        self.raw(Key { k: InSet, w: 1, a: v, b: 0, c: 0, imm: id as u128 })
    }
    /// Value table of an expression over a single byte variable.
    pub fn tab(&mut self, e: E) -> Option<Rc<[u64; 256]>> {
        if let Some(t) = self.tabs.get(&e) { return Some(t.clone()); }
        let key = self.key(e);
        if key.w > 64 { return None; }
        let mut t = [0u64; 256];
        let m = mask(key.w) as u64;
        match key.k {
            Const => { for x in t.iter_mut() { *x = key.imm as u64; } }
            Var => { for i in 0..256 { t[i] = i as u64; } }
            InSet => { let s = self.sets[key.imm as usize]; for i in 0..256 { t[i] = set_has(&s, i as u8) as u64; } }
            Extract => {
                if self.w(key.a) > 64 { return None; }
                let a = self.tab(key.a)?;
                for i in 0..256 { t[i] = (a[i] >> key.imm) & m; }
            }
            ZExt => { let a = self.tab(key.a)?; t = *a; }
            SExt => { let w0 = self.w(key.a); let a = self.tab(key.a)?; for i in 0..256 { t[i] = sx(a[i] as u128, w0) as u64 & m; } }
            Ite => {
                let (c, a, b) = (self.tab(key.a)?, self.tab(key.b)?, self.tab(key.c)?);
                for i in 0..256 { t[i] = if c[i] & 1 == 1 { a[i] } else { b[i] }; }
            }
            Eq | Ult | Slt => {
                let w0 = self.w(key.a);
                let (a, b) = (self.tab(key.a)?, self.tab(key.b)?);
                for i in 0..256 {
                    t[i] = match key.k {
                        Eq => a[i] == b[i], Ult => a[i] < b[i],
                        _ => sx(a[i] as u128, w0) < sx(b[i] as u128, w0),
                    } as u64;
                }
            }
            Concat => {
                let s = self.w(key.b);
                let (a, b) = (self.tab(key.a)?, self.tab(key.b)?);
                for i in 0..256 { t[i] = a[i] << s | b[i]; }
            }
            k => {
                let (a, b) = (self.tab(key.a)?, self.tab(key.b)?);
                for i in 0..256 { t[i] = fold(k, key.w, a[i] as u128, b[i] as u128) as u64; }
            }
        }
        let r = Rc::new(t);
        if self.tabs.len() > 60000 { self.tabs.clear(); }
        self.tabs.insert(e, r.clone());
        Some(r)
    }

    pub fn not(&mut self, e: E) -> E { let one = self.cst(1, 1); self.bin(Xor, e, one) }

    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", k);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(k, w, x, y);
            return self.cst(w, r);
        }
        let m = mask(w);
        // commutative: constant to the right
        let (a, b, ca, cb) = match k {
            Add | Mul | And | Or | Xor if ca.is_some() || (cb.is_none() && a > b) => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match k {
            Add => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let ka = self.key(a);
                    if ka.k == Add { if let Some(z) = self.cval(ka.b) { let c = self.cst(w, y.wrapping_add(z)); return self.bin(Add, ka.a, c); } }
                    if let Some(r) = self.ite_const(k, a, b) { return r; }
                }
                // (x - y) + y
                let ka = self.key(a);
                if ka.k == Sub && ka.b == b { return ka.a; }
            }
            Sub => {
                if a == b { return self.cst(w, 0); }
                if let Some(y) = cb { let c = self.cst(w, y.wrapping_neg()); return self.bin(Add, a, c); }
                let ka = self.key(a); let kb = self.key(b);
                // (x + y) - x ; (x + c) - (x + d)
                if ka.k == Add { if ka.a == b { return ka.b; } if ka.b == b { return ka.a; }
                    if kb.k == Add && ka.a == kb.a { return self.bin(Sub, ka.b, kb.b); } }
                if kb.k == Add && kb.a == a { let z = self.cst(w, 0); return self.bin(Sub, z, kb.b); }
            }
            Mul => { if let Some(y) = cb {
                if y == 0 { return b; } if y == 1 { return a; }
                if y.is_power_of_two() { let c = self.cst(w, y.trailing_zeros() as u128); return self.bin(Shl, a, c); }
                if let Some(r) = self.ite_const(k, a, b) { return r; }
            } }
            UDiv => { if let Some(y) = cb {
                if y == 1 { return a; }
                if y != 0 && self.n[a as usize].hi < y { return self.cst(w, 0); }
                if y.is_power_of_two() { let c = self.cst(w, y.trailing_zeros() as u128); return self.bin(LShr, a, c); }
                if let Some(r) = self.narrow(k, a, y) { return r; }
            } }
            URem => { if let Some(y) = cb {
                if y == 1 { return self.cst(w, 0); }
                if y != 0 && self.n[a as usize].hi < y { return a; }
                if y.is_power_of_two() { let c = self.cst(w, y - 1); return self.bin(And, a, c); }
                if let Some(r) = self.narrow(k, a, y) { return r; }
            } }
            SDiv | SRem => {
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                let h = 1u128 << (w - 1);
                if na.hi < h && nb.hi < h { return self.bin(if k == SDiv { UDiv } else { URem }, a, b); }
            }
            And => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; } if y == m { return a; }
                    let ka = self.key(a);
                    if ka.k == And { if let Some(z) = self.cval(ka.b) { let c = self.cst(w, y & z); return self.bin(And, ka.a, c); } }
                    // low mask -> zext(extract)
                    if (y + 1).is_power_of_two() && w > 1 {
                        if self.n[a as usize].hi <= y { return a; }
                        let lw = (y + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                    if ka.k == ZExt { let iw = self.w(ka.a); if y & mask(iw) != y || iw < w {
                        let c = self.cst(iw, y); let r = self.bin(And, ka.a, c); return self.zext(r, w); } }
                    if let Some(r) = self.ite_const(k, a, b) { return r; }
                } else if w == 1 {
                    if self.not(a) == b { return self.cst(1, 0); }
                }
            }
            Or => {
                if a == b { return a; }
                if let Some(y) = cb { if y == 0 { return a; } if y == m { return b; } }
                else if w == 1 { if self.not(a) == b { return self.cst(1, 1); } }
                if w > 1 {
                    // disjoint bits: or == concat
                    if let Some(r) = self.or_concat(a, b) { return r; }
                    if let Some(r) = self.or_concat(b, a) { return r; }
                }
            }
            Xor => {
                if a == b { return self.cst(w, 0); }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let ka = self.key(a);
                    if ka.k == Xor { if let Some(z) = self.cval(ka.b) { let c = self.cst(w, y ^ z); return self.bin(Xor, ka.a, c); } }
                    if let Some(r) = self.ite_const(k, a, b) { return r; }
                    if ka.k == ZExt && y & !mask(self.w(ka.a)) == 0 {
                        let c = self.cst(self.w(ka.a), y); let r = self.bin(Xor, ka.a, c); return self.zext(r, w);
                    }
                }
            }
            Shl => { if let Some(y) = cb {
                if y == 0 { return a; } if y >= w as u128 { return self.cst(w, 0); }
                // concat(extract low, zeros)
                let x = self.extract(a, 0, w - y as u16);
                let z = self.cst(y as u16, 0);
                return self.concat(x, z);
            } }
            LShr => { if let Some(y) = cb {
                if y == 0 { return a; } if y >= w as u128 { return self.cst(w, 0); }
                let x = self.extract(a, y as u16, w - y as u16);
                return self.zext(x, w);
            } }
            AShr => { if let Some(y) = cb {
                if y == 0 { return a; }
                let y = y.min(w as u128 - 1);
                if self.n[a as usize].hi < 1u128 << (w - 1) { let c = self.cst(w, y); return self.bin(LShr, a, c); }
                let x = self.extract(a, y as u16, w - y as u16);
                return self.sext(x, w);
            } }
            _ => {}
        }
        self.raw(Key { k, w, a, b, c: 0, imm: 0 })
    }
    fn narrow(&mut self, k: K, a: E, y: u128) -> Option<E> {
        let w = self.w(a);
        let need = (128 - (self.n[a as usize].hi | y).leading_zeros()) as u16;
        if need < w {
            let x = self.extract(a, 0, need);
            let c = self.cst(need, y);
            let r = self.bin(k, x, c);
            return Some(self.zext(r, w));
        }
        None
    }
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        // a = concat(x, 0_k) and b < 2^k
        let ka = self.key(a);
        if ka.k == Concat && self.cval(ka.b) == Some(0) {
            let s = self.w(ka.b);
            if self.n[b as usize].hi <= mask(s) {
                let l = self.extract(b, 0, s);
                return Some(self.concat(ka.a, l));
            }
        }
        if ka.k == ZExt {
            let iw = self.w(ka.a);
            if self.n[b as usize].hi <= mask(iw) && self.w(a) > iw {
                let l = self.extract(b, 0, iw);
                let r = self.bin(Or, ka.a, l);
                return Some(self.zext(r, self.w(a)));
            }
            // b = concat(y, 0_k) with k >= iw handled by the swapped call
        }
        None
    }
    fn ite_const(&mut self, k: K, a: E, c: E) -> Option<E> {
        let ka = self.key(a);
        if ka.k == Ite && (self.cval(ka.b).is_some() && self.cval(ka.c).is_some()) {
            let t = self.bin(k, ka.b, c);
            let f = self.bin(k, ka.c, c);
            return Some(self.ite(ka.a, t, f));
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let w0 = self.w(a);
        if w0 == w { return a; }
        if let Some(x) = self.cval(a) { return self.cst(w, x); }
        let ka = self.key(a);
        if ka.k == ZExt { return self.zext(ka.a, w); }
        if ka.k == Ite && self.cval(ka.b).is_some() && self.cval(ka.c).is_some() {
            let t = self.zext(ka.b, w); let f = self.zext(ka.c, w);
            return self.ite(ka.a, t, f);
        }
        if ka.k == Concat { if let Some(0) = self.cval(ka.a) { return self.zext(ka.b, w); } }
        self.raw(Key { k: ZExt, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let w0 = self.w(a);
        if w0 == w { return a; }
        if let Some(x) = self.cval(a) { return self.cst(w, sx(x, w0) as u128); }
        if self.n[a as usize].hi < 1u128 << (w0 - 1) { return self.zext(a, w); }
        if w0 == 1 { let t = self.cst(w, !0); let f = self.cst(w, 0); return self.ite(a, t, f); }
        self.raw(Key { k: SExt, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let w0 = self.w(a);
        if lo == 0 && w == w0 { return a; }
        debug_assert!(lo + w <= w0);
        if let Some(x) = self.cval(a) { return self.cst(w, x >> lo); }
        if lo > 0 && self.n[a as usize].hi >> lo == 0 { return self.cst(w, 0); }
        let ka = self.key(a);
        match ka.k {
            Extract => return self.extract(ka.a, lo + ka.imm as u16, w),
            Concat => {
                let s = self.w(ka.b);
                if lo + w <= s { return self.extract(ka.b, lo, w); }
                if lo >= s { return self.extract(ka.a, lo - s, w); }
                let l = self.extract(ka.b, lo, s - lo);
                let h = self.extract(ka.a, 0, lo + w - s);
                return self.concat(h, l);
            }
            ZExt => {
                let iw = self.w(ka.a);
                if lo >= iw { return self.cst(w, 0); }
                if lo + w <= iw { return self.extract(ka.a, lo, w); }
                let x = self.extract(ka.a, lo, iw - lo);
                return self.zext(x, w);
            }
            SExt => {
                let iw = self.w(ka.a);
                if lo + w <= iw { return self.extract(ka.a, lo, w); }
                if lo == 0 { return self.sext(ka.a, w); }
            }
            And | Or | Xor => {
                let x = self.extract(ka.a, lo, w); let y = self.extract(ka.b, lo, w);
                return self.bin(ka.k, x, y);
            }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(ka.a, 0, w); let y = self.extract(ka.b, 0, w);
                return self.bin(ka.k, x, y);
            }
            Ite if self.cval(ka.b).is_some() || self.cval(ka.c).is_some() || true => {
                let x = self.extract(ka.b, lo, w); let y = self.extract(ka.c, lo, w);
                return self.ite(ka.a, x, y);
            }
            _ => {}
        }
        self.raw(Key { k: Extract, w, a, b: 0, c: 0, imm: lo as u128 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let w = self.w(a) + self.w(b);
        assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let s = self.w(b); return self.cst(w, x << s | y); }
        if let Some(0) = self.cval(a) { return self.zext(b, w); }
        let (ka, kb) = (self.key(a), self.key(b));
        // adjacent extracts of one value
        if ka.k == Extract && kb.k == Extract && ka.a == kb.a && ka.imm == kb.imm + kb.w as u128 {
            return self.extract(ka.a, kb.imm as u16, w);
        }
        if ka.k == Extract && ka.a == b && ka.imm == kb.w as u128 && false { return b; }
        // concat(extract(x, hi), concat(extract(x, lo), r))
        if kb.k == Concat && ka.k == Extract {
            let kc = self.key(kb.a);
            if kc.k == Extract && kc.a == ka.a && ka.imm == kc.imm + kc.w as u128 {
                let x = self.extract(ka.a, kc.imm as u16, ka.w + kc.w);
                return self.concat(x, kb.b);
            }
        }
        // right-assoc normal form: concat(concat(x,y),z) -> concat(x, concat(y,z))
        if ka.k == Concat { let r = self.concat(ka.b, b); return self.concat(ka.a, r); }
        // zext high part
        if ka.k == ZExt { let r = self.concat(ka.a, b); return self.zext(r, w); }
        // both ite on the same condition
        if ka.k == Ite && kb.k == Ite && ka.a == kb.a {
            let t = self.concat(ka.b, kb.b); let f = self.concat(ka.c, kb.c);
            return self.ite(ka.a, t, f);
        }
        if ka.k == Ite && kb.k == Const && self.cval(ka.b).is_some() && self.cval(ka.c).is_some() {
            let t = self.concat(ka.b, b); let f = self.concat(ka.c, b);
            return self.ite(ka.a, t, f);
        }
        if kb.k == Ite && ka.k == Const && self.cval(kb.b).is_some() && self.cval(kb.c).is_some() {
            let t = self.concat(a, kb.b); let f = self.concat(a, kb.c);
            return self.ite(kb.a, t, f);
        }
        self.raw(Key { k: Concat, w, a, b, c: 0, imm: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cval(c) { return if x == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(And, n, b); }
                (None, Some(0)) => return self.bin(And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Or, n, a); }
                _ => {}
            }
        }
        let kc = self.key(c);
        if kc.k == Xor && self.cval(kc.b) == Some(1) { return self.ite(kc.a, b, a); }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.k == Ite && ka.a == c { return self.ite(c, ka.b, b); }
        if kb.k == Ite && kb.a == c { return self.ite(c, a, kb.c); }
        self.raw(Key { k: Ite, w, a: c, b: a, c: b, imm: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(1, 1); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.cst(1, (x == y) as u128); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo || nb.hi < na.lo { return self.cst(1, 0); }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let ka = self.key(a);
        if let Some(y) = self.cval(b) {
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            match ka.k {
                ZExt => {
                    let iw = self.w(ka.a);
                    if y & !mask(iw) != 0 { return self.cst(1, 0); }
                    let c = self.cst(iw, y); return self.eq(ka.a, c);
                }
                SExt => {
                    let iw = self.w(ka.a);
                    if sx(y & mask(iw), iw) as u128 & mask(w) != y { return self.cst(1, 0); }
                    let c = self.cst(iw, y); return self.eq(ka.a, c);
                }
                Concat => {
                    let s = self.w(ka.b);
                    let ch = self.cst(w - s, y >> s); let cl = self.cst(s, y);
                    let h = self.eq(ka.a, ch);
                    if self.cval(h) == Some(0) { return h; }
                    let l = self.eq(ka.b, cl);
                    return self.bin(And, h, l);
                }
                Add => if let Some(z) = self.cval(ka.b) { let c = self.cst(w, y.wrapping_sub(z)); return self.eq(ka.a, c); },
                Sub => if let Some(z) = self.cval(ka.a) { let c = self.cst(w, z.wrapping_sub(y)); return self.eq(ka.b, c); }
                       else if y == 0 { return self.eq(ka.a, ka.b); },
                Xor => if let Some(z) = self.cval(ka.b) { let c = self.cst(w, y ^ z); return self.eq(ka.a, c); }
                       else if y == 0 { return self.eq(ka.a, ka.b); },
                Or if y == 0 => { let z = self.cst(w, 0); let l = self.eq(ka.a, z); let r = self.eq(ka.b, z); return self.bin(And, l, r); }
                Ite => {
                    let (t, f) = (self.cval(ka.b), self.cval(ka.c));
                    if t.is_some() || f.is_some() {
                        let x = self.eq(ka.b, b); let z = self.eq(ka.c, b);
                        return self.ite(ka.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            let kb = self.key(b);
            if ka.k == ZExt && kb.k == ZExt {
                let (wa, wb) = (self.w(ka.a), self.w(kb.a));
                let iw = wa.max(wb);
                let x = self.zext(ka.a, iw); let y = self.zext(kb.a, iw);
                if iw < w { return self.eq(x, y); }
            }
            if ka.k == Concat && kb.k == Concat && self.w(ka.b) == self.w(kb.b) {
                let h = self.eq(ka.a, kb.a); 
                if self.cval(h) == Some(0) { return h; }
                let l = self.eq(ka.b, kb.b);
                return self.bin(And, h, l);
            }
            if w == 1 { let n = self.not(b); return self.bin(Xor, a, n); }
            if ka.k == Add && self.cval(ka.b).is_some() && ka.a == b { return self.cst(1, 0); }
        }
        self.raw(Key { k: Eq, w: 1, a, b, c: 0, imm: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(1, 0); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo { return self.cst(1, 1); }
        if na.lo >= nb.hi { return self.cst(1, 0); }
        let w = self.w(a);
        let (ka, kb) = (self.key(a), self.key(b));
        match (ka.k, kb.k) {
            (ZExt, ZExt) => {
                let iw = self.w(ka.a).max(self.w(kb.a));
                if iw < w { let x = self.zext(ka.a, iw); let y = self.zext(kb.a, iw); return self.ult(x, y); }
            }
            (ZExt, Const) => {
                let iw = self.w(ka.a);
                if kb.imm <= mask(iw) { let y = self.cst(iw, kb.imm); return self.ult(ka.a, y); }
            }
            (Const, ZExt) => {
                let iw = self.w(kb.a);
                if ka.imm <= mask(iw) { let y = self.cst(iw, ka.imm); return self.ult(y, kb.a); }
            }
            _ => {}
        }
        if let Some(1) = self.cval(b) { let z = self.cst(w, 0); return self.eq(a, z); }
        if let Some(0) = self.cval(a) { let z = self.cst(w, 0); let q = self.eq(b, z); return self.not(q); }
        if ka.k == Ite && self.cval(b).is_some() && self.cval(ka.b).is_some() && self.cval(ka.c).is_some() {
            let t = self.ult(ka.b, b); let f = self.ult(ka.c, b); return self.ite(ka.a, t, f);
        }
        if kb.k == Ite && self.cval(a).is_some() && self.cval(kb.b).is_some() && self.cval(kb.c).is_some() {
            let t = self.ult(a, kb.b); let f = self.ult(a, kb.c); return self.ite(kb.a, t, f);
        }
        self.raw(Key { k: Ult, w: 1, a, b, c: 0, imm: 0 })
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(1, 0); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.cst(1, (sx(x, w) < sx(y, w)) as u128); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let h = 1u128 << (w - 1);
        if na.hi < h && nb.hi < h { return self.ult(a, b); }
        if na.lo >= h && nb.lo >= h { return self.ult(a, b); }
        if na.hi < h && nb.lo >= h { return self.cst(1, 0); }
        if na.lo >= h && nb.hi < h { return self.cst(1, 1); }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.k == Ite && self.cval(b).is_some() && self.cval(ka.b).is_some() && self.cval(ka.c).is_some() {
            let t = self.slt(ka.b, b); let f = self.slt(ka.c, b); return self.ite(ka.a, t, f);
        }
        if kb.k == Ite && self.cval(a).is_some() && self.cval(kb.b).is_some() && self.cval(kb.c).is_some() {
            let t = self.slt(a, kb.b); let f = self.slt(a, kb.c); return self.ite(kb.a, t, f);
        }
        self.raw(Key { k: Slt, w: 1, a, b, c: 0, imm: 0 })
    }

    /// Evaluates `e` under an assignment of all variables.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { self.gen = 1; self.memo.clear(); }
        if self.memo.len() < self.n.len() { let l = self.n.len(); self.memo.resize(l + 1024, (0, 0)); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let key = self.n[e as usize].key;
        match key.k { Const => return key.imm, Var => return m[key.a as usize] as u128,
            InSet => return set_has(&self.sets[key.imm as usize], m[key.a as usize]) as u128, _ => {} }
        let (g, v) = self.memo[e as usize];
        if g == self.gen { return v; }
        let r = match key.k {
            Ite => if self.ev(key.a, m) == 1 { self.ev(key.b, m) } else { self.ev(key.c, m) },
            Eq => (self.ev(key.a, m) == self.ev(key.b, m)) as u128,
            Ult => (self.ev(key.a, m) < self.ev(key.b, m)) as u128,
            Slt => { let w = self.w(key.a); (sx(self.ev(key.a, m), w) < sx(self.ev(key.b, m), w)) as u128 }
            Concat => { let s = self.w(key.b); self.ev(key.a, m) << s | self.ev(key.b, m) }
            Extract => (self.ev(key.a, m) >> key.imm) & mask(key.w),
            ZExt => self.ev(key.a, m),
            SExt => { let w = self.w(key.a); sx(self.ev(key.a, m), w) as u128 & mask(key.w) }
            k => { let a = self.ev(key.a, m); let b = self.ev(key.b, m); fold(k, key.w, a, b) }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
    pub fn show(&self, e: E) -> String { self.show_d(e, 6) }
    fn show_d(&self, e: E, d: u32) -> String {
        let k = self.key(e);
        if d == 0 { return "…".into(); }
        match k.k {
            Const => format!("{}:{}", k.imm, k.w), Var => format!("v{}", k.a),
            InSet => { let s = self.sets[k.imm as usize]; format!("v{}∈{}", k.a, show_set(&s)) }
            Extract => format!("{}[{}+{}]", self.show_d(k.a, d - 1), k.imm, k.w),
            ZExt => format!("z{}({})", k.w, self.show_d(k.a, d - 1)),
            SExt => format!("s{}({})", k.w, self.show_d(k.a, d - 1)),
            Ite => format!("ite({},{},{})", self.show_d(k.a, d - 1), self.show_d(k.b, d - 1), self.show_d(k.c, d - 1)),
            o => format!("{:?}({},{})", o, self.show_d(k.a, d - 1), self.show_d(k.b, d - 1)),
        }
    }
}
pub fn show_set(s: &Set) -> String {
    let v = set_iter(s);
    let mut out = String::from("{");
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 { j += 1; }
        let f = |b: u8| if (33..127).contains(&b) { (b as char).to_string() } else { format!("x{:02x}", b) };
        if i > 0 { out.push(' '); }
        if j > i { out += &format!("{}-{}", f(v[i]), f(v[j])); } else { out += &f(v[i]); }
        i = j + 1;
    }
    out + "}"
}

// ---- helpers on V -------------------------------------------------------------------------
impl V {
    pub fn ex(&self, w: u16) -> E { if self.e != 0 { self.e } else { ar().cst(w, self.u128()) } }
    pub fn of(e: E) -> V { match ar().cval(e) { Some(c) => V::c128(c), None => V::s(e) } }
}
pub fn vbin(k: K, w: u16, a: V, b: V) -> V {
    if a.e == 0 && b.e == 0 { return V::c128(fold(k, w, a.u128(), b.u128())); }
    V::of(ar().bin(k, a.ex(w), b.ex(w)))
}
pub fn veq(w: u16, a: V, b: V) -> V {
    if a.e == 0 && b.e == 0 { return V::c((a.lo == b.lo && a.hi == b.hi) as u64); }
    V::of(ar().eq(a.ex(w), b.ex(w)))
}
pub fn vult(w: u16, a: V, b: V) -> V {
    if a.e == 0 && b.e == 0 { return V::c((a.u128() < b.u128()) as u64); }
    V::of(ar().ult(a.ex(w), b.ex(w)))
}
pub fn vslt(w: u16, a: V, b: V) -> V {
    if a.e == 0 && b.e == 0 { return V::c((sx(a.u128(), w) < sx(b.u128(), w)) as u64); }
    V::of(ar().slt(a.ex(w), b.ex(w)))
}
pub fn vnot(a: V) -> V { if a.e == 0 { V::c(a.lo ^ 1) } else { V::of(ar().not(a.e)) } }
pub fn vand(a: V, b: V) -> V { vbin(And, 1, a, b) }
pub fn vor(a: V, b: V) -> V { vbin(Or, 1, a, b) }
pub fn vite(w: u16, c: V, a: V, b: V) -> V {
    if c.e == 0 { return if c.lo & 1 == 1 { a } else { b }; }
    if a.e == 0 && b.e == 0 && a.lo == b.lo && a.hi == b.hi { return a; }
    V::of(ar().ite(c.e, a.ex(w), b.ex(w)))
}
pub fn vzext(a: V, w: u16) -> V { if a.e == 0 { a } else { V::of(ar().zext(a.e, w)) } }
pub fn vsext(a: V, w0: u16, w: u16) -> V {
    if a.e == 0 { V::c128(sx(a.u128(), w0) as u128 & mask(w)) } else { V::of(ar().sext(a.e, w)) }
}
pub fn vext(a: V, lo: u16, w: u16) -> V {
    if a.e == 0 { V::c128((a.u128() >> lo) & mask(w)) } else { V::of(ar().extract(a.e, lo, w)) }
}
pub fn vconcat(a: V, wa: u16, b: V, wb: u16) -> V {
    if a.e == 0 && b.e == 0 { return V::c128(a.u128() << wb | b.u128()); }
    V::of(ar().concat(a.ex(wa), b.ex(wb)))
}
