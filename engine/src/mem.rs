//! Copy-on-write object memory with a symbolic byte overlay.
use std::rc::Rc;
use crate::expr::{ar, E, V, vconcat, vext};

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<Vec<E>>>, pub ro: bool }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false } }
    #[inline] pub fn get_v(&self, off: usize, sz: usize) -> V {
        if let Some(s) = &self.sym {
            if s[off..off + sz].iter().any(|x| *x != 0) {
                let b = |k: usize| if s[off + k] != 0 { V::s(s[off + k]) } else { V::c(self.data[off + k] as u64) };
                let mut acc = b(0);
                let mut w = 8u16;
                for k in 1..sz { acc = vconcat(b(k), 8, acc, w); w += 8; }
                return acc;
            }
        }
        let d = &self.data[off..off + sz];
        match sz {
            8 => V::c(u64::from_le_bytes(d.try_into().unwrap())),
            1 => V::c(d[0] as u64),
            4 => V::c(u32::from_le_bytes(d.try_into().unwrap()) as u64),
            16 => V::c128(u128::from_le_bytes(d.try_into().unwrap())),
            _ => { let mut x = [0u8; 16]; x[..sz].copy_from_slice(d); V::c128(u128::from_le_bytes(x)) }
        }
    }
    #[inline] pub fn set_v(&mut self, off: usize, sz: usize, v: V, w: u16) {
        if v.e == 0 {
            if let Some(s) = &mut self.sym { for x in &mut s[off..off + sz] { *x = 0; } }
            let d = &mut self.data[off..off + sz];
            match sz {
                8 => d.copy_from_slice(&v.lo.to_le_bytes()),
                1 => d[0] = v.lo as u8,
                4 => d.copy_from_slice(&(v.lo as u32).to_le_bytes()),
                _ => d.copy_from_slice(&v.u128().to_le_bytes()[..sz]),
            }
            return;
        }
        let n = self.data.len();
        let e = ar().zext(v.e, sz as u16 * 8);
        debug_assert!(w <= sz as u16 * 8);
        let s = self.sym.get_or_insert_with(|| Box::new(vec![0; n]));
        for k in 0..sz {
            let b = vext(V::of(e), k as u16 * 8, 8);
            if b.e == 0 { s[off + k] = 0; self.data[off + k] = b.lo as u8; } else { s[off + k] = b.e; }
        }
    }
    pub fn byte(&self, off: usize) -> V {
        if let Some(s) = &self.sym { if s[off] != 0 { return V::s(s[off]); } }
        V::c(self.data[off] as u64)
    }
    pub fn resize(&mut self, n: usize) { self.data.resize(n, 0); if let Some(s) = &mut self.sym { s.resize(n, 0); } }
    pub fn has_sym(&self, off: usize, n: usize) -> bool { match &self.sym { Some(s) => s[off..off + n].iter().any(|x| *x != 0), None => false } }
}

const CH: usize = 128;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone, Default)]
pub struct Region { chunks: Vec<Option<Chunk>> }
impl Region {
    #[inline(always)] pub fn get(&self, id: usize) -> Option<&Obj> {
        match self.chunks.get(id / CH) { Some(Some(c)) => c[id % CH].as_deref(), _ => None }
    }
    #[inline(always)] pub fn get_rc(&self, id: usize) -> Option<&Rc<Obj>> {
        match self.chunks.get(id / CH) { Some(Some(c)) => c[id % CH].as_ref(), _ => None }
    }
    #[inline(always)] pub fn get_mut(&mut self, id: usize) -> Option<&mut Obj> {
        match self.chunks.get_mut(id / CH) { Some(Some(c)) => Rc::make_mut(c)[id % CH].as_mut().map(Rc::make_mut), _ => None }
    }
    pub fn set(&mut self, id: usize, o: Option<Rc<Obj>>) {
        let c = id / CH;
        if c >= self.chunks.len() { if o.is_none() { return; } self.chunks.resize(c + 1, None); }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(vec![None; CH]));
        let v = Rc::make_mut(ch);
        v[id % CH] = o;
    }
}
