//! What the importers' harnesses share.
#![allow(dead_code)]
use super::util::*;
use super::vf::*;

/// The text of a windows-1252 file in UTF-8.
pub fn utf8(s: &[u8]) -> B {
    let mut v = Vec::new();
    for c in s {
        if split(*c < 0x80) { v.push(*c); continue; }
        let c = *c;
        let mut u = c as u32;
        let hi: [u32; 32] = [0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f, 0x90, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178];
        for k in 0..32 { if split(c == 0x80 + k as u8) { u = hi[k]; } }
        if u < 0x800 { v.push(0xc0 | (u >> 6) as u8); v.push(0x80 | (u & 63) as u8); }
        else { v.push(0xe0 | (u >> 12) as u8); v.push(0x80 | (u >> 6 & 63) as u8); v.push(0x80 | (u & 63) as u8); }
    }
    v
}
/// The number with the other sign.
pub fn negative(s: &[u8]) -> B { if s[0] == b'-' { s[1..].to_vec() } else { cat(&[b"-", s]) } }
pub fn gbp(s: &[u8]) -> B { cat(&[b"GBP", s]) }
/// A number: sign, digits before and after the point.
pub struct N { pub neg: bool, pub int: B, pub frac: B }
pub fn num(s: &[u8]) -> Option<N> {
    let neg = !s.is_empty() && s[0] == b'-';
    let s = if neg { &s[1..] } else { s };
    let mut p = 0;
    while p < s.len() && s[p] != b'.' { p += 1; }
    let int = &s[..p];
    let frac = if p < s.len() { &s[p + 1..] } else { &s[p..] };
    if int.is_empty() { return None; }
    let mut ok = true;
    for c in int.iter().chain(frac) { ok &= c.is_ascii_digit(); }
    if !split(ok) { return None; }
    Some(N { neg, int: int.to_vec(), frac: frac.to_vec() })
}
impl N {
    /// The same number (zeros at either end do not count).
    pub fn same(&self, o: &N) -> bool {
        let (mut r, mut zero) = (true, true);
        let at = |v: &[u8], k: usize, n: usize| if k + v.len() < n { b'0' } else { v[k + v.len() - n] };
        let n = self.int.len().max(o.int.len());
        for k in 0..n { let (x, y) = (at(&self.int, k, n), at(&o.int, k, n)); r &= x == y; zero &= x == b'0'; }
        let n = self.frac.len().max(o.frac.len());
        for k in 0..n { let (x, y) = (self.frac.get(k).copied().unwrap_or(b'0'), o.frac.get(k).copied().unwrap_or(b'0')); r &= x == y; zero &= x == b'0'; }
        r & ((self.neg == o.neg) | zero)
    }
}
/// income for what comes in, expenses for what goes out, by the sign of the own posting.
pub fn peer_account(own: &[u8]) -> B { if own[0] == b'-' { b("expenses:unknown") } else { b("income:unknown") } }
pub fn amount_same(g: &[u8], w: &[u8]) -> bool {
    let cut = |s: &[u8]| { let mut k = 0; while k < s.len() && s[k] != b'-' && !s[k].is_ascii_digit() { k += 1; } k };
    if g.is_empty() || w.is_empty() { return g.len() == w.len(); }
    let (i, j) = (cut(g), cut(w));
    if !eq(&g[..i], &w[..j]) { return false; }
    match (num(&g[i..]), num(&w[j..])) { (Some(x), Some(y)) => x.same(&y), _ => false }
}
/// Like `compare`, with amounts compared as numbers.
pub fn compare_amounts(what: &str, got: &[T], want: &[T]) {
    let mut want = want.to_vec();
    if got.len() == want.len() {
        for (g, w) in got.iter().zip(&mut want) {
            if g.posts.len() != w.posts.len() { continue; }
            for (p, q) in g.posts.iter().zip(&mut w.posts) {
                check(&format!("{what}: amount"), amount_same(&p.amount, &q.amount));
                check(&format!("{what}: balance"), amount_same(&p.balance, &q.balance));
                q.amount = p.amount.clone();
                q.balance = p.balance.clone();
            }
        }
    }
    compare(what, got, &want);
}

/// The message a fingerprint is the hash of.
#[derive(Clone)]
pub struct M(pub B);
impl M {
    pub fn new() -> M { M(Vec::new()) }
    pub fn u8(&mut self, v: u8) { self.0.push(v); }
    pub fn u32(&mut self, v: u32) { self.0.extend_from_slice(&v.to_be_bytes()); }
    pub fn len(&mut self, n: usize) { self.0.extend_from_slice(&(n as u64).to_be_bytes()); }
    pub fn str(&mut self, s: &[u8]) { self.len(s.len()); self.0.extend_from_slice(s); }
    pub fn date(&mut self, y: i32, m: u32, d: u32) { self.len(12); self.u32(y as u32); self.u32(m); self.u32(d); }
    pub fn time(&mut self, h: u32, m: u32, s: u32) { self.len(16); self.u32(h); self.u32(m); self.u32(s); self.u32(0); }
    /// `s`: the number with all the decimals that count.
    pub fn amount(&mut self, s: &[u8], currency: &[u8]) {
        let neg = s[0] == b'-';
        let s = if neg { &s[1..] } else { s };
        let mut n: u128 = 0;
        let mut scale = 0;
        let mut point = false;
        for c in s { if *c == b'.' { point = true; continue; } n = n * 10 + (*c - b'0') as u128; if point { scale += 1; } }
        self.len(16 + 1 + currency.len());
        self.0.extend_from_slice(&[0, 0, scale, if neg { 0x80 } else { 0 }]);
        self.0.extend_from_slice(&n.to_le_bytes()[..12]);
        self.u8(1);
        self.str(currency);
    }
    pub fn hash(&self, end: &[u8]) -> B {
        let mut m = self.clone();
        m.str(end);
        base64(&sha1(&m.0))
    }
}
pub fn sha1(m: &[u8]) -> [u8; 20] {
    use sha1::{Digest, Sha1};
    let mut h = Sha1::new();
    h.update(m);
    h.finalize().into()
}
pub fn base64(s: &[u8]) -> B {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut v = Vec::new();
    for c in s.chunks(3) {
        let x = (c[0] as usize) << 16 | (if c.len() > 1 { c[1] as usize } else { 0 }) << 8 | if c.len() > 2 { c[2] as usize } else { 0 };
        for k in 0..=c.len() { v.push(t[x >> (18 - 6 * k) & 63]); }
    }
    v
}

/// No two postings share a fingerprint.
pub fn distinct(ts: &[T]) {
    let mut all: Vec<B> = Vec::new();
    for t in ts { for p in &t.posts { for f in p.c.fps() { check("no two postings share a fingerprint", !has(&all, &f)); all.push(f); } } }
}

/// What in a description reads as something else, as listed in known-findings.json.
pub fn odd(s: &[u8]) -> Option<&'static str> {
    if s.is_empty() { return Some("an empty description can be read again"); }
    if split((s[0] == b'*') | (s[0] == b'!') | (s[0] == b'(')) { return Some("a description that starts like a status or a code can be read again"); }
    // the first run of blanks wide enough to end a description, and a semicolon behind it
    let mut k = 1;
    while k < s.len() {
        if split(s[k] == b'\t') | (k + 1 < s.len() && split((s[k] == b' ') & (s[k + 1] == b' '))) {
            while k < s.len() && split((s[k] == b' ') | (s[k] == b'\t')) { k += 1; }
            if k < s.len() && split(s[k] == b';') { return Some("a description with a semicolon behind wide blanks can be read again"); }
            break;
        }
        k += 1;
    }
    None
}
/// The program reads what it wrote to `out` as `want`.
pub fn read_again(want: &[T]) {
    for t in want {
        if let Some(label) = odd(&t.head) {
            cover("a known oddity");
            let r = run(&["fmt", "out"]);
            let mut ok = r == 0;
            if ok { match parse(&read("out").unwrap()) { None => ok = false, Some(g) => { ok = g.len() == want.len(); for (g, w) in g.iter().zip(want) { ok = ok && eq(&g.head, &w.head) && g.posts.len() == w.posts.len() && g.c.text.is_empty(); } } } }
            check(label, ok);
            return;
        }
    }
    check("the output can be read", run(&["fmt", "out"]) == 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal again", got.is_some());
    compare_amounts("read again", &got.unwrap(), want);
}
