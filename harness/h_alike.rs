//! Things that are almost the same: two postings (or tags, rules, rows) that differ in one field,
//! and in that one only a little. Whether the program takes them for the same or for different
//! ones has to be what the documentation says.
use super::h_merge::*;
use super::util::*;
use super::vf::*;

pub const VARY: u8 = 16;
/// Something like `s`.
pub fn vary(k: u8, s: &[u8]) -> B {
    let n = s.len();
    let flip = |c: u8| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match k {
        0 => s.to_vec(),
        1 => s.iter().map(|c| flip(*c)).collect(),
        2 => { let mut v = s.to_vec(); v[0] = flip(v[0]); v }
        3 => { let mut v = s.to_vec(); v[n - 1] = flip(v[n - 1]); v }
        4 => cat(&[s, &[byte("a character", ALPHA.or(DIGIT))]]),
        5 => cat(&[s, b"0"]),
        6 => cat(&[b"x", s]),
        7 => s[..n - 1].to_vec(),
        8 => s[1..].to_vec(),
        9 => cat(&[&s[..n - 1], &[byte("a character", ALPHA.or(DIGIT))]]),
        10 => cat(&[b"x", &s[1..]]),
        11 => cat(&[s, s]),
        12 => cat(&[s, b"-", s]),
        13 => cat(&[&s[..n / 2], b"-", &s[n / 2..]]),
        14 => cat(&[s, "é".as_bytes()]),
        _ => cat(&[s, b"."]),
    }
}
const NUMBERS: [&str; 12] = ["1", "1.0", "1.00", "1.000", "1.10", "-1", "10", "0.1", "1.01", "0.99", "11", "-1.0"];
const FIELDS: u8 = 16;
fn number(v: u8) -> B {
    if v < 12 { return b(NUMBERS[v as usize]); }
    let d = bytes("digits", 3, DIGIT);
    vec![d[0], b'.', d[1], d[2]]
}
fn field(k: u8, v: u8, t: &mut T) {
    let p = &mut t.posts[0];
    match k {
        0 => p.account = cat(&[b"A:", &vary(v, b"ab")]),
        1 => p.account = cat(&[&vary(v, b"Ab"), b":c"]),
        2 => p.amount = cat(&[b"GBP", &number(v)]),
        3 => p.amount = cat(&[&vary(v, b"GBP").iter().filter(|c| c.is_ascii_alphabetic()).cloned().collect::<B>(), b"1"]),
        4 => p.balance = cat(&[b"GBP", &number(v)]),
        5 => p.balance = if v == 0 { B::new() } else { cat(&[b"GBP", &number(v)]) },
        6 => p.c.add(&cat(&[b"fp-", &vary(v, b"Ab")])),
        7 => p.c.add(&cat(&[b"fp-name.1.ns-", &vary(v, b"AbCd+/")])),
        8 => p.c.add(&vary(v, b"tag")),
        9 => p.c.add(&vary(v, b"A-long-tag-with-words")),
        10 => p.c.set(&vary(v, b"key"), b"v"),
        11 => p.c.set(b"key", &vary(v, b"some value")),
        12 => p.c.text.push(vary(v, b"some text")),
        13 => p.c.add(&vary(v, b"unknown-account")),
        14 => t.c.set(b"source-file", &vary(v, b"src.csv")),
        _ => t.head = vary(v, b"some shop"),
    }
}
/// Two postings that differ a little, in files of their own, in one transaction, or in two, and
/// another that is like the first.
fn layout(l: u8, p: T, q: T, r: T) -> Vec<Vec<T>> {
    let into = |mut a: T, c: T| { a.posts.extend(c.posts); for (k, v) in c.c.kv { a.c.set(&k, &v); } a };
    match l {
        0 => vec![vec![p], vec![q]],
        1 => vec![vec![q], vec![p]],
        2 => vec![vec![p, q], vec![r]],
        3 => vec![vec![q, p], vec![r]],
        4 => vec![vec![into(p, q)], vec![r]],
        5 => vec![vec![into(q, p)], vec![r]],
        6 => vec![vec![r], vec![p, q]],
        7 => vec![vec![r], vec![into(p, q)]],
        _ => vec![vec![r], vec![q], vec![p]],
    }
}
const LAYOUTS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
/// (`fps`: the postings have fingerprints of their own, or the same one)
fn pair(layouts: &[u8]) -> Vec<Vec<T>> {
    let f = choose("field", FIELDS);
    let v = choose("variant", VARY);
    let l = layouts[choose("layout", layouts.len() as u8) as usize];
    assume(v < 13 || f != 2 && f != 4 && f != 5);
    let own = choose("fingerprints", 3);
    let mk = |v: u8, fp: &str| {
        let mut t = T::new(b"2020-01-01", b"shop", vec![P::new(b"A:b", b"GBP1", &[])]);
        if own != 2 || f != 6 && f != 7 { t.posts[0].c.tags.push(b(if own == 0 { "fp-0" } else { fp })); }
        field(f, v, &mut t);
        t
    };
    layout(l, mk(0, "fp-1"), mk(v, "fp-2"), mk(0, "fp-3"))
}
const NAMES: [&str; 3] = ["a", "b", "c"];
fn named(f: Vec<Vec<T>>) -> Vec<(&'static str, Vec<T>)> { f.into_iter().enumerate().map(|(k, x)| (NAMES[k], x)).collect() }
/// Postings that are alike but for one field that differs a little.
pub fn h_alike_merge() { warm(); let f = pair(LAYOUTS); against_model(&named(f)); }
/// A posting that has two things that are almost the same.
pub fn h_alike_both() {
    warm();
    let f = 6 + choose("field", 7);
    let v = choose("variant", VARY);
    let mk = |fp: &str, x: bool, y: bool| {
        let mut t = T::new(b"2020-01-01", b"shop", vec![P::new(b"A:b", b"GBP1", &[fp.as_bytes()])]);
        if x { field(f, 0, &mut t); }
        if y { field(f, v, &mut t); }
        t
    };
    let l = choose("layout", 4);
    let fs = match l {
        0 => vec![vec![mk("fp-1", true, true)]],
        1 => vec![vec![mk("fp-1", true, true)], vec![mk("fp-2", true, false)]],
        2 => vec![vec![mk("fp-1", true, false)], vec![mk("fp-2", true, true)]],
        _ => vec![vec![mk("fp-1", false, false)], vec![mk("fp-2", true, true)]],
    };
    against_model(&named(fs));
}
/// The same, merged again.
pub fn h_alike_again() { repeated(&[0, 2, 4, 6]) }
pub fn h_alike_again_deep() { repeated(LAYOUTS) }
fn repeated(layouts: &[u8]) {
    warm();
    let f = pair(layouts);
    let which = choose("again", 2) as usize * f.len();
    let f = named(f);
    again(&f, if which == 0 { f.len() - 1 } else { which });
}
/// The same under other orders of hash tables.
pub fn h_alike_order() { ordered(&[2, 4, 7]) }
pub fn h_alike_order_deep() { ordered(LAYOUTS) }
fn ordered(layouts: &[u8]) {
    warm();
    let f = pair(layouts);
    for (k, x) in f.iter().enumerate() { write(NAMES[k], &render(x)); }
    super::h_twist::same_under_orders(f.len(), true);
}
