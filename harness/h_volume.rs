//! Many of everything, with one thing about one of them out of the ordinary.
use super::h_merge::*;
use super::imports::*;
use super::{h_fpgen, h_nationwide, h_paypal};
use super::h_twist::{twist_post, twist_trn, POST, TRN};
use super::util::*;
use super::vf::*;

/// Places that tell: the ends, and where counts get another digit or algorithms change.
const AT: [usize; 9] = [0, 1, 9, 10, 19, 20, 21, 31, 32];
const N: usize = 33;
fn place(l: &str) -> usize { AT[choose(l, 9) as usize] }
fn rough(l: &str) -> usize { [0, 10, 20, 21, 32][choose(l, 5) as usize] }
fn num(k: usize) -> B { format!("{:02}", k).into_bytes() }
fn day(layout: u8, k: usize) -> B {
    match layout {
        0 => b("2020-01-05"),
        1 => cat(&[b"2020-01-0", &[b'1' + (k % 3) as u8]]),
        _ => cat(&[b"2020-", &num(1 + (N - k) / 28), b"-", &num(1 + (N - k) % 28)]),
    }
}
/// `how`: 0 known by fingerprint, 1 by what it says, 2 unknown; every third of the other kind.
fn number(k: usize, how: usize, file: usize) -> P {
    let m = if file == 0 || how < 2 { k } else { k + 50 };
    let f = if file == 0 || how == 0 { b"a" } else { b"b" };
    P::new(b"A:x", &cat(&[b"GBP1", &num(m)]), &[&cat(&[b"fp-", f, &num(k)])])
}
fn twisted(l: &str, files: &mut Vec<Vec<T>>, trns: bool, deep: bool) {
    let file = choose(&format!("{l}.file"), 2) as usize;
    let at = if deep { place(&format!("{l}.at")) } else { rough(&format!("{l}.at")) };
    if trns && flag(&format!("{l}.transaction")) { twist_trn(choose(&format!("{l}.kind"), TRN), &mut files[file][at], 0); return; }
    let (x, p) = if trns { (at, 0) } else { (0, at) };
    let kind = choose(&format!("{l}.kind"), POST);
    assume(kind != 22);
    twist_post(kind, &mut files[file][x].posts[p], 0);
}

fn many_trns(layout: u8, how: usize, deep: bool) -> Vec<Vec<T>> {
    let mut f: Vec<Vec<T>> = (0..2).map(|file| (0..N).map(|k| T::new(&day(layout, k), &cat(&[b"t", &num(k)]), vec![number(k, (how + (k % 3 == 2) as usize) % 3, file)])).collect()).collect();
    if deep && flag("backwards") { f[1].reverse(); }
    twisted("twist", &mut f, true, deep);
    f
}
fn many_posts(how: usize, deep: bool) -> Vec<Vec<T>> {
    let mut f: Vec<Vec<T>> = (0..2).map(|file| vec![T::new(b"2020-01-01", b"t", (0..N).map(|k| number(k, (how + (k % 3 == 2) as usize) % 3, file)).collect())]).collect();
    if deep && flag("backwards") { f[1][0].posts.reverse(); }
    twisted("twist", &mut f, false, deep);
    f
}
fn merged(f: Vec<Vec<T>>) { merge_as(&[("a", f[0].clone()), ("b", f[1].clone())], 0); }
/// Many transactions of a posting each.
pub fn h_volume_trns() { warm(); let l = choose("layout", 3); merged(many_trns(l, l as usize, false)); }
pub fn h_volume_trns_deep() { warm(); let l = choose("layout", 3); merged(many_trns(l, choose("how", 3) as usize, true)); }
/// One transaction of many postings.
pub fn h_volume_posts() { warm(); let h = choose("how", 3) as usize; merged(many_posts(h, false)); }
pub fn h_volume_posts_deep() { warm(); let h = choose("how", 3) as usize; merged(many_posts(h, true)); }
/// Many of them that are alike: the same amount, account and date, so that none can be told from the others; `n` is one of them.
pub fn h_volume_alike() {
    warm();
    let n = choose("candidates", 12) as usize + 1;
    let one = flag("in one transaction");
    let p = |k: usize| P::new(b"A:x", b"GBP1", &[&cat(&[b"fp-a", &num(k)])]);
    let a: Vec<T> = if one { vec![T::new(b"2020-01-01", b"t", (0..n).map(p).collect())] } else { (0..n).map(|k| T::new(b"2020-01-01", b"t", vec![p(k)])).collect() };
    let mut q = P::new(b"A:x", b"GBP1", &[b"fp-b"]);
    // known after all; or with something that leaves fewer of them
    let mut f = vec![a, vec![T::new(b"2020-01-01", b"s", vec![q.clone()])]];
    match choose("what", 4) {
        0 => { q.c.add(&cat(&[b"fp-a", &num(choose("known", 12) as usize)])); f[1][0].posts[0] = q; }
        1 => {}
        _ => { let at = choose("which", 12) as usize; if at >= n { return; } let kind = choose("kind", POST); assume(kind != 22); let (x, y) = if one { (0, at) } else { (at, 0) }; twist_post(kind, &mut f[0][x].posts[y], 0); }
    }
    merged(f);
}
/// Many files, one after the other, each with a posting of its own and one that all have.
pub fn h_volume_files() {
    warm();
    const NAMES: [&str; 11] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"];
    let n = NAMES.len();
    let mut f: Vec<Vec<T>> = (0..n).map(|k| vec![T::new(b"2020-01-01", &cat(&[b"t", &num(k)]), vec![P::new(b"A:x", b"GBP1", &[b"fp-all"]), P::new(b"A:y", &cat(&[b"GBP2", &num(k)]), &[&cat(&[b"fp-", &num(k)])])])]).collect();
    let (at, p) = (choose("file", n as u8) as usize, choose("posting", 2) as usize);
    if flag("transaction") { twist_trn(choose("kind", TRN), &mut f[at][0], 0); }
    else { let kind = choose("kind", POST); assume(kind != 22); twist_post(kind, &mut f[at][0].posts[p], 0); }
    let f: Vec<(&str, Vec<T>)> = NAMES.iter().copied().zip(f).collect();
    merge_as(&f, 0);
}
/// The same under another order of the hash tables.
pub fn h_volume_order() {
    warm();
    let f = match choose("what", 2) { 0 => { let l = choose("layout", 3); many_trns(l, l as usize, false) } _ => { let h = choose("how", 3) as usize; many_posts(h, false) } };
    write("a", &render(&f[0]));
    write("b", &render(&f[1]));
    super::h_twist::same_under_orders(2, true);
}
/// Merged once more.
pub fn h_volume_again() {
    warm();
    let f = match choose("what", 2) { 0 => { let l = choose("layout", 3); many_trns(l, l as usize, false) } _ => { let h = choose("how", 3) as usize; many_posts(h, false) } };
    let w = choose("again", 3) as usize;
    again(&[("a", f[0].clone()), ("b", f[1].clone())], w);
}
/// Statements of many rows, one of them different.
pub fn h_volume_nw() {
    h_nationwide::warm();
    let six = flag("six columns");
    let pound = |s: &[u8]| cat(&[b"\xa3", s]);
    let mixed = flag("two days");
    let mut rows: Vec<h_nationwide::Row> = (0..N).map(|k| h_nationwide::Row { day: if mixed { (k % 2) as u8 } else { 0 }, kind: b("k"), text: b("t"), out: pound(b"1.00"), in_: b(""), bal: if six { pound(b"5.00") } else { b("") } }).collect();
    let at = place("at");
    let r = &mut rows[at];
    match choose("what", 8) {
        0 => {} 1 => r.day = 2, 2 => r.day = 1, 3 => { r.in_ = r.out.clone(); r.out = b(""); } 4 => r.text = bytes("text", 1, ALPHA), 5 => r.kind = b("other"), 6 => r.out = pound(b"123.45"),
        _ => r.text = vec![b'x'; 200],
    }
    stdin(&h_nationwide::statement(&rows, six, b"Current"));
    check("accepted", run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]) == 0);
    let got = parse(&stdout());
    check("the output is a journal", got.is_some());
    let got = got.unwrap();
    compare_amounts("import", &got, &h_nationwide::wants(&rows, six, b"ns", b"Current"));
    distinct(&got);
}
/// PayPal rows, many of the same moment, or runs of three of them.
pub fn h_volume_pp() {
    h_paypal::warm();
    let run_of = [1, 3, N][choose("together", 3) as usize];
    let mut rows: Vec<h_paypal::Row> = (0..N).map(|k| { let mut r = h_paypal::Row::new(); r.m = (k / run_of) as u32; r.amount = cat(&[b"-1.", &num(k)]); r }).collect();
    let at = place("at");
    let r = &mut rows[at];
    match choose("what", 10) {
        0 => {} 1 => r.s += 1, 2 => r.name = b(""), 3 => r.name = b("other"), 4 => r.pending = true, 5 => r.cur = b("USD"), 6 => r.amount = b("7.00"), 7 => r.receipt = b("12"), 8 => { r.zone = b("BST"); r.h += 1; } _ => r.kind = bytes("kind", 1, ALPHA),
    }
    let r = h_paypal::import(&rows, 0, &[]);
    match h_paypal::grouped(&rows, b"paypal") {
        None => { cover("nobody has a name"); h_paypal::refused(r); }
        Some(w) => { check("accepted", r == 0); let got = h_paypal::output(); compare_amounts("import", &got, &w); distinct(&got); }
    }
}
/// A table of many time zones.
pub fn h_volume_zones() {
    h_paypal::warm();
    let at = place("at");
    let mut table = b("abbreviation,utc_offset\n");
    let name = |k: usize| vec![b'Z', b'A' + (k / 10) as u8, b'A' + (k % 10) as u8];
    let (neg, hours) = (flag("west"), choose("hours", 24) as i32);
    let twin = place("another");
    for k in 0..N {
        let o = if k == at { cat(&[if neg { b"-" } else { b"+" }, &num(hours as usize)]) } else { b("+00") };
        table.extend_from_slice(&cat(&[&name(k), b",UTC", &o, b"\n"]));
    }
    let twice = flag("twice");
    if twice { table.extend_from_slice(&cat(&[&name(twin), b",UTC+00\n"])); }
    let got = h_paypal::date_in(&table, &name(at), b"28/03/2020", b"12:00:00", "UTC");
    if twice { cover("a zone twice"); check("a zone given twice is an error", got.is_none()); return; }
    check("accepted", got.is_some());
    let t = 12 - if neg { -hours } else { hours };
    let day: &[u8] = if t < 0 { b"2020-03-27" } else if t >= 24 { b"2020-03-29" } else { b"2020-03-28" };
    check("a zone has the offset its row gives it", eq(&got.unwrap(), day));
}
/// generate-fingerprints for many postings.
pub fn h_volume_fpgen() {
    h_fpgen::warm();
    let one = flag("in one transaction");
    let p = |k: usize| P::new(b"A:x", &cat(&[b"GBP1", &num(k)]), &[]);
    let mut ts: Vec<T> = if one { vec![T::new(b"2020-01-01", b"t", (0..N).map(p).collect())] } else { (0..N).map(|k| T::new(b"2020-01-01", b"t", vec![p(k)])).collect() };
    let at = place("at");
    let (x, y) = if one { (0, at) } else { (at, 0) };
    let kind = choose("kind", POST);
    assume(kind != 22);
    twist_post(kind, &mut ts[x].posts[y], 0);
    write("j", &render(&ts));
    check("accepted", run(&["generate-fingerprints", "j"]) == 0);
    let once = read("j").unwrap();
    h_fpgen::verify("fingerprints", &once, &ts, &mut Vec::new());
    check("accepted again", run(&["generate-fingerprints", "j"]) == 0);
    check("nothing changes the second time", eq(&once, &read("j").unwrap()));
}
