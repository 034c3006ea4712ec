//! Whatever a statement contains, the journal made of it reads as what it says.
use super::h_nationwide::{self as nw, field};
use super::h_paypal as pp;
use super::imports::*;
use super::vf::*;
use super::util::*;

/// Any two characters at either end or in the middle of any field of a Nationwide statement.
pub fn h_text_nw() {
    nw::warm();
    let place = choose("place", 4);
    let t = bytes("text", 2, BYTE);
    let t = match choose("where", 4) { 0 => cat(&[b"a", &t, b"b"]), 1 => cat(&[&t, b"b"]), 2 => cat(&[b"a", &t]), _ => t };
    nw::text_at(place, &t, true);
}
/// Four characters, all of those that mean something in a journal.
pub fn h_text_nw_deep() {
    nw::warm();
    let place = choose("place", 4);
    let t = bytes("text", 5, Dom::of(b"a :;*!()=@\t\n\r\""));
    nw::text_at(place, &t, true);
}

/// A PayPal statement with `t` in the given field; imported, then read again.
fn paypal(place: u8, t: &[u8], ok: bool) {
    let mut r = pp::Row::new();
    // a completed posting is not read again as a posting (see known-findings.json)
    r.pending = true;
    match place { 0 => r.name = t.to_vec(), 1 => r.kind = t.to_vec(), 2 => r.receipt = t.to_vec(), _ => r.cur = t.to_vec() }
    write("in", &pp::statement(std::slice::from_ref(&r), 0));
    write("out", b"before");
    let got = run(&["import", "-o", "out", "paypal-csv", "in", "tz", "--output-timezone", "UTC"]);
    if !ok {
        cover("not text");
        check("what is not text is refused", got == 1);
        check("nothing is written", eq(&read("out").unwrap(), b"before"));
        return;
    }
    let t = field(t);
    if place == 0 && t.is_empty() { check("nobody has a name", got == 1); return; }
    if place == 3 {
        let mut word = !t.is_empty();
        for c in &t { word &= c.is_ascii_alphabetic(); }
        if !split(word) {
            cover("not a currency");
            check("what is not a currency is refused", got == 1);
            check("nothing is written", eq(&read("out").unwrap(), b"before"));
            return;
        }
    }
    cover("text");
    check("accepted", got == 0);
    match place { 0 => r.name = t, 1 => r.kind = t, 2 => r.receipt = t, _ => r.cur = t }
    let (x, y) = r.want(0, b"paypal", false);
    let want = [T::new(b"2020-03-28", &r.name, vec![x, y])];
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    compare_amounts("import", &got.unwrap(), &want);
    read_again(&want);
}
fn within(t: &[u8]) -> B { match choose("where", 4) { 0 => cat(&[b"a", t, b"b"]), 1 => cat(&[t, b"b"]), 2 => cat(&[b"a", t]), _ => t.to_vec() } }
/// Any two bytes at either end or in the middle of a field of a PayPal statement.
pub fn h_text_pp() {
    pp::warm();
    let place = choose("place", 4);
    let t = bytes("text", 2, BYTE);
    let plain = (t[0] < 0x80) & (t[1] < 0x80);
    let two = (0xc2 <= t[0]) & (t[0] <= 0xdf) & (t[1] & 0xc0 == 0x80);
    let ok = split(plain | two);
    paypal(place, &within(&t), ok);
}
/// The characters that mean something in a journal.
pub fn h_text_pp_deep() {
    pp::warm();
    let place = choose("place", 4);
    let t = bytes("text", 5, Dom::of(b"a :;*!()=@\t\n\r\""));
    paypal(place, &t, true);
}
/// Postings of completed transactions.
pub fn h_text_pp_status() {
    pp::warm();
    let mut r = pp::Row::new();
    r.name = bytes("name", 2, ALPHA);
    write("in", &pp::statement(std::slice::from_ref(&r), 0));
    check("accepted", run(&["import", "-o", "out", "paypal-csv", "in", "tz", "--output-timezone", "UTC"]) == 0);
    let (x, y) = r.want(0, b"paypal", false);
    let ok = run(&["fmt", "out"]) == 0;
    let got = parse(&read("out").unwrap());
    check("completed postings can be read again", ok && match got { Some(g) => g.len() == 1 && g[0].posts.len() == 2 && g[0].posts[0].status == x.status && g[0].posts[1].status == y.status, None => false });
}
