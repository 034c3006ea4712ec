//! Journals with any two things in them that are out of the ordinary, through the commands that
//! read a journal and write it again: nothing in them may change.
use super::util::*;
use super::vf::*;

/// How a journal is written down.
#[derive(Default)]
struct Style { crlf: bool, cut: bool, tab: bool, inline: bool, apart: usize, spaced: bool, slash: bool, before: usize, hash: bool, gap: usize, tight: bool }
fn text(ts: &[T], s: &Style) -> B {
    let mut v = B::new();
    let nl: &[u8] = if s.crlf { b"\r\n" } else { b"\n" };
    let indent: &[u8] = if s.tab { b"\t" } else { b"  " };
    let mark: &[u8] = if s.hash { b"# " } else if s.tight { b";" } else { b"; " };
    let wide: &[u8] = if s.tab { b"\t" } else { b"  " };
    let comment = |v: &mut B, c: &C| {
        let mut first = s.inline;
        let mut line = |l: &[u8]| { if first { v.extend_from_slice(b"  ; "); } else { v.extend_from_slice(nl); v.extend_from_slice(indent); v.extend_from_slice(mark); } first = false; v.extend_from_slice(l); };
        for t in &c.tags { line(&cat(&[b":", t, b":"])); }
        for t in &c.text { line(t); }
        for (k, w) in &c.kv { line(&cat(&[k, b": ", w])); }
        v.extend_from_slice(nl);
    };
    let money = |a: &[u8]| -> B { let mut r = B::new(); for (k, c) in a.iter().enumerate() { if s.spaced && k == 3 && a[0] == b'G' { r.push(b' '); } r.push(*c); } r };
    for _ in 0..s.before { v.extend_from_slice(nl); }
    for (k, t) in ts.iter().enumerate() {
        if k > 0 { for _ in 0..s.apart { v.extend_from_slice(nl); } }
        for c in &t.date { v.push(if s.slash && *c == b'-' { b'/' } else { *c }); }
        if t.head[0] != b'=' { v.push(b' '); }
        v.extend_from_slice(&t.head);
        comment(&mut v, &t.c);
        for p in &t.posts {
            v.extend_from_slice(indent);
            if p.status != 0 { v.push(p.status); v.push(b' '); }
            v.extend_from_slice(&p.account);
            if !p.amount.is_empty() || !p.balance.is_empty() { v.extend_from_slice(wide); for _ in 0..s.gap { v.push(b' '); } }
            v.extend_from_slice(&money(&p.amount));
            if !p.balance.is_empty() { v.extend_from_slice(b" = "); v.extend_from_slice(&money(&p.balance)); }
            comment(&mut v, &p.c);
        }
    }
    if s.cut { let n = v.len() - nl.len(); v.truncate(n); }
    v
}
fn many(x: &[u8], n: usize) -> B { let mut v = B::new(); for _ in 0..n { v.extend_from_slice(x); } v }
const POST: u8 = 34;
const TRN: u8 = 20;
const STYLE: u8 = 13;
fn some_post(k: u8, p: &mut P, l: &str, raw: bool) {
    let c = || bytes(&format!("{l}.letter"), 1, Dom::range(b'a', b'z'));
    match k {
        0 => p.account = cat(&[&p.account, b" ", &c()]),
        1 => p.account = cat(&[&p.account, "\u{e9}\u{416}".as_bytes()]),
        2 => p.account = cat(&[&p.account, &many(b":long", 60)]),
        3 => p.account = cat(&[b"(", &p.account, b")"]),
        4 => p.account = cat(&[b"[", &p.account, b"]"]),
        5 => p.status = b'!',
        6 => { assume(p.balance.is_empty()); p.amount = B::new(); }
        7 => { assume(!p.amount.is_empty() && !find(&p.amount, b"{") && !find(&p.amount, b"@")); p.amount.extend(b" {USD2}"); }
        8 => { assume(!p.amount.is_empty() && !find(&p.amount, b"{") && !find(&p.amount, b"@")); p.amount.extend(b" {{USD2}}"); }
        9 => { assume(!p.amount.is_empty() && !find(&p.amount, b"@")); p.amount.extend(b" @ USD3.50"); }
        10 => { assume(!p.amount.is_empty() && !find(&p.amount, b"@")); p.amount.extend(b" @@ USD3.50"); }
        11 => p.balance = b("GBP12"),
        12 => p.balance = b("0"),
        13 => p.amount = "\u{a3}1.00".as_bytes().to_vec(),
        14 => p.amount = b("1.500 EUR"),
        15 => p.amount = b("GBP0.00"),
        16 => p.amount = b("GBP-12345678901234567890.50"),
        17 => p.amount = b("-5 h"),
        18 => p.amount = b("GBP0.0000000001"),
        19 => p.c.text.push(cat(&[b"a\t", &c()])),
        20 => p.c.text.push("caf\u{e9} \u{2014} \u{1f600}".as_bytes().to_vec()),
        21 => p.c.text.push(many(b"long text ", 100).split_off(1).into_iter().rev().skip(1).collect::<B>().into_iter().rev().collect()),
        22 => for n in 0..12u8 { p.c.text.push(vec![b'l', b'a' + n]); },
        23 => p.c.set(b"key", &cat(&[b"v\tw", &c()])),
        24 => p.c.set("cl\u{e9}".as_bytes(), "\u{e9}".as_bytes()),
        25 => p.c.add("\u{e9}t\u{e9}".as_bytes()),
        26 => p.c.add(b"a-tag-that-is-longer-than-others"),
        27 => p.c.text.push(cat(&[b"a ; b # ", &c(), b" (x) [y] \"z\" 'w' \\n"])),
        28 => p.c.text.push(b("2020-01-01 looks like a transaction")),
        29 => { p.c.text.push(b("same")); p.c.text.push(b("same")); }
        30 => p.c.set(b"k", b"a: b :c: d"),
        31 => p.c.set(b"time", b"10:30:00"),
        32 => p.c.text.push(b("see http://x.y/z")),
        _ => for n in 0..8u8 { if raw { p.c.text.push(vec![b'm', b'a' + n]); } else { p.c.add(&[b't', b'h' - n]); p.c.set(&[b'k', b'h' - n], &[b'v', b'a' + n]); } },
    }
}
fn some_trn(k: u8, t: &mut T, l: &str) {
    let c = || bytes(&format!("{l}.letter"), 1, Dom::range(b'a', b'z'));
    match k {
        0 => { assume(t.head[0] == b'd'); t.head = cat(&[b"* ", &t.head]); }
        1 => { assume(t.head[0] == b'd'); t.head = cat(&[b"! ", &t.head]); }
        2 => { assume(t.head[0] == b'd'); t.head = cat(&[b"(c", &c(), b") ", &t.head]); }
        3 => { assume(t.head[0] != b'='); t.head = cat(&[b"=2021-12-31 ", &t.head]); }
        4 => t.head.extend(cat(&[b"\t", &c()])),
        5 => t.head.extend("\u{e9}\u{2014}\u{1f600}".as_bytes()),
        6 => t.head.extend(many(b" and so on", 40)),
        7 => t.head.extend(b" | note"),
        8 => t.head.extend(cat(&[b" (", &c(), b") * ! = 5.00 @ \"q\" #1"])),
        9 => t.c.text.push(cat(&[b"note ", &c()])),
        10 => t.c.text.push(b("a\tb")),
        11 => t.c.set(b"k", &c()),
        12 => t.c.add(&c()),
        13 => for n in 0..12u8 { t.c.text.push(vec![b'l', b'a' + n]); },
        14 => t.posts.push(P::new(b"N:e", &cat(&[b"GBP", &bytes(&format!("{l}.digit"), 1, DIGIT)]), &[b"fp-n"])),
        15 => for n in 0..30u8 { t.posts.push(P::new(&[b'N', b':', b'a' + n % 26], b"GBP1", &[&[b'f', b'p', b'-', b'A' + n]])); },
        16 => { let mut p = t.posts[0].clone(); p.c.add(b"x"); t.posts.push(p); }
        17 => t.posts.truncate(1),
        18 => t.date = b("9999-12-31"),
        _ => t.date = b("1970-01-01"),
    }
}
fn some_style(k: u8, s: &mut Style, ts: &mut Vec<T>) {
    match k {
        0 => s.crlf = true, 1 => s.cut = true, 2 => s.tab = true, 3 => s.inline = true, 4 => s.apart = 3, 5 => s.apart = 0, 6 => s.spaced = true,
        7 => s.slash = true, 8 => s.before = 2, 9 => s.hash = true, 10 => s.gap = 30, 11 => s.tight = true,
        _ => for n in 0..25u8 { ts.push(T::new(b"2020-02-01", &[b'd', b'a' + n], vec![P::new(b"M:x", b"GBP1", &[&[b'f', b'p', b'-', b'A' + n]]), P::new(b"M:y", b"", &[&[b'f', b'p', b'-', b'a' + n]])])); },
    }
}
/// What `fmt`, which does not look into comments, makes of the tags.
fn as_lines(c: &C) -> C {
    let mut r = C::default();
    for t in &c.tags { r.text.push(cat(&[b":", t, b":"])); }
    r.text.extend(c.text.iter().cloned());
    for (k, v) in &c.kv { r.text.push(cat(&[k, b": ", v])); }
    r
}
fn warm() {
    reset();
    write("w", b"2020-01-01 foo\n  A:B  GBP1.00 = GBP2.00\n  ; :fp-aaa: a :b:c: d\n  ; k: v\n");
    write("rules", b"[Chain(\"start\", [])]");
    for c in [&["fmt", "w"][..], &["generate-fingerprints", "w"], &["apply-rules", "-o", "o", "w", "table", "rules"]] { check("warm", run(c) == 0); }
    reset();
}
fn journal(cmd: u8, n: usize, classes: &[u8]) {
    warm();
    let mut ts = vec![
        T::new(b"2020-01-01", b"d one", vec![P::new(b"A:b", b"GBP1.00", &[b"fp-a"]), P::new(b"C:d", b"GBP-1.00", &[b"fp-b"])]),
        T::new(b"2020-01-02", b"d two", vec![P::new(b"A:b", b"GBP3", &[b"fp-c"])]),
    ];
    let mut s = Style { apart: 1, ..Style::default() };
    for k in 0..n {
        let l = ["first", "second", "third"][k];
        match classes[choose(&format!("{l}.class"), classes.len() as u8) as usize] {
            0 => {
                let mut total = 0;
                for t in &ts { total += t.posts.len().min(3); }
                let at = choose(&format!("{l}.which"), total.min(4) as u8) as usize;
                let kind = choose(&format!("{l}.posting"), POST);
                let mut i = 0;
                for t in ts.iter_mut() { for p in t.posts.iter_mut().take(3) { if i == at { some_post(kind, p, l, cmd == 0); } i += 1; } }
            }
            1 => { let at = choose(&format!("{l}.which"), 2) as usize; some_trn(choose(&format!("{l}.transaction"), TRN), &mut ts[at], l); }
            _ => some_style(choose(&format!("{l}.style"), STYLE), &mut s, &mut ts),
        }
    }
    if cmd == 0 { for t in ts.iter_mut() { t.c = as_lines(&t.c); for p in t.posts.iter_mut() { p.c = as_lines(&p.c); } } }
    write("j", &text(&ts, &s));
    write("rules", b"[Chain(\"start\", [])]");
    let (args, out): (&[&str], &str) = match cmd { 0 => (&["fmt", "j"], "j"), 1 => (&["generate-fingerprints", "j"], "j"), _ => (&["apply-rules", "-o", "o", "j", "table", "rules"], "o") };
    let r = run(args);
    check("accepted", r == 0);
    if r != 0 { return; }
    let a = read(out).unwrap();
    let got = items(&a, cmd == 0);
    check("the result is a journal", got.is_some());
    let got: Vec<T> = got.unwrap().into_iter().filter_map(|i| match i { I::Trn(t) => Some(t), _ => None }).collect();
    cover("written");
    compare("unchanged", &got, &ts);
    if cmd == 2 { write("j", &a); }
    check("again", run(args) == 0);
    check("doing it again changes nothing", eq(&a, &read(out).unwrap()));
}
const ALL: &[u8] = &[0, 1, 2];
pub fn h_journal_fmt() { journal(0, 2, ALL) }
pub fn h_journal_fpgen() { journal(1, 2, ALL) }
pub fn h_journal_rules() { journal(2, 2, ALL) }
pub fn h_journal_fpgen_one() { journal(1, 1, ALL) }
pub fn h_journal_rules_one() { journal(2, 1, ALL) }
