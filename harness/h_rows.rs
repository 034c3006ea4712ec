//! Statements: plain ones with any one or two things about them out of the ordinary.
use super::imports::*;
use super::util::*;
use super::vf::*;
use super::{h_nationwide as nw, h_pdf as pdf, h_paypal as pp};

/// How the fields of a file are written.
#[derive(Clone, Copy)]
struct Form { bare: bool, inside: bool, outside: bool, crlf: bool, open: bool, between: bool }
const PLAIN: Form = Form { bare: false, inside: false, outside: false, crlf: false, open: false, between: false };
fn form(l: &str) -> Form {
    let mut f = PLAIN;
    match choose(l, 7) { 0 => {} 1 => f.bare = true, 2 => f.inside = true, 3 => f.outside = true, 4 => f.crlf = true, 5 => f.open = true, _ => f.between = true }
    f
}
fn special(x: &[u8]) -> bool { x.contains(&b'"') || x.contains(&b',') || x.contains(&b'\n') || x.contains(&b'\r') }
fn csv(lines: &[Vec<B>], f: Form) -> B {
    let mut v = Vec::new();
    for (n, l) in lines.iter().enumerate() {
        if n > 0 { v.extend_from_slice(if f.crlf { b"\r\n" } else { b"\n" }); if f.between { v.extend_from_slice(if f.crlf { b"\r\n" } else { b"\n" }); } }
        for (k, x) in l.iter().enumerate() {
            if k > 0 { v.push(b','); if f.outside && f.bare { v.push(b' '); } }
            let quote = !f.bare || special(x);
            if quote { v.push(b'"'); }
            if f.inside { v.push(b' '); }
            for c in x { if *c == b'"' { v.push(b'"'); } v.push(*c); }
            if f.inside { v.extend_from_slice(b"  "); }
            if quote { v.push(b'"'); }
        }
    }
    if !f.open { v.extend_from_slice(if f.crlf { b"\r\n" } else { b"\n" }); }
    v
}
/// Texts of all kinds.
const TEXTS: u8 = 20;
fn some_text(k: u8) -> B {
    match k {
        0 => b(""), 1 => b("a"), 2 => b("a b"), 3 => b("a,b"), 4 => b("a\"b\""), 5 => b("a; b"), 6 => b(":a:"), 7 => b("a: b"), 8 => b("#a"), 9 => b("a @ b"), 10 => b("12.50"), 11 => vec![b'c'; 130], 12 => b("a\\b"), 13 => b("2020-01-01 a"),
        14 => b("GBP"), 15 => b("fp-a"), 16 => b("a:b:c"), 17 => b("[a]"), 18 => b("a'b"), _ => b("A  B"),
    }
}
fn pound(s: &[u8]) -> B { cat(&[b"\xa3", s]) }
/// Something about a row; `n`: which twist it is.
fn twist_nw(k: u8, r: &mut nw::Row, six: bool, l: &str) {
    match k {
        0 => r.day = 1 + choose(&format!("{l}.day"), 3),
        1 => std::mem::swap(&mut r.in_, &mut r.out),
        2 => { let t = some_text(choose(&format!("{l}.text"), TEXTS)); if six || t.is_empty() || !t.is_empty() { r.text = t; } }
        3 => r.kind = some_text(choose(&format!("{l}.text"), TEXTS)),
        4 => {
            let v = pound([&b"0.00"[..], b"-1.00", b"1234567.89", b"0.01", b"007.00", b"92233720368547758.07", b"-0.00", b"20.20"][choose(&format!("{l}.amount"), 8) as usize]);
            if r.in_.is_empty() { r.out = v } else { r.in_ = v }
        }
        5 => { assume(six); r.bal = pound([&b"0.00"[..], b"-1.00", b"1234567.89", b"-0.01"][choose(&format!("{l}.balance"), 4) as usize]); }
        _ => { r.kind = b("other"); r.text = vec![b'c', 0xe9, b' ', 0x80]; }
    }
}
fn nw_twisted(twists: usize, mixed: bool) {
    nw::warm();
    let six = flag("six columns");
    let row = |k: usize| nw::Row { day: (k == 2) as u8, kind: b("k"), text: b("t"), out: pound(b"1.00"), in_: b(""), bal: if six { pound(b"5.00") } else { b("") } };
    let mut rows: Vec<nw::Row> = (0..3).map(row).collect();
    let mut f = PLAIN;
    let mut name = b("Current");
    let mut stdin_too = false;
    for n in 0..twists {
        let l = ["first", "second"][n];
        match if !mixed { choose(&format!("{l}.class"), 4) } else if n == 0 { 0 } else { 1 + choose(&format!("{l}.class"), 3) } {
            0 => { let at = choose(&format!("{l}.row"), 3) as usize; assume(at < rows.len()); twist_nw(choose(&format!("{l}.kind"), 7), &mut rows[at], six, l); }
            1 => { let g = form(&format!("{l}.form")); f = Form { bare: f.bare | g.bare, inside: f.inside | g.inside, outside: f.outside | g.outside, crlf: f.crlf | g.crlf, open: f.open | g.open, between: f.between | g.between }; }
            2 => match choose(&format!("{l}.rows"), 5) { 0 => rows.reverse(), 1 => rows.truncate(1), 2 => rows.clear(), 3 => rows.push(row(0)), _ => rows.insert(0, row(2)) },
            _ => match choose(&format!("{l}.file"), 3) { 0 => name = b"O'Neill \x80 ****12345".to_vec(), 1 => name = b("x: y"), _ => stdin_too = true },
        }
    }
    let mut lines: Vec<Vec<B>> = vec![vec![b("Account Name:"), name.clone()], vec![b("Account Balance:"), pound(b"150.00")], vec![b("Available Balance:"), pound(b"150.00")]];
    lines.push(if six { vec![b("Date"), b("Transaction type"), b("Description"), b("Paid out"), b("Paid in"), b("Balance")] } else { vec![b("Date"), b("Transactions"), b("Location"), b("Paid out"), b("Paid in")] });
    for r in &rows {
        let mut v = vec![nw::DAYS[r.day as usize].to_vec(), r.kind.clone(), r.text.clone(), r.out.clone(), r.in_.clone()];
        if six { v.push(r.bal.clone()); }
        lines.push(v);
    }
    let text = csv(&lines, f);
    let r = if stdin_too { stdin(&text); run(&["import", "-o", "out", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]) } else { write("in", &text); run(&["import", "-o", "out", "nationwide-csv", "in", "--fp-namespace", "fixed:ns"]) };
    check("accepted", r == 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    let got = got.unwrap();
    let want = nw::wants(&rows, six, b"ns", &utf8(&name));
    distinct(&got);
    compare_amounts("import", &got, &want);
    check("no other file is written", file_count() == if stdin_too { 1 } else { 2 });
}
pub fn h_rows_nw_one() { nw_twisted(1, false) }
/// Something about a row and something about the file.
pub fn h_rows_nw_mixed() { nw_twisted(2, true) }
pub fn h_rows_nw() { nw_twisted(2, false) }

fn twist_pp(k: u8, r: &mut pp::Row, l: &str) {
    match k {
        0 => r.day = 1 + choose(&format!("{l}.day"), 2) as usize,
        1 => r.s += 1,
        2 => r.name = some_text(choose(&format!("{l}.text"), TEXTS)),
        3 => r.kind = some_text(choose(&format!("{l}.text"), TEXTS)),
        4 => r.amount = [&b"0.00"[..], b"7.00", b"-1234567.89", b"0.01", b"007.10", b"5", b"-0.00", b"0.005"][choose(&format!("{l}.amount"), 8) as usize].to_vec(),
        5 => r.bal = [&b"0.00"[..], b"-1.00", b"1234567.89", b"-0.01"][choose(&format!("{l}.balance"), 4) as usize].to_vec(),
        6 => r.pending = true,
        7 => r.cur = b("USD"),
        8 => r.receipt = b("1234-5678"),
        9 => { r.zone = b("BST"); r.h += 1; }
        _ => r.zone = b("BST"),
    }
}
fn pp_twisted(twists: usize, mixed: bool) {
    pp::warm();
    let row = |k: usize| { let mut r = pp::Row::new(); r.amount = [&b"-5.10"[..], b"5.00", b"-9.99", b"1.00", b"2.00"][k].to_vec(); if k == 2 { r.h = 14 } r };
    let mut rows: Vec<pp::Row> = (0..3).map(row).collect();
    let mut f = PLAIN;
    let mut order = 0;
    let (mut legacy, mut stdin_too) = (false, false);
    let mut ns = "paypal";
    for n in 0..twists {
        let l = ["first", "second"][n];
        match if !mixed { choose(&format!("{l}.class"), 4) } else if n == 0 { 0 } else { 1 + choose(&format!("{l}.class"), 3) } {
            0 => { let at = choose(&format!("{l}.row"), 3) as usize; assume(at < rows.len()); twist_pp(choose(&format!("{l}.kind"), 11), &mut rows[at], l); }
            1 => { let g = form(&format!("{l}.form")); f = Form { bare: f.bare | g.bare, inside: f.inside | g.inside, outside: f.outside | g.outside, crlf: f.crlf | g.crlf, open: f.open | g.open, between: f.between | g.between }; }
            2 => match choose(&format!("{l}.rows"), 5) { 0 => rows.reverse(), 1 => rows.truncate(1), 2 => rows.clear(), 3 => rows.push(row(3)), _ => rows.insert(0, row(4)) },
            _ => match choose(&format!("{l}.file"), 4) { 0 => order = 1, 1 => legacy = true, 2 => ns = "other", _ => stdin_too = true },
        }
    }
    let mut lines: Vec<Vec<B>> = vec![pp::Row::new().fields().iter().map(|f| f.0.to_vec()).collect()];
    for r in &rows { lines.push(r.fields().into_iter().map(|f| f.1).collect()); }
    if order == 1 { for l in &mut lines { l.reverse(); l.insert(3, b("x")); } }
    let text = csv(&lines, f);
    write("out", b"before");
    let mut args = vec!["import", "-o", "out", "paypal-csv"];
    if stdin_too { stdin(&text); args.push("-"); } else { write("in", &text); args.push("in"); }
    args.extend(["tz", "--output-timezone", "UTC"]);
    if ns != "paypal" { args.extend(["--fingerprint-namespace", ns]); }
    if legacy { args.push("--include-legacy-fingerprint"); }
    let r = run(&args);
    match pp::grouped_as(&rows, ns.as_bytes(), legacy) {
        None => { cover("nobody has a name"); pp::refused(r); }
        Some(w) => { check("accepted", r == 0); let got = pp::output(); compare_amounts("import", &got, &w); distinct(&got); }
    }
}
pub fn h_rows_pp_one() { pp_twisted(1, false) }
/// Something about a row and something about the file.
pub fn h_rows_pp_mixed() { pp_twisted(2, true) }
pub fn h_rows_pp() { pp_twisted(2, false) }

/// Something about the pages of a document.
fn twist_pdf(l: &str, doc: &mut Vec<pdf::Page>) {
    use pdf::*;
    let page = choose(&format!("{l}.page"), doc.len() as u8) as usize;
    let p = doc[page].len() - 1;
    let para = &mut doc[page][p];
    let n = para.len();
    let at = choose(&format!("{l}.line"), n as u8) as usize;
    let top = para[at].top.val;
    let new = |x: Vec<W>| line(top + 4, x);
    match choose(&format!("{l}.kind"), 22) {
        0 => para[at].words.push(w(DETAIL + 20, b"more")),
        1 => para[at].words.push(w(PAID, b"3.00")),
        2 => para[at].words.push(w(RECEIVED, b"4.00")),
        3 => para[at].words.push(w(BALANCE, b"-5.00")),
        4 => para[at].words.insert(0, w(DATE + 2, b"x")),
        5 => { para[at].words.pop(); assume(!para[at].words.is_empty()); }
        6 => { para[at].words.remove(0); assume(!para[at].words.is_empty()); }
        7 => { let x = para[at].clone(); para.insert(at, x); }
        8 => { para.remove(at); }
        9 => { assume(at + 1 < n); para.swap(at, at + 1); }
        10 => for x in &mut para[at..] { x.top = Num::of(x.top.val + 15); },
        11 => for x in &mut para[at..] { x.top = Num::of(x.top.val + 3); },
        12 => para.insert(at + 1, new(vec![w(DETAIL, b"Effective"), w(DETAIL + 30, b"Date"), w(DETAIL + 60, b"03"), w(DETAIL + 75, b"Feb"), w(DETAIL + 90, b"2020")])),
        13 => para.insert(at + 1, new(vec![w(DATE, b"2021")])),
        14 => para.insert(at + 1, new(vec![w(DATE, b"05"), w(35, b"Mar")])),
        15 => para.insert(at + 1, new(vec![w(DATE, b"06"), w(35, b"Mar"), w(DETAIL, b"new"), w(RECEIVED, b"1.00")])),
        16 => para.insert(at + 1, new(vec![w(DETAIL, b"Balance"), w(DETAIL + 40, b"carried"), w(BALANCE, b"6.00")])),
        17 => { for x in &mut para[at].words { x.left = Num::of(x.left.val + 1); } }
        18 => { let x = para.split_off(at); if para.is_empty() { doc[page].pop(); } doc[page].push(x); }
        19 => { let k = para[at].words.len() - 1; para[at].words[k].text = b("x,1"); }
        20 => { let k = para[at].words.len() - 1; para[at].words[k].text = b("1,234.56"); }
        _ => { let k = para[at].words.len() - 1; para[at].words[k].text = b("-1.00"); }
    }
}
fn pdf_twisted(twists: usize, pages: bool) {
    use pdf::*;
    pdf::warm();
    let table = |day: &[u8]| vec![header(), year(120, b"2020"), words(140, &[(DATE, day), (35, b"Mar"), (DETAIL, b"ab"), (PAID, b"12.50"), (BALANCE, b"7.00")]), words(155, &[(DETAIL, b"cd"), (BALANCE, b"6.00")]), words(170, &[(DETAIL, b"ef"), (RECEIVED, b"2.00")])];
    let mut doc: Vec<Page> = vec![vec![vec![account_line()], table(b"05")]];
    if pages && flag("two pages") { doc.push(vec![table(b"06")]); }
    for n in 0..twists { twist_pdf(["first", "second"][n], &mut doc); for p in &doc { assume(!p.is_empty() && !p[p.len() - 1].is_empty()); } }
    pdf::all(&doc);
}
pub fn h_rows_pdf_one() { pdf_twisted(1, true) }
pub fn h_rows_pdf_page() { pdf_twisted(2, false) }
pub fn h_rows_pdf() { pdf_twisted(2, true) }
