//! fmt against an independent description of what a journal says.
use super::util::*;
use super::vf::*;

fn warm() {
    reset();
    write("w", b"2020-01-01 foo\n  A:B  GBP1.00 = GBP2.00\n  ; :fp-aaa:\n  ; k: v\n");
    let r = run(&["fmt", "w"]);
    check("warm", r == 0);
    reset();
}
/// Formats `input`, compares the result with `want`, and formats again.
fn fmt(input: &[u8], want: &[I]) {
    write("j", input);
    let r = run(&["fmt", "j"]);
    check("accepted", r == 0);
    if r != 0 { return; }
    let a = read("j").unwrap();
    let got = items(&a, true);
    check("the result is a journal", got.is_some());
    if let Some(g) = got { compare_items("formatted", &g, want); }
    check("no other file is written", file_count() == 1);
    let r = run(&["fmt", "j"]);
    check("the result can be formatted again", r == 0);
    check("formatting again changes nothing", eq(&a, &read("j").unwrap()));
}
fn low(l: &str, n: usize) -> B { bytes(l, n, Dom::range(b'a', b'z')) }
/// Characters with a meaning somewhere in a header, and some without.
const HEAD: Dom = Dom::of(b"a0 ;(*!:-=\"|");

pub fn h_fmt_header() {
    warm();
    let sep = [b"-", b"/", b"."][choose("date separator", 3) as usize];
    let mut s = cat(&[b"2020", sep, b"02", sep, b"29"]);
    let mut head = b("");
    if flag("effective date") { s.extend(b"=2020/03/01"); head.extend(b"=2020-03-01"); }
    let mut gap: &[u8] = if flag("wide gap") { b"   " } else { b" " };
    let st = choose("status", 3);
    if st > 0 { s.extend(gap); s.push(b"*!"[st as usize - 1]); if !head.is_empty() { head.push(b' '); } head.push(b"*!"[st as usize - 1]); gap = b" "; }
    if flag("code") { let c = low("code", 2); s.extend(gap); s.push(b'('); s.extend(&c); s.push(b')'); if !head.is_empty() { head.push(b' '); } head.push(b'('); head.extend(&c); head.push(b')'); }
    let mut d = b("f");
    d.extend(bytes("description", 2, HEAD));
    d.push(b'g');
    s.push(b' ');
    s.extend(&d);
    if !head.is_empty() { head.push(b' '); }
    head.extend(&d);
    let mut c = C::default();
    let com = choose("comment", 4);
    // the parser takes what follows two spaces as part of the description, comments included
    assume(!find(&d, b"  ") | (com % 2 == 0));
    match com {
        0 => {}
        1 => { let t = low("inline", 1); s.extend(b"  ; "); s.extend(&t); c.text.push(t); }
        2 => { let t = low("line", 1); s.extend(b"\n ;"); s.extend(&t); c.text.push(t); }
        _ => { let t = low("inline", 1); let u = low("line", 1); s.extend(b"  ;"); s.extend(&t); s.extend(b" u\n\t# "); s.extend(&u); c.text.push(cat(&[&t, b" u"])); c.text.push(u); }
    }
    s.extend(b"\n  A:B  GBP1\n");
    let mut t = T::new(b"2020-02-29", &head, vec![P::new(b"A:B", b"GBP1", &[])]);
    t.c = c;
    fmt(&s, &[I::Trn(t)]);
}
/// Numbers: what is written and what it has to become.
fn quantity(l: &str) -> (B, B) {
    let d = bytes(&format!("{l}.digits"), 2, Dom::of(b"159"));
    let (x, y) = (&d[..1], &d[1..]);
    match choose(&format!("{l}.form"), 7) {
        0 => (d.clone(), d),
        1 => (cat(&[x, b".", y, b"0"]), cat(&[x, b".", y, b"0"])),
        2 => (cat(&[b"-", x, b".", y]), cat(&[b"-", x, b".", y])),
        3 => (cat(&[x, b",00", y, b",123.5"]), cat(&[x, b"00", y, b"123.5"])),
        4 => (cat(&[b".", &d]), cat(&[b"0.", &d])),
        5 => (cat(&[b"0", x, b".", y]), cat(&[x, b".", y])),
        _ => (cat(&[x, b"00000000000.00000000", y]), cat(&[x, b"00000000000.00000000", y])),
    }
}
fn money(l: &str) -> (B, B) {
    let c = bytes(&format!("{l}.commodity"), 1, Dom::of(b"$z"));
    let (q, r) = quantity(l);
    match choose(&format!("{l}.side"), 4) {
        0 => (cat(&[&c, &q]), cat(&[&c, &r])),
        1 => (cat(&[&c, b"  ", &q]), cat(&[&c, &r])),
        2 => (cat(&[&q, &c]), cat(&[&r, b" ", &c])),
        _ => if r[0] == b'-' { (cat(&[b"- ", &c, b" ", &q[1..]]), cat(&[&c, &r])) } else { (cat(&[b"-", &c, &q]), cat(&[&c, b"-", &r])) },
    }
}
pub fn h_fmt_amounts() {
    warm();
    let (q, r) = money("amount");
    fmt(&cat(&[b"2020-01-01 x\n  A:B  ", &q, b"\n"]), &[I::Trn(T::new(b"2020-01-01", b"x", vec![P::new(b"A:B", &r, &[])]))]);
}
pub fn h_fmt_prices() {
    warm();
    let mut s = b("2020-01-01 x\n  A:B  ");
    let mut p = P::new(b"A:B", b"", &[]);
    let one = |l: &str| -> (B, B) { let d = bytes(l, 1, Dom::of(b"05")); if flag(&format!("{l}?")) { (cat(&[b"EUR ", &d]), cat(&[b"EUR", &d])) } else { (cat(&[&d, b".0 E"]), cat(&[&d, b".0 E"])) } };
    if flag("amount?") {
        let (q, r) = one("amount");
        s.extend(q);
        p.amount = r;
        match choose("lot", 3) { 0 => {} 1 => { let (q, r) = one("lot price"); s.extend(cat(&[b" {", &q, b"}"])); p.amount.extend(cat(&[b" {", &r, b"}"])); } _ => { let (q, r) = one("lot price"); s.extend(cat(&[b"{{ ", &q, b" }}"])); p.amount.extend(cat(&[b" {{", &r, b"}}"])); } }
        match choose("price", 3) { 0 => {} 1 => { let (q, r) = one("at price"); s.extend(cat(&[b"@", &q])); p.amount.extend(cat(&[b" @ ", &r])); } _ => { let (q, r) = one("at price"); s.extend(cat(&[b"  @@ ", &q])); p.amount.extend(cat(&[b" @@ ", &r])); } }
    }
    match choose("balance", 3) { 0 => {} 1 => { s.extend(b" = 0"); p.balance = b("0"); } _ => { let (q, r) = one("balance amount"); s.extend(cat(&[b"=", &q])); p.balance = r; } }
    s.extend(b"\n");
    fmt(&s, &[I::Trn(T::new(b"2020-01-01", b"x", vec![p]))]);
}
pub fn h_fmt_postings() {
    warm();
    let crlf = flag("crlf");
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    let mut s = cat(&[b"2020-01-01 x", nl]);
    let mut t = T::new(b"2020-01-01", b"x", vec![]);
    // the posting looked at is the only one, the first or the last of two
    let place = choose("place", 3);
    let other = |s: &mut B, t: &mut T| { s.extend(b"  O:P  EUR 2"); s.extend(nl); t.posts.push(P::new(b"O:P", b"EUR2", &[])); };
    if place == 2 { other(&mut s, &mut t); }
    let mut p = P::default();
    s.extend([&b" "[..], b"\t", b"    "][choose("indent", 3) as usize]);
    match choose("pending", 3) { 0 => {} 1 => { p.status = b'!'; s.extend(b"! "); } _ => { p.status = b'!'; s.extend(b"!"); } }
    let mut a = low("account", 1);
    a.extend(bytes("account rest", 2, Dom::of(b"aB0 :;()[]*!-=@\"|")));
    a.push(b'e');
    assume(!find(&a, b"  "));
    let r = choose("reality", 3) as usize;
    p.account = cat(&[[&b""[..], b"[", b"("][r], &a, [&b""[..], b"]", b")"][r]]);
    s.extend(&p.account);
    let amount = choose("amount", 3);
    if amount > 0 { s.extend(if amount == 1 { &b"\t"[..] } else { b"   " }); s.extend(b"GBP 1"); p.amount = b("GBP1"); }
    match choose("comment", 4) {
        0 => {}
        1 => { let c = low("inline", 1); s.extend(b"  ; "); s.extend(&c); p.c.text.push(c); }
        2 => { let c = low("inline", 1); let d = low("line", 1); s.extend(b"  ;"); s.extend(&c); s.extend(nl); s.extend(b"  ; "); s.extend(&d); p.c.text.push(c); p.c.text.push(d); }
        _ => { let c = low("line", 1); s.extend(nl); s.extend(b"\t#"); s.extend(&c); s.extend(b" "); p.c.text.push(c); }
    }
    if place == 1 || flag("newline at the end") { s.extend(nl); }
    t.posts.push(p);
    if place == 1 { other(&mut s, &mut t); }
    fmt(&s, &[I::Trn(t)]);
}
pub fn h_fmt_items() { fmt_items(2); }
pub fn h_fmt_items_deep() { fmt_items(3); }
fn fmt_items(n: u8) {
    warm();
    let mut s = B::new();
    let mut want = Vec::new();
    for k in 0..n {
        match choose(&format!("item{k}"), 7) {
            0 => { s.extend(b"\n"); want.push(I::Blank); }
            1 => { if let Some(I::Trn(_)) = want.last() { s.push(b'\n'); want.push(I::Blank); } s.extend(b"  \n\n"); want.push(I::Blank); want.push(I::Blank); }
            2 => {
                let c = cat(&[b"c", &bytes(&format!("comment{k}"), 1, PRINT), b"c"]);
                s.push(b";#%|*"[choose(&format!("mark{k}"), 5) as usize]);
                s.extend(&c);
                s.push(b'\n');
                // after a posting it is a comment of the posting
                match want.last_mut() { Some(I::Trn(t)) => t.posts.last_mut().unwrap().c.text.push(c), _ => want.push(I::Comment(c)) }
            }
            3 => { let d = bytes(&format!("price{k}"), 2, DIGIT); s.extend(cat(&[b"P 2020/01/02  03:04:05 EUR  GBP ", &d[..1], b".", &d[1..], b"\n"])); want.push(I::Other(cat(&[b"P 2020-01-02 03:04:05 EUR GBP", &d[..1], b".", &d[1..]]))); want.push(I::Blank); }
            4 => { let d = low(&format!("include{k}"), 2); s.extend(cat(&[b"include  ", &d, b" x.ledger\n"])); want.push(I::Other(cat(&[b"include ", &d, b" x.ledger"]))); }
            _ => {
                let d = low(&format!("trn{k}"), 1);
                let two = flag(&format!("trn{k}.two"));
                s.extend(cat(&[b"2020/01/02 * ", &d, b"\n A  GBP 1\n", if two { b" B\n" } else { b"" }]));
                let mut t = T::new(b"2020-01-02", &cat(&[b"* ", &d]), vec![P::new(b"A", b"GBP1", &[])]);
                if two { t.posts.push(P::new(b"B", b"", &[])); }
                want.push(I::Trn(t));
            }
        }
    }
    // a price line is followed by the end of its line only, which is written as one
    let mut w = Vec::new();
    let mut skip = false;
    for i in want { match i { I::Blank if skip => { skip = false; } i => { skip = matches!(&i, I::Other(x) if x[0] == b'P'); w.push(i); } } }
    fmt(&s, &w);
}
/// Only the files named are rewritten; standard input goes to standard output.
pub fn h_fmt_files() {
    warm();
    let d = low("description", 3);
    let src = |k: u8| cat(&[b"2020/01/02 ", &d[k as usize..], b"\n A  GBP 1\n"]);
    let out = |k: u8| I::Trn(T::new(b"2020-01-02", &d[k as usize..], vec![P::new(b"A", b"GBP1", &[])]));
    for k in 0..3u8 { write(&format!("j{k}"), &src(k)); }
    let (x, y) = (choose("first", 4), choose("second", 4));
    assume(x != y);
    stdin(&cat(&[b"2020/01/02 in", &d, b"\n A  GBP 1\n"]));
    let name = |k: u8| if k == 3 { "-".to_string() } else { format!("j{k}") };
    let r = run(&["fmt", &name(x), &name(y)]);
    check("accepted", r == 0);
    for k in 0..3u8 {
        let now = read(&format!("j{k}")).unwrap();
        if k == x || k == y {
            let g = items(&now, true);
            check("the result is a journal", g.is_some());
            compare_items("formatted", &g.unwrap(), &[out(k)]);
        } else { check("a file that was not named is not touched", eq(&now, &src(k))); }
    }
    let so = stdout();
    if x == 3 || y == 3 {
        cover("standard output");
        let g = items(&so, true);
        check("standard output is a journal", g.is_some());
        compare_items("standard output", &g.unwrap(), &[I::Trn(T::new(b"2020-01-02", &cat(&[b"in", &d]), vec![P::new(b"A", b"GBP1", &[])]))]);
    } else { check("nothing on standard output", so.is_empty()); }
    check("no other file is written", file_count() == 3);
}
/// Input that the ledger parser and printer do not agree on.
pub fn h_fmt_known() {
    warm();
    match choose("case", 3) {
        0 => {
            let s = cat(&[b"2020-01-01 x\n  A:", &low("account", 1), b"  GBP1\n  * B:C  GBP-1\n"]);
            write("j", &s);
            let r = run(&["fmt", "j"]);
            let a = read("j").unwrap();
            check("a posting marked as cleared stays a posting", r == 0 && find(&a, b"\n  * B:C  GBP-1"));
        }
        1 => {
            write("j", &cat(&[b"2020-01-01 x\n  A:", &low("account", 1), b"  GBP1\n  \n"]));
            let r = run(&["fmt", "j"]);
            check("a line of blanks may follow a transaction", r == 0);
        }
        _ => {
            write("j", &cat(&[b"2020-01-01 x\n  A:B  \"a ", &low("commodity", 1), b"\" 1\n"]));
            let r = run(&["fmt", "j"]);
            if r == 0 { check("a quoted commodity can be read again", run(&["fmt", "j"]) == 0); }
        }
    }
}
