//! import nationwide-csv.
use super::util::*;
use super::vf::*;
use super::imports::*;

/// A row of the statement, as text in the encoding of the file.
pub struct Row { pub day: u8, pub kind: B, pub text: B, pub out: B, pub in_: B, pub bal: B }
pub const HEAD6: &[u8] = b"\"Date\",\"Transaction type\",\"Description\",\"Paid out\",\"Paid in\",\"Balance\"\n";
pub const HEAD5: &[u8] = b"\"Date\",\"Transactions\",\"Location\",\"Paid out\",\"Paid in\"\n";
fn front(name: &[u8]) -> B { cat(&[b"\"Account Name:\",\"", name, b"\"\n\"Account Balance:\",\"\xa3150.00\"\n\"Available Balance: \",\"\xa3150.00\"\n\n"]) }
pub const DAYS: [&[u8]; 4] = [b"01 Jan 2020", b"29 Feb 2020", b"31 Dec 2019", b"05 Sep 2021"];
const DATES: [&[u8]; 4] = [b"2020-01-01", b"2020-02-29", b"2019-12-31", b"2021-09-05"];
const YMD: [(i32, u32, u32); 4] = [(2020, 1, 1), (2020, 2, 29), (2019, 12, 31), (2021, 9, 5)];
impl Row {
    fn csv(&self, six: bool) -> B {
        let q = b"\",\"";
        if six { cat(&[b"\"", DAYS[self.day as usize], q, &self.kind, q, &self.text, q, &self.out, q, &self.in_, q, &self.bal, b"\"\n"]) }
        else { cat(&[b"\"", DAYS[self.day as usize], q, &self.kind, q, &self.text, q, &self.out, q, &self.in_, b"\"\n"]) }
    }
    /// What it has to become; `n` transactions of its date come before it.
    fn want(&self, six: bool, ns: &[u8], account: &[u8], n: u32) -> T { self.want_text(six, ns, account, &utf8(&self.kind), &utf8(&self.text), n) }
    /// The same, with the texts as they are in UTF-8.
    fn want_text(&self, six: bool, ns: &[u8], account: &[u8], kind: &[u8], text: &[u8], n: u32) -> T {
        let (text, kind) = (text.to_vec(), kind.to_vec());
        let pounds = |s: &[u8]| s[1..].to_vec();
        let paid_in = !self.in_.is_empty();
        let own = if paid_in { pounds(&self.in_) } else { negative(&pounds(&self.out)) };
        let kv = |k: &str, v: &[u8]| (b(k), v.to_vec());
        let mut me = P { account: b("assets:unknown"), amount: gbp(&own), ..P::default() };
        let mut peer = P { account: peer_account(&own), amount: gbp(&negative(&own)), ..P::default() };
        let mut m = M::new();
        let (y, mo, d) = YMD[self.day as usize];
        let head;
        let opt = |m: &mut M, s: &[u8]| if s.is_empty() { m.u8(0) } else { m.u8(1); m.amount(&pounds(s), b"GBP") };
        for p in [&mut me, &mut peer] {
            p.c.kv = vec![kv("account", account), kv("bank", b"Nationwide")];
            p.c.tags = vec![b("unknown-account")];
        }
        if six {
            for p in [&mut me, &mut peer] { p.c.kv.push(kv("trn_type", &kind)); }
            me.balance = gbp(&pounds(&self.bal));
            m.str(&kind); m.date(y, mo, d); m.u32(n); m.str(&text);
            opt(&mut m, &self.out); opt(&mut m, &self.in_);
            m.amount(&pounds(&self.bal), b"GBP");
            head = text;
        } else {
            for p in [&mut me, &mut peer] { p.c.kv.push(kv("transactions", &kind)); if !text.is_empty() { p.c.kv.push(kv("location", &text)); } }
            m.date(y, mo, d); m.u32(n); m.str(&kind); m.str(&text);
            opt(&mut m, &self.out); opt(&mut m, &self.in_);
            head = if text.is_empty() { kind } else { cat(&[&kind, b" @ ", &text]) };
        }
        me.c.kv.push(kv("seq", &cat(&[ns, b"-", format!("{}", n + 1).as_bytes()])));
        let alg: &[u8] = if six { b"fp-nwcsv6.1." } else { b"fp-nwcsv5.1." };
        me.c.tags.push(b("import-self"));
        peer.c.tags.push(b("import-peer"));
        me.c.tags.push(cat(&[alg, ns, b"-", &m.hash(b"self")]));
        peer.c.tags.push(cat(&[alg, ns, b"-", &m.hash(b"peer")]));
        T::new(DATES[self.day as usize], &head, vec![me, peer])
    }
}
pub fn statement(rows: &[Row], six: bool, name: &[u8]) -> B {
    let mut v = front(name);
    v.extend_from_slice(if six { HEAD6 } else { HEAD5 });
    for r in rows { v.extend_from_slice(&r.csv(six)); }
    v
}
pub fn wants(rows: &[Row], six: bool, ns: &[u8], account: &[u8]) -> Vec<T> {
    let mut v = Vec::new();
    for (k, r) in rows.iter().enumerate() { v.push(r.want(six, ns, account, rows[..k].iter().filter(|q| q.day == r.day).count() as u32)); }
    v
}
pub fn warm() {
    reset();
    stdin(&statement(&[Row { day: 1, kind: b("k"), text: b("t"), out: b(""), in_: vec![0xa3, b'1', b'.', b'0', b'0'], bal: vec![0xa3, b'1', b'.', b'0', b'0'] }], true, b"x"));
    check("warm", run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:n"]) == 0);
    reset();
}
pub fn money(label: &str, pounds: usize) -> B {
    let sign: &[u8] = if flag(&format!("{label} sign")) { b"-" } else { b"" };
    cat(&[b"\xa3", sign, &bytes(&format!("{label} pounds"), pounds, DIGIT), b".", &bytes(&format!("{label} pence"), 2, DIGIT)])
}
fn run_and_compare(rows: &[Row], six: bool) {
    stdin(&statement(rows, six, b"Current"));
    let r = run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]);
    check("accepted", r == 0);
    let so = stdout();
    let got = parse(&so);
    check("the output is a journal", got.is_some());
    compare_amounts("import", &got.unwrap(), &wants(rows, six, b"ns", b"Current"));
    check("no file is written", file_count() == 0);
}
/// Every field of a row, with symbolic text and digits.
fn one(six: bool, pounds: usize) {
    warm();
    let txt = Dom::range(b'a', b'z').or(DIGIT).or(Dom::of(b"&./-*#"));
    let (kind, text) = (cat(&[b"k", &bytes("kind", 2, txt)]), if !six && flag("no location") { b("") } else { cat(&[b"t", &bytes("text", 2, txt)]) });
    let amount = money("amount", pounds);
    let paid_in = flag("paid in");
    cover(if paid_in { "paid in" } else { "paid out" });
    let (out, in_) = if paid_in { (b(""), amount) } else { (amount, b("")) };
    let bal = if six { money("balance", 1) } else { b("") };
    run_and_compare(&[Row { day: choose("day", 4), kind, text, out, in_, bal }], six);
}
pub fn h_nw_six() { one(true, 2) }
pub fn h_nw_five() { one(false, 2) }
/// Distinct postings have distinct fingerprints; rows of other dates do not change those of a date.
fn several(n: usize, six: bool) {
    warm();
    let mut rows = Vec::new();
    for k in 0..n {
        let day = choose(&format!("day {k}"), 2);
        let t = bytes(&format!("text {k}"), 1, Dom::range(b'a', b'z'));
        let a = cat(&[b"\xa3", &bytes(&format!("amount {k}"), 1, Dom::range(b'1', b'9')), b".00"]);
        let (out, in_) = if flag(&format!("in {k}")) { (b(""), a) } else { (a, b("")) };
        rows.push(Row { day, kind: b("k"), text: t, out, in_, bal: if six { b("\u{1}1.00") } else { b("") } });
        if six { let r = rows.last_mut().unwrap(); r.bal = vec![0xa3, b'1', b'.', b'0', b'0']; }
    }
    stdin(&statement(&rows, six, b"Current"));
    check("accepted", run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]) == 0);
    let got = parse(&stdout()).unwrap();
    compare_amounts("import", &got, &wants(&rows, six, b"ns", b"Current"));
    distinct(&got);
}
pub fn h_nw_several_six() { several(2, true) }
pub fn h_nw_several_five() { several(2, false) }
pub fn h_nw_several_deep() { several(3, false) }
/// Three rows, their dates in any order, otherwise alike.
pub fn h_nw_dates() {
    warm();
    let six = flag("six columns");
    let rows: Vec<Row> = (0..4).map(|k| Row { day: choose(&format!("day {k}"), 3), kind: b("k"), text: b("t"), out: b(""), in_: vec![0xa3, b'1', b'.', b'0', b'0'], bal: vec![0xa3, b'1', b'.', b'0', b'0'] }).collect();
    run_and_compare(&rows, six);
    distinct(&parse(&stdout()).unwrap());
}
/// The tag of earlier versions is added when asked for, and only then, and only to six column rows.
pub fn h_nw_legacy() {
    warm();
    let six = flag("six columns");
    let kind = bytes("kind", 2, Dom::range(b'a', b'z'));
    let a = cat(&[b"\xa3", &bytes("amount", 1, Dom::range(b'1', b'9')), b".00"]);
    let (out, in_) = if flag("in") { (b(""), a.clone()) } else { (a.clone(), b("")) };
    let rows = [Row { day: 0, kind: b("first"), text: b("t"), out: a, in_: b(""), bal: b("\u{1}") }, Row { day: 0, kind, text: b("t"), out, in_, bal: b("") }];
    let rows: Vec<Row> = rows.into_iter().map(|r| Row { bal: vec![0xa3, b'-', b'3', b'.', b'2', b'1'], ..r }).collect();
    stdin(&statement(&rows, six, b"Current"));
    check("accepted", run(&["import", "nationwide-csv", "-", "--include-legacy-fingerprint", "--fp-namespace", "fixed:ns"]) == 0);
    let mut want = wants(&rows, six, b"ns", b"Current");
    if six {
        for (k, (r, t)) in rows.iter().zip(&mut want).enumerate() {
            let mut m = M::new();
            let (y, mo, d) = YMD[0];
            m.str(&r.kind); m.date(y, mo, d); m.str(b""); m.amount(b"-3.21", b"GBP"); m.u32(k as u32);
            for p in &mut t.posts {
                let mut m = m.clone();
                m.str(&p.account); m.amount(&p.amount[3..], b"GBP");
                p.c.tags.push(cat(&[b"fp-ns-", &base64(&sha1(&m.0))]));
            }
        }
    }
    let got = parse(&stdout()).unwrap();
    compare_amounts("import", &got, &want);
    distinct(&got);
}
/// The number written in `s` (an amount in pounds), or None if it is not of the documented form.
fn pounds(s: &[u8]) -> Option<B> {
    let mut s = s;
    let blank = |c: u8| (c == b' ') | (c == b'\t');
    while !s.is_empty() && split(blank(s[0])) { s = &s[1..]; }
    while !s.is_empty() && split(blank(s[s.len() - 1])) { s = &s[..s.len() - 1]; }
    if s.is_empty() || !split(s[0] == 0xa3) { return None; }
    s = &s[1..];
    let mut v = Vec::new();
    if !s.is_empty() && split(s[0] == b'-') { v.push(b'-'); s = &s[1..]; }
    let n = s.len();
    if n < 4 { return None; }
    let mut ok = s[n - 3] == b'.';
    for k in 0..n { if k != n - 3 { ok &= s[k].is_ascii_digit(); } }
    if !split(ok) { return None; }
    v.extend_from_slice(s);
    Some(v)
}
fn amount_text(text: &[u8], place: u8) {
    let plain = vec![0xa3, b'1', b'.', b'0', b'0'];
    let row = match place {
        0 => Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: text.to_vec(), bal: plain },
        1 => Row { day: 0, kind: b("k"), text: b("t"), out: text.to_vec(), in_: b(""), bal: plain },
        _ => Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: plain, bal: text.to_vec() },
    };
    stdin(&statement(std::slice::from_ref(&row), true, b"Current"));
    let r = run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]);
    match pounds(text) {
        None => { cover("not an amount"); check("what is not an amount is refused", r == 1); check("nothing is written", stdout().is_empty()); }
        Some(v) => {
            cover("an amount");
            check("an amount is accepted", r == 0);
            let got = parse(&stdout());
            check("the output is a journal", got.is_some());
            let got = got.unwrap();
            check("one transaction", got.len() == 1 && got[0].posts.len() == 2);
            let (me, peer) = (&got[0].posts[0], &got[0].posts[1]);
            match place {
                0 => { check("paid in: the amount", amount_same(&me.amount, &gbp(&v))); check("paid in: the opposite amount", amount_same(&peer.amount, &gbp(&negative(&v)))); }
                1 => { check("paid out: the amount", amount_same(&me.amount, &gbp(&negative(&v)))); check("paid out: the opposite amount", amount_same(&peer.amount, &gbp(&v))); }
                _ => check("the balance", amount_same(&me.balance, &gbp(&v))),
            }
        }
    }
}
fn amounts(n: usize) {
    warm();
    let place = choose("place", 3);
    let t = bytes("amount", n, Dom::of(b"\xa3-.,05 +e"));
    amount_text(&t, place);
}
pub fn h_nw_amount() { amounts(6) }
pub fn h_nw_amount_deep() { amounts(8) }
/// Amounts of up to 21 digits.
pub fn h_nw_digits() {
    warm();
    let n = choose("pounds", 20) as usize;
    let mut t = vec![0xa3];
    if flag("sign") { t.push(b'-'); }
    t.extend_from_slice(&bytes("first digit", 1, Dom::of(b"0129")));
    for _ in 0..n { t.push(b'9'); }
    t.push(b'.');
    let pence = choose("pence digits", 4) as usize;
    t.extend_from_slice(&bytes("pence", pence, Dom::of(b"07")));
    // what cannot be represented may be refused
    if n + 1 > 16 {
        let row = Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: t.clone(), bal: vec![0xa3, b'1', b'.', b'0', b'0'] };
        stdin(&statement(std::slice::from_ref(&row), true, b"Current"));
        let r = run(&["import", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]);
        check("read or refused", r == 0 || r == 1);
        if r == 0 {
            cover("a large amount is read");
            let got = parse(&stdout()).unwrap();
            let v = pounds(&t);
            check("a large amount is read exactly", v.is_some() && amount_same(&got[0].posts[0].amount, &gbp(&v.unwrap())));
        } else { cover("a large amount is refused"); check("nothing is written", stdout().is_empty()); }
        return;
    }
    amount_text(&t, 0);
}
/// Statements that are not of the documented form are refused.
pub fn h_nw_refused() {
    warm();
    let one = || vec![0xa3, b'1', b'.', b'0', b'0'];
    let good = Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: one(), bal: one() };
    let six = flag("six columns");
    let mut lines: Vec<B> = vec![b("\"Account Name:\",\"Current\"\n"), b"\"Account Balance:\",\"\xa3150.00\"\n".to_vec(), b"\"Available Balance: \",\"\xa3150.00\"\n".to_vec(), b("\n"), if six { HEAD6.to_vec() } else { HEAD5.to_vec() }];
    let what = choose("what", 8);
    let mut row = good;
    let mut bad = true;
    match what {
        // one character of the headers replaced
        0 => {
            let l = [0usize, 1, 2, 4][choose("line", 4) as usize];
            let at = choose("at", 50) as usize;
            let end = if l == 4 { lines[l].len() } else { let mut k = 0; while lines[l][k] != b',' { k += 1; } k };
            if at >= end { return; }
            let x = byte("character", PRINT.minus(b"\" "));
            assume(x != lines[l][at]);
            if lines[l][at] == b'"' || lines[l][at] == b'\n' || lines[l][at] == b' ' || lines[l][at] == b',' { return; }
            lines[l][at] = x;
            bad = true;
        }
        // a line missing
        1 => { lines.remove([0usize, 1, 2, 4][choose("line", 4) as usize]); }
        // neither paid in nor paid out, or both
        2 => { row.in_ = b(""); }
        3 => { row.out = one(); }
        // a field missing
        4 => { let mut v = row.csv(six); let mut k = v.len(); while v[k - 1] != b',' { k -= 1; } v.truncate(k - 1); v.push(b'\n'); lines.push(v); }
        // the columns of the other format
        5 => { if six { return; } lines[4] = if six { HEAD5.to_vec() } else { HEAD6.to_vec() }; }
        // no such date
        6 => {
            let dates: [&[u8]; 9] = [b"00 Jan 2020", b"32 Jan 2020", b"30 Feb 2020", b"29 Feb 2019", b"01 Foo 2020", b"2020-01-01", b"", b"01 Jan", b"31 Apr 2020"];
            let v = row.csv(six);
            let d = dates[choose("date", 9) as usize];
            lines.push(cat(&[b"\"", d, &v[12..]]));
        }
        // nothing after the front matter: refused; nothing after the headers: an empty journal
        _ => { if flag("no headers") { lines.truncate(4) } else { bad = false; } }
    }
    if what < 4 || what == 5 { lines.push(row.csv(six)); }
    let mut v = Vec::new();
    for l in &lines { v.extend_from_slice(l); }
    write("in.csv", &v);
    write("out", b"before");
    // the other format fits when the amounts come out right
    let r = run(&["import", "-o", "out", "nationwide-csv", "in.csv", "--fp-namespace", "fixed:ns"]);
    if bad {
        cover("refused");
        check("refused", r == 1);
        check("a refused statement leaves the output as it was", eq(&read("out").unwrap(), b"before"));
    } else { check("an empty statement is accepted", r == 0); check("and gives an empty journal", read("out").unwrap().is_empty()); }
    check("no other file is written", file_count() == 2);
}
/// `s` without white space at either end, and with line breaks inside as blanks (text in UTF-8).
pub fn field(s: &[u8]) -> B {
    fn white(s: &[u8]) -> bool {
        match s.len() {
            1 => (s[0] == b' ') | ((9 <= s[0]) & (s[0] <= 13)),
            2 => (s[0] == 0xc2) & ((s[1] == 0x85) | (s[1] == 0xa0)),
            _ => false,
        }
    }
    let mut cs: Vec<B> = Vec::new();
    for c in s { if split(*c & 0xc0 == 0x80) { cs.last_mut().unwrap().push(*c); } else { cs.push(vec![*c]); } }
    let (mut i, mut j) = (0, cs.len());
    while i < j && split(white(&cs[i])) { i += 1; }
    while i < j && split(white(&cs[j - 1])) { j -= 1; }
    let mut v = Vec::new();
    for c in &cs[i..j] { if c.len() == 1 && split((c[0] == b'\n') | (c[0] == b'\r')) { v.push(b' '); } else { v.extend_from_slice(c); } }
    v
}
/// A field of a CSV file, in quotes.
pub fn quoted(s: &[u8]) -> B {
    let mut v = vec![b'"'];
    for c in s { if split(*c == b'"') { v.push(b'"'); } v.push(*c); }
    v.push(b'"');
    v
}
/// Texts of any characters: `t` in the given place.
pub fn text_at(place: u8, t: &[u8], again: bool) {
    let six = place != 3;
    let (kind, text, name): (&[u8], &[u8], &[u8]) = match place { 0 => (t, &b"t"[..], &b"Current"[..]), 1 => (b"k", t, b"Current"), 2 => (b"k", b"t", t), _ => (b"k", t, b"Current") };
    let one = vec![0xa3, b'1', b'.', b'0', b'0'];
    let mut v = cat(&[b"\"Account Name:\",", &quoted(name), b"\n\"Account Balance:\",\"\xa3150.00\"\n\"Available Balance: \",\"\xa3150.00\"\n\n", if six { HEAD6 } else { HEAD5 }]);
    v.extend_from_slice(&cat(&[b"01 Jan 2020,", &quoted(kind), b",", &quoted(text), b",,\xa31.00"]));
    if six { v.extend_from_slice(b",\xa31.00"); }
    v.push(b'\n');
    write("in", &v);
    check("accepted", run(&["import", "-o", "out", "nationwide-csv", "in", "--fp-namespace", "fixed:ns"]) == 0);
    // what the model calls text is already in UTF-8: put it back where `want` would decode it
    let clean = |s: &[u8]| field(&utf8(s));
    let row = Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: one.clone(), bal: one };
    let want = row.want_text(six, b"ns", &clean(name), &clean(kind), &clean(text), 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    compare_amounts("import", &got.unwrap(), std::slice::from_ref(&want));
    if again {
        read_again(std::slice::from_ref(&want));
    }
}
/// Any two characters the encoding knows, in the middle of a field.
pub fn h_nw_text() {
    warm();
    let place = choose("place", 4);
    let t = bytes("text", 2, BYTE);
    text_at(place, &cat(&[b"a", &t, b"b"]), false);
}
/// A row must have one amount, whatever the amounts are.
pub fn h_nw_both() {
    warm();
    let six = flag("six columns");
    let both = flag("both");
    let mut row = |k: usize, bad: bool| {
        let l = if k == 0 { "first" } else { "second" };
        let amount = |which: &str| if bad { money(&format!("{l} {which}"), 1) } else { b("\u{a3}1.00").split_off(1) };
        let (out, in_) = if bad { if both { (amount("out"), amount("in")) } else { (b(""), b("")) } } else { (vec![0xa3, b'1', b'.', b'0', b'0'], b("")) };
        Row { day: 1, kind: b("k"), text: b("t"), out, in_, bal: if six { money(&format!("{l} balance"), 1) } else { b("") } }
    };
    let at = choose("which row", 3);
    let rows = match at { 0 => vec![row(0, true)], 1 => vec![row(0, true), row(1, false)], _ => vec![row(0, false), row(1, true)] };
    write("old", b"old");
    stdin(&statement(&rows, six, b"Current"));
    let r = run(&["import", "-o", "old", "nationwide-csv", "-", "--fp-namespace", "fixed:ns"]);
    check("refused", r == 1);
    cover("refused");
    check("nothing is written", eq(&read("old").unwrap(), b"old"));
}
