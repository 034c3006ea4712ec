//! import nationwide-pdf, with stand-ins for the two programs it runs.
use super::imports::*;
use super::util::*;
use super::vf::*;

/// A number in the table of words: its text, and its value.
#[derive(Clone)]
pub struct Num { pub text: B, pub val: i32 }
impl Num {
    pub fn of(v: i32) -> Num { Num { text: v.to_string().into_bytes(), val: v } }
    pub fn any(label: &str, digits: usize) -> Num {
        let text = bytes(label, digits, DIGIT);
        let mut val = 0;
        for d in &text { val = val * 10 + (*d - b'0') as i32; }
        Num { text, val }
    }
}
#[derive(Clone)]
pub struct W { pub left: Num, pub width: Num, pub text: B }
#[derive(Clone)]
pub struct L { pub top: Num, pub height: Num, pub words: Vec<W> }
/// A paragraph is a list of lines, a page a list of paragraphs (one block).
pub type Page = Vec<Vec<L>>;

pub fn w(left: i32, text: &[u8]) -> W { W { left: Num::of(left), width: Num::of(30), text: text.to_vec() } }
pub fn line(top: i32, words: Vec<W>) -> L { L { top: Num::of(top), height: Num::of(10), words } }
pub fn words(top: i32, at: &[(i32, &[u8])]) -> L { line(top, at.iter().map(|(l, t)| w(*l, t)).collect()) }
pub const DATE: i32 = 10;
pub const DETAIL: i32 = 100;
pub const PAID: i32 = 300;
pub const RECEIVED: i32 = 400;
pub const BALANCE: i32 = 500;
pub fn account_line() -> L { words(0, &[(0, b"Account"), (40, b"Number"), (80, b"12-34-56"), (120, b"12345678")]) }
pub fn header() -> L { words(100, &[(DATE, b"Date"), (DETAIL, b"Details"), (PAID, b"Payments"), (RECEIVED, b"Receipts"), (BALANCE, b"Balance")]) }
pub fn year(top: i32, y: &[u8]) -> L { words(top, &[(DATE, y)]) }

/// One row of the table of words.
#[derive(Clone)]
pub struct Row { pub level: Num, pub at: [Num; 5], pub left: Num, pub top: Num, pub width: Num, pub height: Num, pub text: B }
pub fn rows(n: usize, page: &Page) -> Vec<Row> {
    let z = || Num::of(0);
    let row = |level: i32, at: [usize; 5]| Row { level: Num::of(level), at: at.map(|x| Num::of(x as i32)), left: z(), top: z(), width: z(), height: z(), text: b("") };
    let mut v = vec![row(1, [n, 0, 0, 0, 0]), row(2, [n, 1, 0, 0, 0])];
    for (i, para) in page.iter().enumerate() {
        v.push(row(3, [n, 1, i + 1, 0, 0]));
        for (j, l) in para.iter().enumerate() {
            let mut r = row(4, [n, 1, i + 1, j + 1, 0]);
            r.top = l.top.clone();
            r.height = l.height.clone();
            v.push(r);
            for (k, x) in l.words.iter().enumerate() {
                let mut r = row(5, [n, 1, i + 1, j + 1, k + 1]);
                r.left = x.left.clone();
                r.width = x.width.clone();
                r.top = l.top.clone();
                r.height = l.height.clone();
                r.text = x.text.clone();
                v.push(r);
            }
        }
    }
    v
}
pub fn tsv(rows: &[Row]) -> B {
    let mut v = Vec::new();
    for r in rows {
        let f: [&[u8]; 12] = [&r.level.text, &r.at[0].text, &r.at[1].text, &r.at[2].text, &r.at[3].text, &r.at[4].text, &r.left.text, &r.top.text, &r.width.text, &r.height.text, if r.text.is_empty() { b"-1" } else { b"96" }, &r.text];
        for (k, x) in f.iter().enumerate() { if k > 0 { v.push(b'\t'); } v.extend_from_slice(x); }
        v.push(b'\n');
    }
    v
}
/// Reads rows back: pages of blocks of paragraphs, each row the next of the parent it names.
pub fn document(rows: &[Row]) -> Option<Vec<Page>> {
    let mut doc: Vec<Vec<Page>> = Vec::new();
    fn pos(n: &Num, len: usize) -> Option<usize> { let mut k = 0; while k < len { if split(n.val == k as i32 + 1) { return Some(k); } k += 1; } None }
    for r in rows {
        let mut level = 0;
        for k in 1..=5 { if split(r.level.val == k) { level = k; } }
        if level == 0 { return None; }
        if level == 1 { if pos(&r.at[0], doc.len() + 1)? != doc.len() { return None; } doc.push(Vec::new()); continue; }
        let n = doc.len();
        let page = &mut doc[pos(&r.at[0], n)?];
        if level == 2 { if pos(&r.at[1], page.len() + 1)? != page.len() { return None; } page.push(Vec::new()); continue; }
        let n = page.len();
        let block = &mut page[pos(&r.at[1], n)?];
        if level == 3 { if pos(&r.at[2], block.len() + 1)? != block.len() { return None; } block.push(Vec::new()); continue; }
        let n = block.len();
        let para = &mut block[pos(&r.at[2], n)?];
        if level == 4 { if pos(&r.at[3], para.len() + 1)? != para.len() { return None; } para.push(L { top: r.top.clone(), height: r.height.clone(), words: Vec::new() }); continue; }
        let n = para.len();
        let l = &mut para[pos(&r.at[3], n)?];
        if pos(&r.at[4], l.words.len() + 1)? != l.words.len() { return None; }
        l.words.push(W { left: r.left.clone(), width: r.width.clone(), text: r.text.clone() });
    }
    Some(doc.into_iter().map(|p| p.into_iter().flatten().collect()).collect())
}

#[derive(Clone)]
struct Open { date: (i32, u32, u32), counter: u32, paid: bool, amount: B, text: B, effective: Option<B>, balance: B }
fn date_text(d: (i32, u32, u32)) -> B { format!("{:04}-{:02}-{:02}", d.0, d.1, d.2).into_bytes() }
const MONTHS: [&[u8]; 12] = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"];
fn days(y: i32, m: u32) -> u32 { match m { 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn day_month(y: i32, d: &[u8], m: &[u8]) -> Option<(i32, u32, u32)> {
    if d.len() != 2 || !split(d[0].is_ascii_digit() & d[1].is_ascii_digit()) { return None; }
    let mut mo = 0;
    for k in 0..12 { if split(eq(m, MONTHS[k])) { mo = k as u32 + 1; } }
    if mo == 0 { return None; }
    let v = (d[0] - b'0') as u32 * 10 + (d[1] - b'0') as u32;
    for k in 1..=days(y, mo) { if split(v == k) { return Some((y, mo, k)); } }
    None
}
/// The number without the commas; nothing if it is not one, or below zero.
fn amount(s: &[u8]) -> Option<B> {
    let mut v = Vec::new();
    for c in s { if split(*c == b',') { continue; } v.push(*c); }
    let n = num(&v)?;
    if n.neg { return None; }
    Some(v)
}
fn close(o: Open, ns: &[u8]) -> T {
    let own = if o.paid { negative(&o.amount) } else { o.amount.clone() };
    let other = negative(&own);
    let mut me = P { account: b("assets:unknown"), amount: gbp(&own), ..P::default() };
    let mut peer = P { account: peer_account(&own), amount: gbp(&other), ..P::default() };
    if !o.balance.is_empty() { me.balance = gbp(&o.balance); }
    let mut m = M::new();
    m.date(o.date.0, o.date.1, o.date.2);
    m.u32(o.counter);
    m.str(&o.text);
    for (p, end, n) in [(&mut me, &b"import-self"[..], &own), (&mut peer, &b"import-peer"[..], &other)] {
        p.c.kv.push((b("bank"), b("Nationwide")));
        p.c.tags.push(b("unknown-account"));
        p.c.tags.push(end.to_vec());
        let mut m = m.clone();
        m.str(&p.account);
        m.amount(n, b"GBP");
        p.c.tags.push(cat(&[b"fp-", ns, b"-", &base64(&sha1(&m.0))]));
    }
    me.c.kv.push((b("seq"), cat(&[ns, b"-", format!("{}", o.counter + 1).as_bytes()])));
    let head = match o.effective { Some(e) => cat(&[b"=", &e, b" ", &o.text]), None => o.text };
    T::new(&date_text(o.date), &head, vec![me, peer])
}
/// What the pages have to become; nothing if they have to be refused.
pub fn expect(doc: &[Page], ns: &[u8]) -> Option<Vec<T>> {
    let mut out = Vec::new();
    let mut cur: Option<Open> = None;
    let mut prev: Option<(i32, u32, u32)> = None;
    let mut counter = 0;
    let mut used: Vec<((i32, u32, u32), u32)> = Vec::new();
    for page in doc { for para in page {
        // the columns
        let mut cols: Option<(usize, [(i32, i32); 5])> = None;
        for (k, l) in para.iter().enumerate() {
            if cols.is_some() || l.words.len() < 5 { continue; }
            let names: [&[u8]; 5] = [b"Date", b"Details", b"Payments", b"Receipts", b"Balance"];
            if !(0..5).all(|k| split(eq(&l.words[k].text, names[k]))) { continue; }
            let x = |k: usize| l.words[k].left.val;
            let end = |k: usize| l.words[k].left.val + l.words[k].width.val;
            cols = Some((k, [(x(0), end(0)), (x(1), x(2)), (x(2), x(3)), (x(3), x(4)), (x(4), end(4))]));
        }
        let (head, cols) = match cols { Some(c) => c, None => continue };
        let mut year: Option<i32> = None;
        let mut date: Option<(i32, u32, u32)> = None;
        let mut before: Option<(i32, i32)> = None;
        let mut ended = false;
        for l in &para[head + 1..] {
            let cell = |c: usize| -> Vec<B> { let mut v = Vec::new(); for x in &l.words { if split((x.left.val + x.width.val > cols[c].0) & (x.left.val < cols[c].1)) { v.push(x.text.clone()); } } v };
            let d = cell(0);
            match d.len() {
                0 => {}
                1 => {
                    let mut y = None;
                    for k in 1980..=2100 { if eq(&d[0], k.to_string().as_bytes()) { y = Some(k); } }
                    year = Some(y?);
                    continue;
                }
                2 => { date = Some(day_month(year?, &d[0], &d[1])?); }
                _ => return None,
            }
            let join = |v: Vec<B>| { let mut r = Vec::new(); for (k, x) in v.iter().enumerate() { if k > 0 { r.push(b' '); } r.extend_from_slice(x); } r };
            let text = join(cell(1));
            if text.is_empty() { continue; }
            let (paid, received, balance) = (join(cell(2)), join(cell(3)), join(cell(4)));
            // far below the line before: not part of the table (dates still have to be dates)
            if let Some((t, h)) = before { if !ended && split(l.top.val > t + 2 * h) { ended = true; } }
            before = Some((l.top.val, l.height.val));
            if ended { continue; }
            if !paid.is_empty() && !received.is_empty() { return None; }
            if !paid.is_empty() || !received.is_empty() {
                if let Some(o) = cur.take() { out.push(close(o, ns)); }
                counter = if date != prev { 0 } else { counter + 1 };
                if let Some(d) = date { for (u, n) in &used { if *u == d && counter <= *n { counter = *n + 1; } } }
                let day = date?;
                used.push((day, counter));
                let is_paid = !paid.is_empty();
                cur = Some(Open { date: day, counter, paid: is_paid, amount: amount(if is_paid { &paid } else { &received })?, text, effective: None, balance: Vec::new() });
            } else if let Some(o) = &mut cur {
                if split(starts(&text, b"Effective Date ")) {
                    let t = &text[15..];
                    if t.len() != 11 { return None; }
                    let mut y = None;
                    for k in 1980..=2100 { if eq(&t[7..], k.to_string().as_bytes()) { y = Some(k); } }
                    o.effective = Some(date_text(day_month(y?, &t[..2], &t[3..6])?));
                } else { o.text.push(b' '); o.text.extend_from_slice(&text); }
            }
            // lines before the first transaction do not count
            if cur.is_some() { prev = date; }
            if let Some(o) = &mut cur { if !balance.is_empty() {
                let neg = split(balance[0] == b'-');
                let v = amount(if neg { &balance[1..] } else { &balance })?;
                o.balance = if neg { negative(&v) } else { v };
            } }
        }
    } }
    if let Some(o) = cur { out.push(close(o, ns)); }
    Some(out)
}
pub fn programs(pages: usize) { gm("gm", pages, 0); tesseract("tess", 0); }
pub fn import(pages: &[B], ns: &str) -> i32 {
    programs(pages.len());
    write("in.pdf", b"%PDF");
    for (k, p) in pages.iter().enumerate() { write(&format!("in.pdf.{k}"), p); }
    write("out", b"before");
    run(&["import", "-o", "out", "nationwide-pdf", "in.pdf", "./gm", "./tess", "--fp-namespace", ns])
}
pub fn outcome(r: i32, want: &Option<Vec<T>>) {
    check("no temporary files are left", temp_count() == 0);
    match want {
        Some(w) => {
            cover("accepted");
            check("accepted", r == 0);
            let got = parse(&read("out").unwrap());
            check("the output is a journal", got.is_some());
            let got = got.unwrap();
            distinct(&got);
            compare_amounts("import", &got, w);
        }
        None => {
            cover("refused");
            check("refused", r == 1);
            check("a refused statement leaves the output as it was", eq(&read("out").unwrap(), b"before"));
        }
    }
}
pub fn all(doc: &[Page]) { let pages: Vec<B> = doc.iter().enumerate().map(|(k, p)| tsv(&rows(k + 1, p))).collect(); outcome(import(&pages, "fixed:n"), &expect(doc, b"n")); }
pub fn simple() -> Page { vec![vec![account_line()], vec![header(), year(120, b"2020"), words(140, &[(DATE, b"05"), (35, b"Mar"), (DETAIL, b"ab"), (PAID, b"12.50"), (BALANCE, b"7.00")])]] }
pub fn warm() {
    reset();
    all(&[simple()]);
    reset();
}
/// A word anywhere on a line: it goes to the columns it stands in.
pub fn h_pdf_place() {
    warm();
    let mut p = simple();
    let text = bytes("text", 1, DIGIT);
    let x = W { left: Num::any("left", 3), width: Num::any("width", 2), text };
    let mut cells = vec![w(DATE, b"05"), w(35, b"Mar"), w(DETAIL, b"ab"), w(PAID, b"12.50")];
    cells.insert(choose("word", 5) as usize, x);
    p[1][2] = line(140, cells);
    all(&[p]);
}
/// Lines of all kinds, one after the other.
fn lines(n: usize) {
    warm();
    let mut p = vec![account_line()];
    p = vec![header()];
    let mut top = 120;
    if flag("year") { p.push(year(top, b"2020")); top += 20; }
    for k in 0..n {
        let t = bytes("word", 1, ALPHA);
        let five: &[(i32, &[u8])] = &[(DATE, b"05"), (35, b"Mar")];
        let six: &[(i32, &[u8])] = &[(DATE, b"29"), (35, b"Feb")];
        let more: Vec<(i32, &[u8])> = match choose("kind", 12) {
            0 => cat2(five, &[(DETAIL, &t), (PAID, b"12.50")]),
            1 => cat2(six, &[(DETAIL, &t), (RECEIVED, b"3.00"), (BALANCE, b"1,204.00")]),
            2 => vec![(DETAIL, &t), (DETAIL + 40, b"cd"), (PAID, b"1,000.00")],
            3 => vec![(DETAIL, &t), (RECEIVED, b"0.50")],
            4 => vec![(DETAIL, &t), (DETAIL + 40, b"more")],
            5 => vec![(DETAIL, b"Effective"), (DETAIL + 40, b"Date"), (DETAIL + 80, b"07"), (DETAIL + 110, b"Mar"), (DETAIL + 140, b"2020")],
            6 => vec![(DATE, b"2019")],
            7 => cat2(five, &[(DETAIL, &t), (BALANCE, b"-9.99")]),
            8 => vec![(PAID, b"4.00")],
            9 => vec![],
            10 => { top += 100; vec![(DETAIL, &t), (PAID, b"5.00")] }
            _ => vec![(DETAIL, &t), (PAID, b"1.00"), (RECEIVED, b"1.00")],
        };
        p.push(words(top, &more));
        top += 20;
        let _ = k;
    }
    all(&[vec![vec![account_line()], p]]);
}
fn cat2<'a>(a: &[(i32, &'a [u8])], c: &[(i32, &'a [u8])]) -> Vec<(i32, &'a [u8])> { a.iter().chain(c).cloned().collect() }
pub fn h_pdf_lines() { lines(3) }
pub fn h_pdf_lines_deep() { lines(4) }
/// How far down a line is, and how high the one before.
pub fn h_pdf_gap() {
    warm();
    let mut p = simple();
    let a = L { top: Num::any("top", 3), height: Num::any("height", 2), words: vec![w(DATE, b"05"), w(35, b"Mar"), w(DETAIL, b"ab"), w(PAID, b"12.50")] };
    let c = L { top: Num::any("next top", 3), height: Num::of(10), words: vec![w(DETAIL, b"cd"), w(if flag("continued") { BALANCE } else { PAID }, b"3.00")] };
    p[1].truncate(2);
    p[1].push(a);
    p[1].push(c);
    all(&[p]);
}
/// Amounts with and without commas.
pub fn h_pdf_amount() { amounts(4) }
pub fn h_pdf_amount_deep() { amounts(5) }
fn amounts(max: u8) {
    warm();
    let n = 1 + choose("length", max) as usize;
    let t = bytes("amount", n, Dom::of(b"0159.,-"));
    // other than digits, with at most one point between digits and commas anywhere, is left open
    let place = [PAID, RECEIVED, BALANCE][choose("column", 3) as usize];
    let mut p = simple();
    let mut l = vec![w(DATE, b"05"), w(35, b"Mar"), w(DETAIL, b"ab")];
    if place == BALANCE { l.push(w(PAID, b"12.50")); }
    l.push(w(place, &t));
    p[1][2] = line(140, l);
    let r = import(&[tsv(&rows(1, &p))], "fixed:n");
    let mut v = Vec::new();
    for c in &t { if split(*c == b',') { continue; } v.push(*c); }
    let neg = !v.is_empty() && split(v[0] == b'-');
    let mut digits = 0;
    let mut points = 0;
    let mut other = false;
    for c in &v[neg as usize..] { if split(*c == b'.') { points += 1; } else if split(*c == b'-') { other = true; } else { digits += 1; } }
    let no = |why: &str| { cover(why); check("what is not an amount is refused", r == 1); check("and nothing is written", eq(&read("out").unwrap(), b"before")); };
    if other || digits == 0 || points > 1 { return no("not an amount"); }
    // a number without digits on one side of the point may be read or refused
    if split((v[neg as usize] == b'.') | (v[v.len() - 1] == b'.')) { if r != 0 { check("read or refused", r == 1); return; } }
    let mut v = v;
    if split(v[neg as usize] == b'.') { v.insert(neg as usize, b'0'); }
    if neg && place != BALANCE { cover("below zero"); check("below zero is refused, except nothing", r == 1 || num(&v).map(|x| N { neg: false, ..x }.same(&N { neg: false, int: b("0"), frac: b("") })) == Some(true)); return; }
    cover("an amount");
    check("an amount is accepted", r == 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    let got = got.unwrap();
    check("one transaction of two postings", got.len() == 1 && got[0].posts.len() == 2);
    let (me, peer) = (&got[0].posts[0], &got[0].posts[1]);
    if place == PAID { check("paid: the amount", amount_same(&me.amount, &gbp(&negative(&v)))); check("paid: the opposite amount", amount_same(&peer.amount, &gbp(&v))); }
    if place == RECEIVED { check("received: the amount", amount_same(&me.amount, &gbp(&v))); check("received: the opposite amount", amount_same(&peer.amount, &gbp(&negative(&v)))); }
    if place == BALANCE { check("the balance", amount_same(&me.balance, &gbp(&v))); }
}
/// Dates that exist and dates that do not.
pub fn h_pdf_date() {
    warm();
    let years: [&[u8]; 8] = [b"2019", b"2020", b"2100", b"1980", b"1979", b"2101", b"20x0", b"2000"];
    let y = years[choose("year", 8) as usize];
    let day = bytes("day", 2, DIGIT.or(Dom::of(b"x")));
    let m = choose("month", 13) as usize;
    let month: &[u8] = if m == 12 { b"Foo" } else { MONTHS[m] };
    let mut p = simple();
    if flag("effective") {
        p[1].push(words(160, &[(DETAIL, b"Effective"), (DETAIL + 40, b"Date"), (DETAIL + 80, &day), (DETAIL + 110, month), (DETAIL + 140, y)]));
        // years out of the range of statements are not checked here
        if eq(y, b"1979") || eq(y, b"2101") { return; }
    } else {
        p[1][1] = year(120, y);
        p[1][2] = words(140, &[(DATE, &day), (35, month), (DETAIL, b"ab"), (PAID, b"12.50")]);
    }
    all(&[p]);
}
/// Words of any characters.
pub fn h_pdf_text() { texts(false) }
pub fn h_text_pdf() { texts(true) }
fn texts(odds: bool) {
    warm();
    let t = bytes("text", 3, PRINT.minus(b" "));
    let mut p = simple();
    let first = flag("first word");
    p[1][2] = words(140, &if first { [(DATE, &b"05"[..]), (35, b"Mar"), (DETAIL, &t), (DETAIL + 40, b"cd"), (PAID, b"12.50")] } else { [(DATE, &b"05"[..]), (35, b"Mar"), (DETAIL, &b"ab"[..]), (DETAIL + 40, &t), (PAID, b"12.50")] });
    let doc = [p];
    let r = import(&[tsv(&rows(1, &doc[0]))], "fixed:n");
    let want = expect(&doc, b"n");
    if first {
        if let Some(label) = odd(&want.as_ref().unwrap()[0].head) {
            if !odds { return; }
            cover("a known oddity");
            check("accepted", r == 0);
            let got = parse(&read("out").unwrap());
            check(label, got.is_some() && eq(&got.unwrap()[0].head, &want.unwrap()[0].head) && run(&["fmt", "out"]) == 0);
            return;
        }
    }
    outcome(r, &want);
    read_again(&want.unwrap());
}
/// Characters outside ASCII, and blanks around words.
pub fn h_pdf_utf8() {
    warm();
    let t: [&[u8]; 7] = ["é".as_bytes(), "£5".as_bytes(), "‘q’".as_bytes(), "日本".as_bytes(), b"\xff", b"a\xc3", "\u{1F600}".as_bytes()];
    let t = t[choose("text", 7) as usize];
    let bad = t[0] == 0xff || t[t.len() - 1] == 0xc3;
    let mut p = simple();
    let padded = flag("padded");
    p[1][2] = words(140, &[(DATE, b"05"), (35, b"Mar"), (DETAIL, t), (DETAIL + 40, b"cd"), (PAID, b"12.50")]);
    let want = if bad { None } else { expect(&[p.clone()], b"n") };
    if padded { p[1][2].words[2].text = cat(&[b" ", t, b" "]); }
    let r = import(&[tsv(&rows(1, &p))], "fixed:n");
    outcome(r, &want);
}
/// A row of the table of words with any level, or any of its numbers changed, or left out, or twice.
pub fn h_pdf_structure() {
    warm();
    let p: Page = vec![vec![account_line()], vec![header(), year(120, b"2020"), words(140, &[(DATE, b"05"), (35, b"Mar"), (DETAIL, b"ab"), (PAID, b"12.50")]), words(160, &[(DETAIL, b"cd")])]];
    let mut v = rows(1, &p);
    let at = v.len() - 10 + choose("row", 10) as usize;
    match choose("change", 9) {
        0 => v[at].level = Num::any("level", 1),
        k @ 1..=5 => v[at].at[k as usize - 1] = Num::any("number", 1),
        6 => { v.remove(at); }
        7 => { let r = v[at].clone(); v.insert(at, r); }
        _ => { if at + 1 == v.len() { return; } v.swap(at, at + 1); }
    }
    let want = document(&v).and_then(|d| expect(&d, b"n"));
    let r = import(&[tsv(&v)], "fixed:n");
    outcome(r, &want);
}
/// Fields that are not numbers, too few or too many fields.
pub fn h_pdf_fields() {
    warm();
    let v = tsv(&rows(1, &simple()));
    let lines: Vec<&[u8]> = v.split(|c| *c == b'\n').filter(|l| !l.is_empty()).collect();
    let at = lines.len() - 1;
    let mut fields: Vec<B> = lines[at].split(|c| *c == b'\t').map(|f| f.to_vec()).collect();
    let mut bad = true;
    match choose("what", 6) {
        0 => { let k = choose("field", 11) as usize; fields[k] = bytes("value", 2, PRINT.or(BYTE.minus(b"\t\n\r\" 0123456789+-"))); assume(!eq(&fields[k][..1], b" ")); for c in &fields[k] { assume(!c.is_ascii_digit() & (*c != b'+') & (*c != b'-') & (*c != b' ')); } }
        1 => { fields.pop(); }
        2 => fields.push(b("x")),
        3 => { let k = choose("field", 11) as usize; fields[k] = b("99999999999"); }
        4 => { let k = choose("field", 11) as usize; fields[k] = b(""); }
        _ => bad = false,
    }
    let mut out = Vec::new();
    for l in &lines[..at] { out.extend_from_slice(l); out.push(b'\n'); }
    for (k, f) in fields.iter().enumerate() { if k > 0 { out.push(b'\t'); } out.extend_from_slice(f); }
    out.push(b'\n');
    let want = if bad { None } else { expect(&[simple()], b"n") };
    outcome(import(&[out], "fixed:n"), &want);
}
/// Pages one after the other, and several tables on a page.
pub fn h_pdf_pages() {
    warm();
    let n = 1 + choose("pages", 3) as usize;
    let mut doc: Vec<Page> = Vec::new();
    for k in 0..n {
        let kind = choose("page", 5);
        let t = vec![b'a' + k as u8];
        let table = |day: &[u8], t: &[u8]| vec![header(), year(120, b"2020"), words(140, &[(DATE, day), (35, b"Mar"), (DETAIL, t), (RECEIVED, b"2.00")]), words(160, &[(DETAIL, t), (PAID, b"2.00")])];
        let mut p: Page = if k == 0 { vec![vec![account_line()]] } else { vec![] };
        match kind {
            0 => p.push(table(b"05", &t)),
            1 => { p.push(table(b"05", &t)); p.push(table(b"06", &t)); }
            2 => p.push(vec![words(100, &[(DATE, b"No"), (DETAIL, b"table")])]),
            3 => p.push(vec![header(), words(120, &[(DETAIL, &t)]), words(140, &[(DETAIL, b"on"), (BALANCE, b"8.00")])]),
            _ => {}
        }
        doc.push(p);
    }
    all(&doc);
}
/// More than nine pages stay in order.
pub fn h_pdf_many() {
    warm();
    let n = 2 + choose("pages", 11) as usize;
    let mut doc: Vec<Page> = vec![simple()];
    for k in 1..n { doc.push(vec![vec![header(), year(120, b"2020"), words(140, &[(DATE, b"06"), (35, b"Mar"), (DETAIL, format!("p{k}").as_bytes()), (PAID, b"1.00")])]]); }
    all(&doc);
}
/// More pages than have numbers of two digits stay in order.
pub fn h_pdf_hundreds() {
    warm();
    let n = [99usize, 100, 101, 102, 109, 111, 120][choose("pages", 7) as usize];
    let mut doc: Vec<Page> = vec![simple()];
    for k in 1..n {
        let t = format!("p{k}");
        let l = words(140, &[(DATE, b"06"), (35, b"Mar"), (DETAIL, t.as_bytes()), (PAID, b"1.00")]);
        doc.push(if k < 9 || k % 10 < 2 || k > n - 3 { vec![vec![header(), year(120, b"2020"), l]] } else { vec![] });
    }
    all(&doc);
}
/// The columns are where the words of the header are.
pub fn h_pdf_header() {
    warm();
    let mut p = simple();
    match choose("what", 5) {
        // one character of the header changed
        0 => {
            let k = choose("word", 5) as usize;
            let n = p[1][0].words[k].text.len();
            let at = choose("at", 8) as usize;
            if at >= n { return; }
            p[1][0].words[k].text[at] = byte("character", PRINT.minus(b" "));
        }
        // elsewhere
        1 => { p[1][0].words[1].left = Num::any("details", 3); }
        2 => { p[1][0].words[3].left = Num::any("receipts", 3); }
        3 => { p[1][0].words[4].left = Num::any("balance", 3); p[1][0].words[4].width = Num::any("width", 2); }
        // another word after it, or before it
        _ => { let x = w(560, b"x"); if flag("before") { p[1][0].words.insert(0, x); } else { p[1][0].words.push(x); } }
    }
    all(&[p]);
}
/// The account the statement is of.
pub fn h_pdf_account() {
    warm();
    let mut p = simple();
    let mut good = true;
    let mut name = b("12-34-56 12345678");
    match choose("what", 6) {
        0 => { let at = choose("at", 8) as usize; let c = byte("character", PRINT.minus(b" ")); p[0][0].words[2].text[at] = c; name[at] = c; good = split(if at == 2 || at == 5 { c == b'-' } else { c.is_ascii_digit() }); }
        1 => { let at = choose("at", 8) as usize; let c = byte("character", PRINT.minus(b" ")); p[0][0].words[3].text[at] = c; name[9 + at] = c; good = split(c.is_ascii_digit()); }
        2 => { let k = choose("word", 2) as usize; let at = choose("at", 6) as usize; let c = byte("character", PRINT.minus(b" ")); good = split(c == p[0][0].words[k].text[at]); p[0][0].words[k].text[at] = c; }
        3 => { let k = choose("word", 4) as usize; p[0][0].words.remove(k); good = false; }
        4 => { let k = 2 + choose("word", 2) as usize; p[0][0].words[k].text.push(b'1'); good = false; }
        // the first such line counts, wherever it is
        _ => { let mut l = account_line(); l.words[2].text[0] = b'9'; if flag("before") { p.insert(0, vec![words(0, &[(0, b"Account")]), l]); name[0] = b'9'; } else { p[0].push(l); } }
    }
    write("table", &cat(&[b"{\"", if good { &name } else { b"x" }, b"\": \"n\"}"]));
    let r = import(&[tsv(&rows(1, &p))], "lookup:table");
    outcome(r, &if good { expect(&[p], b"n") } else { None });
}
/// The namespace made of the account.
pub fn h_pdf_namespace() {
    warm();
    let mut p = simple();
    let d = byte("digit", DIGIT);
    p[0][0].words[3].text[7] = d;
    let mut name = b("12-34-56 12345678");
    name[16] = d;
    let r = import(&[tsv(&rows(1, &p))], "generated");
    let mut m = M::new();
    m.str(b"Nationwide");
    m.str(&name);
    let ns = base64(&sha1(&m.0))[..8].to_vec();
    outcome(r, &expect(&[p], &ns));
}
/// Programs that fail or are not there.
pub fn h_pdf_programs() {
    warm();
    let (g, t) = (choose("gm", 4), choose("tesseract", 4));
    let pages = [tsv(&rows(1, &simple()))];
    write("in.pdf", b"%PDF");
    if flag("pages") { write("in.pdf.0", &pages[0]); } else if g == 0 { return; }
    match g { 0 => gm("gm", 1, 0), 1 => gm("gm", 1, 1), 2 => gm("gm", 0, 77), _ => {} }
    match t { 0 => tesseract("tess", 0), 1 => tesseract("tess", 1), 2 => tesseract("tess", 255), _ => {} }
    write("out", b"before");
    let r = run(&["import", "-o", "out", "nationwide-pdf", "in.pdf", "./gm", "./tess", "--fp-namespace", "fixed:n"]);
    outcome(r, &if g == 0 && t == 0 { expect(&[simple()], b"n") } else { None });
}
/// Numbers and texts at the limits.
pub fn h_panic_pdf() {
    warm();
    let v = tsv(&rows(1, &simple()));
    let mut lines: Vec<Vec<B>> = v.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(|l| l.split(|c| *c == b'\t').map(|f| f.to_vec()).collect()).collect();
    let n = lines.len();
    // the lines with words of the transaction, of the year and of the header
    let at = n - 1 - choose("row", 14) as usize;
    if flag("number") {
        let values: [&[u8]; 8] = [b"2147483647", b"-2147483648", b"2147483648", b"0", b"-1", b"00", b"+3", b"0x7fffffff"];
        lines[at][choose("field", 11) as usize] = values[choose("value", 8) as usize].to_vec();
        if flag("another") { lines[at][6 + choose("other field", 4) as usize] = values[choose("other value", 2) as usize].to_vec(); }
    } else {
        let values: [&[u8]; 14] = [b"79228162514264337593543950335", b"79228162514264337593543950336", b"99999999999999999999999999999999", b"0.0000000000000000000000000001", b"-0", b"262143", b"-262144", b"999999999999999999999", b"+2020", b"31", b"1_0", b",", b"\xc3\xa9", b"1e5"];
        lines[at][11] = values[choose("text", 14) as usize].to_vec();
    }
    let mut out = Vec::new();
    for l in &lines { for (k, f) in l.iter().enumerate() { if k > 0 { out.push(b'\t'); } out.extend_from_slice(f); } out.push(b'\n'); }
    let r = import(&[out], "fixed:n");
    check("it ends with success or an error", r == 0 || r == 1);
    if r == 0 { cover("accepted"); check("the output is a journal", parse(&read("out").unwrap()).is_some()); } else { cover("refused"); check("a refused statement leaves the output as it was", eq(&read("out").unwrap(), b"before")); }
}
